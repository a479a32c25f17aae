#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for titles, statements and anchors)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
EV, BC, GA, BR, UT = "src/evaluator.rs", "src/bool_circuit.rs", "src/gates.rs", "src/bristol_converter.rs", "src/utils.rs"
LO, IN, FP = "src/circuits/logic/mod.rs", "src/circuits/arithmetic/int.rs", "src/circuits/finite_field/mod.rs"
AR, CR = "src/circuits/arithmetic/mod.rs", "src/circuits/cryptography/mod.rs"

p("C01", "Evaluating a circuit yields its Boolean function",
  "For every circuit built through the public operations and every input assignment, evaluation succeeds and returns, for each declared output in order, exactly the bit that the gates' NOT/XOR/AND/OR/constant semantics give. This holds whatever the sharing: gates read several times or twice by the same gate, gates that are both an output and an operand, repeated outputs, outputs that are inputs or constants, and gates nothing reads. Evaluating changes nothing: every later evaluation of the same circuit gives the value its own inputs determine.",
  ["programs", "inputs", "histories"], "all circuits (any DAG, any choice and order of outputs), all input assignments, any sequence of evaluations",
  "The tests evaluate one-gate circuits with a single output; the evaluator frees intermediate bits by reference counting, whose correctness depends on the shape of the DAG and on the order of the outputs, which no test varies.",
  [EV, BC], [("eval_output / eval_single_gate with evaled_map and num_depend_map", EV), ("get_depended_gates as the reference count", BC)],
  [("evaled_map", "bits computed and still needed", EV), ("num_depend_map", "readers left per evaluated gate", EV)],
  ["BoolEvaluator::eval_output"])
p("C02", "A module call behaves as an inlined private copy of the module",
  "Calling a registered module with operands yields gates whose values are the module's outputs, in order, on the operands' values, for any nesting depth, any number of calls, repeated or shared operands, modules that forward inputs, return constants or repeat an output, and modules registered from a circuit with its own module registry. Calls never influence each other, and registering or calling further modules never changes what an earlier module identifier denotes. A registered module is the circuit that was registered, and every registration gets a new identifier.",
  ["programs", "inputs", "histories"], "all module hierarchies, all call patterns, all inputs",
  "One test calls one single-output module once; nesting, several outputs, repeated operands and separate registries are never evaluated against an independent expectation.",
  [BC, EV, GA], [("module / register_module / sub_circuit / ModuleStorage", BC), ("Module arm of eval_single_gate", EV)],
  [("module_map, num_module", "the registry", BC)], ["BoolCircuitRef::module", "BoolEvaluator::eval_output", "get_module"])
p("C03", "Builder operations are faithful and append-only",
  "Every builder operation returns a gate identifier not used before in that circuit, and reading that gate back shows the requested kind, operands (in order) and their number, constant value or module call. Inputs and outputs are numbered 0,1,2,... in creation order and each number maps to the gate it was created for; equivalence computes XNOR and identity copies its operand. No later operation changes or removes anything created earlier.",
  ["histories", "programs"], "all finite sequences of builder operations on all circuits",
  "Tests look only at input and output counts after straight-line construction; nothing reads gates back or checks that earlier gates survive later operations.",
  [BC, GA], [("add_gate and gate_index", BC), ("input_map / output_map / gate_map", BC)],
  [("gate_map", "gate by identifier", BC), ("gate_index", "next identifier", BC)],
  ["get_gate", "input_to_gate_id", "output_to_gate_id", "get_const_gates", "returned identifiers"])
p("C04", "Reported sizes equal the sizes of the inlined circuit",
  "At every moment the reported numbers of inputs, outputs, constants, logic gates and wires equal those of the circuit with every module call replaced by a copy of the module: constants and gates count once per copy, and wires are inputs plus constants plus gates. This includes modules that forward inputs or repeat outputs, and nested modules.",
  ["histories", "programs"], "all sequences of builder operations, including nested module calls",
  "Tests check the input and output counts of a handful of circuits and never the gate, wire or constant counts, which are incremental counters.",
  [BC], [("incremental num_wire / num_gate / num_const and the adjustment in module()", BC)],
  [("num_wire, num_gate, num_const", "counters", BC)], ["input_len", "output_len", "num_wire", "num_gate", "num_const"])
p("C05", "The listed dependents of a gate are exactly its readers",
  "For every gate, the list of depending gates contains each gate that reads it, once per operand position that names it (a module call counts once per operand position for each of its result gates), and nothing else. A gate nobody reads has an empty list.",
  ["histories", "programs"], "all sequences of builder operations",
  "No test reads the dependents; the evaluator uses them as reference counts, so a missing or surplus entry only shows for particular sharing patterns.",
  [BC], [("add_dependence", BC)], [("gate_dependence_map", "readers of each gate", BC)], ["get_depended_gates"])
p("C06", "Misuse of a circuit is reported as an error and changes nothing",
  "Declaring an unknown gate as output, calling an unknown module, the circuit itself or a module with a wrong number of operands, asking for an unknown gate, input, output or module, and evaluating with a wrong number of inputs each return an error, not a value or a panic, and leave the circuit as it was. A gate that refers to a gate which does not exist makes evaluating or writing an output that needs it return an error.",
  ["inputs", "histories", "fault_sequences"], "all invalid arguments at any point of any history",
  "Tests exercise no failing call at all.",
  [BC, EV, BR], [("BoolCircuitError, EvaluatorError and BristolError returns", BC)], [], ["Result of every public operation"])
p("C07", "Reading a Bristol file yields the function the file describes",
  "Reading any well-formed Bristol file appends to the given circuit one input per declared input bit and one output per declared output bit, in order, such that evaluation gives for every input assignment the values the gate lines describe (INV, XOR, AND, OR, EQW as copy, EQ as constant bit), the outputs being the last wires. Wire numbering, grouping of inputs and outputs, spacing, trailing blank lines, and what the circuit or the reader was used for before make no difference.",
  ["inputs", "programs"], "all well-formed Bristol files, all input assignments",
  "Tests read four one-gate files written by the library itself and the bundled files with near-constant inputs.",
  [BR], [("BristolReader::read", BR)], [("gate_of_wire", "gate that drives each wire", BR)], ["BristolReader::read", "BoolEvaluator::eval_output"])
p("C08", "Malformed Bristol files are rejected with an error",
  "Reading a file with missing or non-numeric header fields, a truncated gate line, an operand wire that no earlier line or input defines, an unknown gate type, a gate with the wrong number of operands or results, an output wire nothing defines, more input or output bits than wires, or bytes that are no text or cannot be read returns an error. It never panics, never reports success, and leaves what the circuit had before as it was.",
  ["inputs", "fault_sequences"], "all single corruptions of these kinds of all well-formed files, read into any circuit",
  "Tests read no malformed file.",
  [BR], [("ok_or error returns in BristolReader::read", BR)], [], ["BristolReader::read"])
p("C09", "Written Bristol files are well-formed and describe their constants",
  "For every circuit, the written file's header states exactly the number of gate lines and wires present, the requested split of the inputs and the number of outputs; every wire is defined once and before it is read; and the outputs are the last wires. The inputs are the circuit's inputs followed by one input per constant, whose values are returned in that order, and a wire map asked for assigns each listed gate a wire carrying that gate's value. Success means that all of it was written: bytes that the sink refuses make writing or flushing an error.",
  ["programs", "inputs"], "all circuits including nested modules, constants, unused gates, shared and repeated outputs; all splits of the inputs",
  "Tests write five tiny circuits without constants or unused gates and only compare the circuit read back, or only that reading succeeds.",
  [BR], [("write / write_all_gates / write_single_gate / update_wire", BR)], [("num_wire, last_const_wire, wire_of_gate", "wire allocation", BR)], ["bytes written", "returned constants", "wire_of_gate map"])
p("C10", "Writing a circuit and reading it back preserves its function",
  "For every circuit, reading the written file into an empty circuit succeeds and gives a circuit with the same outputs for every input assignment, when the constants' values returned by the writer are appended to the inputs. Writing does not change the circuit.",
  ["programs", "inputs"], "all circuits (modules, constants, sharing, unused gates), all input assignments",
  "Round trips are tested for four one-gate circuits by structural equality, and for one module only that reading returns Ok.",
  [BR], [("BristolNXAOWriter and BristolReader together", BR)], [], ["write then read then eval_output"])
p("C11", "Bit-vector operations act bitwise at every width",
  "For every width and all operand values, the bit-vector NOT, AND, OR and XOR (also the in-place forms) give the bitwise results, equality and inequality give whether all bits agree, and the multiplexer gives the second operand where the select bit is 1 and the first where it is 0. Vectors made from fewer gates are padded with zero bits at the top.",
  ["inputs", "configurations"], "all widths, all operand values",
  "Tests cover NOT/AND/OR/XOR at width 256 on one random vector; eq, neq, mux, padding and the in-place forms are untested.",
  [LO], [("build_*_circuit and AllocBits operators", LO)], [], ["evaluated outputs"])
p("C12", "Integer arithmetic is exact modulo 2^N at every width",
  "For every width N and all operand values, integer addition, subtraction, negation and multiplication (also the in-place forms) give the result modulo 2^N in two's complement, and the extended multiplication gives the full 2N-bit unsigned product. Bits are little endian.",
  ["inputs", "configurations"], "all widths N, all operand values",
  "The tests check algebraic identities at N=256 on one random input; wrong but linear operations satisfy them, and carries at particular positions are reached with low probability.",
  [IN], [("build_add/sub/mul/mul_extend_circuit and AllocInt operators", IN)], [], ["evaluated outputs"])
p("C13", "Integer comparisons order all signed N-bit values",
  "For every width N and all operand pairs, less, less-or-equal, larger, larger-or-equal, equal and not-equal agree with the order of the operands as signed two's complement integers, including pairs whose difference does not fit in N bits.",
  ["inputs", "configurations"], "all widths N, all operand pairs",
  "Tests compare a random x with x+1 or x-1 at N=256; sign boundaries, equality and distant values are never compared.",
  [IN, LO], [("build_less/less_or_eq/larger/larger_or_eq/eq/neq_circuit", IN)], [], ["evaluated outputs"])
p("C14", "Integer constants, padding and shifts have their exact value",
  "For every width N, allocating a constant gives every value below 2^N exactly, zero and one are 0 and 1, and an integer made from fewer gates is zero-extended. Shifting left by any amount gives x*2^k modulo 2^N and shifting right gives the sign-extending shift, in N bits, also for k >= N.",
  ["inputs", "configurations"], "all widths N, all values, all shift amounts",
  "Only the constant one is used by a test; no other constant, padding or shift is tested.",
  [IN], [("from_biguint, from_gate_ids, zero, one, shift_left, shift_right", IN)], [], ["evaluated outputs"])
p("C15", "Field addition, subtraction and negation are exact and canonical",
  "For every odd modulus p that leaves room for the sign in N bits (2p <= 2^(N-1)) and all operands below p, field addition, subtraction and negation (also the in-place forms) give the residue of the result in the range 0..p-1, so that equal field elements compare equal and different ones compare different. Constants below p, zero and one keep their values.",
  ["inputs", "configurations"], "all moduli p and widths N with room, all canonical operands",
  "The one test checks two identities for p=11 whose two sides are always zero; no sum, difference or negation is compared with its value.",
  [FP, IN], [("build_add_circuit / build_sub_circuit of AllocFpConfig", FP)], [], ["evaluated outputs"])
p("C16", "Field multiplication gives the product modulo p",
  "For every odd modulus p < R = 2^r and width N >= 2r+2, the product of two field elements (also in place) is the residue of their product in 0..p-1. The Montgomery reduction it is built from maps every value v < R*p to the residue of v/R modulo p.",
  ["inputs", "configurations"], "all odd moduli p, radices R and widths N with room, all canonical operands",
  "The one test multiplies modulo 11 and compares two products with each other, both of which are always 0.",
  [FP, UT], [("build_mont_red / build_mul_circuit, r2, p_minus_inv, mod_inv", FP)], [], ["evaluated outputs"])
p("C17", "The bundled 64-bit circuits compute 64-bit arithmetic",
  "For all 64-bit operands, little endian, the bundled circuits compute addition, subtraction and negation modulo 2^64, the full 128-bit unsigned product (high word first, then low word), and for every non-zero divisor the quotient of unsigned division and of signed division truncated toward zero (modulo 2^64).",
  ["inputs"], "all pairs of 64-bit operands (non-zero divisors)",
  "Tests use operands of all equal bits and check only commutativity or involution; both dividers and the subtractor are never evaluated.",
  [AR, BR, "src/circuits/arithmetic/adder64.txt", "src/circuits/arithmetic/sub64.txt", "src/circuits/arithmetic/neg64.txt", "src/circuits/arithmetic/mult2_64.txt", "src/circuits/arithmetic/divide64.txt", "src/circuits/arithmetic/udivide64.txt"],
  [("build_adder64 ... build_divide_unsigned_64", AR)], [], ["evaluated outputs"])
p("C18", "The bundled AES circuit computes AES-128 encryption",
  "For every 128-bit plaintext block and every 128-bit key, the AES circuit fed with the block followed by the key, each byte most significant bit first, outputs the AES-128 (FIPS 197) ciphertext in the same bit order.",
  ["inputs"], "all blocks and keys",
  "The test evaluates all-equal bits and checks only that no error occurs.",
  [CR, BR, "src/circuits/cryptography/AES-non-expanded.txt"], [("build_aes128", CR)], [], ["evaluated outputs"])
p("C19", "Bit, byte and hexadecimal conversions are exact and inverse",
  "Converting bytes to bits yields 8 bits per byte, least significant first (little endian) or most significant first (big endian), in byte order, and converting back whole bytes inverts it exactly. Hexadecimal encoding gives two lower-case digits per byte, decoding accepts either case and inverts it, and strings of odd length or with other characters are errors.",
  ["inputs"], "all byte strings, all bit strings of whole bytes, all character strings",
  "Tests round-trip one random 4-byte value, which a consistently wrong pair of conversions also passes.",
  [UT], [("bits2bytes_*, bytes2bits_*, bytes2hex, hex2bytes", UT)], [], ["return values"])
p("C20", "The extended gcd satisfies Bezout's identity for all integers",
  "For all integers a and b of any size and sign, the extended gcd returns x, y, d with a*x + b*y = d, where d divides both a and b and is, up to sign, their greatest common divisor; it terminates also when one or both are zero.",
  ["inputs"], "all pairs of integers",
  "One pair, (111, 30), is tested.",
  [UT], [("ext_gcd", UT)], [], ["return value"])
p("C21", "Programs over shared circuits evaluate as their operations say",
  "Any program of integer, bit-vector and field operations on values in one circuit, in any order, with operands reused any number of times and several configurations of different widths and moduli side by side, evaluates so that every intermediate and final value is the value its operation gives on its operands' values. In-place operations change only their target, and operators leave their operands usable with unchanged values.",
  ["programs", "inputs", "histories"], "all operation sequences, all operand choices, all inputs",
  "Tests build one fixed expression per test; interaction of operations, reuse of operands and several configurations in one circuit are not exercised.",
  [IN, LO, FP, BC, EV], [("operator implementations share the circuit through cloned references", IN)], [], ["evaluated outputs"])
p("C22", "Handles alias one circuit, copies are independent, equality is structural",
  "All clones of a circuit handle observe and modify the same circuit, and a sub-circuit's handle is the registered module itself. A copy of a circuit value is independent: no operation on either changes the other, except that both share one module registry, whose number of modules counts the registrations. Dropping a handle changes nothing: a registry keeps the modules registered in it and gives them back unchanged, whoever else still holds them. Two flat circuits compare equal exactly if their inputs, outputs and gates (kinds, operands, constants) are the same, so equal circuits have the same function.",
  ["histories", "programs"], "all interleavings of operations on handles, copies and sub-circuits",
  "Tests compare circuits only for expected equality, never for inequality, and do not interleave handles or copies.",
  [BC], [("BoolCircuitRef (Rc<RefCell>), derived Clone, PartialEq for NXAOBoolCircuit", BC)], [], ["==", "operations through different handles"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
