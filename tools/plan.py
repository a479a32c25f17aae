"""What each check runs.  A stage is (kind, arguments):
  mc   TLC on the specification alone (the property checked on the model)
  mbt  TLC enumerates behaviours of the specification; the harness replays them on the library
  gen  the harness records runs of the library; TLC validates them against the trace specification
"""


def mc(module, cfg, **kw):
    return ("mc", dict(module=module, cfg=cfg, **kw))


def mbt(module, cfg, **kw):
    return ("mbt", dict(module=module, cfg=cfg, **kw))


def gen(spec="TraceCircuits", **kw):
    return ("gen", dict(spec=spec, **kw))


def rec(module, cfg, **kw):
    return ("rec", dict(module=module, cfg=cfg, **kw))


def simulate(num, seed):
    """Random behaviours of Handles, longer than those that can all be enumerated."""
    return mbt("Handles", "Handles_sim", workers=1, extra=("-simulate", "num=%d" % num, "-seed", str(seed)))


QUICK, THOROUGH = {}, {}
QUICK["C01"] = [mc("Evaluator", "MC_evaluator"), mbt("MBT", "MBT_flat3")]
THOROUGH["C01"] = QUICK["C01"] + [mc("Evaluator", "MC_evaluator_mod"), mbt("MBT", "MBT_flat4")]
QUICK["C02"] = [mbt("MBT", "MBT_mod"), mbt("MBT", "MBT_mod2"), simulate(300, 2)]
THOROUGH["C02"] = QUICK["C02"] + [mbt("MBT", "MBT_mod3"), simulate(20000, 12)]
for p, n in (("C03", 3), ("C04", 4), ("C05", 5)):
    QUICK[p] = [mbt("MBT", "MBT_obs"), mbt("MBT", "MBT_obsmod"), simulate(300, n)]
    THOROUGH[p] = [mbt("MBT", "MBT_obs3"), mbt("MBT", "MBT_obsmod"), mbt("Handles", "Handles_3"), simulate(20000, n + 10)]
QUICK["C06"] = [mbt("Handles", "Handles_misuse", workers=1)]
THOROUGH["C06"] = [mbt("Handles", "Handles_misuse3", workers=1)]
QUICK["C07"] = [mbt("Files", "Files_clean")]
THOROUGH["C07"] = [mbt("Files", "Files_clean"), mbt("Files", "Files_clean3")]
QUICK["C08"] = [mbt("Files", "Files_lines"), mbt("Files", "Files_two"), mbt("Files", "Files_corrupt")]
THOROUGH["C08"] = QUICK["C08"]
QUICK["C09"] = [mc("Writer", "MC_writer"), rec("MBT", "MBT_write"), rec("MBT", "MBT_writemod")]
THOROUGH["C09"] = QUICK["C09"] + [mc("Writer", "MC_writer_mod"), rec("MBT", "MBT_write3", max_replay=60000)]
QUICK["C10"] = [mbt("MBT", "MBT_round"), mbt("MBT", "MBT_roundmod")]
THOROUGH["C10"] = QUICK["C10"] + [mc("Writer", "MC_writer_deep"), mbt("MBT", "MBT_round3")]
QUICK["C22"] = [mbt("Handles", "Handles_3")]
THOROUGH["C22"] = [mbt("Handles", "Handles_3"), mbt("Handles", "Handles_4"), simulate(20000, 22)]

# sizes past 2^32 and up to 2^62
QUICK["C04"].append(gen("TraceSizes", events=1500, args=("--sizes", "1"), base=16000))
THOROUGH["C04"].append(gen("TraceSizes", streams=32, events=20000, args=("--sizes", "1"), base=16000))

PLAN = {}
for p in QUICK:
    # and random runs; and with large circuits, files and hierarchies: past 2^8, 2^16 and 2^17 of
    # everything that is counted
    PLAN[p] = {"quick": QUICK[p] + [gen(events=15000), gen(events=1, args=("--big", "1"), base=8000)],
               "thorough": THOROUGH[p] + [gen(streams=32, events=60000),
                                          gen(streams=32, events=1, args=("--big", "1"), base=8000)]}

# word programs and the circuits of the library
WORDS = {"C11": 2500, "C12": 2500, "C13": 2500, "C14": 2500, "C15": 2500, "C16": 2000, "C17": 300, "C21": 4000}
for p, n in WORDS.items():
    PLAN[p] = {"quick": [gen("TraceWords", events=n)],
               "thorough": [gen("TraceWords", streams=32, events=4 * n)]}
# all short programs over small words
PROGRAMS = {"C11": (["Programs_bits"], ["Programs_bits3"]),
            "C12": (["Programs_int", "Programs_intg"], ["Programs_int3"]),
            "C13": (["Programs_cmp", "Programs_cmpg"], ["Programs_cmp3"]),
            "C14": (["Programs_shift", "Programs_shiftg"], ["Programs_shift3"]),
            "C15": (["Programs_fp"], ["Programs_fp3"]),
            "C21": (["Programs_mix"], ["Programs_one", "Programs_mix3"])}
for p, (q, t) in PROGRAMS.items():
    PLAN[p]["quick"] = [mbt("Programs", c) for c in q] + PLAN[p]["quick"]
    PLAN[p]["thorough"] = [mbt("Programs", c) for c in q] + [mbt("Programs", c, max_replay=300000) for c in t] \
        + PLAN[p]["thorough"]
PLAN["C12"]["quick"].insert(0, mc("WordsCheck", "WordsCheck"))
PLAN["C12"]["thorough"].insert(0, mc("WordsCheck", "WordsCheck_deep"))
PLAN["C18"] = {"quick": [gen("TraceAes", events=64)], "thorough": [gen("TraceAes", streams=32, events=500)]}
for p in ("C19", "C20"):
    PLAN[p] = {"quick": [gen("TraceUtils", events=2000)], "thorough": [gen("TraceUtils", streams=32, events=15000)]}

PLAN["C19"]["quick"].insert(0, mbt("Conversions", "Conversions", workers=1))
PLAN["C19"]["thorough"].insert(0, mbt("Conversions", "Conversions_deep", workers=1))
PLAN["C20"]["quick"].insert(0, mc("Gcd", "Gcd"))
PLAN["C20"]["thorough"].insert(0, mc("Gcd", "Gcd_deep"))

ASSUMPTIONS = {
    "all": ["the specification in spec/ is the meaning of the property",
            "TLC, the Rust toolchain and the harness's translation of calls to JSON are trusted",
            "evaluation may use stack proportional to the depth of the circuit (the harness gives 4 GB)"],
}

_MBT = "TLA+ specification; TLC enumerates %s with predicted replies, replayed on the library; TLC validates recorded random and large runs as behaviours of the specification"
_PRG = "TLA+ specification; TLC enumerates all short programs of %s with predicted results, replayed on the library; TLC validates recorded random programs at many widths"
TECH = {
    "all": "TLA+ specification; TLC validates recorded runs of the library as behaviours of it",
    "C01": "TLA+ model of the evaluation algorithm checked by TLC on all small circuits; all small circuits replayed on the library; recorded runs validated by TLC",
    "C02": _MBT % "all small module hierarchies",
    "C03": _MBT % "all small circuits and what every read-back shows",
    "C04": _MBT % "all small hierarchies and their sizes",
    "C05": _MBT % "all small circuits and the readers of each gate",
    "C06": _MBT % "all refused requests in all states reached by short histories",
    "C07": _MBT % "all small well-formed Bristol files",
    "C08": _MBT % "all small malformed Bristol files and all one-place corruptions of small well-formed ones",
    "C09": "TLA+ model of the writing algorithm checked by TLC on all small hierarchies; files the library writes for all small circuits, and for random and large ones, validated by TLC against the specification of the format",
    "C10": "TLA+ model of the writing algorithm checked by TLC on all small hierarchies; " + _MBT % "all small circuits to be written and read back",
    "C11": _PRG % "bit-vector operations",
    "C12": _PRG % "integer arithmetic",
    "C13": _PRG % "integer comparisons",
    "C14": _PRG % "shifts and literals",
    "C15": _PRG % "field additions, subtractions and negations",
    "C16": "TLA+ specification of Montgomery reduction and field products (each result checked by its definition); TLC validates recorded runs",
    "C17": "TLA+ specification of 64-bit arithmetic; TLC validates recorded evaluations on operands that tell single-gate mutants of the circuits apart, edge and random ones",
    "C18": "TLA+ specification of AES-128 written from FIPS 197; TLC validates recorded evaluations of random and structured blocks and keys",
    "C19": _MBT % "all short conversions, whose inverses TLC checks on the model,",
    "C20": "TLA+ model of the extended Euclidean algorithm checked by TLC on all small pairs; TLC validates recorded calls (Bezout identity, common divisor) up to 1500-bit numbers",
    "C21": _PRG % "all kinds side by side",
    "C22": _MBT % "all short histories over handles, copies, sub-circuits and registries",
}
_SMALL = "Complete for the enumerated small instances, on all assignments of their inputs; "
_REC = "the random and large recorded runs are checked call by call but sampled. Trusted: TLC, the specification, the harness's translation of calls."
NOTES = {
    "all": "Every call and reply of the recorded runs is checked against the specification by TLC; what is not "
           "explored (larger or other circuits, other seeds) is not decided. Trusted: TLC, the specification, the "
           "harness's translation of calls.",
    "C16": "Exhaustive for all values below R*p at small R, sampled and edge values above; field products themselves are under a known finding (always 0), the reduction they are made from is checked without exception.",
    "C17": "The operand space (2^128) is sampled: vectors chosen so that all but a few single-gate mutants, most of them equivalent, give a wrong result, plus edge and random ones.",
    "C18": "The space of blocks and keys is sampled; every gate of the circuit takes both values many times.",
}
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C20", "C21", "C22"):
    NOTES[_p] = _SMALL + _REC
