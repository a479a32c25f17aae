//! Evaluates a circuit on up to 64 assignments at once, reading its gates through the public
//! interface.  The library's own evaluator stays the judge of some of the assignments of every
//! circuit (see `rows`); this one only makes the others cheap.

use crate::world::Cref;
use circuit_converters::{BoolCircuit, GateId, NXAOBoolGate, WireId};
use std::collections::HashMap;
use std::rc::Rc;

enum Op {
    Const(bool),
    Not(usize),
    And(usize, usize),
    Xor(usize, usize),
    Or(usize, usize),
    /// the results are the next values
    Call(Rc<Code>, Vec<usize>),
}

/// Straight-line code: the inputs are the first values.
pub struct Code {
    nin: usize,
    ops: Vec<Op>,
    outs: Vec<usize>,
    /// gates evaluated, those of modules included
    pub cost: usize,
}

type Cache = HashMap<usize, Option<Rc<Code>>>;

fn compile(c: &Cref, cache: &mut Cache) -> Option<Rc<Code>> {
    let key = { &*c.borrow() as *const _ as usize };
    if let Some(x) = cache.get(&key) {
        return x.clone(); // a circuit inside itself has no code
    }
    cache.insert(key, None);
    let code = compile_new(c, cache).map(Rc::new);
    cache.insert(key, code.clone());
    code
}

fn compile_new(c: &Cref, cache: &mut Cache) -> Option<Code> {
    let circ = c.borrow();
    let nin = circ.input_len();
    let mut at: HashMap<GateId, usize> = HashMap::new();
    let mut found = 0;
    let mut w = 0u64;
    while found < nin {
        if let Some(g) = circ.input_to_gate_id(&WireId(w)).ok()? {
            at.insert(g, found);
            found += 1;
        }
        w += 1;
    }
    let mut next = nin;
    let mut cost = 0;
    let mut ops = Vec::new();
    let mut outs = Vec::new();
    let mut open: HashMap<GateId, ()> = HashMap::new();
    for i in 0..circ.output_len() {
        let root = circ.output_to_gate_id(&WireId(i as u64)).ok()?;
        let mut stack = vec![root];
        while let Some(g) = stack.last().cloned() {
            if at.contains_key(&g) {
                stack.pop();
                continue;
            }
            let gate = circ.get_gate(&g).ok()?;
            let args: Vec<GateId> = match &gate {
                NXAOBoolGate::Input(_) => return None, // not one of the circuit's inputs
                NXAOBoolGate::Const(_) => vec![],
                NXAOBoolGate::Not(x) => vec![x.id],
                NXAOBoolGate::And(x) => vec![x.left_id, x.right_id],
                NXAOBoolGate::Xor(x) => vec![x.left_id, x.right_id],
                NXAOBoolGate::Or(x) => vec![x.left_id, x.right_id],
                NXAOBoolGate::Module(x) => x.input_ids.clone(),
            };
            let missing: Vec<GateId> = args.iter().filter(|a| !at.contains_key(a)).cloned().collect();
            if !missing.is_empty() {
                if open.insert(g, ()).is_some() && missing.iter().any(|m| open.contains_key(m)) {
                    return None; // a cycle
                }
                stack.extend(missing);
                continue;
            }
            let v: Vec<usize> = args.iter().map(|a| at[a]).collect();
            match &gate {
                NXAOBoolGate::Input(_) => return None,
                NXAOBoolGate::Const(x) => ops.push(Op::Const(x.value)),
                NXAOBoolGate::Not(_) => ops.push(Op::Not(v[0])),
                NXAOBoolGate::And(_) => ops.push(Op::And(v[0], v[1])),
                NXAOBoolGate::Xor(_) => ops.push(Op::Xor(v[0], v[1])),
                NXAOBoolGate::Or(_) => ops.push(Op::Or(v[0], v[1])),
                NXAOBoolGate::Module(x) => {
                    let sub = circ.get_module(&x.module_id).ok()?;
                    let code = compile(&sub, cache)?;
                    if code.nin != v.len() {
                        return None;
                    }
                    let first = g.0.checked_sub(x.out_index as u64)?;
                    let n = code.outs.len();
                    if x.out_index as usize >= n {
                        return None;
                    }
                    for j in 0..n {
                        // the results of one call are neighbours; where they are not, the library evaluates
                        match circ.get_gate(&GateId(first + j as u64)).ok()? {
                            NXAOBoolGate::Module(y)
                                if y.out_index as usize == j
                                    && y.module_id == x.module_id
                                    && y.input_ids == x.input_ids => {}
                            _ => return None,
                        }
                        at.insert(GateId(first + j as u64), next + j);
                    }
                    next += n;
                    cost += code.cost;
                    ops.push(Op::Call(code, v));
                    continue;
                }
            }
            at.insert(g, next);
            next += 1;
            cost += 1;
        }
        outs.push(at[&root]);
    }
    Some(Code { nin, ops, outs, cost: cost + 1 })
}

impl Code {
    fn eval(&self, ins: &[u64]) -> Vec<u64> {
        let mut v: Vec<u64> = Vec::with_capacity(self.nin + self.ops.len());
        v.extend(ins);
        for op in &self.ops {
            match op {
                Op::Const(b) => v.push(if *b { !0 } else { 0 }),
                Op::Not(a) => v.push(!v[*a]),
                Op::And(a, b) => v.push(v[*a] & v[*b]),
                Op::Xor(a, b) => v.push(v[*a] ^ v[*b]),
                Op::Or(a, b) => v.push(v[*a] | v[*b]),
                Op::Call(code, a) => {
                    let x: Vec<u64> = a.iter().map(|i| v[*i]).collect();
                    v.extend(code.eval(&x));
                }
            }
        }
        self.outs.iter().map(|i| v[*i]).collect()
    }
}

/// The outputs on each assignment.  `real` evaluates one assignment with the library; it is asked
/// for as many as are cheap, and for at least one.
pub fn rows<E>(
    c: &Cref,
    ins: &[Vec<bool>],
    mut real: impl FnMut(&[bool]) -> Result<Vec<bool>, E>,
) -> Result<Vec<Vec<bool>>, E> {
    let n = ins.len();
    let code = match compile(c, &mut HashMap::new()) {
        Some(code) if ins.iter().all(|x| x.len() == code.nin) => code,
        _ => return ins.iter().map(|x| real(x)).collect(),
    };
    let cheap = (60_000 / code.cost).max(1).min(n);
    let mut rows = Vec::with_capacity(n);
    for part in ins.chunks(64) {
        let words: Vec<u64> =
            (0..code.nin).map(|i| part.iter().enumerate().fold(0, |s, (t, x)| s | (x[i] as u64) << t)).collect();
        let out = code.eval(&words);
        for t in 0..part.len() {
            rows.push(out.iter().map(|w| (w >> t) & 1 == 1).collect());
        }
    }
    let from = code.cost % n.max(1);
    for j in 0..cheap {
        let t = (from + j) % n;
        let row = real(&ins[t])?;
        if row != rows[t] {
            // the library decides
            return ins.iter().map(|x| real(x)).collect();
        }
    }
    Ok(rows)
}
