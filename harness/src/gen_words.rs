//! Drivers for the properties about words (C11..C17, C21).
use crate::rng::Rng;
use crate::words::*;
use circuit_converters::num_bigint::BigUint;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq)]
enum K {
    Int,
    Bits,
    Fp,
    Bit,
}

struct CfgInfo {
    k: K,
    n: usize,
    p: BigUint,
    rexp: usize,
}

struct RegInfo {
    k: K,
    c: usize,
    n: usize,
}

/// A program under construction.
struct P {
    calls: Vec<Value>,
    cfgs: Vec<CfgInfo>,
    regs: Vec<RegInfo>,
    lanes: usize,
}

impl P {
    fn new(lanes: usize, place: u64) -> P {
        P { calls: vec![json!({"op": "reset", "lanes": lanes, "place": place})], cfgs: vec![], regs: vec![], lanes }
    }
    fn cfg(&mut self, k: K, n: usize) -> usize {
        let s = if k == K::Int { "int" } else { "bits" };
        self.calls.push(json!({"op": "cfg", "k": s, "n": n}));
        self.cfgs.push(CfgInfo { k, n, p: BigUint::from(0u32), rexp: 0 });
        self.cfgs.len()
    }
    fn fp(&mut self, base: usize, p: &BigUint, rexp: usize) -> usize {
        let n = self.cfgs[base - 1].n;
        self.calls.push(json!({"op": "cfg", "k": "fp", "n": n, "base": base, "p": big_word(p, n), "rexp": rexp}));
        self.cfgs.push(CfgInfo { k: K::Fp, n, p: p.clone(), rexp });
        self.cfgs.len()
    }
    fn push(&mut self, call: Value, k: K, c: usize, n: usize) -> usize {
        self.calls.push(call);
        self.regs.push(RegInfo { k, c, n });
        self.regs.len()
    }
    fn of(&mut self, call: Value, c: usize) -> usize {
        let (k, n) = (self.cfgs[c - 1].k, self.cfgs[c - 1].n);
        self.push(call, k, c, n)
    }
    fn inp(&mut self, c: usize, v: Vec<Word>) -> usize {
        assert_eq!(v.len(), self.lanes);
        self.of(json!({"op": "inp", "c": c, "v": v}), c)
    }
    fn bit(&mut self, v: Vec<u8>) -> usize {
        self.push(json!({"op": "bit", "v": v}), K::Bit, 0, 1)
    }
    fn lit(&mut self, c: usize, w: Word) -> usize {
        self.of(json!({"op": "lit", "c": c, "w": w}), c)
    }
    fn konst(&mut self, op: &str, c: usize) -> usize {
        self.of(json!({"op": op, "c": c}), c)
    }
    fn bin(&mut self, k: &str, a: usize, b: usize) -> usize {
        let c = self.regs[a - 1].c;
        self.of(json!({"op": "bin", "k": k, "a": a, "b": b}), c)
    }
    fn assign(&mut self, k: &str, a: usize, b: usize) {
        self.calls.push(json!({"op": "assign", "k": k, "a": a, "b": b}));
    }
    fn un(&mut self, k: &str, a: usize) -> usize {
        let c = self.regs[a - 1].c;
        self.of(json!({"op": "un", "k": k, "a": a}), c)
    }
    fn cmp(&mut self, k: &str, a: usize, b: usize) -> usize {
        self.push(json!({"op": "cmp", "k": k, "a": a, "b": b}), K::Bit, 0, 1)
    }
    fn sh(&mut self, op: &str, a: usize, s: usize) -> usize {
        let c = self.regs[a - 1].c;
        self.of(json!({"op": op, "a": a, "s": s}), c)
    }
    fn mux(&mut self, a: usize, b: usize, s: usize) -> usize {
        let c = self.regs[a - 1].c;
        self.of(json!({"op": "mux", "a": a, "b": b, "s": s}), c)
    }
    fn take(&mut self, a: usize, i: usize) -> usize {
        self.push(json!({"op": "take", "a": a, "i": i}), K::Bit, 0, 1)
    }
    fn dup(&mut self, a: usize) -> usize {
        let c = self.regs[a - 1].c;
        self.of(json!({"op": "dup", "a": a}), c)
    }
    fn cast(&mut self, c: usize, a: usize, m: usize) -> usize {
        self.of(json!({"op": "cast", "c": c, "a": a, "m": m}), c)
    }
    fn gather(&mut self, c: usize, a: Vec<(usize, usize)>) -> usize {
        self.of(json!({"op": "gather", "c": c, "a": a}), c)
    }
    fn pad(&mut self, c: usize, a: Vec<usize>) -> usize {
        self.of(json!({"op": "pad", "c": c, "a": a}), c)
    }
    fn fin(&mut self) {
        self.calls.push(json!({"op": "final"}));
    }
}

pub struct WGen<'a> {
    pub rng: Rng,
    pub out: &'a mut dyn FnMut(&Value),
    pub round: u64,
    pub stream: u64,
    pub streams: u64,
    pub deep: bool,
    pub pool: Vec<usize>,
}

const INT_BIN: &[&str] = &["add", "sub", "mul"];
const BITS_BIN: &[&str] = &["and", "or", "xor"];
const CMP: &[&str] = &["eq", "neq", "less", "le", "larger", "ge"];

fn small_word(x: usize, n: usize) -> Word {
    big_word(&BigUint::from(x), n)
}

impl<'a> WGen<'a> {
    fn emit(&mut self, p: P) {
        self.emit_calls(&p.calls)
    }

    fn emit_calls(&mut self, calls: &[Value]) {
        let t0 = std::time::Instant::now();
        for e in run(calls) {
            (self.out)(&e);
        }
        if std::env::var("HPROF").is_ok() {
            let ops: Vec<String> = calls.iter().map(|c| format!("{}{}", c["op"].as_str().unwrap_or("?"), c["n"].as_u64().map(|n| format!(":{}", n)).unwrap_or_default())).collect();
            eprintln!("PROF {} ms lanes {} {}", t0.elapsed().as_millis(), calls[0]["lanes"], ops.join(" "));
        }
    }

    // ------------------------------------------------------------ words

    fn word(&mut self, n: usize) -> Word {
        let mut b = vec![false; n];
        let kind = self.rng.below(16);
        match kind {
            0 => {}
            1 => b[0] = true,
            2 => b.iter_mut().for_each(|x| *x = true),
            3 => b[n - 1] = true,
            4 => {
                b.iter_mut().for_each(|x| *x = true);
                b[n - 1] = false;
            }
            5 => {
                let i = self.rng.below(n);
                b[i] = true;
            }
            6 => {
                b.iter_mut().for_each(|x| *x = true);
                let i = self.rng.below(n);
                b[i] = false;
            }
            7 => {
                // a run of ones
                let lo = self.rng.below(n);
                let hi = self.rng.range(lo, n - 1);
                for i in lo..=hi {
                    b[i] = true;
                }
            }
            8 => {
                let ph = self.rng.below(2);
                for (i, x) in b.iter_mut().enumerate() {
                    *x = i % 2 == ph;
                }
            }
            9 => {
                // small
                for i in 0..n.min(4) {
                    b[i] = self.rng.bit();
                }
            }
            10 => {
                // small negative
                b.iter_mut().for_each(|x| *x = true);
                for i in 0..n.min(4) {
                    b[i] = self.rng.bit();
                }
            }
            11 => {
                // sparse
                for _ in 0..self.rng.range(1, 3) {
                    let i = self.rng.below(n);
                    b[i] = true;
                }
            }
            _ => b.iter_mut().for_each(|x| *x = self.rng.bit()),
        }
        bits_word(&b)
    }

    fn other(&mut self, a: &Word, n: usize) -> Word {
        let big = BigUint::from(1u32) << n;
        let x = word_big(a);
        let one = BigUint::from(1u32);
        match self.rng.below(10) {
            0 => a.clone(),
            1 | 2 => {
                let mut b = word_bits(a, n);
                let i = self.rng.below(n);
                b[i] = !b[i];
                bits_word(&b)
            }
            3 => big_word(&((x + one) % &big), n),
            4 => big_word(&((x + &big - one) % &big), n),
            5 => {
                // negated
                big_word(&((&big - x) % &big), n)
            }
            6 => {
                // complement
                bits_word(&word_bits(a, n).iter().map(|x| !x).collect::<Vec<_>>())
            }
            7 => {
                let mut b = word_bits(a, n);
                b[n - 1] = !b[n - 1];
                bits_word(&b)
            }
            _ => self.word(n),
        }
    }

    /// Operand pairs for one batch of lanes.  Small widths are enumerated.
    fn pairs(&mut self, n: usize, lanes: usize, batch: usize) -> (Vec<Word>, Vec<Word>) {
        let mut a = Vec::new();
        let mut b = Vec::new();
        let all = 1usize << (2 * n.min(12));
        for t in 0..lanes {
            let i = batch * lanes + t;
            if n <= 6 && i < all {
                a.push(small_word(i >> n, n));
                b.push(small_word(i & ((1 << n) - 1), n));
            } else {
                let x = self.word(n);
                let y = self.other(&x, n);
                if self.rng.bit() {
                    a.push(x);
                    b.push(y);
                } else {
                    a.push(y);
                    b.push(x);
                }
            }
        }
        (a, b)
    }

    fn res(&mut self, p: &BigUint) -> BigUint {
        let one = BigUint::from(1u32);
        match self.rng.below(8) {
            0 => BigUint::from(0u32),
            1 => one,
            2 => p - one,
            3 => p >> 1usize,
            4 => (p >> 1usize) + one,
            _ => self.big_below(p),
        }
    }

    fn big_below(&mut self, p: &BigUint) -> BigUint {
        let n = p.bits() as usize + 16;
        let b: Vec<bool> = (0..n).map(|_| self.rng.bit()).collect();
        word_big(&bits_word(&b)) % p
    }

    fn field_pairs(&mut self, p: &BigUint, n: usize, lanes: usize, batch: usize) -> (Vec<Word>, Vec<Word>) {
        let mut a = Vec::new();
        let mut b = Vec::new();
        let small = if p.bits() <= 6 { p.to_u32_digits()[0] as usize } else { 0 };
        for t in 0..lanes {
            let i = batch * lanes + t;
            if small > 0 && i < small * small {
                a.push(small_word(i / small, n));
                b.push(small_word(i % small, n));
                continue;
            }
            let x = self.res(p);
            let one = BigUint::from(1u32);
            let y = match self.rng.below(8) {
                0 => x.clone(),
                1 => (p - &x) % p,
                2 => (p + p - &x + &one) % p,
                3 => (p + p - &x - &one) % p,
                4 => (&x + &one) % p,
                _ => self.res(p),
            };
            a.push(big_word(&x, n));
            b.push(big_word(&y, n));
        }
        (a, b)
    }

    /// A width: the small ones often, all of them in turn.
    fn width(&mut self, max: usize) -> usize {
        let ws: Vec<usize> = WIDTHS.iter().cloned().filter(|w| *w <= max).collect();
        match self.rng.below(3) {
            0 => *self.rng.pick(&[1, 2, 3, 4, 5, 6, 7, 8]),
            1 => ws[(self.round * self.streams + self.stream) as usize % ws.len()],
            _ => *self.rng.pick(&ws),
        }
    }

    /// What the circuit may hold before: constants, inputs, modules.
    fn prelude(&mut self, p: &mut P) {
        for _ in 0..self.rng.below(4) {
            match self.rng.below(6) {
                0 | 1 | 2 => {
                    let b = self.rng.below(2);
                    p.calls.push(json!({"op": "noise", "k": "const", "n": b}));
                }
                3 => {
                    let v = (0..p.lanes).map(|_| self.rng.bit() as u8).collect();
                    p.bit(v);
                }
                _ => {
                    let k = *self.rng.pick(&["not", "and", "eq", "sub", "add"]);
                    let n = self.rng.range(1, 9);
                    p.calls.push(json!({"op": "noise", "k": k, "n": n}));
                }
            }
        }
    }

    /// A value of configuration c made from the gates of the values in `from`, in another arrangement.
    fn arrange(&mut self, p: &mut P, c: usize, from: &[usize]) -> usize {
        let n = p.cfgs[c - 1].n;
        let a = *self.rng.pick(from);
        let b = *self.rng.pick(from);
        let (na, nb) = (p.regs[a - 1].n, p.regs[b - 1].n);
        let k = self.rng.below(n);
        let kind = self.rng.below(9);
        let mut m = if self.rng.chance(1, 8) { self.rng.below(n + 1) } else { n };
        if kind < 3 {
            m = m.min(na);
        }
        let at = self.rng.below(na);
        let mut v = Vec::new();
        for i in 0..m {
            v.push(match kind {
                0 | 1 => (a, m - 1 - i),
                2 => (a, (i + k) % m),
                3 => (a, at),
                4 if i == k => (b, i % nb),
                4 => (a, i % na),
                5 if i % 2 == 0 => (b, i % nb),
                5 => (a, i % na),
                6 if i < k => (a, i % na),
                6 => (b, i % nb),
                7 if self.rng.bit() => (a, i % na),
                7 => (b, i % nb),
                _ => {
                    let r = *self.rng.pick(from);
                    (r, self.rng.below(p.regs[r - 1].n))
                }
            });
        }
        p.gather(c, v)
    }

    fn mine(&self, i: usize) -> bool {
        i as u64 % self.streams == self.stream
    }

    // ------------------------------------------------------------ scenarios

    pub fn scenario(&mut self, prop: &str) {
        match prop {
            "C11" => self.c11(),
            "C12" => self.c12(),
            "C13" => self.c13(),
            "C14" => self.c14(),
            "C15" => self.c15(),
            "C16" => self.c16(),
            "C17" => self.c17(),
            "C18" => self.c18(),
            "C21" => self.c21(),
            x => panic!("no driver for {}", x),
        }
        self.round += 1;
    }

    fn lanes_for(&mut self, n: usize) -> usize {
        if n <= 16 { 64 } else if n <= 66 { 24 } else { 8 }
    }

    fn built(&mut self, ks: &[&str], n: usize, lanes: usize, batch: usize) {
        let mut calls = vec![json!({"op": "reset", "lanes": 0})];
        for k in ks {
            let (a, b) = self.pairs(n, lanes, batch);
            let v: Vec<Value> =
                a.iter().zip(&b).map(|(x, y)| if *k == "not" { json!([x]) } else { json!([x, y]) }).collect();
            calls.push(json!({"op": "built", "k": k, "n": n, "v": v}));
        }
        self.emit_calls(&calls);
    }

    /// The first rounds sweep over all run-time widths, one part per stream; true while they last.
    fn sweep(&mut self, ks: &[&str], top: usize, extra: &[usize], heavy: &[&str]) -> bool {
        let all: Vec<usize> = (1..=top).chain(extra.iter().cloned()).collect();
        let mut i = self.round as usize;
        let mut n = None;
        for w in all.iter().enumerate().filter(|(j, _)| self.mine(*j)).map(|(_, w)| *w) {
            if i == 0 {
                n = Some(w);
                break;
            }
            i -= 1;
        }
        if let Some(n) = n {
            let lanes = if n <= 3 { 64 } else if n <= 32 { 8 } else { 4 };
            self.built(ks, n, lanes, 0);
            if !heavy.is_empty() && n <= 130 {
                self.built(heavy, n, if n <= 3 { 64 } else { 3 }, 0);
            }
            return true;
        }
        false
    }

    /// Exhaustive pairs for width n in consecutive batches, operators of one kind.
    fn c11(&mut self) {
        if self.sweep(&["and", "or", "xor", "not", "eq", "neq"], 100, &[127, 128, 129, 255, 256, 257, 300], &[]) {
            return;
        }
        let n = self.width(257);
        let lanes = self.lanes_for(n);
        let batches = if n <= 6 { ((1usize << (2 * n)) + lanes - 1) / lanes } else { 1 };
        let place = self.rng.below(4) as u64;
        let batch = self.rng.below(batches.max(1));
        let mut p = P::new(lanes, place);
        self.prelude(&mut p);
        let c = p.cfg(K::Bits, n);
        let (va, vb) = self.pairs(n, lanes, batch);
        let a = p.inp(c, va);
        let b = p.inp(c, vb);
        let s = p.bit((0..lanes).map(|_| self.rng.bit() as u8).collect());
        for k in BITS_BIN {
            p.bin(k, a, b);
        }
        p.un("not", a);
        p.un("not", b);
        p.cmp("eq", a, b);
        p.cmp("neq", a, b);
        p.cmp("eq", a, a);
        p.cmp("neq", b, b);
        let m = p.mux(a, b, s);
        p.mux(b, m, s);
        // padding
        let k = self.rng.range(0, n);
        let part = p.cast(c, a, k);
        let bits: Vec<usize> = (0..self.rng.range(0, n.min(5))).map(|_| {
            let i = self.rng.below(n);
            p.take(b, i)
        }).collect();
        let pd = p.pad(c, bits);
        p.bin("or", part, pd);
        // in place, with a copy that must not change
        let d = p.dup(a);
        let k = *self.rng.pick(BITS_BIN);
        p.assign(k, a, b);
        for k in BITS_BIN {
            let x = p.dup(d);
            p.assign(k, x, b);
            let y = p.dup(b);
            p.assign(k, y, d);
        }
        let x = p.dup(m);
        p.assign("xor", x, x);
        p.cmp("eq", d, a);
        if self.rng.chance(1, 3) {
            let s2 = p.cmp("eq", d, b);
            p.mux(d, b, s2);
        }
        // values that share gates, with each other and with constants
        let mut from = vec![d, b, m];
        if self.rng.bit() {
            let ic = p.cfg(K::Int, 2);
            from.push(p.konst("one", ic));
        }
        for _ in 0..3 {
            let g = self.arrange(&mut p, c, &from);
            from.insert(0, g);
            let h = *self.rng.pick(&from[..4]);
            let (x, y) = if self.rng.bit() { (g, h) } else { (h, g) };
            let (x, y) = if p.regs[x - 1].c == c && p.regs[y - 1].c == c { (x, y) } else { (g, g) };
            p.mux(x, y, s);
            p.cmp(if self.rng.bit() { "eq" } else { "neq" }, x, y);
            let k = *self.rng.pick(BITS_BIN);
            p.bin(k, x, y);
            if self.rng.bit() {
                let z = p.dup(x);
                p.assign(k, z, y);
            }
        }
        p.fin();
        self.emit(p);
    }

    fn c12(&mut self) {
        if self.sweep(&["add", "sub"], 130, &[160, 192, 255, 256, 257, 300], &["mul", "mul_extend"]) {
            return;
        }
        if self.rng.chance(1, 6) {
            let n = if self.rng.chance(1, 8) { *self.rng.pick(&[100, 128, 160]) } else { self.rng.range(1, 66) };
            let lanes = if n <= 5 { 64 } else { 6 };
            let b = self.rng.below(16);
            self.built(&["mul_extend"], n, lanes, b);
            return;
        }
        let n = if self.rng.chance(1, 10) { self.width(257) } else { self.width(66) };
        let lanes = self.lanes_for(n);
        let batches = if n <= 6 { ((1usize << (2 * n)) + lanes - 1) / lanes } else { 1 };
        let place = self.rng.below(4) as u64;
        let batch = self.rng.below(batches.max(1));
        let mut p = P::new(lanes, place);
        self.prelude(&mut p);
        let c = p.cfg(K::Int, n);
        let (va, vb) = self.pairs(n, lanes, batch);
        let a = p.inp(c, va);
        let b = p.inp(c, vb);
        for k in INT_BIN {
            p.bin(k, a, b);
        }
        p.un("neg", a);
        p.un("neg", b);
        if n <= 40 {
            p.bin("add", a, a);
            p.bin("sub", a, a);
            p.bin("mul", b, b);
            let d = p.dup(a);
            for k in INT_BIN {
                let x = p.dup(d);
                p.assign(k, x, b);
                let y = p.dup(b);
                p.assign(k, y, d);
            }
            let k = *self.rng.pick(INT_BIN);
            p.assign(k, a, b);
            let k = *self.rng.pick(INT_BIN);
            p.assign(k, a, a);
            let i = self.rng.below(n);
            p.take(a, i);
        } else {
            let k = *self.rng.pick(&["add", "sub"]);
            p.assign(k, a, b);
            p.take(a, 0);
        }
        // operands that share gates, and constants
        let mut from = vec![a, b];
        for _ in 0..if n <= 24 { 3 } else { 1 } {
            let w = self.word(n);
            let x = match self.rng.below(6) {
                0 => p.konst("one", c),
                1 => p.konst("zero", c),
                2 | 3 => p.lit(c, w),
                _ => self.arrange(&mut p, c, &from),
            };
            let y = *self.rng.pick(&from);
            let (x, y) = if self.rng.bit() { (x, y) } else { (y, x) };
            let k = *self.rng.pick(INT_BIN);
            if n <= 66 || k != "mul" {
                p.bin(k, x, y);
            }
            if self.rng.bit() {
                p.un("neg", x);
            }
            from.push(x);
            from.push(y);
        }
        p.fin();
        self.emit(p);
    }

    fn c13(&mut self) {
        if self.sweep(CMP, 100, &[127, 128, 129, 160, 255, 256, 257], &[]) {
            return;
        }
        let n = self.width(257);
        let lanes = self.lanes_for(n);
        let batches = if n <= 6 { ((1usize << (2 * n)) + lanes - 1) / lanes } else { 1 };
        let mut place = self.rng.below(4) as u64;
        let mut batch = self.rng.below(batches.max(1));
        if n <= 3 {
            batch = 0;
            place = 0;
        }
        if n >= 7 && self.rng.chance(1, 2) {
            // pairs that differ in one bit, for every position
            let mut calls = vec![json!({"op": "reset", "lanes": 0})];
            for k in CMP {
                let mut v = Vec::new();
                let r = self.round as usize;
                for i in (0..n).filter(move |i| n <= 32 || i % 4 == r % 4 || *i == n - 1) {
                    let a = self.word(n);
                    let mut b = word_bits(&a, n);
                    b[i] = !b[i];
                    v.push(if self.rng.bit() { json!([a, bits_word(&b)]) } else { json!([bits_word(&b), a]) });
                }
                calls.push(json!({"op": "built", "k": k, "n": n, "v": v}));
            }
            self.emit_calls(&calls);
            return;
        }
        let mut p = P::new(lanes, place);
        self.prelude(&mut p);
        let c = p.cfg(K::Int, n);
        let (va, vb) = self.pairs(n, lanes, batch);
        let a = p.inp(c, va);
        let b = p.inp(c, vb);
        for k in CMP {
            p.cmp(k, a, b);
            p.cmp(k, b, a);
        }
        let k = *self.rng.pick(CMP);
        p.cmp(k, a, a);
        let z = if self.rng.bit() {
            let w = self.word(n);
            p.lit(c, w)
        } else {
            p.konst("zero", c)
        };
        for k in CMP {
            p.cmp(k, a, z);
            if self.rng.bit() {
                p.cmp(k, z, b);
            }
        }
        let mut from = vec![a, b, z];
        for _ in 0..2 {
            let g = self.arrange(&mut p, c, &from);
            let h = *self.rng.pick(&from);
            for k in CMP {
                if self.rng.bit() {
                    p.cmp(k, g, h);
                } else {
                    p.cmp(k, h, g);
                }
            }
            from.push(g);
        }
        p.fin();
        self.emit(p);
    }

    fn c14(&mut self) {
        let n = self.width(257);
        let lanes = if n <= 4 { 1 << n } else if n <= 66 { 12 } else { 4 };
        let place = self.rng.below(3) as u64;
        let mut p = P::new(lanes, place);
        self.prelude(&mut p);
        let c = p.cfg(K::Int, n);
        let va: Vec<Word> = (0..lanes).map(|t| if n <= 4 { small_word(t, n) } else { self.word(n) }).collect();
        let a = p.inp(c, va);
        let mut from = vec![a];
        // in any order: constants, shifts, padding
        let mut groups = vec![0, 1, 2, 3, 4, 5, 5];
        self.rng.shuffle(&mut groups);
        for g in groups {
            match g {
                0 => from.push(p.konst("zero", c)),
                1 => from.push(p.konst("one", c)),
                2 => {
                    let mut lits = Vec::new();
                    if n <= 3 {
                        lits.extend((0..1usize << n).map(|x| small_word(x, n)));
                    } else {
                        lits.extend((0..6).map(|_| self.word(n)));
                        // the extremes
                        lits.push(bits_word(&vec![true; n]));
                        let mut m = vec![false; n];
                        m[n - 1] = true;
                        lits.push(bits_word(&m));
                    }
                    self.rng.shuffle(&mut lits);
                    for w in lits {
                        from.push(p.lit(c, w));
                    }
                }
                3 => {
                    // every amount for small widths, and beyond the width
                    let mut ks: Vec<usize> = if n <= 12 { (0..=n + 2).collect() } else {
                        vec![0, 1, n - 1, n, n + 1, 2 * n, self.rng.below(n), self.rng.below(n), self.rng.below(3 * n)]
                    };
                    ks.push(*self.rng.pick(&[n * 3 + 1, 1000, 65, 64, 4096, 70000]));
                    for k in ks {
                        p.sh("shl", a, k);
                        p.sh("shr", a, k);
                    }
                }
                4 => {
                    // shifting a shifted value, a constant, a value whose bits are the same gates
                    let x = *self.rng.pick(&from);
                    let g = self.arrange(&mut p, c, &from);
                    for y in [a, x, g] {
                        let k1 = self.rng.below(n + 2);
                        let k2 = self.rng.below(n + 2);
                        let l = p.sh("shl", y, k1);
                        p.sh("shr", l, k2);
                        let r = p.sh("shr", y, k1);
                        p.sh("shl", r, k2);
                        from.push(l);
                        from.push(r);
                    }
                }
                _ => {
                    // padding
                    for m in [0, n, self.rng.below(n + 1), self.rng.below(n + 1)] {
                        let x = *self.rng.pick(&from);
                        p.cast(c, x, m);
                    }
                    let bits: Vec<usize> = (0..self.rng.range(0, n.min(6))).map(|_| {
                        let i = self.rng.below(n);
                        p.take(a, i)
                    }).collect();
                    p.pad(c, bits);
                }
            }
        }
        p.fin();
        self.emit(p);
    }

    fn odd(&mut self, bits: usize) -> BigUint {
        // odd, >= 3, of at most `bits` bits
        let one = BigUint::from(1u32);
        let top = (&one << bits) - &one;
        let x = match self.rng.below(6) {
            0 => top.clone(),
            1 => &top - (&one << 1usize),
            2 => (&one << (bits - 1)) + &one,
            3 => BigUint::from(*self.rng.pick(&[3u32, 5, 7, 9, 11, 13])),
            _ => {
                let b: Vec<bool> = (0..bits).map(|_| self.rng.bit()).collect();
                word_big(&bits_word(&b))
            }
        };
        let mut x = if x > top { top.clone() } else { x };
        x.set_bit(0, true);
        if x < BigUint::from(3u32) { BigUint::from(3u32) } else { x }
    }

    fn c15(&mut self) {
        // small moduli exhaustively: every width 4..9 and every modulus that fits
        let mut combos = Vec::new();
        for n in 4..=9usize {
            for p in (3..=(1usize << (n - 2))).step_by(2) {
                if p <= 33 || n <= 7 {
                    let b = (p * p + 63) / 64;
                    for k in 0..b.min(16) {
                        combos.push((n, p, k));
                    }
                }
            }
        }
        let r = self.round as usize;
        let mine: Vec<_> = combos.iter().enumerate().filter(|(i, _)| self.mine(*i)).map(|(_, x)| *x).collect();
        let (n, pm, batch) = if r < 3 * mine.len() && r % 3 != 2 {
            let (n, p, b) = mine[(r / 3 * 2 + r % 3) % mine.len()];
            (n, BigUint::from(p), b)
        } else {
            let n = if self.rng.chance(1, 8) { *self.rng.pick(&[64, 65, 66, 72, 96, 127, 128, 129, 160]) }
                    else { loop { let w = self.width(49); if w >= 4 { break w; } } };
            let bits = if self.rng.bit() { n - 2 } else { self.rng.range(2, n - 2) };
            (n, self.odd(bits), 1000)
        };
        let lanes = if n <= 25 { 64 } else if n <= 49 { 24 } else { 8 };
        let need = pm.bits() as usize;
        let rexp = if self.rng.bit() { need } else { self.rng.range(need, n) };
        let place = if n <= 49 { self.rng.below(3) as u64 } else { 0 };
        let mut p = P::new(lanes, place);
        self.prelude(&mut p);
        let ic = p.cfg(K::Int, n);
        let c = p.fp(ic, &pm, rexp);
        let (va, vb) = self.field_pairs(&pm, n, lanes, batch);
        let a = p.inp(c, va);
        let b = p.inp(c, vb);
        let s = p.bin("add", a, b);
        let d = p.bin("sub", a, b);
        if n <= 49 {
            p.bin("sub", b, a);
            let na = p.un("neg", a);
            let nb = p.un("neg", b);
            p.cmp("eq", a, b);
            p.cmp("neq", a, b);
            // results are canonical: equal as field elements iff equal as words
            let e1 = p.bin("sub", s, b);
            p.cmp("eq", e1, a);
            let e2 = p.bin("add", d, b);
            p.cmp("neq", e2, a);
            p.konst("zero", c);
            let one = p.konst("one", c);
            let w = big_word(&self.res(&pm), n);
            let l = p.lit(c, w);
            p.lit(c, big_word(&(&pm - BigUint::from(1u32)), n));
            p.bin("add", l, one);
            p.bin("sub", one, l);
            p.bin("add", na, nb);
            let x = p.dup(a);
            p.assign("add", x, b);
            p.assign("sub", x, a);
            let y = p.dup(b);
            p.assign("sub", y, a);
            p.assign("add", y, y);
            p.assign("sub", a, a);
        } else {
            p.un("neg", d);
            p.assign("sub", a, b);
        }
        p.fin();
        self.emit(p);
    }

    fn c16(&mut self) {
        // Montgomery reductions: exhaustively for small R*p
        let mut combos = Vec::new();
        for r in 2..=5usize {
            for p in (3..1usize << r).step_by(2) {
                let all = p << r;
                let b = (all + 63) / 64;
                for k in 0..b {
                    combos.push((r, p, k));
                }
            }
        }
        let i = self.round as usize;
        let mine: Vec<_> = combos.iter().enumerate().filter(|(j, _)| self.mine(*j)).map(|(_, x)| *x).collect();
        let small = i < 2 * mine.len() && i % 2 == 0;
        let (r, pm, batch) = if small {
            let (r, p, k) = mine[i / 2];
            (r, BigUint::from(p), k)
        } else {
            let r = match self.rng.below(12) {
                // (once per stream more than a machine word)
                _ if i == 7 => *self.rng.pick(&[64, 65, 70, 79]),
                0 => *self.rng.pick(&[31, 32, 33, 40]),
                1 => *self.rng.pick(&[47, 61, 63]),
                _ => self.rng.range(2, 22),
            };
            let bits = if self.rng.bit() { r } else { self.rng.range(2, r) };
            (r, self.odd(bits), 100000)
        };
        let ws: Vec<usize> = WIDTHS.iter().cloned().filter(|w| *w >= 2 * r + 2).collect();
        let n = match self.rng.below(3) {
            0 => ws[0],
            1 => ws[self.rng.below(ws.len().min(3))],
            _ => ws[self.rng.below(ws.len().min(8))],
        };
        let lanes = if n <= 25 { 64 } else if n <= 49 { 24 } else { 8 };
        let mut p = P::new(lanes, 0);
        self.prelude(&mut p);
        let ic = p.cfg(K::Int, n);
        let c = p.fp(ic, &pm, r);
        let top = &pm << r;
        let v: Vec<Word> = (0..lanes).map(|t| {
            let x = batch * lanes + t;
            let one = BigUint::from(1u32);
            if small && BigUint::from(x) < top {
                small_word(x, n)
            } else {
                let y = match self.rng.below(10) {
                    0 => &top - &one,
                    1 => BigUint::from(0u32),
                    // multiples of p and of R, and their neighbours
                    2 => (&pm * self.big_below(&(&one << r))) % &top,
                    3 => (self.big_below(&pm) << r) % &top,
                    4 => ((self.big_below(&pm) << r) + &one) % &top,
                    5 => (&pm * self.big_below(&(&one << r)) + &one) % &top,
                    6 => { let z = self.big_below(&pm); (&z * &z) % &top }
                    _ => self.big_below(&top),
                };
                big_word(&y, n)
            }
        }).collect();
        p.calls.push(json!({"op": "mont", "c": c, "v": v}));
        if n <= 49 || self.rng.chance(1, 4) {
            let (va, vb) = self.field_pairs(&pm, n, lanes, if small { batch } else { 100000 });
            let a = p.inp(c, va);
            let b = p.inp(c, vb);
            p.bin("mul", a, b);
            if n <= 25 {
                let one = p.konst("one", c);
                p.bin("mul", a, one);
                p.bin("mul", b, b);
                let d = p.dup(a);
                p.assign("mul", d, b);
            }
            p.fin();
        }
        self.emit(p);
    }

    // ------------------------------------------------------------ bundled circuits

    fn w64(&mut self) -> u64 {
        let mut x = 0u64;
        for (i, b) in word_bits(&self.word(64), 64).iter().enumerate() {
            x |= (*b as u64) << i;
        }
        x
    }

    fn word64(x: u64) -> Word {
        bits_word(&(0..64).map(|i| (x >> i) & 1 == 1).collect::<Vec<_>>())
    }

    fn pair64(&mut self, div: bool) -> (u64, u64) {
        let a = self.w64();
        let b = match self.rng.below(12) {
            0 => a,
            1 => a ^ (1 << self.rng.below(64)),
            2 => a.wrapping_add(1),
            3 => a.wrapping_sub(1),
            4 => a.wrapping_neg(),
            5 => !a,
            6 if div => a >> self.rng.below(64),
            7 if div => (a >> self.rng.below(64)).wrapping_add(1),
            8 if div => self.rng.next() >> self.rng.below(64),
            9 if div => {
                // a is a multiple of b, or one less
                let b = (self.rng.next() >> self.rng.below(64)).max(1);
                let q = (self.rng.next() >> self.rng.below(64)) % (u64::MAX / b).max(1);
                let m = (q * b).wrapping_sub(self.rng.bit() as u64);
                return (m, b);
            }
            _ => self.w64(),
        };
        if div && b == 0 {
            return (a, 1 + self.rng.below(9) as u64);
        }
        (a, b)
    }

    fn c17(&mut self) {
        let place = [0u64, 1, 0, 2, 0, 0][self.rng.below(6)];
        let mut calls = vec![json!({"op": "reset", "lanes": 0})];
        let ks = ["adder64", "sub64", "neg64", "mult2_64", "udivide64", "divide64"];
        let k = ks[((self.round + self.stream) % 6) as usize];
        let div = k.contains("divide");
        let fixed = vectors64(k);
        let mut v = Vec::new();
        let lanes = 128;
        for t in 0..lanes {
            // the fixed vectors in turn, one part per stream, then random ones
            let j = (self.round / 6) as usize * (lanes / 2) + t;
            let mine: usize = j * self.streams as usize + self.stream as usize;
            let (a, b) = if t < lanes / 2 && mine < fixed.len() { fixed[mine] } else { self.pair64(div) };
            v.push(if k == "neg64" { json!([Self::word64(a)]) } else { json!([Self::word64(a), Self::word64(b)]) });
        }
        calls.push(json!({"op": "built", "k": k, "n": 64, "place": place, "v": v}));
        self.emit_calls(&calls);
    }

    fn c18(&mut self) {
        let place = [0u64, 1, 0, 2, 0, 0][self.rng.below(6)];
        let mut v = Vec::new();
        for _ in 0..64 {
            let kind = self.rng.below(8);
            let mut x: Vec<u8> = (0..32).map(|_| self.rng.next() as u8).collect();
            match kind {
                0 => x.iter_mut().for_each(|b| *b = 0),
                1 => x.iter_mut().for_each(|b| *b = 0xff),
                2 => x = (0..32).map(|i| if i < 16 { (i * 17) as u8 } else { i as u8 - 16 }).collect(),
                3 => {
                    x.iter_mut().for_each(|b| *b = 0);
                    let i = self.rng.below(256);
                    x[i / 8] = 0x80 >> (i % 8);
                }
                4 => x[16..].iter_mut().for_each(|b| *b = 0),
                5 => x[..16].iter_mut().for_each(|b| *b = 0),
                _ => {}
            }
            v.push(x);
        }
        self.emit_calls(&[json!({"op": "reset", "lanes": 0}), json!({"op": "aes", "place": place, "v": v})]);
    }

    // ------------------------------------------------------------ programs

    fn c21(&mut self) {
        // the widths of a few consecutive rounds are related, so that the circuits made one after the
        // other have modules of the same shape at different places
        if self.round % 6 == 0 || self.pool.is_empty() {
            let k = self.rng.range(1, 3);
            self.pool = (0..k).map(|_| self.rng.range(1, 18)).collect();
        }
        let many = if self.rng.chance(1, 3) { self.rng.range(2, 3) } else { 1 };
        let mut progs = Vec::new();
        for i in 0..many {
            let shared = i > 0 || self.rng.bit();
            let p = self.program(shared, many);
            progs.push(p.calls);
        }
        let burst = self.rng.range(1, 6);
        let rng = &mut self.rng;
        let mut last = 0;
        let done = run_many(&progs, |n| {
            if last >= n || rng.chance(1, burst) {
                last = rng.below(n);
            }
            last
        });
        for e in done {
            (self.out)(&e);
        }
    }

    fn add_cfg(&mut self, p: &mut P, big: bool) {
        let ints: Vec<usize> = (1..=p.cfgs.len()).filter(|c| p.cfgs[c - 1].k == K::Int).collect();
        let pool = self.pool.clone();
        let kind = if p.cfgs.is_empty() { self.rng.below(4) } else { self.rng.below(7) };
        match kind {
            0 | 1 | 4 => {
                let n = if big {
                    *self.rng.pick(&[32, 33, 48, 64, 65])
                } else if self.rng.chance(1, 4) {
                    self.rng.range(1, 18)
                } else {
                    *self.rng.pick(&pool)
                };
                p.cfg(K::Int, n);
            }
            2 | 3 => {
                let n = if big {
                    *self.rng.pick(&[48, 64, 128])
                } else if self.rng.chance(1, 4) {
                    self.rng.range(1, 20)
                } else {
                    *self.rng.pick(&pool)
                };
                p.cfg(K::Bits, n);
            }
            _ => {
                if ints.is_empty() {
                    return;
                }
                let base = *self.rng.pick(&ints);
                let n = p.cfgs[base - 1].n;
                if n < 4 || n > 34 {
                    return;
                }
                let b = self.rng.range(2, n - 2);
                let pm = self.odd(b);
                let need = pm.bits() as usize;
                let rexp = if 2 * need + 2 <= n && self.rng.bit() { self.rng.range(need, (n - 2) / 2) } else { need };
                p.fp(base, &pm, rexp);
            }
        }
    }

    fn program(&mut self, shared: bool, many: usize) -> P {
        let lanes = self.rng.range(3, 8);
        let place = if self.rng.chance(1, 4) { 1 } else { 0 };
        let mut p = P::new(lanes, place);
        if shared {
            p.calls[0]["shared"] = json!(true);
        }
        let big = self.rng.chance(1, 12);
        for _ in 0..self.rng.below(4) {
            let k = *self.rng.pick(&["not", "and", "eq", "sub", "add", "const"]);
            let n = if k == "const" { self.rng.below(2) } else { *self.rng.pick(&self.pool.clone()) };
            p.calls.push(json!({"op": "noise", "k": k, "n": n}));
        }
        for _ in 0..self.rng.range(1, 4) {
            self.add_cfg(&mut p, big);
        }
        if p.cfgs.is_empty() {
            p.cfg(K::Int, self.pool[0]);
        }
        let ops = (if big { self.rng.range(4, 12) } else { self.rng.range(8, 40) }) / many;
        let mut cost = 0usize;
        for _ in 0..ops.max(4) {
            if p.cfgs.len() < 8 && self.rng.chance(1, 9) {
                self.add_cfg(&mut p, big);
            }
            let of = |k: K| -> Vec<usize> { (1..=p.cfgs.len()).filter(|c| p.cfgs[c - 1].k == k).collect() };
            let (ints, bits, fps) = (of(K::Int), of(K::Bits), of(K::Fp));
            self.step21(&mut p, &ints, &bits, &fps, &mut cost);
            if cost > 60_000 {
                break;
            }
        }
        p.fin();
        p
    }

    fn pick_reg(&mut self, p: &P, f: impl Fn(&RegInfo) -> bool) -> Option<usize> {
        let c: Vec<usize> = p.regs.iter().enumerate().filter(|(_, r)| f(r)).map(|(i, _)| i + 1).collect();
        if c.is_empty() {
            return None;
        }
        // recent ones and old ones
        Some(if self.rng.bit() { *c.last().unwrap() } else { *self.rng.pick(&c) })
    }

    fn step21(&mut self, p: &mut P, ints: &[usize], bits: &[usize], fps: &[usize], cost: &mut usize) {
        let mut all: Vec<usize> = ints.to_vec();
        all.extend(bits);
        all.extend(fps);
        all.extend(fps);
        let c = *self.rng.pick(&all);
        let (k, n) = (p.cfgs[c - 1].k, p.cfgs[c - 1].n);
        let have = p.regs.iter().filter(|r| r.c == c).count();
        let kind = if have < 2 { self.rng.below(3) } else { self.rng.below(24) };
        let lanes = p.lanes;
        let pm = p.cfgs[c - 1].p.clone();
        match kind {
            0 | 1 => {
                let v: Vec<Word> = (0..lanes)
                    .map(|_| if k == K::Fp { big_word(&self.res(&pm), n) } else { self.word(n) })
                    .collect();
                p.inp(c, v);
            }
            2 => match k {
                K::Bits => {
                    // from bits or from a part of another value
                    if let Some(a) = self.pick_reg(p, |r| r.k != K::Bit) {
                        let m = self.rng.range(0, n.min(p.regs[a - 1].n));
                        p.cast(c, a, m);
                    } else {
                        p.pad(c, vec![]);
                    }
                }
                K::Fp => match self.rng.below(3) {
                    0 => { p.konst("zero", c); }
                    1 => { p.konst("one", c); }
                    _ => { let w = big_word(&self.res(&pm), n); p.lit(c, w); }
                },
                _ => match self.rng.below(4) {
                    0 => { p.konst("zero", c); }
                    1 => { p.konst("one", c); }
                    2 => {
                        if let Some(a) = self.pick_reg(p, |r| r.k != K::Bit) {
                            let m = self.rng.range(0, n.min(p.regs[a - 1].n));
                            p.cast(c, a, m);
                        } else {
                            p.konst("zero", c);
                        }
                    }
                    _ => { let w = self.word(n); p.lit(c, w); }
                },
            },
            3..=8 => {
                let a = self.pick_reg(p, |r| r.c == c).unwrap();
                let b = self.pick_reg(p, |r| r.c == c).unwrap();
                let op = self.op_for(p, c, cost);
                p.bin(op, a, b);
            }
            9..=12 => {
                let a = self.pick_reg(p, |r| r.c == c).unwrap();
                let b = self.pick_reg(p, |r| r.c == c).unwrap();
                let op = self.op_for(p, c, cost);
                p.assign(op, a, b);
            }
            13 => {
                let a = self.pick_reg(p, |r| r.c == c).unwrap();
                p.un(if k == K::Bits { "not" } else { "neg" }, a);
                *cost += if k == K::Fp { 20 * n * n } else { 10 * n };
            }
            14 | 15 => {
                let a = self.pick_reg(p, |r| r.c == c).unwrap();
                let b = self.pick_reg(p, |r| r.c == c).unwrap();
                let op = if k == K::Int { *self.rng.pick(CMP) } else { *self.rng.pick(&["eq", "neq"]) };
                p.cmp(op, a, b);
            }
            16 => {
                let a = self.pick_reg(p, |r| r.c == c).unwrap();
                p.dup(a);
            }
            17 => {
                let a = self.pick_reg(p, |r| r.c == c).unwrap();
                if k == K::Int {
                    let s = self.rng.range(0, n + 3);
                    p.sh(if self.rng.bit() { "shl" } else { "shr" }, a, s);
                } else {
                    let i = self.rng.below(n);
                    p.take(a, i);
                }
            }
            22 | 23 if k != K::Fp => {
                let from: Vec<usize> = (0..3).map(|_| self.pick_reg(p, |_| true).unwrap()).collect();
                self.arrange(p, c, &from);
            }
            18 => {
                let a = self.pick_reg(p, |r| r.k != K::Bit).unwrap();
                let i = self.rng.below(p.regs[a - 1].n);
                p.take(a, i);
            }
            19 => {
                let x = self.pick_reg(p, |r| r.k == K::Bit);
                let y = self.pick_reg(p, |r| r.k == K::Bit);
                match (x, y) {
                    (Some(x), Some(y)) => {
                        let op = *self.rng.pick(&["not", "xor", "and", "or"]);
                        p.push(json!({"op": "bgate", "k": op, "a": [x, y]}), K::Bit, 0, 1);
                    }
                    _ => {
                        p.bit((0..lanes).map(|_| self.rng.bit() as u8).collect());
                    }
                }
            }
            _ => {
                if let (K::Bits, Some(s)) = (k, self.pick_reg(p, |r| r.k == K::Bit)) {
                    let a = self.pick_reg(p, |r| r.c == c).unwrap();
                    let b = self.pick_reg(p, |r| r.c == c).unwrap();
                    p.mux(a, b, s);
                } else if k == K::Int {
                    let m = p.regs.iter().filter(|r| r.k == K::Bit).count();
                    if m > 0 {
                        let cnt = self.rng.range(0, n.min(4));
                        let a: Vec<usize> = (0..cnt).map(|_| self.pick_reg(p, |r| r.k == K::Bit).unwrap()).collect();
                        p.pad(c, a);
                    }
                }
            }
        }
    }

    fn op_for(&mut self, p: &P, c: usize, cost: &mut usize) -> &'static str {
        let n = p.cfgs[c - 1].n;
        match p.cfgs[c - 1].k {
            K::Bits => *self.rng.pick(BITS_BIN),
            K::Fp => {
                *cost += 20 * n * n;
                let f = &p.cfgs[c - 1];
                if n >= 2 * f.rexp + 2 && self.rng.chance(1, 6) { "mul" } else { *self.rng.pick(&["add", "sub"]) }
            }
            _ => {
                let k = *self.rng.pick(INT_BIN);
                *cost += if k == "mul" { 7 * n * n } else { 10 * n };
                k
            }
        }
    }
}

/// Operand pairs chosen to exercise every gate of a bundled circuit.
fn vectors64(k: &str) -> Vec<(u64, u64)> {
    let text = match k {
        "udivide64" => include_str!("../vectors/udivide64.txt"),
        "divide64" => include_str!("../vectors/divide64.txt"),
        "mult2_64" => include_str!("../vectors/mult2_64.txt"),
        "adder64" => include_str!("../vectors/adder64.txt"),
        "sub64" => include_str!("../vectors/sub64.txt"),
        _ => include_str!("../vectors/neg64.txt"),
    };
    text.lines()
        .filter_map(|l| {
            let mut t = l.split_whitespace().map(|x| u64::from_str_radix(x, 16).ok());
            Some((t.next()??, t.next().unwrap_or(Some(0)).unwrap_or(0)))
        })
        .collect()
}
