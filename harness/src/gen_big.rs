//! Circuits and files that are large in one dimension (past 2^8 and 2^16): fan-out, depth, inputs,
//! outputs, constants, modules, nesting, calls, identifiers, wires, lines, groups.
use super::*;
use crate::world::{ALIEN, OFFSETS};

impl<'a> Gen<'a> {
    fn big_size(&mut self) -> usize {
        65_600 + self.rng.below(2500)
    }
    /// Around a power of two.
    fn edge(&mut self) -> usize {
        let p = *self.rng.pick(&[255usize, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097]);
        p
    }

    fn manyin(&mut self, h: usize, k: usize) {
        if self.ok(json!({"op": "manyin", "h": h, "k": k})) {
            self.cm(h).nin += k;
            self.cm(h).n += k;
        }
    }
    fn manyconst(&mut self, h: usize, k: usize) {
        let vs: Vec<usize> = (0..k).map(|_| self.rng.below(2)).collect();
        if self.ok(json!({"op": "manyconst", "h": h, "vs": vs})) {
            self.cm(h).nconst += k;
            self.cm(h).n += k;
        }
    }
    fn manyout(&mut self, h: usize, gs: &[usize]) {
        if self.ok(json!({"op": "manyout", "h": h, "gs": gs})) {
            self.cm(h).outs += gs.len();
        }
    }
    fn manyreg(&mut self, h: usize, h2: usize, k: usize) {
        let store = self.c(h).store;
        let ci = self.handles[h2 - 1];
        if self.ok(json!({"op": "manyreg", "h": h, "h2": h2, "k": k})) {
            self.stores[store].extend(std::iter::repeat(ci).take(k));
        }
    }
    fn rows(&mut self, h: usize, gs: Vec<Value>) {
        let k = gs.len();
        if self.ok(json!({"op": "many", "h": h, "gs": gs})) {
            self.cm(h).n += k;
            self.cm(h).weight += k;
        }
    }
    fn k2(&mut self) -> &'static str {
        *self.rng.pick(&["xor", "xor", "xor", "and", "or"])
    }

    /// k gates, each reading its predecessor and gate f: depth k, and f is read k times.
    fn chain(&mut self, h: usize, f: usize, k: usize) {
        let n = self.c(h).n;
        let rows = (0..k)
            .map(|i| {
                let p = n + i - 1;
                match self.rng.below(20) {
                    0 => json!(["and", p, f]),
                    1 => json!(["or", f, p]),
                    x if x % 2 == 0 => json!(["xor", p, f]),
                    _ => json!(["xor", f, p]),
                }
            })
            .collect();
        self.rows(h, rows)
    }
    /// k gates over gates a and b only.
    fn star(&mut self, h: usize, a: usize, b: usize, k: usize) {
        let rows = (0..k).map(|_| json!([self.k2(), a, b])).collect();
        self.rows(h, rows)
    }
    /// A balanced tree over the gates from..from+k; returns its root.
    fn tree(&mut self, h: usize, from: usize, k: usize) -> usize {
        let n = self.c(h).n;
        let mut q: std::collections::VecDeque<usize> = (from..from + k).collect();
        let mut rows = Vec::new();
        while q.len() > 1 {
            let (a, b) = (q.pop_front().unwrap(), q.pop_front().unwrap());
            let kk = if self.rng.chance(1, 30) { self.k2() } else { "xor" };
            rows.push(json!([kk, a, b]));
            q.push_back(n + rows.len() - 1);
        }
        let r = q[0];
        if !rows.is_empty() {
            self.rows(h, rows);
        }
        r
    }
    /// k random gates.
    fn dag(&mut self, h: usize, k: usize) {
        let n = self.c(h).n;
        let rows = (0..k)
            .map(|i| {
                let m = n + i;
                let mut p = || {
                    if self.rng.chance(3, 4) {
                        m - 1 - self.rng.below(m.min(400))
                    } else {
                        self.rng.below(m)
                    }
                };
                let (a, b) = (p(), p());
                if self.rng.chance(1, 8) {
                    json!(["not", a])
                } else {
                    json!([self.k2(), a, b])
                }
            })
            .collect();
        self.rows(h, rows)
    }
    fn sample(&mut self, n: usize, k: usize) -> Vec<usize> {
        let mut v: Vec<usize> = vec![0, 255, 256, 257, 65_535, 65_536, 65_537, n - 1, n / 2];
        v.extend((0..k).map(|_| self.rng.below(n)));
        v.retain(|x| *x < n);
        v
    }
    fn eval_big(&mut self, h: usize, times: usize) {
        let nin = self.c(h).nin;
        for i in 0..times {
            let ins: Vec<i64> = (0..nin).map(|_| (self.rng.next() & 63) as i64).collect();
            let ev = if i == 0 { 1 } else { self.rng.below(2) };
            self.ok(json!({"op": "eval", "h": h, "n": 6, "ins": ins, "ev": ev}));
        }
    }
    fn ident(&mut self, h: usize) -> usize {
        // a gate that is not an input, so that the circuit is not trivially constant
        let n = self.c(h).n;
        self.rows(h, vec![json!(["xor", 0, n - 1])]);
        n
    }
    fn fresh(&mut self, nin: usize) -> usize {
        self.reset();
        let h = self.new_circuit(0);
        self.manyin(h, nin);
        h
    }

    /// A hierarchy whose sizes grow past 2^32 and up to 2^62, each level calling earlier ones.
    pub fn sizes_scenario(&mut self) {
        self.reset();
        let root = self.new_circuit(0);
        // [inputs, outputs, gates and constants after inlining] of the modules
        let mut mods: Vec<(usize, usize, u128)> = vec![];
        let style = self.rng.below(4);
        let levels = self.rng.range(30, 90);
        for level in 0..levels {
            if !self.ok(json!({"op": "sub", "h": root})) {
                return;
            }
            let h = level + 2;
            let nin = self.rng.below(3) + (level % 2);
            let mut n = 0;
            let mut total = 0u128;
            if nin > 0 {
                self.ok(json!({"op": "manyin", "h": h, "k": nin}));
                n += nin;
            }
            if nin == 0 || self.rng.chance(1, 2) {
                let k = self.rng.range(1, 3);
                let vs: Vec<usize> = (0..k).map(|_| self.rng.below(2)).collect();
                self.ok(json!({"op": "manyconst", "h": h, "vs": vs}));
                n += k;
                total += k as u128;
            }
            let body = |g: &mut Self, n: &mut usize, total: &mut u128| {
                let k = g.rng.below(4);
                if k > 0 {
                    let m = *n;
                    let gs: Vec<Value> = (0..k)
                        .map(|i| {
                            let (a, b) = (g.rng.below(m + i), g.rng.below(m + i));
                            if g.rng.chance(1, 3) { json!(["not", a]) } else { json!([g.k2(), a, b]) }
                        })
                        .collect();
                    g.ok(json!({"op": "many", "h": h, "gs": gs}));
                    *n += k;
                    *total += k as u128;
                }
            };
            body(self, &mut n, &mut total);
            let calls = if level == 0 { 0 } else { 1 + self.rng.below(if style == 0 { 2 } else { 4 }) };
            for _ in 0..calls {
                // mostly the largest so far
                let m = if self.rng.chance(5, 6) { level - 1 } else { self.rng.below(level) };
                if total + mods[m].2 > 1 << 62 {
                    continue;
                }
                let a: Vec<usize> = (0..mods[m].0).map(|_| self.rng.below(n)).collect();
                self.ok(json!({"op": "call", "h": h, "m": m, "a": a}));
                n += mods[m].1;
                total += mods[m].2;
                if self.rng.chance(1, 3) {
                    self.ok(json!({"op": "bigsizes", "h": h}));
                }
            }
            body(self, &mut n, &mut total);
            let outs = self.rng.below(4);
            if outs > 0 {
                let gs: Vec<usize> = (0..outs).map(|_| self.rng.below(n)).collect();
                self.ok(json!({"op": "manyout", "h": h, "gs": gs}));
            }
            self.ok(json!({"op": "bigsizes", "h": h}));
            mods.push((nin, outs, total));
        }
    }

    /// One of NSHAPES circuits without modules that are large in one dimension, with outputs.
    fn big_flat(&mut self, shape: usize, s: usize) -> usize {
        match shape {
            0 => {
                let h = self.fresh(3);
                self.chain(h, 0, s);
                self.manyout(h, &[s + 2, 3, s / 2, 0, s + 1]);
                h
            }
            1 => {
                let h = self.fresh(2);
                self.star(h, 0, 1, s);
                let r = self.tree(h, 2, s);
                self.manyout(h, &[2, 1, r, s + 1, s / 2, 0]);
                h
            }
            2 => {
                let h = self.fresh(s);
                let r = self.tree(h, 0, s);
                self.manyout(h, &[r, s - 1, 65_536.min(s - 1), 0, 256]);
                h
            }
            3 => {
                let h = self.fresh(4);
                self.dag(h, 300);
                let n = self.c(h).n;
                let gs: Vec<usize> = (0..s).map(|_| self.rng.below(n)).collect();
                self.manyout(h, &gs);
                h
            }
            4 => {
                let h = self.fresh(2);
                self.manyconst(h, s);
                let r = self.tree(h, 0, s + 2);
                self.manyout(h, &[r, s + 1, 2, 3, 258, 0]);
                h
            }
            5 => {
                // gates read exactly so often, all of the readers needed
                let h = self.fresh(3);
                for k in [255, 256, 257, 65_535, 65_536 + self.rng.below(3)] {
                    let f = self.ident(h);
                    if k < 60_000 {
                        self.chain(h, f, k);
                        self.ident(h);
                    } else {
                        let n = self.c(h).n;
                        // in a bushy way: every reader reads f twice or f and another
                        let rows = (0..k).map(|i| json!(["xor", if i == 0 { f } else { n + (i - 1) / 2 }, f])).collect();
                        self.rows(h, rows);
                        let r = self.tree(h, n + k / 2, k - k / 2);
                        self.manyout(h, &[r]);
                        break;
                    }
                    let n = self.c(h).n;
                    self.manyout(h, &[n - 1, f]);
                }
                h
            }
            6 => {
                let h = self.fresh(5);
                self.dag(h, s);
                let n = self.c(h).n;
                let gs: Vec<usize> = (0..20).map(|i| if i < 5 { n - 1 - i } else { self.rng.below(n) }).collect();
                self.manyout(h, &gs);
                h
            }
            _ => {
                // everything interleaved
                let h = self.fresh(2);
                let mut left = s;
                while left > 0 && !self.dead {
                    let k = (1 + self.rng.below(9000)).min(left);
                    match self.rng.below(5) {
                        0 => self.manyin(h, k),
                        1 => self.manyconst(h, k),
                        _ => self.dag(h, k),
                    }
                    left -= k;
                }
                self.dag(h, 300);
                let n = self.c(h).n;
                let gs = self.sample(n, 12);
                self.manyout(h, &gs);
                h
            }
        }
    }

    /// A module below root with nin inputs and nout outputs, output i from inputs i, i+1, i+2.
    fn wide_module(&mut self, root: usize, nin: usize, nout: usize) -> usize {
        let m = self.sub(root);
        if self.dead {
            return 1;
        }
        self.manyin(m, nin);
        let rows = (0..nout)
            .map(|i| json!([*self.rng.pick(&["xor", "and", "or"]), i % nin, (i * 7 + 1 + i / nin) % nin]))
            .collect();
        self.rows(m, rows);
        let mut o: Vec<usize> = (nin..nin + nout).collect();
        if self.rng.bit() {
            o.reverse();
        }
        self.manyout(m, &o);
        m
    }
    fn last_mod(&self, h: usize) -> usize {
        self.stores[self.c(h).store].len() - 1
    }
    fn rand_args(&mut self, h: usize, k: usize) -> Vec<usize> {
        let n = self.c(h).n;
        (0..k).map(|_| self.rng.below(n)).collect()
    }
    fn few_outs(&mut self, h: usize, k: usize) {
        let n = self.c(h).n;
        let mut gs: Vec<usize> = (0..k).map(|_| self.rng.below(n)).collect();
        gs.push(n - 1);
        self.manyout(h, &gs);
    }

    /// Module hierarchies that are large in one dimension; the root is returned.
    fn big_modules(&mut self, shape: usize, s: usize) -> usize {
        match shape {
            0 | 8 => {
                // more operands and results than a byte counts
                let root = self.fresh(6);
                for _ in 0..2 {
                    let (mut a, mut b) = (self.edge(), self.edge());
                    if shape == 8 {
                        (a, b) = (255 + self.rng.below(3), 255 + self.rng.below(3));
                    }
                    let m = self.wide_module(root, a, b);
                    if self.dead {
                        return root;
                    }
                    for _ in 0..2 {
                        let mi = self.last_mod(root);
                        let nin = self.c(m).nin;
                        let args = self.rand_args(root, nin);
                        self.call_with(root, mi, &args);
                        if self.dead {
                            return root;
                        }
                    }
                }
                self.few_outs(root, 40);
                root
            }
            1 => {
                // nested 300 deep
                let root = self.fresh(3);
                let d = 258 + self.rng.below(60);
                for i in 0..d {
                    let m = self.sub(root);
                    if self.dead {
                        return root;
                    }
                    self.manyin(m, 3);
                    if i > 0 {
                        let perm = *self.rng.pick(&[[0usize, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2]]);
                        self.call_with(m, i - 1, &perm);
                        if self.rng.chance(1, 10) {
                            self.constant(m);
                        }
                        let n = self.c(m).n;
                        let kk = self.k2();
                        self.rows(m, vec![json!(["xor", n - 1, i % 3]), json!([kk, 3, (i + 1) % 3])]);
                        let n = self.c(m).n;
                        self.manyout(m, &[n - 1, 4, n - 2]);
                    } else {
                        self.rows(m, vec![json!(["xor", 0, 1]), json!(["xor", 1, 2])]);
                        self.manyout(m, &[3, 4, 2]);
                    }
                }
                let mi = self.last_mod(root);
                self.call_with(root, mi, &[2, 0, 1]);
                self.call_with(root, mi - 1, &[3, 1, 5]);
                self.few_outs(root, 6);
                root
            }
            2 => {
                // the same module called more often than a byte counts, in a chain
                let root = self.fresh(3);
                let m = self.sub(root);
                if self.dead {
                    return root;
                }
                self.manyin(m, 3);
                self.constant(m);
                self.rows(m, vec![json!(["xor", 0, 1]), json!(["or", 4, 2]), json!(["xor", 5, 3])]);
                self.manyout(m, &[6, 0, 4]);
                let times = 257 + self.rng.below(80);
                for i in 0..times {
                    let n = self.c(root).n;
                    let args = if i % 3 == 0 { self.rand_args(root, 3) } else { vec![n - 1, n - 3, n - 2] };
                    self.call_with(root, 0, &args);
                }
                self.few_outs(root, 20);
                root
            }
            3 => {
                // more modules than a byte counts, each a different function
                let root = self.fresh(5);
                let k = 258 + self.rng.below(60);
                for i in 0..k {
                    let m = self.sub(root);
                    if self.dead {
                        return root;
                    }
                    self.manyin(m, 2);
                    self.rows(
                        m,
                        vec![
                            json!([(["xor", "and", "or"][i % 3]), 0, 1]),
                            json!([(["and", "or", "xor"][i / 3 % 3]), i / 9 % 3, 0]),
                            json!([(["or", "xor", "and"][i / 27 % 3]), 3, i / 81 % 3]),
                        ],
                    );
                    self.manyout(m, &[4]);
                }
                for m in [0, 1, 44, 254, 255, 256, 257, k - 1, k / 2] {
                    let args = self.rand_args(root, 2);
                    self.call_with(root, m, &args);
                }
                for i in 0..9 {
                    self.output_gate(root, 5 + i);
                }
                root
            }
            4 => {
                // more module identifiers than two bytes count
                let root = self.fresh(4);
                let a = self.wide_module(root, 2, 2);
                if self.dead {
                    return root;
                }
                self.manyreg(root, a, s);
                let b = self.wide_module(root, 3, 1);
                let mb = self.last_mod(root);
                let _ = b;
                let args = self.rand_args(root, 3);
                self.call_with(root, mb, &args);
                for m in [mb - 65_536, 65_536, 65_535, 256, 0] {
                    let args = self.rand_args(root, 2);
                    self.call_with(root, m, &args);
                }
                for i in 0..11 {
                    self.output_gate(root, 4 + i);
                }
                root
            }
            5 => {
                // a large module, called twice
                let root = self.fresh(4);
                let m = self.sub(root);
                if self.dead {
                    return root;
                }
                self.manyin(m, 3);
                self.dag(m, s / 2);
                let n = self.c(m).n;
                let gs = self.sample(n, 4);
                self.manyout(m, &gs);
                let mi = self.last_mod(root);
                self.call_with(root, mi, &[0, 1, 2]);
                self.call_with(root, mi, &[3, 4, 1]);
                let n = self.c(root).n;
                self.manyout(root, &(4..n).collect::<Vec<_>>());
                root
            }
            6 => {
                // calls on identifiers past 2^16, and a module with more than 2^16 results
                let root = self.fresh(4);
                self.dag(root, 65_530);
                let m = self.wide_module(root, 5, 40);
                if self.dead {
                    return root;
                }
                let _ = m;
                for _ in 0..2 {
                    let n = self.c(root).n;
                    let args: Vec<usize> = (0..5).map(|i| if i < 3 { n - 1 - i } else { self.rng.below(n) }).collect();
                    let mi = self.last_mod(root);
                    self.call_with(root, mi, &args);
                }
                self.dag(root, 50);
                let n = self.c(root).n;
                self.manyout(root, &(n - 60..n).collect::<Vec<_>>());
                root
            }
            _ => {
                let root = self.fresh(400);
                let k = s.min(66_500);
                let m = self.wide_module(root, 300, k);
                if self.dead {
                    return root;
                }
                let _ = m;
                let args = self.rand_args(root, 300);
                let mi = self.last_mod(root);
                self.call_with(root, mi, &args);
                let n = self.c(root).n;
                let gs = self.sample(n, 20);
                self.manyout(root, &gs);
                root
            }
        }
    }

    /// Counts that grow past 2^16 while the circuits stay small: each module calls the one below
    /// it twice.
    fn doubling(&mut self, d: usize) {
        self.reset();
        let root = self.new_circuit(0);
        for i in 0..d {
            let m = self.sub(root);
            if self.dead {
                return;
            }
            let nin = 1 + self.rng.below(2);
            self.manyin(m, nin);
            if i == 0 {
                self.manyconst(m, 1);
                self.rows(m, vec![json!(["xor", 0, nin]), json!(["not", nin + 1])]);
            } else {
                for _ in 0..2 {
                    let k = self.circs[self.stores[self.c(m).store][i - 1]].nin;
                    let args = self.rand_args(m, k);
                    self.call_with(m, i - 1, &args);
                }
                if self.rng.bit() {
                    self.constant(m);
                }
                self.gate(m);
            }
            let n = self.c(m).n;
            self.manyout(m, &[n - 1]);
            self.obs("sizes", m);
            if self.rng.chance(1, 4) {
                let x = self.copy(m);
                self.obs("sizes", x);
            }
        }
        self.manyin(root, 2);
        for m in [d - 1, d - 2, d - 1] {
            let k = self.circs[self.stores[self.c(root).store][m]].nin;
            let args = self.rand_args(root, k);
            self.call_with(root, m, &args);
            self.obs("sizes", root);
        }
    }

    // ---- files ---------------------------------------------------------------------------

    /// A well-formed file that is large in one dimension.
    fn big_file(&mut self, shape: usize, s: usize) -> (Vec<Vec<Value>>, usize, usize) {
        let edge = self.edge();
        // (groups of inputs, gate lines, groups of outputs, out of order)
        let (ins, ng, outs): (Vec<usize>, usize, Vec<usize>) = match shape {
            0 => (vec![3, 2], s, vec![4, 1]),
            1 => (vec![s, 7], 300, vec![9]),
            2 => ((0..edge).map(|_| self.rng.below(3)).collect(), 300, (0..edge).map(|_| self.rng.below(2)).collect()),
            3 => (vec![2, 2], s, vec![s]),
            4 => (vec![0, 0, 5, 0], edge, vec![0, edge.min(200), 0, 1]),
            5 => (vec![64, 64], s, vec![64]),
            6 => (vec![1], s, vec![1, 1]),
            _ => (vec![40, 0, 300], edge, vec![edge, 17]),
        };
        let nin: usize = ins.iter().sum();
        let nw = nin + ng;
        let mut wires: Vec<usize> = (nin..nw).collect();
        match shape {
            2 | 5 => self.rng.shuffle(&mut wires),
            4 => wires.reverse(),
            _ => {}
        }
        let mut defined: Vec<usize> = (0..nin).collect();
        let mut lines: Vec<Vec<Value>> = Vec::new();
        for (i, o) in wires.into_iter().enumerate() {
            let d = defined.len();
            let t = match shape {
                6 => *["EQW", "INV", "EQW", "EQ", "XOR"][..].get(self.rng.below(5)).unwrap(),
                _ => *self.rng.pick(&["XOR", "XOR", "XOR", "AND", "OR", "INV", "EQW", "EQ"]),
            };
            let t = if i == 0 && d == 0 { "EQ" } else { t };
            let mut pick = || {
                let j = if shape == 0 || shape == 6 {
                    // long chains, and the first inputs read all the time
                    if self.rng.chance(3, 4) {
                        d - 1 - self.rng.below(d.min(2))
                    } else {
                        self.rng.below(d.min(3))
                    }
                } else {
                    self.rng.below(d)
                };
                defined[j]
            };
            let a: Vec<usize> = match t {
                "EQ" => vec![self.rng.below(2)],
                "INV" | "EQW" => vec![pick()],
                _ => vec![pick(), pick()],
            };
            let mut r = Self::row(&[a.len(), 1]);
            r.extend(Self::row(&a));
            r.push(Self::tok(o));
            r.push(json!({"n": -1, "s": t}));
            lines.push(r);
            defined.push(o);
        }
        let nout = outs.iter().sum::<usize>();
        let mut rows = vec![Self::row(&[ng, nw])];
        rows.push(Self::row(&[&[ins.len()], &ins[..]].concat()));
        rows.push(Self::row(&[&[outs.len()], &outs[..]].concat()));
        rows.push(vec![]);
        rows.extend(lines);
        (rows, nin, nout)
    }

    fn read_rows(&mut self, h: usize, rows: Vec<Vec<Value>>, nin: usize, nout: usize, fmt: u64) {
        let rd = self.rng.below(2);
        if self.ok(json!({"op": "read", "h": h, "rows": rows, "fmt": fmt, "rd": rd})) {
            let c = self.cm(h);
            c.nin += nin;
            c.outs += nout;
            c.has_read = true;
            c.flat = false;
            c.weight += rows.len();
        }
    }

    // ---- per property --------------------------------------------------------------------

    pub(super) fn alien(&mut self, n: usize) -> i64 {
        let w = self.rng.below(OFFSETS.len()) as i64;
        ALIEN + w * 1_000_000 + self.rng.below(n.max(1).min(1_000_000)) as i64
    }

    /// Misuse with identifiers that differ from good ones by a power of two.
    pub(super) fn alien_misuse(&mut self, h: usize) {
        if self.dead || self.c(h).has_read {
            return;
        }
        let (n, nin, outs, store, frozen) = {
            let c = self.c(h);
            (c.n, c.nin, c.outs, c.store, c.frozen)
        };
        let nm = self.stores[store].len();
        match self.rng.below(6) {
            0 if !frozen => {
                let g = self.alien(n);
                self.emit(json!({"op": "out", "h": h, "g": g}));
            }
            1 if !frozen && n > 0 => {
                let m = self.alien(nm);
                let k = if nm == 0 { 0 } else { self.circs[self.stores[store][(m - ALIEN) as usize % 1_000_000]].nin };
                let a = self.rand_args(h, k);
                self.emit(json!({"op": "call", "h": h, "m": m, "a": a}));
            }
            2 => {
                let i = self.alien(nin);
                self.emit(json!({"op": "inp", "h": h, "i": i}));
            }
            3 => {
                let i = self.alien(outs);
                self.emit(json!({"op": "outp", "h": h, "i": i}));
            }
            4 => {
                let m = self.alien(nm);
                self.emit(json!({"op": "getmod", "h": h, "m": m}));
            }
            _ => {
                let g = self.alien(n);
                self.emit(json!({"op": "view", "h": h, "g": g}));
            }
        }
    }

    fn big06(&mut self, k: usize) {
        // sizes at which the wrong number of operands or inputs is right modulo 2^8 or 2^16
        let root = self.fresh(3);
        let m = self.sub(root);
        if self.dead {
            return;
        }
        let nin = self.rng.range(1, 4);
        self.manyin(m, nin);
        self.manyout(m, &[0]);
        let wide = self.wide_module(root, 256 + nin, 3);
        if self.dead {
            return;
        }
        let _ = wide;
        if k % 2 == 1 {
            self.dag(root, 66_000);
        } else {
            self.dag(root, 400);
        }
        for have in [256 + nin, 65_536 + nin, 512 + nin, nin + 65_535] {
            let args = self.rand_args(root, have);
            self.emit(json!({"op": "call", "h": root, "m": 0, "a": args}));
        }
        for have in [nin, 512 + nin, 257 + nin, 255 + nin] {
            let args = self.rand_args(root, have);
            self.emit(json!({"op": "call", "h": root, "m": 1, "a": args}));
        }
        for have in [256 + 3usize, 65_536 + 3] {
            let ins: Vec<i64> = (0..have).map(|_| self.rng.below(2) as i64).collect();
            self.emit(json!({"op": "eval", "h": root, "n": 1, "ins": ins, "ev": 1}));
        }
        for _ in 0..40 {
            self.alien_misuse(root);
        }
        for _ in 0..6 {
            self.misuse(root);
        }
        self.manyout(root, &[5, 0, 4]);
        for _ in 0..10 {
            self.alien_misuse(root);
        }
        for o in ["sizes", "io"] {
            self.observe(o, root);
        }
        let n = self.c(root).n;
        let gs = self.sample(n, 10);
        self.ok(json!({"op": "viewat", "h": root, "gs": gs}));
        self.ok(json!({"op": "depsat", "h": root, "gs": [0, 3, n - 1]}));
        self.eval_big(root, 1);
    }

    fn big08(&mut self, k: usize) {
        self.reset();
        for i in 0..3 {
            let h = self.new_circuit(0);
            let s = self.big_size();
            let shape = if k % 2 == 0 { 0 } else { *self.rng.pick(&[4, 7, 2]) };
            let (mut rows, _, _) = self.big_file(shape, s);
            if i == 0 {
                // an operand that would be right modulo 2^8 or 2^16
                let last = rows.len() - 1;
                let r = (last.saturating_sub(40)..=last)
                    .rev()
                    .find(|r| rows[*r].last().map(|t| t["s"] == json!("XOR")).unwrap_or(false));
                if let Some(r) = r {
                    let off = *self.rng.pick(&[256usize, 65_536, 1 << 20, 1 << 24]);
                    let own = rows[0][1]["n"].as_u64().unwrap() as usize;
                    let v = (1..).map(|j| own - 1 + j).find(|x| x % off < 3 || *x > own + 2 * off).unwrap();
                    rows[r][2] = Self::tok(v.max(own));
                }
            } else if i == 1 {
                // no line defines the last output
                let r = rows.len() - 1;
                rows.remove(r);
            } else {
                self.corrupt(&mut rows);
            }
            self.emit(json!({"op": "read", "h": h, "rows": rows, "fmt": 0, "rd": i % 2}));
        }
    }

    fn write_big(&mut self, h: usize, what: &[&str], round: bool) {
        let nin = self.c(h).nin;
        let nc = self.c(h).nconst;
        let n = 6;
        let ins: Vec<i64> = (0..nin).map(|_| (self.rng.next() & ((1 << n) - 1)) as i64).collect();
        let all = nin + nc;
        let first = *self.rng.pick(&[0, 1, nin, all, 255, 256, 65_535, 65_536]);
        let first = first.min(all);
        let map = what.contains(&"wmap");
        let mut e = json!({"op": "write", "h": h, "first": first, "map": map, "what": what, "n": n, "ins": ins});
        if self.rng.bit() {
            e["sink"] = json!([*self.rng.pick(&[16, 1000, 8192, 70_000]), *self.rng.pick(&[100, 4096, 100_000]), -1]);
        }
        self.ok(e);
        if round {
            self.ok(json!({"op": "round", "h": h, "first": first, "map": false, "rd": 0, "n": n, "ins": ins}));
        }
    }

    pub fn big(&mut self, prop: &str, k: usize) {
        let s = self.big_size();
        match prop {
            "C01" => {
                let h = self.big_flat(k, s);
                self.eval_big(h, 2);
                if !self.dead {
                    // more of the circuit after the evaluations
                    self.dag(h, 40);
                    let n = self.c(h).n;
                    self.manyout(h, &[n - 1, n - 2]);
                    self.eval_big(h, 1);
                }
            }
            "C02" => {
                let h = self.big_modules(k, s);
                self.eval_big(h, 2);
            }
            "C03" => {
                let h = match k {
                    0..=4 => self.big_flat([7, 2, 3, 4, 6][k], s),
                    _ => self.big_modules([6, 7, 4][k - 5], s),
                };
                if self.dead {
                    return;
                }
                self.dag(h, 20);
                self.input(h);
                self.constant(h);
                self.derived(h);
                let n = self.c(h).n;
                let gs = self.sample(n, 200);
                self.ok(json!({"op": "viewat", "h": h, "gs": gs}));
                for o in ["lens", "consts", "io"] {
                    self.obs(o, h);
                }
                let (ni, no) = (self.c(h).nin, self.c(h).outs);
                for i in [0, 255, 256, 257, 65_535, 65_536, 65_537] {
                    if i < ni {
                        self.ok(json!({"op": "inp", "h": h, "i": i}));
                    }
                    if i < no {
                        self.ok(json!({"op": "outp", "h": h, "i": i}));
                    }
                }
            }
            "C04" => {
                match k {
                    0..=2 => self.doubling(17 + 3 * k),
                    3 => {
                        self.doubling(28);
                    }
                    _ => {
                        let h = match k {
                            4 => self.big_modules(0, s),
                            5 => self.big_modules(1, s),
                            6 => self.big_modules(5, s),
                            _ => self.big_flat(7, s),
                        };
                        self.obs("sizes", h);
                    }
                }
                for h in self.all_handles() {
                    if k != 5 || h < 20 {
                        self.observe("sizes", h);
                    }
                }
            }
            "C05" => {
                let h = match k {
                    0 => self.big_flat(0, s),
                    1 => self.big_flat(1, s),
                    2 => self.big_flat(6, s),
                    3 => self.big_flat(5, s),
                    4 => self.big_modules(8, s),
                    5 => self.big_modules(6, s),
                    6 => self.big_modules(7, s),
                    _ => self.big_modules(2, s),
                };
                if self.dead {
                    return;
                }
                let n = self.c(h).n;
                let mut gs = self.sample(n, 12);
                gs.extend([1, 2]);
                self.ok(json!({"op": "depsat", "h": h, "gs": gs}));
                // once more after another reader
                let g = gs[0];
                self.rows(h, vec![json!(["and", g, n - 1]), json!(["or", g, g])]);
                self.ok(json!({"op": "depsat", "h": h, "gs": [g, n - 1]}));
            }
            "C06" => self.big06(k),
            "C07" => {
                self.reset();
                let h = self.new_circuit(0);
                if k == 7 {
                    self.manyin(h, 300);
                    self.dag(h, 700);
                    self.few_outs(h, 5);
                }
                let (rows, nin, nout) = self.big_file(k, s);
                let fmt = if k % 2 == 0 { 0 } else { 1 + self.rng.next() % 1000 };
                self.read_rows(h, rows, nin, nout, fmt);
                self.obs("lens", h);
                self.eval_big(h, 2);
                if k == 4 || k == 7 {
                    let (rows, nin, nout) = self.big_file(k, s);
                    self.read_rows(h, rows, nin, nout, 0);
                    self.obs("lens", h);
                    self.eval_big(h, 1);
                }
            }
            "C08" => self.big08(k),
            "C09" => {
                let h = match k {
                    0..=4 => self.big_flat([0, 2, 3, 4, 7][k], s),
                    _ => self.big_modules([1, 2, 0][k - 5], s),
                };
                if self.dead {
                    return;
                }
                let w: &[&str] = if k % 2 == 0 { &["shape", "wmap"] } else { &["shape"] };
                self.write_big(h, w, false);
            }
            "C10" => {
                let h = match k {
                    0..=4 => self.big_flat([0, 2, 3, 4, 6][k], s),
                    _ => self.big_modules([1, 2, 0][k - 5], s),
                };
                if self.dead {
                    return;
                }
                self.write_big(h, &["fun"], true);
                self.eval_big(h, 1);
            }
            _ => {
                // C22: a large circuit and its copies
                let h = self.big_flat([0, 6, 7, 2, 3, 4, 1, 5][k], s);
                if self.dead {
                    return;
                }
                let d = self.copy(h);
                let e = self.clone_h(h);
                self.ok(json!({"op": "eq", "h": h, "h2": d}));
                let n = self.c(h).n;
                let (a, b) = (self.rng.below(n), self.rng.below(n));
                self.rows(h, vec![json!(["xor", a, b])]);
                self.ok(json!({"op": "eq", "h": h, "h2": d}));
                self.rows(d, vec![json!(["xor", a, (b + 1) % n])]);
                self.ok(json!({"op": "eq", "h": d, "h2": h}));
                self.ok(json!({"op": "eq", "h": e, "h2": h}));
                for x in [h, d, e] {
                    self.ok(json!({"op": "viewat", "h": x, "gs": [n, n - 1, 0, n / 2]}));
                    self.obs("lens", x);
                }
                self.manyout(d, &[n]);
                self.eval_big(h, 1);
                self.eval_big(d, 1);
            }
        }
    }
}
