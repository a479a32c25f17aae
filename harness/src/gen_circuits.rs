//! Random drivers for the circuit builder, evaluator, reader and writer (C01-C10, C22).
use crate::rng::Rng;
use crate::world::{World, NO_INPUT, NO_TEXT};
use serde_json::{json, Value};

#[path = "gen_big.rs"]
mod big;

#[derive(Clone)]
struct SC {
    store: usize,
    nin: usize,
    n: usize,
    outs: usize,
    nconst: usize,
    frozen: bool,
    flat: bool,
    has_read: bool,
    weight: usize, // gates after inlining
    calls: Vec<usize>,
}

pub struct Gen<'a> {
    w: World,
    pub out: &'a mut dyn FnMut(&Value),
    pub rng: Rng,
    circs: Vec<SC>,
    handles: Vec<usize>,
    stores: Vec<Vec<usize>>,
    dead: bool,
    style: usize,
}

const GONE: usize = usize::MAX;
const KINDS: [&str; 4] = ["not", "xor", "and", "or"];

impl<'a> Gen<'a> {
    pub fn new(rng: Rng, out: &'a mut dyn FnMut(&Value)) -> Self {
        Gen {
            w: World::new(),
            out,
            rng,
            circs: vec![],
            handles: vec![],
            stores: vec![],
            dead: false,
            style: 0,
        }
    }

    fn reset(&mut self) {
        self.dead = false;
        self.circs.clear();
        self.handles.clear();
        self.stores.clear();
        self.style = self.rng.below(5);
        self.emit(json!({"op": "reset"}));
    }

    fn emit(&mut self, e: Value) -> Value {
        if self.dead {
            return Value::Null;
        }
        let r = self.w.exec(&e);
        (self.out)(&r);
        r
    }

    /// A call that has to succeed; if it does not the rest of the scenario is pointless.
    fn ok(&mut self, e: Value) -> bool {
        let r = self.emit(e);
        if r["st"] != json!("ok") {
            self.dead = true;
        }
        !self.dead
    }

    // ---- building ----------------------------------------------------------------------------

    fn new_circuit(&mut self, s: usize) -> usize {
        if self.ok(json!({"op": "new", "s": s})) {
            let store = if s == 0 {
                self.stores.push(vec![]);
                self.stores.len() - 1
            } else {
                s - 1
            };
            self.add_circ(store);
        }
        self.handles.len()
    }

    fn add_circ(&mut self, store: usize) {
        self.circs.push(SC {
            store,
            nin: 0,
            n: 0,
            outs: 0,
            nconst: 0,
            frozen: false,
            flat: true,
            has_read: false,
            weight: 0,
            calls: vec![],
        });
        self.handles.push(self.circs.len() - 1);
    }

    fn sub(&mut self, h: usize) -> usize {
        let store = self.c(h).store;
        if self.ok(json!({"op": "sub", "h": h})) {
            self.add_circ(store);
            let ci = self.circs.len() - 1;
            self.stores[store].push(ci);
        }
        self.handles.len()
    }

    fn reg(&mut self, h: usize, h2: usize) {
        let store = self.c(h).store;
        let ci = self.handles[h2 - 1];
        if self.ok(json!({"op": "reg", "h": h, "h2": h2})) {
            self.stores[store].push(ci);
        }
    }

    fn clone_h(&mut self, h: usize) -> usize {
        let ci = self.handles[h - 1];
        if self.ok(json!({"op": "clone", "h": h})) {
            self.handles.push(ci);
        }
        self.handles.len()
    }

    fn copy(&mut self, h: usize) -> usize {
        let mut c = self.c(h).clone();
        c.frozen = false;
        if self.ok(json!({"op": "copy", "h": h})) {
            self.circs.push(c);
            self.handles.push(self.circs.len() - 1);
        }
        self.handles.len()
    }

    fn getmod(&mut self, h: usize, m: usize) -> usize {
        let ci = self.stores[self.c(h).store][m];
        if self.ok(json!({"op": "getmod", "h": h, "m": m})) {
            self.handles.push(ci);
        }
        self.handles.len()
    }

    /// Lets go of a handle; what it denotes stays as long as something else needs it.
    fn drop_h(&mut self, h: usize) {
        if self.ok(json!({"op": "drop", "h": h})) {
            self.handles[h - 1] = GONE;
        }
    }

    fn live(&self) -> Vec<usize> {
        (1..=self.handles.len()).filter(|h| self.handles[h - 1] != GONE).collect()
    }

    fn any_handle(&mut self) -> usize {
        let l = self.live();
        *self.rng.pick(&l)
    }

    /// Lets go of some of the handles hs.
    fn drop_some(&mut self, hs: &mut Vec<usize>) {
        let k = self.rng.range(1, hs.len());
        for _ in 0..k {
            let i = self.rng.below(hs.len());
            let h = hs.swap_remove(i);
            self.drop_h(h);
        }
    }

    fn c(&self, h: usize) -> &SC {
        &self.circs[self.handles[h - 1]]
    }
    fn cm(&mut self, h: usize) -> &mut SC {
        let i = self.handles[h - 1];
        &mut self.circs[i]
    }

    fn input(&mut self, h: usize) {
        if self.ok(json!({"op": "in", "h": h})) {
            self.cm(h).nin += 1;
            self.cm(h).n += 1;
        }
    }

    fn constant(&mut self, h: usize) {
        let v = self.rng.below(2);
        if self.ok(json!({"op": "const", "h": h, "v": v})) {
            self.cm(h).nconst += 1;
            self.cm(h).n += 1;
        }
    }

    fn operand(&mut self, n: usize) -> usize {
        match self.style {
            0 => self.rng.below(n),
            1 => n - 1 - self.rng.below(n.min(3)),
            2 => {
                if self.rng.chance(1, 3) {
                    self.rng.below(n.min(3))
                } else {
                    self.rng.below(n)
                }
            }
            3 => {
                if self.rng.chance(2, 3) {
                    n - 1
                } else {
                    self.rng.below(n)
                }
            }
            _ => {
                if self.rng.chance(1, 2) {
                    n - 1 - self.rng.below(n.min(6))
                } else {
                    self.rng.below(n)
                }
            }
        }
    }

    fn rand_gate_row(&mut self, n: usize) -> Value {
        let k = *self.rng.pick(&["not", "xor", "and", "or", "xor", "and", "or"]);
        let a = self.operand(n);
        if k == "not" {
            json!([k, a])
        } else {
            let b = if self.rng.chance(1, 8) { a } else { self.operand(n) };
            json!([k, a, b])
        }
    }

    fn gate(&mut self, h: usize) {
        let n = self.c(h).n;
        if n == 0 {
            return self.constant(h);
        }
        let row = self.rand_gate_row(n);
        let row = row.as_array().unwrap();
        if self.ok(json!({"op": "gate", "h": h, "k": row[0], "a": &row[1..]})) {
            self.cm(h).n += 1;
            self.cm(h).weight += 1;
        }
    }

    fn many(&mut self, h: usize, count: usize) {
        let mut n = self.c(h).n;
        if n == 0 {
            return self.constant(h);
        }
        let mut gs = Vec::new();
        for _ in 0..count {
            gs.push(self.rand_gate_row(n));
            n += 1;
        }
        if self.ok(json!({"op": "many", "h": h, "gs": gs})) {
            self.cm(h).n = n;
            self.cm(h).weight += count;
        }
    }

    fn derived(&mut self, h: usize) {
        let n = self.c(h).n;
        if n == 0 {
            return self.input(h);
        }
        let a = self.operand(n);
        let b = if self.rng.chance(1, 6) { a } else { self.operand(n) };
        let e = if self.rng.bit() {
            json!({"op": "derived", "h": h, "k": "equiv", "a": [a, b]})
        } else {
            json!({"op": "derived", "h": h, "k": "ident", "a": [a]})
        };
        let r = self.emit(e);
        match r["gs"].as_array() {
            Some(gs) if r["st"] == json!("ok") => {
                let k = gs.len();
                self.cm(h).n += k;
                self.cm(h).weight += k;
            }
            _ => self.dead = true,
        }
    }

    fn output_gate(&mut self, h: usize, g: usize) {
        if self.ok(json!({"op": "out", "h": h, "g": g})) {
            self.cm(h).outs += 1;
        }
    }

    fn output(&mut self, h: usize) {
        let n = self.c(h).n;
        if n == 0 {
            return;
        }
        let g = if self.rng.chance(1, 2) { self.operand(n) } else { self.rng.below(n) };
        self.output_gate(h, g);
    }

    /// Modules that circuit h may call: not itself, not its callers (calls freeze the callee).
    fn callable(&self, h: usize) -> Vec<usize> {
        let me = self.handles[h - 1];
        let s = &self.stores[self.c(h).store];
        (0..s.len())
            .filter(|m| s[*m] != me && !self.reaches(s[*m], me, 0))
            .filter(|m| self.circs[s[*m]].weight + self.c(h).weight < 4000)
            .collect()
    }

    fn reaches(&self, from: usize, to: usize, d: usize) -> bool {
        from == to || (d < 20 && self.circs[from].calls.iter().any(|c| self.reaches(*c, to, d + 1)))
    }

    fn call_with(&mut self, h: usize, m: usize, a: &[usize]) {
        let ci = self.stores[self.c(h).store][m];
        let (no, nc, wt) = {
            let c = &self.circs[ci];
            (c.outs, c.nconst, c.weight)
        };
        if self.ok(json!({"op": "call", "h": h, "m": m, "a": a})) {
            let c = self.cm(h);
            c.n += no;
            c.nconst += nc;
            c.weight += wt + 1;
            c.flat = false;
            c.calls.push(ci);
            self.circs[ci].frozen = true;
        }
    }

    fn call(&mut self, h: usize) {
        let ms = self.callable(h);
        if ms.is_empty() {
            return self.gate(h);
        }
        let m = if self.rng.chance(1, 2) { ms[ms.len() - 1] } else { *self.rng.pick(&ms) };
        let ci = self.stores[self.c(h).store][m];
        let nin = self.circs[ci].nin;
        let n = self.c(h).n;
        if n == 0 && nin > 0 {
            return self.input(h);
        }
        let mut a: Vec<usize> = Vec::new();
        for i in 0..nin {
            if i > 0 && self.rng.chance(1, 5) {
                let x = a[self.rng.below(i)];
                a.push(x);
            } else {
                a.push(self.operand(n));
            }
        }
        self.call_with(h, m, &a)
    }

    fn step(&mut self, h: usize, calls: bool) {
        if self.c(h).frozen || self.c(h).has_read {
            return;
        }
        let r = self.rng.below(100);
        let nin = self.c(h).nin;
        if r < 8 && nin < 6 {
            self.input(h)
        } else if r < 14 {
            self.constant(h)
        } else if r < 22 {
            self.derived(h)
        } else if r < 32 {
            self.output(h)
        } else if r < 48 && calls {
            self.call(h)
        } else {
            self.gate(h)
        }
    }

    // ---- observing ---------------------------------------------------------------------------

    /// Assignments as lane words, at most 30 lanes at a time: all of them if there are few inputs.
    fn lane_sets(&mut self, nin: usize, max_sets: usize) -> Vec<(usize, Vec<i64>)> {
        let mut sets = Vec::new();
        if nin <= 8 && (1usize << nin) <= max_sets * 30 {
            let total = 1usize << nin;
            let mut s = 0;
            while s < total {
                let n = (total - s).min(30);
                let ins = (0..nin)
                    .map(|i| (0..n).map(|k| (((s + k) >> i) as i64 & 1) << k).sum())
                    .collect();
                sets.push((n, ins));
                s += n;
            }
        } else {
            for _ in 0..max_sets {
                let n = 30;
                let ins = (0..nin).map(|_| (self.rng.next() & ((1 << n) - 1)) as i64).collect();
                sets.push((n, ins));
            }
        }
        sets
    }

    fn eval(&mut self, h: usize, max_sets: usize) {
        let nin = self.c(h).nin;
        for (n, ins) in self.lane_sets(nin, max_sets) {
            let ev = self.rng.below(2);
            if !self.ok(json!({"op": "eval", "h": h, "n": n, "ins": ins, "ev": ev})) {
                return;
            }
        }
    }

    fn all_handles(&self) -> Vec<usize> {
        // one handle per circuit
        let mut seen = Vec::new();
        (1..=self.handles.len())
            .filter(|h| {
                let c = self.handles[h - 1];
                let new = c != GONE && !seen.contains(&c);
                seen.push(c);
                new
            })
            .collect()
    }

    fn obs(&mut self, op: &str, h: usize) {
        self.ok(json!({"op": op, "h": h}));
    }

    // ---- scenarios ---------------------------------------------------------------------------

    /// C01: flat circuits.
    fn flat(&mut self, size: usize) -> usize {
        let h = self.new_circuit(0);
        let nin = *self.rng.pick(&[0, 1, 2, 2, 3, 3, 4, 5, 6]);
        let early = self.rng.range(0, nin);
        for _ in 0..early {
            self.input(h);
        }
        for _ in 0..size {
            self.step(h, false);
            if self.rng.chance(1, 25) {
                self.eval(h, 1);
            }
        }
        while !self.dead && self.c(h).nin < nin {
            self.input(h);
            if self.rng.bit() {
                self.gate(h);
            }
        }
        let outs = self.rng.range(0, 4);
        for _ in 0..outs {
            self.output(h);
        }
        h
    }

    fn s01(&mut self) {
        self.reset();
        if self.rng.chance(1, 10) {
            let h = self.new_circuit(0);
            let nin = self.rng.range(3, 16);
            for _ in 0..nin {
                self.input(h);
            }
            let cnt = self.rng.range(50, 400);
            self.many(h, cnt);
            for _ in 0..8 {
                self.output(h);
            }
            self.eval(h, 2);
            return;
        }
        let size = self.rng.range(1, 30);
        let h = self.flat(size);
        self.eval(h, 3);
        if self.rng.chance(1, 3) {
            // later evaluations, also after more gates and outputs
            self.gate(h);
            self.output(h);
            self.eval(h, 2);
            self.input(h);
            self.eval(h, 2);
        }
    }

    /// A hierarchy of modules below a root; returns the handles of all circuits, root last.
    fn hierarchy(&mut self, nmods: usize) -> Vec<usize> {
        let root = self.new_circuit(0);
        let mut hs = Vec::new();
        for _ in 0..nmods {
            if self.dead {
                return hs;
            }
            let h = match self.rng.below(8) {
                // a circuit with a registry of its own, with a module there, registered in the root's
                0 => {
                    let h = self.new_circuit(0);
                    let k = self.rng.range(0, 2);
                    for _ in 0..k {
                        let g = self.sub(h);
                        self.body(g);
                        hs.push(g);
                    }
                    h
                }
                1 if !hs.is_empty() => {
                    let x = *self.rng.pick(&hs);
                    self.sub(x)
                }
                _ => self.sub(root),
            };
            self.body(h);
            if self.dead {
                return hs;
            }
            if self.c(h).store != self.c(root).store || self.rng.chance(1, 8) {
                self.reg(root, h);
            }
            hs.push(h);
        }
        let nin = self.rng.range(1, 4);
        for _ in 0..nin {
            self.input(root);
        }
        hs.push(root);
        hs
    }

    fn body(&mut self, h: usize) {
        if self.rng.chance(1, 8) {
            return self.read_clean(h, 6);
        }
        let nin = *self.rng.pick(&[0, 1, 1, 2, 2, 3, 4]);
        for _ in 0..nin {
            self.input(h);
        }
        let k = self.rng.range(0, 7);
        for _ in 0..k {
            if self.rng.chance(1, 4) {
                self.call(h);
            } else if self.rng.chance(1, 6) {
                self.constant(h);
            } else {
                self.gate(h);
            }
        }
        let o = *self.rng.pick(&[0, 1, 1, 2, 2, 3, 4]);
        for _ in 0..o {
            self.output(h);
        }
    }

    fn s02(&mut self) {
        self.reset();
        let nm = self.rng.range(1, 5);
        let hs = self.hierarchy(nm);
        if self.dead {
            return;
        }
        let root = *hs.last().unwrap();
        let k = self.rng.range(1, 8);
        for _ in 0..k {
            if self.rng.chance(2, 3) {
                self.call(root);
            } else {
                self.gate(root);
            }
        }
        let o = self.rng.range(1, 5);
        for _ in 0..o {
            self.output(root);
        }
        if self.dead {
            return;
        }
        let mut kept = hs.clone();
        kept.pop();
        if !kept.is_empty() && self.rng.chance(1, 3) {
            // the root and its registry keep the modules it calls
            self.drop_some(&mut kept);
        }
        // what the modules themselves compute, and what identifiers denote
        self.eval(root, 2);
        let nmods = self.stores[self.c(root).store].len();
        if nmods > 0 && self.rng.bit() {
            let m = self.rng.below(nmods);
            let g = self.getmod(root, m);
            self.eval(g, 1);
        }
        if self.rng.bit() {
            let x = self.sub(root);
            self.body(x);
            if self.dead {
                return;
            }
            self.call(root);
            self.output(root);
            kept.push(root);
            let any = *self.rng.pick(&kept);
            if !self.dead {
                self.eval(any, 1);
            }
            self.eval(root, 2);
        }
    }

    /// A mix of everything; obs(self, h) after every step and on all circuits at the end.
    fn mixed(&mut self, len: usize, each: &[&str], end: &[&str]) {
        self.reset();
        let root = if self.rng.chance(1, 3) {
            let nm = self.rng.range(1, 3);
            let hs = self.hierarchy(nm);
            if self.dead {
                return;
            }
            *hs.last().unwrap()
        } else {
            self.new_circuit(0)
        };
        for _ in 0..len {
            if self.dead {
                return;
            }
            let h = if self.rng.chance(1, 4) { self.any_handle() } else { root };
            match self.rng.below(30) {
                0 => {
                    let g = self.sub(h);
                    if self.rng.bit() {
                        self.body(g);
                    }
                }
                6 if h != root && self.rng.chance(1, 2) => {
                    self.drop_h(h);
                    continue;
                }
                1 if self.handles.len() < 12 => {
                    self.clone_h(h);
                }
                2 if self.handles.len() < 12 => {
                    self.copy(h);
                }
                3 => {
                    let h2 = self.any_handle();
                    self.reg(h, h2);
                }
                4 if self.handles.len() < 10 => {
                    let s = self.rng.below(self.stores.len() + 1);
                    self.new_circuit(s);
                }
                5 => {
                    let n = self.stores[self.c(h).store].len();
                    if n > 0 {
                        let m = self.rng.below(n);
                        self.getmod(h, m);
                    }
                }
                _ => self.step(h, true),
            }
            if self.dead {
                return;
            }
            let hh = if self.rng.bit() { h } else { self.any_handle() };
            for o in each {
                self.observe(o, hh);
            }
        }
        for h in self.all_handles() {
            for o in end {
                self.observe(o, h);
            }
        }
    }

    fn observe(&mut self, o: &str, h: usize) {
        if self.dead {
            return;
        }
        let rd = self.c(h).has_read;
        let n = self.c(h).n;
        match o {
            "eval" => {
                if self.c(h).nin <= 8 {
                    self.eval(h, 1)
                }
            }
            "view" | "deps" => {
                if n > 0 && !rd {
                    let g = if self.rng.bit() { n - 1 } else { self.rng.below(n) };
                    self.ok(json!({"op": o, "h": h, "g": g}));
                }
            }
            "inp" | "outp" => {
                let k = if o == "inp" { self.c(h).nin } else { self.c(h).outs };
                if k > 0 && !rd {
                    let i = self.rng.below(k);
                    self.ok(json!({"op": o, "h": h, "i": i}));
                }
            }
            "lens" | "nummod" => self.obs(o, h),
            _ => {
                if !rd {
                    self.obs(o, h)
                }
            }
        }
    }

    fn s03(&mut self) {
        let len = self.rng.range(5, 30);
        self.mixed(len, &["view", "inp", "outp"], &["views", "arities", "nummod", "io", "consts", "lens"]);
    }
    fn s04(&mut self) {
        let len = self.rng.range(5, 30);
        self.mixed(len, &["sizes"], &["sizes"]);
    }
    fn s05(&mut self) {
        let len = self.rng.range(5, 30);
        self.mixed(len, &["deps"], &["alldeps"]);
    }

    // ---- C06: misuse -------------------------------------------------------------------------

    fn misuse(&mut self, h: usize) {
        if self.dead || self.c(h).has_read {
            return;
        }
        let (n, nin, outs, store, frozen) = {
            let c = self.c(h);
            (c.n, c.nin, c.outs, c.store, c.frozen)
        };
        let nm = self.stores[store].len();
        let far = |r: &mut Rng| *r.pick(&[0usize, 1, 2, 7, 100, 100_000]);
        let f = far(&mut self.rng);
        match self.rng.below(9) {
            0 if !frozen => {
                self.emit(json!({"op": "out", "h": h, "g": n + f}));
            }
            1 if !frozen => {
                let a: Vec<usize> = (0..self.rng.below(4)).map(|i| if n == 0 { 0 } else { i % n }).collect();
                self.emit(json!({"op": "call", "h": h, "m": nm + f, "a": a}));
            }
            2 | 3 if !frozen && nm > 0 && n > 0 => {
                let m = self.rng.below(nm);
                let ci = self.stores[store][m];
                if ci == self.handles[h - 1] {
                    // a circuit does not call itself
                    let k = *self.rng.pick(&[nin, nin, nin + 1, nin.saturating_sub(1)]);
                    let a: Vec<usize> = (0..k).map(|_| self.rng.below(n)).collect();
                    self.emit(json!({"op": "call", "h": h, "m": m, "a": a}));
                    return;
                }
                let want = self.circs[ci].nin;
                let have = *self.rng.pick(&[0, want + 1, want.saturating_sub(1), want * 2, want + 3]);
                if have != want {
                    let a: Vec<usize> = (0..have).map(|_| self.rng.below(n)).collect();
                    self.emit(json!({"op": "call", "h": h, "m": m, "a": a}));
                }
            }
            4 => {
                self.emit(json!({"op": "view", "h": h, "g": n + f}));
            }
            5 => {
                self.emit(json!({"op": "inp", "h": h, "i": nin + f}));
            }
            6 => {
                self.emit(json!({"op": "outp", "h": h, "i": outs + f}));
            }
            7 => {
                self.emit(json!({"op": "getmod", "h": h, "m": nm + f}));
            }
            _ => {
                let have = *self.rng.pick(&[0, nin + 1, nin.saturating_sub(1), nin * 2, nin + 40]);
                if have != nin {
                    let ins: Vec<i64> = (0..have).map(|_| self.rng.below(2) as i64).collect();
                    let ev = self.rng.below(2);
                    self.emit(json!({"op": "eval", "h": h, "n": 1, "ins": ins, "ev": ev}));
                }
            }
        }
    }

    fn s06(&mut self) {
        if self.rng.chance(1, 3) {
            return self.dangling();
        }
        self.reset();
        let nm = self.rng.range(1, 3);
        let hs = self.hierarchy(nm);
        if self.dead {
            return;
        }
        let root = *hs.last().unwrap();
        let k = self.rng.range(3, 12);
        for _ in 0..k {
            if self.dead {
                return;
            }
            if self.rng.chance(1, 10) {
                let h = *self.rng.pick(&hs);
                self.copy(h);
            }
            let h = if self.rng.bit() { root } else { self.any_handle() };
            self.step(h, true);
            for _ in 0..self.rng.range(1, 3) {
                if self.rng.chance(1, 3) {
                    self.alien_misuse(h);
                } else {
                    self.misuse(h);
                }
            }
            if self.dead {
                return;
            }
            for o in ["views", "nummod", "sizes", "io", "alldeps"] {
                self.observe(o, h);
            }
        }
        for h in self.all_handles() {
            for o in ["views", "arities", "nummod", "sizes", "io", "alldeps", "eval"] {
                self.observe(o, h);
            }
        }
    }

    fn dangling(&mut self) {
        self.reset();
        let h = self.new_circuit(0);
        let nin = self.rng.range(1, 3);
        for _ in 0..nin {
            self.input(h);
        }
        let k = self.rng.range(0, 4);
        for _ in 0..k {
            self.gate(h);
        }
        if self.dead {
            return;
        }
        let n = self.c(h).n;
        let far = match self.rng.bit() {
            true => 1_000_000 + self.rng.below(50),
            false => self.alien(n) as usize,
        };
        let good = self.rng.below(n);
        let kind = *self.rng.pick(&KINDS);
        let a = match (kind, self.rng.below(3)) {
            ("not", _) => vec![far],
            (_, 0) => vec![far, good],
            (_, 1) => vec![good, far],
            _ => vec![far, far],
        };
        let r = if self.rng.chance(1, 4) {
            let m = self.sub(h);
            self.body(m);
            if self.dead {
                return;
            }
            let nin = self.c(m).nin;
            if nin == 0 || self.c(m).outs == 0 {
                return;
            }
            let mut a: Vec<usize> = (0..nin).map(|_| self.rng.below(n)).collect();
            let p = self.rng.below(nin);
            a[p] = far;
            let mi = self.stores[self.c(h).store].len() - 1;
            let r = self.emit(json!({"op": "call", "h": h, "m": mi, "a": a}));
            if r["st"] == json!("ok") {
                let no = self.c(m).outs;
                let ci = self.handles[m - 1];
                self.circs[ci].frozen = true;
                self.cm(h).n += no;
                self.cm(h).flat = false;
            }
            r
        } else {
            let r = self.emit(json!({"op": "gate", "h": h, "k": kind, "a": a}));
            if r["st"] == json!("ok") {
                self.cm(h).n += 1;
            }
            r
        };
        if r["st"] != json!("ok") {
            return;
        }
        // a good output, then maybe one that needs the unknown gate
        self.output_gate(h, good);
        let bad = self.c(h).n - 1;
        for _ in 0..self.rng.below(4) {
            self.gate(h);
        }
        if self.rng.bit() {
            let t = self.rng.below(self.c(h).n);
            self.output_gate(h, t);
        } else {
            self.output_gate(h, bad);
        }
        let (n, ins) = self.lane_sets(nin, 1).remove(0);
        self.emit(json!({"op": "eval", "h": h, "n": n, "ins": ins, "ev": 0}));
        self.emit(json!({"op": "write", "h": h, "first": 0, "map": false, "what": ["fun"], "n": n, "ins": ins}));
        self.emit(json!({"op": "eval", "h": h, "n": n, "ins": ins, "ev": 1}));
        self.obs("views", h);
    }

    // ---- files -------------------------------------------------------------------------------

    fn tok(n: usize) -> Value {
        json!({"n": n, "s": n.to_string()})
    }
    fn row(ns: &[usize]) -> Vec<Value> {
        ns.iter().map(|n| Self::tok(*n)).collect()
    }

    /// A random well-formed file as rows of tokens.
    fn file(&mut self, max_gates: usize, min_in: usize) -> (Vec<Vec<Value>>, usize, usize) {
        loop {
            let groups = self.rng.range(if min_in > 0 { 1 } else { 0 }, 3);
            let mut ins: Vec<usize> = (0..groups).map(|_| self.rng.range(0, 3)).collect();
            if min_in > 0 && ins.iter().sum::<usize>() < min_in {
                ins[0] += min_in;
            }
            let nin: usize = ins.iter().sum();
            let ng = self.rng.range(0, max_gates);
            let nw = nin + ng;
            if nw == 0 {
                continue;
            }
            // wires of the gates, in any order
            let mut wires: Vec<usize> = (nin..nw).collect();
            if self.rng.bit() {
                self.rng.shuffle(&mut wires);
            }
            let mut defined: Vec<usize> = (0..nin).collect();
            let mut lines = Vec::new();
            for o in wires {
                let d = defined.len();
                let t = if d == 0 {
                    "EQ"
                } else {
                    *self.rng.pick(&["INV", "XOR", "AND", "OR", "XOR", "AND", "OR", "EQW", "EQ"])
                };
                let pick = |s: &mut Self| {
                    let i = s.operand(d);
                    defined[i]
                };
                let a: Vec<usize> = match t {
                    "EQ" => vec![self.rng.below(2)],
                    "INV" | "EQW" => vec![pick(self)],
                    _ => vec![pick(self), pick(self)],
                };
                let mut r = Self::row(&[a.len(), 1]);
                r.extend(Self::row(&a));
                r.push(Self::tok(o));
                r.push(json!({"n": -1, "s": t}));
                lines.push(r);
                defined.push(o);
            }
            // outputs: the last wires, in groups
            let nout = self.rng.range(0, nw.min(6));
            let mut outs = Vec::new();
            let mut left = nout;
            while left > 0 {
                let k = self.rng.range(1, left);
                outs.push(k);
                left -= k;
            }
            if self.rng.chance(1, 6) {
                outs.push(0);
            }
            let mut rows = vec![Self::row(&[ng, nw])];
            rows.push(Self::row(&[&[ins.len()], &ins[..]].concat()));
            rows.push(Self::row(&[&[outs.len()], &outs[..]].concat()));
            rows.push(vec![]);
            rows.extend(lines);
            for _ in 0..*self.rng.pick(&[0, 0, 1, 2]) {
                rows.push(vec![]);
            }
            return (rows, nin, nout);
        }
    }

    fn read_clean(&mut self, h: usize, max_gates: usize) {
        let (rows, nin, nout) = self.file(max_gates, 0);
        let eqs = rows
            .iter()
            .filter(|r| r.last().map(|t| t["s"] == json!("EQ")).unwrap_or(false))
            .count();
        let fmt = if self.rng.chance(1, 2) { 0 } else { self.rng.next() % 1000 };
        let rd = self.rng.below(2);
        let ng = rows.len();
        if self.ok(json!({"op": "read", "h": h, "rows": rows, "fmt": fmt, "rd": rd})) {
            let c = self.cm(h);
            c.nin += nin;
            c.outs += nout;
            c.nconst += eqs;
            c.has_read = true;
            c.flat = false;
            c.weight += ng;
        }
    }

    fn s07(&mut self) {
        self.reset();
        let h = self.new_circuit(0);
        if self.rng.chance(1, 3) {
            // into a circuit that is already in use
            for _ in 0..self.rng.range(1, 8) {
                self.step(h, false);
            }
        }
        let times = *self.rng.pick(&[1, 1, 1, 2, 3]);
        for _ in 0..times {
            if self.dead {
                return;
            }
            let mg = *self.rng.pick(&[3, 8, 20]);
            self.read_clean(h, mg);
            self.obs("lens", h);
            self.eval(h, 3);
        }
        // as a module
        if self.rng.chance(1, 4) && !self.dead && self.c(h).nin <= 6 {
            let r = self.new_circuit(0);
            self.reg(r, h);
            for _ in 0..2 {
                self.input(r);
            }
            self.call(r);
            for _ in 0..3 {
                self.output(r);
            }
            self.eval(r, 2);
        }
    }

    /// One corruption of a well-formed file.  The specification decides what it amounts to.
    fn corrupt(&mut self, rows: &mut Vec<Vec<Value>>) {
        let nlines = rows.iter().skip(4).filter(|r| !r.is_empty()).count();
        let junk = |r: &mut Rng| {
            let s = *r.pick(&["x", "-1", "1.5", "XOR", "0x1", "INVX", "?", "1a"]);
            json!({"n": -1, "s": s})
        };
        let gate_row = |s: &mut Self| if nlines == 0 { 2 } else { 4 + s.rng.below(nlines) };
        match self.rng.below(16) {
            14 | 15 => {
                // a byte that is no text, or a place where reading fails
                let r = if self.rng.bit() { self.rng.below(3) } else { gate_row(self) };
                let k = self.rng.below(rows[r].len() + 1);
                let s = if self.rng.bit() { NO_TEXT } else { NO_INPUT };
                let t = json!({"n": -1, "s": s});
                if k == rows[r].len() || self.rng.bit() {
                    rows[r].insert(k, t);
                } else {
                    rows[r][k] = t;
                }
            }
            12 | 13 => {
                // a number that is far too great
                let r = if self.rng.bit() { self.rng.below(3) } else { gate_row(self) };
                let k = self.rng.below(rows[r].len());
                if !rows[r].is_empty() {
                    let s = *self.rng.pick(&["1000000000", "4294967297", "9223372036854775807", "18446744073709551615"]);
                    rows[r][k] = json!({"n": 1_000_000_000, "s": s});
                }
            }
            0 => {
                // truncate the file
                let k = self.rng.below(rows.len());
                rows.truncate(k);
            }
            1 => {
                // drop a header token
                let r = self.rng.below(3);
                let k = self.rng.below(rows[r].len());
                rows[r].remove(k);
            }
            2 => {
                // a header token that is not a number
                let r = self.rng.below(3);
                let k = self.rng.below(rows[r].len());
                rows[r][k] = junk(&mut self.rng);
            }
            3 => {
                // truncate a gate line
                let r = gate_row(self);
                let k = self.rng.range(1, rows[r].len().max(2) - 1);
                rows[r].truncate(k);
            }
            4 => {
                // a token of a gate line that is not what it should be
                let r = gate_row(self);
                let k = self.rng.below(rows[r].len());
                rows[r][k] = junk(&mut self.rng);
            }
            5 | 6 => {
                // an operand that is not defined (yet)
                let r = gate_row(self);
                if rows[r].len() >= 5 && rows[r].last().unwrap()["s"] != json!("EQ") {
                    let k = self.rng.range(2, rows[r].len() - 3);
                    let wire = |row: Option<&Vec<Value>>| {
                        row.filter(|x| x.len() >= 2)
                            .and_then(|x| x[x.len() - 2]["n"].as_u64())
                            .map(|x| x as usize)
                    };
                    let own = wire(rows.get(r)).unwrap_or(0);
                    let later = wire(rows.get(r + 1)).unwrap_or(own);
                    let far = 1000 + self.rng.below(1000);
                    let v = *self.rng.pick(&[own, later, far]);
                    rows[r][k] = Self::tok(v);
                }
            }
            7 => {
                // an unknown gate
                let r = gate_row(self);
                let s = *self.rng.pick(&["NAND", "xor", "MAND", "NOT", "inv", "XNOR", "AN", "ORX", "EQQ"]);
                if let Some(t) = rows[r].last_mut() {
                    *t = json!({"n": -1, "s": s});
                }
            }
            8 => {
                // the wrong number of operands for the gate
                let r = gate_row(self);
                if rows[r].len() >= 5 {
                    let two = rows[r].len() == 6;
                    let s = if two { *self.rng.pick(&["INV", "EQW"]) } else { *self.rng.pick(&["XOR", "AND", "OR"]) };
                    *rows[r].last_mut().unwrap() = json!({"n": -1, "s": s});
                }
            }
            9 => {
                // operand or result counts that are consistent with the line but not with the gate
                let r = gate_row(self);
                if rows[r].len() >= 5 {
                    match self.rng.below(3) {
                        0 => {
                            let x = rows[r][2].clone();
                            let n = rows[r][0]["n"].as_u64().unwrap_or(1) as usize;
                            rows[r].insert(2, x);
                            rows[r][0] = Self::tok(n + 1);
                        }
                        1 => {
                            let n = rows[r][0]["n"].as_u64().unwrap_or(1) as usize;
                            rows[r].remove(2);
                            rows[r][0] = Self::tok(n.saturating_sub(1));
                        }
                        _ => {
                            let k = rows[r].len() - 1;
                            let w = Self::tok(900 + self.rng.below(9));
                            rows[r].insert(k, w);
                            rows[r][1] = Self::tok(2);
                        }
                    }
                }
            }
            10 => {
                // more outputs than wires, or wires that nothing defines
                if self.rng.bit() {
                    let nw = rows[0][1]["n"].as_u64().unwrap_or(1) as usize;
                    let x = nw + 1 + self.rng.below(5);
                    rows[2] = Self::row(&[1, x]);
                } else {
                    let nw = rows[0][1]["n"].as_u64().unwrap_or(1) as usize;
                    rows[0][1] = Self::tok(nw + 1 + self.rng.below(3));
                }
            }
            _ => {
                // a gate line disappears
                if nlines > 0 {
                    let r = gate_row(self);
                    rows.remove(r);
                }
            }
        }
    }

    fn s08(&mut self) {
        self.reset();
        for _ in 0..3 {
            let h = self.new_circuit(0);
            if self.rng.chance(1, 2) {
                // into a circuit that is already in use
                for _ in 0..self.rng.range(1, 8) {
                    self.step(h, false);
                }
                for _ in 0..self.rng.below(3) {
                    self.output(h);
                }
            }
            if self.dead {
                return;
            }
            let mg = *self.rng.pick(&[1, 3, 8]);
            let (mut rows, _, _) = self.file(mg, 1);
            self.corrupt(&mut rows);
            let rd = self.rng.below(2);
            self.emit(json!({"op": "read", "h": h, "rows": rows, "fmt": 0, "rd": rd}));
            // what the circuit had is still there
            let nin = self.c(h).nin;
            for (n, ins) in self.lane_sets(nin, 1) {
                self.ok(json!({"op": "probe", "h": h, "n": n, "ins": ins}));
            }
            for o in ["view", "deps", "inp", "outp"] {
                if self.rng.bit() {
                    self.observe(o, h);
                }
            }
        }
        // the reader is still good
        if self.rng.chance(1, 2) {
            let h = self.new_circuit(0);
            self.read_clean(h, 8);
            self.eval(h, 2);
        }
    }

    /// A circuit to write: flat or with modules.
    fn subject(&mut self) -> usize {
        if self.rng.chance(1, 2) {
            let size = *self.rng.pick(&[1, 2, 4, 8, 16, 30]);
            let h = self.flat(size);
            if !self.dead && self.c(h).outs == 0 && self.rng.chance(3, 4) {
                self.output(h);
            }
            h
        } else {
            let nm = self.rng.range(1, 4);
            let hs = self.hierarchy(nm);
            if self.dead {
                return 1;
            }
            let root = *hs.last().unwrap();
            let k = self.rng.range(1, 6);
            for _ in 0..k {
                if self.rng.chance(2, 3) {
                    self.call(root);
                } else if self.rng.chance(1, 5) {
                    self.constant(root);
                } else {
                    self.gate(root);
                }
            }
            let o = self.rng.range(1, 5);
            for _ in 0..o {
                self.output(root);
            }
            root
        }
    }

    fn first(&mut self, h: usize) -> usize {
        let c = self.c(h);
        let all = c.nin + c.nconst;
        let nin = c.nin;
        match self.rng.below(4) {
            0 => 0,
            1 => all,
            2 => nin,
            _ => self.rng.range(0, all),
        }
    }

    fn s09(&mut self) {
        self.reset();
        let h = self.subject();
        if self.dead {
            return;
        }
        for _ in 0..2 {
            let first = self.first(h);
            let map = self.rng.bit();
            let nin = self.c(h).nin;
            let (n, ins) = self.lane_sets(nin, 1).remove(0);
            let wr = self.rng.below(4);
            let what = if map { json!(["shape", "wmap"]) } else { json!(["shape"]) };
            let mut e = json!({"op": "write", "h": h, "first": first, "map": map, "wr": wr & 1, "mk": wr >> 1, "what": what, "n": n, "ins": ins});
            if self.rng.chance(1, 4) {
                // to a place that takes a few bytes at a time, or refuses some
                let cap = *self.rng.pick(&[1, 2, 7, 16, 64, 300]);
                let step = *self.rng.pick(&[1, 3, 10, 1000]);
                let fail = if self.rng.bit() { -1 } else { self.rng.range(0, 120) as i64 };
                e["sink"] = json!([cap, step, fail]);
            }
            if e["sink"][2].as_i64().unwrap_or(-1) >= 0 {
                self.emit(e);
            } else {
                self.ok(e);
            }
            if self.dead {
                return;
            }
        }
    }

    fn s10(&mut self) {
        self.reset();
        let h = if self.rng.chance(1, 6) {
            let h = self.new_circuit(0);
            self.read_clean(h, 12);
            h
        } else {
            self.subject()
        };
        if self.dead {
            return;
        }
        let before = self.rng.bit();
        if before {
            self.eval(h, 1);
        }
        let nin = self.c(h).nin;
        let rd = self.c(h).has_read;
        for (n, ins) in self.lane_sets(nin, 2) {
            let first = if rd { 0 } else { self.first(h) };
            let map = self.rng.bit();
            let wr = self.rng.below(4);
            if !self.ok(json!({"op": "write", "h": h, "first": first, "map": map, "wr": wr & 1, "mk": wr >> 1, "what": ["fun"], "n": n, "ins": ins})) {
                return;
            }
            let rr = self.rng.below(2);
            let wr = self.rng.below(4);
            if !self.ok(json!({"op": "round", "h": h, "first": first, "map": map, "rd": rr, "wr": wr & 1, "mk": wr >> 1, "n": n, "ins": ins})) {
                return;
            }
        }
        for o in ["views", "sizes", "io"] {
            self.observe(o, h);
        }
        self.eval(h, 1);
    }

    fn s22(&mut self) {
        if self.rng.chance(1, 2) {
            let len = self.rng.range(5, 25);
            self.mixed(len, &["lens", "nummod", "eval"], &["views", "arities", "nummod", "io", "eval"]);
            if self.dead {
                return;
            }
            // every handle, not only every circuit
            for h in self.live() {
                self.observe("lens", h);
                self.observe("views", h);
            }
            return;
        }
        // equality of flat circuits: twins grown by the same or different calls
        self.reset();
        let a = self.new_circuit(0);
        for _ in 0..self.rng.range(0, 10) {
            self.step(a, false);
        }
        if self.dead {
            return;
        }
        let b = self.copy(a);
        self.ok(json!({"op": "eq", "h": a, "h2": b}));
        for _ in 0..self.rng.range(1, 6) {
            if self.dead {
                return;
            }
            let n = self.c(a).n;
            let m = self.c(b).n;
            if n != m || n == 0 || self.rng.chance(1, 6) {
                let h = if self.rng.bit() { a } else { b };
                self.step(h, false);
            } else {
                // the same call on both, or with one argument changed
                let same = self.rng.chance(1, 2);
                match self.rng.below(4) {
                    0 => {
                        let g = self.rng.below(n);
                        let g2 = if same { g } else { self.rng.below(n) };
                        self.output_gate(a, g);
                        self.output_gate(b, g2);
                    }
                    1 => {
                        let v = self.rng.below(2);
                        let v2 = if same { v } else { 1 - v };
                        for (h, x) in [(a, v), (b, v2)] {
                            if self.ok(json!({"op": "const", "h": h, "v": x})) {
                                self.cm(h).n += 1;
                                self.cm(h).nconst += 1;
                            }
                        }
                    }
                    _ => {
                        let r = self.rand_gate_row(n);
                        let mut r2 = r.clone();
                        if !same {
                            let arr = r2.as_array_mut().unwrap();
                            if arr.len() == 3 && self.rng.bit() {
                                if self.rng.bit() {
                                    arr.swap(1, 2);
                                } else {
                                    arr[0] = json!(*self.rng.pick(&["xor", "and", "or"]));
                                }
                            } else {
                                let k = self.rng.range(1, arr.len() - 1);
                                arr[k] = json!(self.rng.below(n));
                            }
                        }
                        for (h, x) in [(a, r), (b, r2)] {
                            let x = x.as_array().unwrap().clone();
                            if self.ok(json!({"op": "gate", "h": h, "k": x[0], "a": &x[1..]})) {
                                self.cm(h).n += 1;
                                self.cm(h).weight += 1;
                            }
                        }
                    }
                }
            }
            let flat = !self.dead && self.c(a).flat && self.c(b).flat;
            if flat {
                self.ok(json!({"op": "eq", "h": a, "h2": b}));
                self.ok(json!({"op": "eq", "h": b, "h2": a}));
            }
        }
        let h = if self.rng.bit() { a } else { b };
        let c = self.clone_h(h);
        self.ok(json!({"op": "eq", "h": c, "h2": a}));
        for h in [a, b, c] {
            self.observe("views", h);
            self.observe("eval", h);
        }
    }

    pub fn scenario(&mut self, prop: &str) {
        match prop {
            "C01" => self.s01(),
            "C02" => self.s02(),
            "C03" => self.s03(),
            "C04" => self.s04(),
            "C05" => self.s05(),
            "C06" => self.s06(),
            "C07" => self.s07(),
            "C08" => self.s08(),
            "C09" => self.s09(),
            "C10" => self.s10(),
            "C22" => self.s22(),
            _ => panic!("no circuit driver for {prop}"),
        }
    }
}
