//! Programs over integers, bit vectors and field elements (spec/TraceWords.tla).
//!
//! A program is a list of calls; `run` performs them in one circuit, evaluates the circuit on every
//! lane and adds the replies (the values the circuit gives).
use crate::world::{guard, guard_ok, Cref, Fail, R};
use circuit_converters::arithmetic::*;
use circuit_converters::cryptography::*;
use circuit_converters::finite_field::*;
use circuit_converters::logic::*;
use circuit_converters::num_bigint::BigUint;
use circuit_converters::*;
use serde_json::{json, Value};
use std::any::Any;

type G = NXAOBoolGate;
type C = NXAOBoolCircuit;

// ---------------------------------------------------------------- words

/// Digits in base 2^12, least significant first.
pub type Word = Vec<u16>;

pub fn limbs(n: usize) -> usize {
    (n + 11) / 12
}

pub fn word_bits(w: &[u16], n: usize) -> Vec<bool> {
    (0..n).map(|i| w.get(i / 12).map(|d| (d >> (i % 12)) & 1 == 1).unwrap_or(false)).collect()
}

pub fn bits_word(b: &[bool]) -> Word {
    let mut w = vec![0u16; limbs(b.len())];
    for (i, x) in b.iter().enumerate() {
        w[i / 12] |= (*x as u16) << (i % 12);
    }
    w
}

pub fn word_big(w: &[u16]) -> BigUint {
    let mut x = BigUint::from(0u32);
    for d in w.iter().rev() {
        x = (x << 12usize) + BigUint::from(*d);
    }
    x
}

pub fn big_word(x: &BigUint, n: usize) -> Word {
    bits_word(&(0..n).map(|i| x.bit(i as u64)).collect::<Vec<_>>())
}

pub fn json_word(v: &Value) -> Word {
    v.as_array().expect("word").iter().map(|x| x.as_u64().expect("digit") as u16).collect()
}

// ---------------------------------------------------------------- values of any width

pub trait Val {
    fn any(&self) -> &dyn Any;
    fn dup(&self) -> Box<dyn Val>;
    fn ids(&self) -> Vec<GateId>;
    fn out(&self) -> R<()>;
    fn bin(&self, k: &str, o: &dyn Val) -> R<Box<dyn Val>>;
    fn assign(&mut self, k: &str, o: &dyn Val) -> R<()>;
    fn un(&self, k: &str) -> R<Box<dyn Val>>;
    fn cmp(&self, k: &str, o: &dyn Val) -> R<GateId>;
    fn shift(&self, _k: &str, _s: usize) -> R<Box<dyn Val>> {
        Err(Fail::Other("no shift"))
    }
    fn mux(&self, _o: &dyn Val, _s: &GateId) -> R<Box<dyn Val>> {
        Err(Fail::Other("no mux"))
    }
}

pub trait Cfg {
    fn input(&self) -> R<Box<dyn Val>>;
    fn from_ids(&self, ids: Vec<GateId>) -> R<Box<dyn Val>>;
    fn lit(&self, x: &BigUint) -> R<Box<dyn Val>>;
    fn zero(&self) -> R<Box<dyn Val>>;
    fn one(&self) -> R<Box<dyn Val>>;
    fn fp(&self, _c: &Cref, _p: &BigUint, _r: usize) -> R<Box<dyn Cfg>> {
        Err(Fail::Other("no field"))
    }
    fn mont(&self) -> Option<ModuleId> {
        None
    }
}

fn same<T: 'static>(o: &dyn Val) -> &T {
    o.any().downcast_ref::<T>().expect("operands of one configuration")
}

fn boxed<T: Val + 'static>(x: R<T>) -> R<Box<dyn Val>> {
    x.map(|v| Box::new(v) as Box<dyn Val>)
}

impl<const N: usize> Val for AllocInt<G, C, N> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn ids(&self) -> Vec<GateId> {
        self.val_le.clone()
    }
    fn out(&self) -> R<()> {
        guard(|| self.output())
    }
    fn bin(&self, k: &str, o: &dyn Val) -> R<Box<dyn Val>> {
        let o = same::<Self>(o);
        boxed(guard_ok(|| match k {
            "add" => self + o,
            "sub" => self - o,
            _ => self * o,
        }))
    }
    fn assign(&mut self, k: &str, o: &dyn Val) -> R<()> {
        let o = same::<Self>(o);
        guard_ok(|| match k {
            "add" => *self += o,
            "sub" => *self -= o,
            _ => *self *= o,
        })
    }
    fn un(&self, _k: &str) -> R<Box<dyn Val>> {
        boxed(guard_ok(|| -self))
    }
    fn cmp(&self, k: &str, o: &dyn Val) -> R<GateId> {
        let o = same::<Self>(o);
        guard(|| match k {
            "eq" => AllocInt::eq(self, o),
            "neq" => self.neq(o),
            "less" => self.less(o),
            "le" => self.less_or_eq(o),
            "larger" => self.larger(o),
            _ => self.larger_or_eq(o),
        })
    }
    fn shift(&self, k: &str, s: usize) -> R<Box<dyn Val>> {
        boxed(guard(|| if k == "shl" { self.shift_left(s) } else { self.shift_right(s) }))
    }
}

impl<const N: usize> Cfg for AllocIntConfig<G, C, N> {
    fn input(&self) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocInt::<G, C, N>::new(self)))
    }
    fn from_ids(&self, ids: Vec<GateId>) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocInt::<G, C, N>::from_gate_ids(ids, self)))
    }
    fn lit(&self, x: &BigUint) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocInt::<G, C, N>::from_biguint(x, self)))
    }
    fn zero(&self) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocInt::<G, C, N>::zero(self)))
    }
    fn one(&self) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocInt::<G, C, N>::one(self)))
    }
    fn fp(&self, c: &Cref, p: &BigUint, r: usize) -> R<Box<dyn Cfg>> {
        guard(|| AllocFpConfig::<G, C, N>::new(c, self, p.clone(), r)).map(|x| Box::new(x) as Box<dyn Cfg>)
    }
}

impl<const N: usize> Val for AllocBits<G, C, N> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn ids(&self) -> Vec<GateId> {
        self.bits.clone()
    }
    fn out(&self) -> R<()> {
        guard(|| self.output())
    }
    fn bin(&self, k: &str, o: &dyn Val) -> R<Box<dyn Val>> {
        let o = same::<Self>(o);
        boxed(guard_ok(|| match k {
            "and" => self & o,
            "or" => self | o,
            _ => self ^ o,
        }))
    }
    fn assign(&mut self, k: &str, o: &dyn Val) -> R<()> {
        let o = same::<Self>(o);
        guard_ok(|| match k {
            "and" => *self &= o,
            "or" => *self |= o,
            _ => *self ^= o,
        })
    }
    fn un(&self, _k: &str) -> R<Box<dyn Val>> {
        boxed(guard_ok(|| !self))
    }
    fn cmp(&self, k: &str, o: &dyn Val) -> R<GateId> {
        let o = same::<Self>(o);
        guard(|| if k == "eq" { AllocBits::eq(self, o) } else { self.neq(o) })
    }
    fn mux(&self, o: &dyn Val, s: &GateId) -> R<Box<dyn Val>> {
        boxed(guard(|| self.mux(same::<Self>(o), s)))
    }
}

impl<const N: usize> Cfg for AllocBitsConfig<G, C, N> {
    fn input(&self) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocBits::<G, C, N>::new(self)))
    }
    fn from_ids(&self, ids: Vec<GateId>) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocBits::<G, C, N>::from_gate_ids(ids, self)))
    }
    fn lit(&self, _x: &BigUint) -> R<Box<dyn Val>> {
        Err(Fail::Other("no constants"))
    }
    fn zero(&self) -> R<Box<dyn Val>> {
        Err(Fail::Other("no constants"))
    }
    fn one(&self) -> R<Box<dyn Val>> {
        Err(Fail::Other("no constants"))
    }
}

impl<const N: usize> Val for AllocFp<G, C, N> {
    fn any(&self) -> &dyn Any {
        self
    }
    fn dup(&self) -> Box<dyn Val> {
        Box::new(self.clone())
    }
    fn ids(&self) -> Vec<GateId> {
        self.to_gate_ids()
    }
    fn out(&self) -> R<()> {
        guard(|| self.output())
    }
    fn bin(&self, k: &str, o: &dyn Val) -> R<Box<dyn Val>> {
        let o = same::<Self>(o);
        boxed(guard_ok(|| match k {
            "add" => self + o,
            "sub" => self - o,
            _ => self * o,
        }))
    }
    fn assign(&mut self, k: &str, o: &dyn Val) -> R<()> {
        let o = same::<Self>(o);
        guard_ok(|| match k {
            "add" => *self += o,
            "sub" => *self -= o,
            _ => *self *= o,
        })
    }
    fn un(&self, _k: &str) -> R<Box<dyn Val>> {
        boxed(guard_ok(|| -self))
    }
    fn cmp(&self, k: &str, o: &dyn Val) -> R<GateId> {
        let o = same::<Self>(o);
        guard(|| if k == "eq" { AllocFp::eq(self, o) } else { self.neq(o) })
    }
}

impl<const N: usize> Cfg for AllocFpConfig<G, C, N> {
    fn input(&self) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocFp::<G, C, N>::new(self)))
    }
    fn from_ids(&self, ids: Vec<GateId>) -> R<Box<dyn Val>> {
        boxed(guard_ok(|| AllocFp::<G, C, N>::from_gate_ids_unchecked(ids, self)))
    }
    fn lit(&self, x: &BigUint) -> R<Box<dyn Val>> {
        boxed(guard_ok(|| AllocFp::<G, C, N>::from_biguint_unchecked(x, self)))
    }
    fn zero(&self) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocFp::<G, C, N>::zero(self)))
    }
    fn one(&self) -> R<Box<dyn Val>> {
        boxed(guard(|| AllocFp::<G, C, N>::one(self)))
    }
    fn mont(&self) -> Option<ModuleId> {
        Some(self.mont_red_mid)
    }
}

macro_rules! widths {
    ($($n:literal)*) => {
        pub const WIDTHS: &[usize] = &[$($n),*];
        fn new_cfg(kind: &str, n: usize, c: &Cref) -> R<Box<dyn Cfg>> {
            match (kind, n) {
                $(
                    ("int", $n) => guard(|| AllocIntConfig::<G, C, $n>::new(c)).map(|x| Box::new(x) as Box<dyn Cfg>),
                    ("bits", $n) => guard(|| AllocBitsConfig::<G, C, $n>::new(c)).map(|x| Box::new(x) as Box<dyn Cfg>),
                )*
                _ => panic!("width {} is not compiled in", n),
            }
        }
    };
}
widths!(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 28 31 32 33 34 40 47 48 49 60 63 64 65 66
        72 80 96 100 127 128 129 130 160 192 200 255 256 257);

// ---------------------------------------------------------------- programs

enum Reg {
    Val(Box<dyn Val>),
    Bit(GateId),
}

impl Reg {
    fn ids(&self) -> Vec<GateId> {
        match self {
            Reg::Val(v) => v.ids(),
            Reg::Bit(g) => vec![*g],
        }
    }
    fn val(&self) -> &dyn Val {
        match self {
            Reg::Val(v) => v.as_ref(),
            Reg::Bit(_) => panic!("a bit where a value is needed"),
        }
    }
    fn bit(&self) -> GateId {
        match self {
            Reg::Bit(g) => *g,
            Reg::Val(_) => panic!("a value where a bit is needed"),
        }
    }
}

/// Where the value of a reply is among the outputs.
#[derive(Clone)]
enum Seen {
    None,
    Word(usize, usize),
    Bit(usize),
    All(Vec<Seen>),
}

fn reply(e: &Value, st: &str) -> Value {
    let mut x = e.clone();
    let o = x.as_object_mut().unwrap();
    o.remove("r");
    o.insert("st".into(), json!(st));
    x
}

struct Machine {
    c: Cref,
    cfgs: Vec<(Box<dyn Cfg>, usize)>,
    regs: Vec<Reg>,
    nout: usize,
    lanes: usize,
    ins: Vec<Vec<bool>>,
}

impl Machine {
    fn see(&mut self, ids: &[GateId], bit: bool) -> R<Seen> {
        let at = self.nout;
        for g in ids {
            let mut c = self.c.clone();
            let g = *g;
            guard(|| c.output(g))?;
            self.nout += 1;
        }
        Ok(if bit { Seen::Bit(at) } else { Seen::Word(at, ids.len()) })
    }

    fn new_val(&mut self, v: Box<dyn Val>, n: usize) -> R<Seen> {
        let ids = v.ids();
        if ids.len() != n {
            return Err(Fail::Other("width"));
        }
        self.regs.push(Reg::Val(v));
        self.see(&ids, false)
    }

    fn new_bit(&mut self, g: GateId) -> R<Seen> {
        self.regs.push(Reg::Bit(g));
        self.see(&[g], true)
    }

    fn feed(&mut self, v: &Value, n: Option<usize>) {
        for t in 0..self.lanes {
            match n {
                Some(n) => self.ins[t].extend(word_bits(&json_word(&v[t]), n)),
                None => self.ins[t].push(v[t] == json!(1)),
            }
        }
    }

    fn call(&mut self, e: &Value) -> R<Seen> {
        let ix = |k: &str| e[k].as_u64().unwrap_or_else(|| panic!("{} in {}", k, e)) as usize;
        let reg = |k: &str| ix(k) - 1;
        let k = e["k"].as_str().unwrap_or("");
        match e["op"].as_str().unwrap() {
            "cfg" => {
                let n = ix("n");
                let x = if k == "fp" {
                    self.cfgs[ix("base") - 1].0.fp(&self.c, &word_big(&json_word(&e["p"])), ix("rexp"))?
                } else {
                    new_cfg(k, n, &self.c)?
                };
                self.cfgs.push((x, n));
                Ok(Seen::None)
            }
            // a module nobody uses
            "noise" => {
                let mut c = self.c.clone();
                let n = ix("n");
                if k == "const" {
                    guard(|| c.constant(n == 1))?;
                } else if k == "sub" {
                    guard_ok(|| c.sub_circuit())?;
                } else {
                    guard(|| build_n(k, n, &mut c))?;
                }
                Ok(Seen::None)
            }
            "inp" => {
                let n = self.cfgs[reg("c")].1;
                let v = self.cfgs[reg("c")].0.input()?;
                self.feed(&e["v"], Some(n));
                self.new_val(v, n)
            }
            "bit" => {
                let mut c = self.c.clone();
                let g = guard(|| c.input())?;
                self.feed(&e["v"], None);
                self.new_bit(g)
            }
            "lit" => {
                let (c, n) = &self.cfgs[reg("c")];
                let (v, n) = (c.lit(&word_big(&json_word(&e["w"])))?, *n);
                self.new_val(v, n)
            }
            "zero" => {
                let (c, n) = &self.cfgs[reg("c")];
                let (v, n) = (c.zero()?, *n);
                self.new_val(v, n)
            }
            "one" => {
                let (c, n) = &self.cfgs[reg("c")];
                let (v, n) = (c.one()?, *n);
                self.new_val(v, n)
            }
            "pad" => {
                let ids: Vec<GateId> = e["a"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| self.regs[x.as_u64().unwrap() as usize - 1].bit())
                    .collect();
                let (c, n) = &self.cfgs[reg("c")];
                let (v, n) = (c.from_ids(ids)?, *n);
                self.new_val(v, n)
            }
            // bits of values, anywhere
            "gather" => {
                let ids: Vec<GateId> = e["a"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|x| self.regs[x[0].as_u64().unwrap() as usize - 1].ids()[x[1].as_u64().unwrap() as usize])
                    .collect();
                let (c, n) = &self.cfgs[reg("c")];
                let (v, n) = (c.from_ids(ids)?, *n);
                self.new_val(v, n)
            }
            "cast" => {
                let ids = self.regs[reg("a")].ids()[..ix("m")].to_vec();
                let (c, n) = &self.cfgs[reg("c")];
                let (v, n) = (c.from_ids(ids)?, *n);
                self.new_val(v, n)
            }
            "take" => {
                let g = self.regs[reg("a")].ids()[ix("i")];
                self.new_bit(g)
            }
            "dup" => {
                let v = self.regs[reg("a")].val().dup();
                let n = v.ids().len();
                self.new_val(v, n)
            }
            "bgate" => {
                let a = e["a"].as_array().unwrap();
                let at = |i: usize| self.regs[a[i].as_u64().unwrap() as usize - 1].bit();
                let (x, y) = (at(0), at(1));
                let mut c = self.c.clone();
                let g = guard(|| match k {
                    "not" => c.not(&x),
                    "xor" => c.xor(&x, &y),
                    "and" => c.and(&x, &y),
                    _ => c.or(&x, &y),
                })?;
                self.new_bit(g)
            }
            "bin" => {
                let v = self.regs[reg("a")].val().bin(k, self.regs[reg("b")].val())?;
                let n = self.regs[reg("a")].ids().len();
                self.new_val(v, n)
            }
            "assign" => {
                let o = self.regs[reg("b")].val().dup();
                let n = self.regs[reg("a")].ids().len();
                match &mut self.regs[reg("a")] {
                    Reg::Val(v) => v.assign(k, o.as_ref())?,
                    Reg::Bit(_) => panic!("a bit where a value is needed"),
                }
                let ids = self.regs[reg("a")].ids();
                if ids.len() != n {
                    return Err(Fail::Other("width"));
                }
                self.see(&ids, false)
            }
            "un" => {
                let v = self.regs[reg("a")].val().un(k)?;
                let n = self.regs[reg("a")].ids().len();
                self.new_val(v, n)
            }
            "cmp" => {
                let g = self.regs[reg("a")].val().cmp(k, self.regs[reg("b")].val())?;
                self.new_bit(g)
            }
            "shl" | "shr" => {
                let op = e["op"].as_str().unwrap();
                let v = self.regs[reg("a")].val().shift(op, ix("s"))?;
                let n = self.regs[reg("a")].ids().len();
                self.new_val(v, n)
            }
            "mux" => {
                let s = self.regs[reg("s")].bit();
                let v = self.regs[reg("a")].val().mux(self.regs[reg("b")].val(), &s)?;
                let n = self.regs[reg("a")].ids().len();
                self.new_val(v, n)
            }
            "mont" => {
                let n = self.cfgs[reg("c")].1;
                let mid = self.cfgs[reg("c")].0.mont().expect("field");
                let mut c = self.c.clone();
                let mut ids = Vec::new();
                for _ in 0..n {
                    ids.push(guard(|| c.input())?);
                }
                self.feed(&e["v"], Some(n));
                let out = guard(|| c.module(&mid, &ids))?;
                if out.len() != n {
                    return Err(Fail::Other("width"));
                }
                self.see(&out, false)
            }
            "final" => {
                let mut all = Vec::new();
                for i in 0..self.regs.len() {
                    let at = self.nout;
                    match &self.regs[i] {
                        Reg::Val(v) => {
                            v.out()?;
                            let n = v.ids().len();
                            self.nout += n;
                            all.push(Seen::Word(at, n));
                        }
                        Reg::Bit(g) => {
                            let g = *g;
                            all.push(self.see(&[g], true)?);
                        }
                    }
                }
                Ok(Seen::All(all))
            }
            x => panic!("unknown call {}", x),
        }
    }

    fn get(&self, s: &Seen, outs: &[Vec<bool>]) -> Option<Value> {
        match s {
            Seen::None => None,
            Seen::Word(at, n) => {
                Some(json!(outs.iter().map(|o| bits_word(&o[*at..*at + *n])).collect::<Vec<_>>()))
            }
            Seen::Bit(at) => Some(json!(outs.iter().map(|o| o[*at] as u8).collect::<Vec<_>>())),
            Seen::All(v) => Some(Value::Array(v.iter().filter_map(|x| self.get(x, outs)).collect())),
        }
    }
}

fn st_of<T>(r: &R<T>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(Fail::Err) => "err",
        Err(Fail::Panic) => "panic",
        Err(Fail::Other(_)) => "bad",
    }
}

thread_local! {
    static OPEN: std::cell::RefCell<Vec<ModuleStorageRef<G, C>>> = Default::default();
}

fn new_storage() -> ModuleStorageRef<G, C> {
    let s = ModuleStorageRef::new();
    OPEN.with(|o| o.borrow_mut().push(s.clone()));
    s
}

fn new_circuit() -> Cref {
    NXAOBoolCircuit::new(new_storage()).to_ref()
}

/// The circuits made so far are not needed any more.
fn release() {
    for s in OPEN.with(|o| std::mem::take(&mut *o.borrow_mut())) {
        crate::world::forget(&s);
    }
}

/// Runs the program: a "reset" line and the calls after it.
pub fn run(prog: &[Value]) -> Vec<Value> {
    let mut done = Vec::new();
    if prog.is_empty() {
        return done;
    }
    if prog.iter().skip(1).all(|e| crate::words::stateless(e)) {
        done.push(reply(&prog[0], "ok"));
        for e in &prog[1..] {
            let (r, st) = match single(e) {
                Ok(r) => (Some(r), "ok"),
                Err(f) => (None, st_of::<()>(&Err(f))),
            };
            release();
            let mut x = reply(e, st);
            if let Some(r) = r {
                x["r"] = r;
            }
            done.push(x);
            // a refused conversion leaves nothing behind
            if st != "ok" && !(st == "err" && e["op"] == "util") {
                break;
            }
        }
        return done;
    }
    run_many(&[prog.to_vec()], |_| 0)
}

/// One program that is being performed.
struct Session {
    main: Cref,
    sub: Option<(ModuleId, Cref)>,
    m: Machine,
    first: Value,
    seen: Vec<(Value, Seen)>,
    failed: Option<Value>,
}

impl Session {
    fn new(first: &Value, storage: &ModuleStorageRef<G, C>) -> Session {
        let lanes = first["lanes"].as_u64().unwrap_or(0) as usize;
        let place = first["place"].as_u64().unwrap_or(0);
        let mut main = if first["shared"] == json!(true) {
            NXAOBoolCircuit::new(storage.clone()).to_ref()
        } else {
            new_circuit()
        };
        let sub = if place == 1 { Some(main.sub_circuit()) } else { None };
        let c = sub.as_ref().map(|x| x.1.clone()).unwrap_or_else(|| main.clone());
        let m = Machine { c, cfgs: vec![], regs: vec![], nout: 0, lanes, ins: vec![vec![]; lanes] };
        Session { main, sub, m, first: first.clone(), seen: vec![], failed: None }
    }

    fn step(&mut self, e: &Value) {
        if self.failed.is_some() {
            return;
        }
        match self.m.call(e) {
            Ok(s) => self.seen.push((e.clone(), s)),
            Err(f) => self.failed = Some(reply(e, st_of::<()>(&Err(f)))),
        }
    }

    fn outs(&mut self) -> R<Vec<Vec<bool>>> {
        // a failing call may have declared some outputs already
        let total = self.m.c.output_len();
        if let Some((mid, _)) = &self.sub {
            let mut ids = Vec::new();
            for _ in 0..self.m.ins.first().map(|x| x.len()).unwrap_or(0) {
                ids.push(guard(|| self.main.input())?);
            }
            let outs = guard(|| self.main.module(mid, &ids))?;
            for g in outs {
                guard(|| self.main.output(g))?;
            }
        }
        let mut ev = NXAOBoolEvaluator::new(self.main.clone());
        let rows = crate::fast::rows(&self.main, &self.m.ins, |x| guard(|| ev.eval_output(x)))?;
        if rows.iter().any(|r| r.len() != total || r.len() < self.m.nout) {
            return Err(Fail::Other("outputs"));
        }
        Ok(rows)
    }

    fn finish(mut self) -> Vec<Value> {
        let mut done = vec![reply(&self.first, "ok")];
        let outs = self.outs();
        for (e, s) in std::mem::take(&mut self.seen) {
            match &outs {
                Ok(rows) => {
                    let mut x = reply(&e, "ok");
                    if let Some(r) = self.m.get(&s, rows) {
                        x["r"] = r;
                    }
                    done.push(x);
                }
                Err(f) => {
                    // the circuit could not be evaluated: no call gave a value
                    let st = match f {
                        Fail::Err => "evalerr",
                        Fail::Panic => "evalpanic",
                        Fail::Other(_) => "evalbad",
                    };
                    done.push(reply(&e, st));
                    return done;
                }
            }
        }
        done.extend(self.failed);
        done
    }
}

/// Performs several programs (each: a "reset" line and the calls after it) side by side: `pick` says
/// which of n unfinished programs makes the next call.  They are evaluated when all are done.
pub fn run_many(progs: &[Vec<Value>], mut pick: impl FnMut(usize) -> usize) -> Vec<Value> {
    let storage = new_storage();
    let mut all: Vec<Session> = progs.iter().map(|p| Session::new(&p[0], &storage)).collect();
    let mut at = vec![1; progs.len()];
    let mut live: Vec<usize> = (0..progs.len()).collect();
    loop {
        live.retain(|i| at[*i] < progs[*i].len());
        if live.is_empty() {
            break;
        }
        let i = live[pick(live.len())];
        all[i].step(&progs[i][at[i]]);
        at[i] += 1;
    }
    let done = all.into_iter().flat_map(|s| s.finish()).collect();
    release();
    done
}

pub fn stateless(e: &Value) -> bool {
    matches!(e["op"].as_str(), Some("built") | Some("aes") | Some("util"))
}

// ---------------------------------------------------------------- single circuits

fn build_n(k: &str, n: usize, c: &mut Cref) -> Result<ModuleId, BuildCircuitError> {
    Ok(match k {
        "add" => build_add_circuit(c, n)?,
        "sub" => {
            let a = build_add_circuit(c, n)?;
            build_sub_circuit(c, n, a)?
        }
        "mul" => {
            let a = build_add_circuit(c, n)?;
            build_mul_circuit(c, n, a)?
        }
        "mul_extend" => {
            let a = build_add_circuit(c, 2 * n)?;
            build_mul_extend_circuit(c, n, a)?
        }
        "less" | "ge" => {
            let a = build_add_circuit(c, n)?;
            let s = build_sub_circuit(c, n, a)?;
            let l = build_less_circuit(c, n, s)?;
            if k == "less" { l } else { build_larger_or_eq_circuit(c, n, l)? }
        }
        "le" | "larger" => {
            let a = build_add_circuit(c, n)?;
            let s = build_sub_circuit(c, n, a)?;
            let l = build_less_circuit(c, n, s)?;
            let q = build_eq_circuit(c, n)?;
            let le = build_less_or_eq_circuit(c, n, l, q)?;
            if k == "le" { le } else { build_larger_circuit(c, n, le)? }
        }
        "and" => build_and_circuit(c, n)?,
        "or" => build_or_circuit(c, n)?,
        "xor" => build_xor_circuit(c, n)?,
        "not" => build_not_circuit(c, n)?,
        "eq" => build_eq_circuit(c, n)?,
        "neq" => {
            let q = build_eq_circuit(c, n)?;
            build_neq_circuit(c, n, q)?
        }
        x => panic!("unknown builder {}", x),
    })
}

/// The bundled circuits: name, operand widths, result widths.
pub fn bundled(k: &str) -> Option<(&'static [usize], &'static [usize])> {
    Some(match k {
        "adder64" | "sub64" | "divide64" | "udivide64" => (&[64, 64], &[64]),
        "mult2_64" => (&[64, 64], &[64, 64]),
        "neg64" => (&[64], &[64]),
        "aes" => (&[128, 128], &[128]),
        _ => return None,
    })
}

fn build_bundled(k: &str, c: &mut Cref) -> Result<(), BuildCircuitError> {
    match k {
        "adder64" => build_adder64(c),
        "sub64" => build_sub64(c),
        "neg64" => build_neg64(c),
        "mult2_64" => build_mult2_64(c),
        "divide64" => build_divide_signed_64(c),
        "udivide64" => build_divide_unsigned_64(c),
        _ => build_aes128(c),
    }
}

/// Evaluates a circuit that is called as a module, or built in place, once or twice.
fn single(e: &Value) -> R<Value> {
    let op = e["op"].as_str().unwrap();
    if op == "util" {
        return crate::utils_driver::perform(e);
    }
    let k = if op == "aes" { "aes" } else { e["k"].as_str().unwrap() };
    let n = e["n"].as_u64().unwrap_or(0) as usize;
    let place = e["place"].as_u64().unwrap_or(0);
    let one = [n];
    let two = [n, n];
    let ext = [2 * n];
    let bit = [1usize];
    let (win, wout): (&[usize], &[usize]) = match bundled(k) {
        Some(x) => x,
        None => match k {
            "not" => (&one, &one),
            "mul_extend" => (&two, &ext),
            "eq" | "neq" | "less" | "le" | "larger" | "ge" => (&two, &bit),
            _ => (&two, &one),
        },
    };
    let nin: usize = win.iter().sum();
    let nout: usize = wout.iter().sum();
    let mut c = new_circuit();
    let copies = if place == 2 { 2 } else { 1 };
    if bundled(k).is_some() {
        match place {
            1 => {
                let (mid, mut sub) = guard_ok(|| c.sub_circuit())?;
                guard(|| build_bundled(k, &mut sub))?;
                let mut ids = Vec::new();
                for _ in 0..nin {
                    ids.push(guard(|| c.input())?);
                }
                for g in guard(|| c.module(&mid, &ids))? {
                    guard(|| c.output(g))?;
                }
            }
            _ => {
                for _ in 0..copies {
                    guard(|| build_bundled(k, &mut c))?;
                }
            }
        }
    } else {
        for _ in 0..copies {
            let mid = guard(|| build_n(k, n, &mut c))?;
            let mut ids = Vec::new();
            for _ in 0..nin {
                ids.push(guard(|| c.input())?);
            }
            for g in guard(|| c.module(&mid, &ids))? {
                guard(|| c.output(g))?;
            }
        }
    }
    let to_bits = |v: &Value| -> Vec<bool> {
        if op == "aes" {
            // a list of bytes, each most significant bit first
            v.as_array().unwrap().iter().flat_map(|b| {
                let b = b.as_u64().unwrap();
                (0..8).map(move |i| (b >> (7 - i)) & 1 == 1)
            }).collect()
        } else {
            v.as_array().unwrap().iter().zip(win).flat_map(|(w, n)| word_bits(&json_word(w), *n)).collect()
        }
    };
    let from_bits = |b: &[bool]| -> Value {
        if op == "aes" {
            json!(b.chunks(8).map(|x| x.iter().fold(0u32, |s, y| 2 * s + *y as u32)).collect::<Vec<_>>())
        } else {
            let mut at = 0;
            let mut ws = Vec::new();
            for w in wout {
                ws.push(bits_word(&b[at..at + w]));
                at += w;
            }
            json!(ws)
        }
    };
    let v = e["v"].as_array().unwrap();
    let per = v.len() / copies;
    let mut res = vec![Value::Null; v.len()];
    let mut ev = guard_ok(|| NXAOBoolEvaluator::new(c.clone()))?;
    let ins: Vec<Vec<bool>> =
        (0..per).map(|t| (0..copies).flat_map(|i| to_bits(&v[i * per + t])).collect()).collect();
    let rows = crate::fast::rows(&c, &ins, |x| guard(|| ev.eval_output(x)))?;
    for (t, r) in rows.iter().enumerate() {
        if r.len() != nout * copies {
            return Err(Fail::Other("outputs"));
        }
        for i in 0..copies {
            res[i * per + t] = from_bits(&r[i * nout..(i + 1) * nout]);
        }
    }
    Ok(Value::Array(res))
}
