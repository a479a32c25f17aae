//! Executes calls on the real library and records their replies.
//!
//! A call is a JSON object (its vocabulary is documented in spec/TraceCircuits.tla); `exec` performs
//! it and adds the reply.  Gates, modules and circuits are named by creation number: the actual
//! identifiers are renamed at this boundary (an identifier seen before keeps its number).
use circuit_converters::*;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::io::BufWriter;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Cref = BoolCircuitRef<NXAOBoolGate, NXAOBoolCircuit>;
pub type Sref = ModuleStorageRef<NXAOBoolGate, NXAOBoolCircuit>;

const FAR: u64 = 4_000_000_000_000;

/// Numbers from ALIEN on denote identifiers that differ from a known one by a power of two:
/// ALIEN + w * 1_000_000 + k is the k-th identifier plus the w-th of these.
pub const ALIEN: i64 = 1_900_000_000;
pub const OFFSETS: [u64; 7] = [1 << 8, 1 << 16, 1 << 24, 1 << 31, 1 << 32, 1 << 48, 1 << 63];

fn alien(n: i64, known: impl Fn(u64) -> bool, base: impl Fn(usize) -> u64) -> u64 {
    let n = n - ALIEN;
    let off = OFFSETS[(n / 1_000_000) as usize % OFFSETS.len()];
    let mut x = base((n % 1_000_000) as usize).wrapping_add(off);
    while known(x) {
        x = x.wrapping_add(off).wrapping_add(1);
    }
    x
}

#[derive(Clone, Default)]
struct Names {
    to_log: HashMap<u64, i64>,
    to_act: Vec<GateId>,
    aliens: std::cell::RefCell<HashMap<u64, i64>>,
}

impl Names {
    fn note(&mut self, id: GateId) -> i64 {
        if let Some(x) = self.to_log.get(&id.0) {
            return *x;
        }
        let n = self.to_act.len() as i64;
        self.to_log.insert(id.0, n);
        self.to_act.push(id);
        n
    }
    fn log(&self, id: GateId) -> i64 {
        match self.to_log.get(&id.0) {
            Some(x) => *x,
            None => match self.aliens.borrow().get(&id.0) {
                Some(x) => *x,
                None if id.0 >= FAR && id.0 - FAR < 1 << 32 => (id.0 - FAR) as i64,
                None => -2,
            },
        }
    }
    /// Unknown numbers denote identifiers that no circuit here ever reaches.
    fn act(&self, n: i64) -> GateId {
        if n >= 0 && (n as usize) < self.to_act.len() {
            self.to_act[n as usize]
        } else if n >= ALIEN {
            let last = self.to_act.len().saturating_sub(1);
            let x = alien(
                n,
                |x| self.to_log.contains_key(&x),
                |k| self.to_act.get(k.min(last)).map(|g| g.0).unwrap_or(k as u64),
            );
            self.aliens.borrow_mut().insert(x, n);
            GateId(x)
        } else {
            GateId(FAR + n.unsigned_abs())
        }
    }
}

struct Handle {
    /// None once the handle has been dropped
    held: Option<Cref>,
    circ: usize,
    ev: Option<NXAOBoolEvaluator>,
    wr: Option<Again>,
}

impl Handle {
    fn c(&self) -> &Cref {
        self.held.as_ref().expect("a handle that has been dropped")
    }
}

struct Store {
    s: Sref,
    num: HashMap<u64, usize>,
    mids: Vec<ModuleId>,
    circs: Vec<usize>,
}

/// Circuits and their registry keep each other alive; this lets go of the circuits.
pub fn forget(s: &Sref) {
    let _ = guard_ok(|| {
        let old = std::mem::replace(&mut *s.borrow_mut(), ModuleStorage::new());
        drop(old);
    });
}

impl Drop for Store {
    fn drop(&mut self) {
        forget(&self.s);
    }
}

struct Circ {
    names: Names,
    store: usize,
}

#[derive(Default)]
pub struct World {
    handles: Vec<Handle>,
    circs: Vec<Circ>,
    stores: Vec<Store>,
    reader: Option<BristolNXAOReader>,
    kept: HashMap<GateId, usize>,
}

pub enum Fail {
    Err,
    Panic,
    Other(&'static str),
}

pub type R<T> = Result<T, Fail>;

pub fn guard<T, E>(f: impl FnOnce() -> Result<T, E>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(_)) => Err(Fail::Err),
        Err(_) => Err(Fail::Panic),
    }
}

pub fn guard_ok<T>(f: impl FnOnce() -> T) -> R<T> {
    guard(|| Ok::<T, ()>(f()))
}

fn ints(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_i64().unwrap_or(-1)).collect()).unwrap_or_default()
}

/// Splits lane words into one assignment per lane.
pub fn lanes_to_rows(ins: &[i64], n: usize) -> Vec<Vec<bool>> {
    (0..n).map(|k| ins.iter().map(|w| (w >> k) & 1 == 1).collect()).collect()
}

pub fn rows_to_lanes(rows: &[Vec<bool>]) -> R<Vec<i64>> {
    let len = rows.first().map(|r| r.len()).unwrap_or(0);
    let mut out = vec![0i64; len];
    for (k, row) in rows.iter().enumerate() {
        if row.len() != len {
            return Err(Fail::Other("ragged"));
        }
        for (i, b) in row.iter().enumerate() {
            out[i] |= (*b as i64) << k;
        }
    }
    Ok(out)
}

pub fn eval_rows(ev: &mut NXAOBoolEvaluator, rows: &[Vec<bool>]) -> R<Vec<Vec<bool>>> {
    let mut out = Vec::new();
    for r in rows {
        out.push(guard(|| ev.eval_output(r))?);
    }
    Ok(out)
}

pub struct Written {
    pub text: String,
    pub consts: Vec<bool>,
    pub wmap: HashMap<GateId, usize>,
}

/// Where a writer that is used again writes.
#[derive(Clone, Default)]
pub struct Shared(std::rc::Rc<std::cell::RefCell<Vec<u8>>>);

impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

struct Again {
    w: BristolNXAOWriter<Shared>,
    buf: Shared,
}

impl Again {
    fn write(&mut self, first: usize, want_map: bool, mut wmap: HashMap<GateId, usize>) -> R<Written> {
        let consts = guard(|| self.w.write(first, if want_map { Some(&mut wmap) } else { None }))?;
        std::io::Write::flush(&mut self.w.writer).map_err(|_| Fail::Other("flush"))?;
        let buf = std::mem::take(&mut *self.buf.0.borrow_mut());
        let text = String::from_utf8(buf).map_err(|_| Fail::Other("not utf-8"))?;
        Ok(Written { text, consts, wmap })
    }
}

pub fn write_circuit(c: &Cref, first: usize, want_map: bool, mut wmap: HashMap<GateId, usize>) -> R<Written> {
    let mut buf: Vec<u8> = Vec::new();
    let consts = {
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::new(&mut buf));
        guard(|| w.write(first, if want_map { Some(&mut wmap) } else { None }))?
    };
    let text = String::from_utf8(buf).map_err(|_| Fail::Other("not utf-8"))?;
    Ok(Written { text, consts, wmap })
}

/// A place to write to that takes a few bytes at a time, is interrupted now and then and, at byte
/// `fail` if there is one, refuses once.
struct Narrow<'a> {
    to: &'a mut Vec<u8>,
    step: usize,
    fail: Option<usize>,
    calls: usize,
}

impl std::io::Write for Narrow<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 5 == 0 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.fail.map_or(false, |k| self.to.len() + b.len() > k) {
            self.fail = None;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "refused"));
        }
        let n = b.len().min(self.step);
        self.to.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// sink: capacity of the buffer, bytes taken at a time, where the sink refuses (or -1).
fn write_narrow(c: &Cref, first: usize, want_map: bool, mut wmap: HashMap<GateId, usize>, sink: &[i64]) -> R<Written> {
    let mut buf: Vec<u8> = Vec::new();
    let consts = {
        let fail = usize::try_from(sink[2]).ok();
        let to = Narrow { to: &mut buf, step: sink[1] as usize, fail, calls: 0 };
        let mut w = BristolNXAOWriter::new(c.clone(), BufWriter::with_capacity(sink[0] as usize, to));
        let consts = guard(|| w.write(first, if want_map { Some(&mut wmap) } else { None }))?;
        guard(|| std::io::Write::flush(&mut w.writer))?;
        consts
    };
    let text = String::from_utf8(buf).map_err(|_| Fail::Other("not utf-8"))?;
    Ok(Written { text, consts, wmap })
}

/// The file as numbers, or None if the text does not have the layout of a Bristol file.
pub fn parse_file(text: &str) -> Option<Value> {
    let mut rows = text.lines().map(|l| l.split_whitespace().collect::<Vec<_>>());
    let nums = |r: &[&str]| -> Option<Vec<i64>> {
        r.iter().map(|t| t.parse::<i64>().ok().filter(|n| *n >= 0 && *n < (1 << 30))).collect()
    };
    let r1 = nums(&rows.next()?)?;
    let r2 = nums(&rows.next()?)?;
    let r3 = nums(&rows.next()?)?;
    if r1.len() != 2 || r2.is_empty() || r3.is_empty() {
        return None;
    }
    if r2.len() != 1 + r2[0] as usize || r3.len() != 1 + r3[0] as usize {
        return None;
    }
    if !rows.next()?.is_empty() {
        return None;
    }
    let mut lines = Vec::new();
    let mut ended = false;
    for r in rows {
        if r.is_empty() {
            ended = true;
            continue;
        }
        if ended {
            return None;
        }
        let h = nums(&r[..r.len().min(2)])?;
        if h.len() != 2 || r.len() != (3 + h[0] + h[1]) as usize {
            return None;
        }
        let a = nums(&r[2..(2 + h[0]) as usize])?;
        let o = nums(&r[(2 + h[0]) as usize..(2 + h[0] + h[1]) as usize])?;
        lines.push(json!({"t": r[r.len() - 1], "a": a, "o": o}));
    }
    Some(json!({"ng": r1[0], "nw": r1[1], "ins": &r2[1..], "outs": &r3[1..], "lines": lines}))
}

/// The text of rows of tokens.  fmt varies the white space.
pub fn rows_to_text(rows: &Value, fmt: u64) -> String {
    let mut r = crate::rng::Rng::new(fmt, 7);
    let mut s = String::new();
    let rows = rows.as_array().unwrap();
    let plain = fmt == 0;
    for (i, row) in rows.iter().enumerate() {
        let toks: Vec<&str> = row.as_array().unwrap().iter().map(|t| t["s"].as_str().unwrap()).collect();
        if !plain && !toks.is_empty() && r.chance(1, 8) {
            s.push_str(" ");
        }
        for (j, t) in toks.iter().enumerate() {
            if j > 0 {
                s.push_str(if plain { " " } else { *r.pick(&[" ", " ", " ", "  ", "\t", "   "]) });
            }
            s.push_str(t);
        }
        if !plain && !toks.is_empty() && r.chance(1, 8) {
            s.push_str(" ");
        }
        if i + 1 < rows.len() || plain || r.chance(1, 2) || toks.is_empty() {
            s.push_str(if !plain && r.chance(1, 10) { "\r\n" } else { "\n" });
        }
    }
    s
}

/// The words of a file that stand for a byte that is no text, and for a place from which on it
/// cannot be read.
pub const NO_TEXT: &str = "#FF#";
pub const NO_INPUT: &str = "#IO#";

/// Gives its bytes, then fails once, then ends.
struct Failing<'a>(&'a [u8], bool);

impl std::io::Read for Failing<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.0.is_empty() && !std::mem::replace(&mut self.1, true) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "unreadable"));
        }
        std::io::Read::read(&mut self.0, buf)
    }
}

fn source(text: &str) -> Box<dyn std::io::BufRead> {
    let (text, fails) = match text.find(NO_INPUT) {
        Some(i) => (&text[..i], true),
        None => (text, false),
    };
    let mut bytes: Vec<u8> = Vec::new();
    for (i, part) in text.split(NO_TEXT).enumerate() {
        if i > 0 {
            bytes.push(0xff);
        }
        bytes.extend(part.as_bytes());
    }
    if fails {
        let bytes: &'static [u8] = bytes.leak();
        Box::new(std::io::BufReader::new(Failing(bytes, false)))
    } else {
        Box::new(std::io::Cursor::new(bytes))
    }
}

impl World {
    pub fn new() -> Self {
        Self::default()
    }

    fn h(&self, e: &Value, k: &str) -> usize {
        e[k].as_u64().expect("handle") as usize - 1
    }

    fn mid(&self, store: usize, m: i64) -> ModuleId {
        let s = &self.stores[store];
        if m >= 0 && (m as usize) < s.mids.len() {
            s.mids[m as usize]
        } else if m >= ALIEN {
            let last = s.mids.len().saturating_sub(1);
            ModuleId(alien(
                m,
                |x| s.num.contains_key(&x),
                |k| s.mids.get(k.min(last)).map(|y| y.0).unwrap_or(k as u64),
            ))
        } else {
            ModuleId(3_000_000_000_000 + m.unsigned_abs())
        }
    }

    fn note_mid(&mut self, store: usize, id: ModuleId, circ: usize) -> i64 {
        let s = &mut self.stores[store];
        if let Some(p) = s.num.get(&id.0) {
            return *p as i64;
        }
        s.num.insert(id.0, s.mids.len());
        s.mids.push(id);
        s.circs.push(circ);
        s.mids.len() as i64 - 1
    }

    fn log_mid(&self, store: usize, id: ModuleId) -> i64 {
        self.stores[store].num.get(&id.0).map(|x| *x as i64).unwrap_or(-2)
    }

    fn view(&self, circ: usize, g: &NXAOBoolGate) -> Vec<i64> {
        let n = &self.circs[circ].names;
        match g {
            NXAOBoolGate::Input(g) => vec![0, g.wire_id.0 as i64],
            NXAOBoolGate::Const(g) => vec![1, g.value as i64],
            NXAOBoolGate::Not(g) => vec![2, n.log(g.id)],
            NXAOBoolGate::Xor(g) => vec![3, n.log(g.left_id), n.log(g.right_id)],
            NXAOBoolGate::And(g) => vec![4, n.log(g.left_id), n.log(g.right_id)],
            NXAOBoolGate::Or(g) => vec![5, n.log(g.left_id), n.log(g.right_id)],
            NXAOBoolGate::Module(g) => {
                let mut v = vec![
                    6,
                    self.log_mid(self.circs[circ].store, g.module_id),
                    g.out_index as i64,
                    g.input_len as i64,
                    g.output_len as i64,
                ];
                v.extend(g.input_ids.iter().map(|x| n.log(*x)));
                v
            }
        }
    }

    /// Names the gates below id that have no number yet, operands first.
    fn discover(&mut self, h: usize, id: GateId, gs: &mut Vec<Value>, depth: usize) {
        let circ = self.handles[h].circ;
        if depth > 50 || self.circs[circ].names.to_log.contains_key(&id.0) {
            return;
        }
        let g = match guard(|| self.handles[h].c().get_gate(&id)) {
            Ok(g) => g,
            Err(_) => {
                gs.push(json!(["unknown", 0]));
                return;
            }
        };
        let ops: Vec<GateId> = match &g {
            NXAOBoolGate::Not(g) => vec![g.id],
            NXAOBoolGate::Xor(g) => vec![g.left_id, g.right_id],
            NXAOBoolGate::And(g) => vec![g.left_id, g.right_id],
            NXAOBoolGate::Or(g) => vec![g.left_id, g.right_id],
            _ => vec![],
        };
        for o in ops {
            self.discover(h, o, gs, depth + 1);
        }
        let v = self.view(circ, &g);
        let k = match v[0] {
            2 => "not",
            3 => "xor",
            4 => "and",
            5 => "or",
            _ => "other",
        };
        let mut row = vec![json!(k)];
        row.extend(v[1..].iter().map(|x| json!(x)));
        gs.push(Value::Array(row));
        self.circs[circ].names.note(id);
    }

    /// Performs the call; the reply is merged into the event.
    pub fn exec(&mut self, e: &Value) -> Value {
        let mut out = e.as_object().unwrap().clone();
        let mut rep = Map::new();
        let st = match self.call(e, &mut rep) {
            Ok(()) => "ok".to_string(),
            Err(Fail::Err) => "err".to_string(),
            Err(Fail::Panic) => "panic".to_string(),
            Err(Fail::Other(s)) => s.to_string(),
        };
        for (k, v) in rep {
            out.insert(k, v);
        }
        out.insert("st".into(), json!(st));
        Value::Object(out)
    }

    fn call(&mut self, e: &Value, rep: &mut Map<String, Value>) -> R<()> {
        let op = e["op"].as_str().unwrap();
        match op {
            "reset" => {
                *self = World::new();
                return Ok(());
            }
            "new" => {
                let s = e["s"].as_u64().unwrap() as usize;
                let si = if s == 0 {
                    self.stores.push(Store { s: Sref::new(), num: HashMap::new(), mids: vec![], circs: vec![] });
                    self.stores.len() - 1
                } else {
                    s - 1
                };
                let sref = self.stores[si].s.clone();
                let c = guard_ok(|| NXAOBoolCircuit::new(sref).to_ref())?;
                self.circs.push(Circ { names: Names::default(), store: si });
                self.handles.push(Handle { held: Some(c), circ: self.circs.len() - 1, ev: None, wr: None });
                return Ok(());
            }
            _ => {}
        }
        let h = self.h(e, "h");
        let circ = self.handles[h].circ;
        let store = self.circs[circ].store;
        let mut c = self.handles[h].c().clone();
        let act = |w: &World, k: &str| -> Vec<GateId> {
            ints(&e[k]).into_iter().map(|x| w.circs[circ].names.act(x)).collect()
        };
        match op {
            "sub" => {
                let (m, r) = guard_ok(|| c.sub_circuit())?;
                self.circs.push(Circ { names: Names::default(), store });
                let ci = self.circs.len() - 1;
                let m = self.note_mid(store, m, ci);
                self.handles.push(Handle { held: Some(r), circ: ci, ev: None, wr: None });
                rep.insert("m".into(), json!(m));
            }
            "reg" => {
                let h2 = self.h(e, "h2");
                let other = self.handles[h2].c().clone();
                let m = guard_ok(|| c.register_module(&other))?;
                let ci = self.handles[h2].circ;
                let m = self.note_mid(store, m, ci);
                rep.insert("m".into(), json!(m));
            }
            "clone" => {
                self.handles.push(Handle { held: Some(c), circ, ev: None, wr: None });
            }
            "copy" => {
                let r = guard_ok(|| {
                    let copy = Clone::clone(&*c.borrow());
                    NXAOBoolCircuit::to_ref(copy)
                })?;
                let names = self.circs[circ].names.clone();
                self.circs.push(Circ { names, store });
                self.handles.push(Handle { held: Some(r), circ: self.circs.len() - 1, ev: None, wr: None });
            }
            "drop" => {
                let old = &mut self.handles[h];
                let gone = (old.ev.take(), old.wr.take(), old.held.take());
                guard_ok(|| drop((c, gone)))?;
            }
            "getmod" => {
                let m = e["m"].as_i64().unwrap();
                let mid = self.mid(store, m);
                let r = guard(|| c.get_module(&mid))?;
                let ci = if m >= 0 && (m as usize) < self.stores[store].circs.len() {
                    self.stores[store].circs[m as usize]
                } else {
                    circ
                };
                self.handles.push(Handle { held: Some(r), circ: ci, ev: None, wr: None });
            }
            "in" => {
                let g = guard(|| c.input())?;
                rep.insert("g".into(), json!(self.circs[circ].names.note(g)));
            }
            "const" => {
                let v = e["v"].as_i64().unwrap() == 1;
                let g = guard(|| c.constant(v))?;
                rep.insert("g".into(), json!(self.circs[circ].names.note(g)));
            }
            "gate" => {
                let a = act(self, "a");
                let k = e["k"].as_str().unwrap();
                let g = gate(&mut c, k, &a)?;
                rep.insert("g".into(), json!(self.circs[circ].names.note(g)));
            }
            "many" => {
                let mut last = -1;
                for row in e["gs"].as_array().unwrap() {
                    let row = row.as_array().unwrap();
                    let a: Vec<GateId> = row[1..]
                        .iter()
                        .map(|x| self.circs[circ].names.act(x.as_i64().unwrap()))
                        .collect();
                    let g = gate(&mut c, row[0].as_str().unwrap(), &a)?;
                    last = self.circs[circ].names.note(g);
                }
                rep.insert("g".into(), json!(last));
            }
            "manyin" => {
                let mut last = -1;
                for _ in 0..e["k"].as_u64().unwrap() {
                    let g = guard(|| c.input())?;
                    last = self.circs[circ].names.note(g);
                }
                rep.insert("g".into(), json!(last));
            }
            "manyconst" => {
                let mut last = -1;
                for v in ints(&e["vs"]) {
                    let g = guard(|| c.constant(v == 1))?;
                    last = self.circs[circ].names.note(g);
                }
                rep.insert("g".into(), json!(last));
            }
            "manyout" => {
                let mut ws = Vec::new();
                for g in act(self, "gs") {
                    ws.push(guard(|| c.output(g))?.0);
                }
                rep.insert("w".into(), json!(ws));
            }
            "manyreg" => {
                let h2 = self.h(e, "h2");
                let other = self.handles[h2].c().clone();
                let ci = self.handles[h2].circ;
                let mut last = -1;
                for _ in 0..e["k"].as_u64().unwrap() {
                    let m = guard_ok(|| c.register_module(&other))?;
                    last = self.note_mid(store, m, ci);
                }
                rep.insert("m".into(), json!(last));
            }
            "derived" => {
                let a = act(self, "a");
                let g = match e["k"].as_str().unwrap() {
                    "equiv" => guard(|| c.equivalent(&a[0], &a[1]))?,
                    _ => guard(|| c.identity(&a[0]))?,
                };
                let mut gs = Vec::new();
                self.discover(h, g, &mut gs, 0);
                rep.insert("gs".into(), Value::Array(gs));
                rep.insert("g".into(), json!(self.circs[circ].names.note(g)));
            }
            "out" => {
                let g = self.circs[circ].names.act(e["g"].as_i64().unwrap());
                let w = guard(|| c.output(g))?;
                rep.insert("w".into(), json!(w.0));
            }
            "call" => {
                let a = act(self, "a");
                let mid = self.mid(store, e["m"].as_i64().unwrap());
                let gs = guard(|| c.module(&mid, &a))?;
                let n: Vec<i64> = gs.into_iter().map(|g| self.circs[circ].names.note(g)).collect();
                rep.insert("gs".into(), json!(n));
            }
            "sizes" => {
                let r = guard_ok(|| {
                    [c.input_len(), c.output_len(), c.num_wire(), c.num_gate(), c.num_const()]
                })?;
                rep.insert("r".into(), json!(r));
            }
            "bigsizes" => {
                let r = guard_ok(|| {
                    [c.input_len(), c.output_len(), c.num_wire(), c.num_gate(), c.num_const()]
                })?;
                // digits to the base 10^4
                let limbs = |mut n: usize| {
                    let mut v = Vec::new();
                    while n > 0 {
                        v.push(n % 10_000);
                        n /= 10_000;
                    }
                    v
                };
                rep.insert("r".into(), json!(r.map(limbs)));
            }
            "lens" => {
                let r = guard_ok(|| [c.input_len(), c.output_len()])?;
                rep.insert("r".into(), json!(r));
            }
            "view" => {
                let g = self.circs[circ].names.act(e["g"].as_i64().unwrap());
                let g = guard(|| c.get_gate(&g))?;
                rep.insert("r".into(), json!(self.view(circ, &g)));
            }
            "views" => {
                let mut r = Vec::new();
                for g in self.circs[circ].names.to_act.iter() {
                    let g = guard(|| c.get_gate(g))?;
                    r.push(self.view(circ, &g));
                }
                rep.insert("r".into(), json!(r));
            }
            "arities" => {
                let mut r = Vec::new();
                for g in self.circs[circ].names.to_act.iter() {
                    let g = guard(|| c.get_gate(g))?;
                    r.push(guard_ok(|| [g.input_len(), g.output_len()])?);
                }
                rep.insert("r".into(), json!(r));
            }
            "nummod" => {
                let r = guard_ok(|| c.borrow().module_storage.num_module())?;
                rep.insert("r".into(), json!(r));
            }
            "viewat" => {
                let mut r = Vec::new();
                for g in act(self, "gs") {
                    let g = guard(|| c.get_gate(&g))?;
                    r.push(self.view(circ, &g));
                }
                rep.insert("r".into(), json!(r));
            }
            "depsat" => {
                let mut all = Vec::new();
                for g in act(self, "gs") {
                    let r = guard(|| c.get_depended_gates(&g))?;
                    all.push(r.into_iter().map(|g| self.circs[circ].names.log(g)).collect::<Vec<i64>>());
                }
                rep.insert("r".into(), json!(all));
            }
            "consts" => {
                let r = guard_ok(|| c.get_const_gates())?;
                let r: Vec<i64> = r.into_iter().map(|g| self.circs[circ].names.log(g)).collect();
                rep.insert("r".into(), json!(r));
            }
            "inp" => {
                let i = wire(e["i"].as_i64().unwrap());
                let r = guard(|| c.input_to_gate_id(&WireId(i)))?;
                let r = r.map(|g| self.circs[circ].names.log(g)).unwrap_or(-3);
                rep.insert("r".into(), json!(r));
            }
            "outp" => {
                let i = wire(e["i"].as_i64().unwrap());
                let r = guard(|| c.output_to_gate_id(&WireId(i)))?;
                rep.insert("r".into(), json!(self.circs[circ].names.log(r)));
            }
            "io" => {
                let (mut i, mut o) = (Vec::new(), Vec::new());
                for w in 0..guard_ok(|| c.input_len())? {
                    let r = guard(|| c.input_to_gate_id(&WireId(w as u64)))?;
                    i.push(r.map(|g| self.circs[circ].names.log(g)).unwrap_or(-3));
                }
                for w in 0..guard_ok(|| c.output_len())? {
                    let r = guard(|| c.output_to_gate_id(&WireId(w as u64)))?;
                    o.push(self.circs[circ].names.log(r));
                }
                rep.insert("i".into(), json!(i));
                rep.insert("o".into(), json!(o));
            }
            "deps" => {
                let g = self.circs[circ].names.act(e["g"].as_i64().unwrap());
                let r = guard(|| c.get_depended_gates(&g))?;
                let r: Vec<i64> = r.into_iter().map(|g| self.circs[circ].names.log(g)).collect();
                rep.insert("r".into(), json!(r));
            }
            "alldeps" => {
                let mut all = Vec::new();
                for g in self.circs[circ].names.to_act.iter() {
                    let r = guard(|| c.get_depended_gates(g))?;
                    let r: Vec<i64> = r.into_iter().map(|g| self.circs[circ].names.log(g)).collect();
                    all.push(r);
                }
                rep.insert("r".into(), json!(all));
            }
            "eq" => {
                let other = self.handles[self.h(e, "h2")].c().clone();
                let (a, b) = guard_ok(|| (c == other, other == c))?;
                if a != b {
                    return Err(Fail::Other("asymmetric"));
                }
                rep.insert("r".into(), json!(a));
            }
            "eval" => {
                let rows = lanes_to_rows(&ints(&e["ins"]), e["n"].as_u64().unwrap() as usize);
                let out = if e["ev"].as_i64() == Some(1) {
                    let ev = &mut self.handles[h].ev;
                    if ev.is_none() {
                        *ev = Some(NXAOBoolEvaluator::new(c));
                    }
                    eval_rows(ev.as_mut().unwrap(), &rows)?
                } else {
                    eval_rows(&mut NXAOBoolEvaluator::new(c), &rows)?
                };
                rep.insert("r".into(), json!(rows_to_lanes(&out)?));
            }
            // the circuit after a read that failed: what it had before is still there, whatever
            // inputs and outputs were added
            "probe" => {
                let (nin, nout) = (c.input_len(), c.output_len());
                let n = e["n"].as_u64().unwrap() as usize;
                let mut ins = ints(&e["ins"]);
                let mut more = 0x9e37_79b9i64;
                while ins.len() < nin {
                    more = more.wrapping_mul(0x5_851f) ^ (more >> 7);
                    ins.push(more & ((1 << n) - 1));
                }
                let out = eval_rows(&mut NXAOBoolEvaluator::new(c), &lanes_to_rows(&ins, n))?;
                rep.insert("lens".into(), json!([nin, nout]));
                rep.insert("r".into(), json!(rows_to_lanes(&out)?));
            }
            "allouts" | "allround" => {
                rep.insert("r".into(), self.all_outs(&c, circ, e, op == "allround")?);
            }
            "write" => {
                let w = self.write(h, e)?;
                let f = parse_file(&w.text);
                rep.insert("parsed".into(), json!(f.is_some()));
                rep.insert("f".into(), f.unwrap_or(json!(w.text)));
                rep.insert("consts".into(), json!(w.consts.iter().map(|b| *b as i64).collect::<Vec<_>>()));
                let mut m: Vec<(i64, usize)> =
                    w.wmap.iter().map(|(g, x)| (self.circs[circ].names.log(*g), *x)).collect();
                m.sort();
                rep.insert("wmap".into(), json!(m));
            }
            "round" => {
                let w = self.write(h, e)?;
                let mut d = NXAOBoolCircuit::new(Sref::new()).to_ref();
                let mut fresh = BristolNXAOReader::new();
                let reader = if e["rd"].as_i64() == Some(1) {
                    self.reader.get_or_insert_with(BristolNXAOReader::new)
                } else {
                    &mut fresh
                };
                guard(|| reader.read(w.text.as_bytes(), &mut d))?;
                let mut rows = lanes_to_rows(&ints(&e["ins"]), e["n"].as_u64().unwrap() as usize);
                for r in rows.iter_mut() {
                    r.extend(w.consts.iter());
                }
                let out = eval_rows(&mut NXAOBoolEvaluator::new(d), &rows)?;
                rep.insert("r".into(), json!(rows_to_lanes(&out)?));
            }
            "read" => {
                let text = rows_to_text(&e["rows"], e["fmt"].as_u64().unwrap_or(0));
                let mut fresh = BristolNXAOReader::new();
                let reader = if e["rd"].as_i64() == Some(1) {
                    self.reader.get_or_insert_with(BristolNXAOReader::new)
                } else {
                    &mut fresh
                };
                let r = guard(|| reader.read(source(&text), &mut c));
                // the gates of the file have identifiers of their own: only inputs and outputs
                // of such a circuit are looked at
                r?;
            }
            _ => panic!("unknown call {op}"),
        }
        Ok(())
    }

    fn write(&mut self, h: usize, e: &Value) -> R<Written> {
        let c = self.handles[h].c().clone();
        let (first, map) = (e["first"].as_u64().unwrap() as usize, e["map"].as_bool() == Some(true));
        // the map an earlier call filled, given again
        let old = if e["mk"].as_i64() == Some(1) { std::mem::take(&mut self.kept) } else { HashMap::new() };
        let w = self.write_to(h, e, c, first, map, old)?;
        self.kept = w.wmap.clone();
        Ok(w)
    }

    fn write_to(&mut self, h: usize, e: &Value, c: Cref, first: usize, map: bool, old: HashMap<GateId, usize>) -> R<Written> {
        if e["sink"].is_array() {
            return write_narrow(&c, first, map, old, &ints(&e["sink"]));
        }
        if e["wr"].as_i64() != Some(1) {
            return write_circuit(&c, first, map, old);
        }
        // the writer of this handle, used again
        let a = self.handles[h].wr.get_or_insert_with(|| {
            let buf = Shared::default();
            Again { w: BristolNXAOWriter::new(c, BufWriter::new(buf.clone())), buf }
        });
        a.write(first, map, old)
    }

    /// All sequences of at most d outputs, each declared on a copy of the circuit and evaluated on
    /// the truth-table lanes; the gates' values are given.  Returns the sequences that differ.
    fn all_outs(&self, c: &Cref, circ: usize, e: &Value, round: bool) -> R<Value> {
        let d = e["d"].as_u64().unwrap() as usize;
        let vals = ints(&e["vals"]);
        let rows = lanes_to_rows(&ints(&e["ins"]), e["n"].as_u64().unwrap() as usize);
        let gates = self.circs[circ].names.to_act.clone();
        let ng = gates.len();
        let mut bad = Vec::new();
        for len in 1..=d {
            let total = ng.pow(len as u32);
            for code in 0..total {
                let mut x = code;
                let seq: Vec<usize> = (0..len)
                    .map(|_| {
                        let y = x % ng;
                        x /= ng;
                        y
                    })
                    .collect();
                let copy = guard_ok(|| NXAOBoolCircuit::to_ref(Clone::clone(&*c.borrow())))?;
                let mut copy = copy;
                let r: R<Vec<i64>> = (|| {
                    for g in &seq {
                        guard(|| copy.output(gates[*g]))?;
                    }
                    if round {
                        let w = write_circuit(&copy, rows[0].len(), false, HashMap::new())?;
                        let mut d = NXAOBoolCircuit::new(Sref::new()).to_ref();
                        guard(|| BristolNXAOReader::new().read(w.text.as_bytes(), &mut d))?;
                        let mut rows = rows.clone();
                        rows.iter_mut().for_each(|r| r.extend(w.consts.iter()));
                        return rows_to_lanes(&eval_rows(&mut NXAOBoolEvaluator::new(d), &rows)?);
                    }
                    let mut ev = NXAOBoolEvaluator::new(copy.clone());
                    rows_to_lanes(&eval_rows(&mut ev, &rows)?)
                })();
                let ok = match r {
                    Ok(r) => r == seq.iter().map(|g| vals[*g]).collect::<Vec<_>>(),
                    Err(_) => false,
                };
                if !ok && bad.len() < 3 {
                    bad.push(json!(seq));
                }
            }
        }
        Ok(Value::Array(bad))
    }
}

fn wire(i: i64) -> u64 {
    if i >= ALIEN {
        alien(i, |_| false, |k| k as u64)
    } else {
        i as u64
    }
}

fn gate(c: &mut Cref, k: &str, a: &[GateId]) -> R<GateId> {
    match k {
        "not" => guard(|| c.not(&a[0])),
        "xor" => guard(|| c.xor(&a[0], &a[1])),
        "and" => guard(|| c.and(&a[0], &a[1])),
        "or" => guard(|| c.or(&a[0], &a[1])),
        _ => panic!("unknown gate {k}"),
    }
}
