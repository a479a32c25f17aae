//! The conversions and the extended gcd (spec/TraceUtils.tla).
use crate::rng::Rng;
use crate::words::{bits_word, word_big};
use crate::world::{guard, guard_ok, R};
use circuit_converters::num_bigint::{BigInt, BigUint, Sign};
use circuit_converters::*;
use serde_json::{json, Value};

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

fn bits(v: &Value) -> Vec<bool> {
    v.as_array().unwrap().iter().map(|x| x == &json!(1)).collect()
}

/// An integer as [sign, digits in base 2^12], no leading zero digits; zero is [0, []].
fn int(v: &Value) -> BigInt {
    let w: Vec<u16> = v[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16).collect();
    let m = word_big(&w);
    BigInt::from_biguint(
        match v[0].as_i64().unwrap() {
            0 => Sign::NoSign,
            1 => Sign::Plus,
            _ => Sign::Minus,
        },
        m,
    )
}

fn of_int(x: &BigInt) -> Value {
    let (s, m) = x.clone().into_parts();
    let n = m.bits() as usize;
    let w = bits_word(&(0..n).map(|i| m.bit(i as u64)).collect::<Vec<_>>());
    json!([if s == Sign::Plus { 1 } else if s == Sign::Minus { -1 } else { 0 }, w])
}

pub fn perform(e: &Value) -> R<Value> {
    let v = &e["v"];
    let b2v = |b: Vec<bool>| json!(b.iter().map(|x| *x as u8).collect::<Vec<_>>());
    Ok(match e["k"].as_str().unwrap() {
        "bytes2bits_le" => b2v(guard_ok(|| bytes2bits_le(&bytes(v)))?),
        "bytes2bits_be" => b2v(guard_ok(|| bytes2bits_be(&bytes(v)))?),
        "bits2bytes_le" => json!(guard_ok(|| bits2bytes_le(&bits(v)))?),
        "bits2bytes_be" => json!(guard_ok(|| bits2bytes_be(&bits(v)))?),
        "bytes2hex" => {
            let s = guard_ok(|| bytes2hex(&bytes(v)))?;
            json!(s.chars().map(|c| c as u32).collect::<Vec<_>>())
        }
        "hex2bytes" => {
            let s: String =
                v.as_array().unwrap().iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect();
            json!(guard(|| hex2bytes(&s))?)
        }
        "ext_gcd" => {
            let (a, b) = (int(&v[0]), int(&v[1]));
            let (x, y, d) = guard_ok(|| ext_gcd(&a, &b))?;
            json!([of_int(&x), of_int(&y), of_int(&d)])
        }
        x => panic!("unknown function {}", x),
    })
}

/// 0, 1, 2, 3, 5 and the neighbours of powers of two, of either sign.
fn edges() -> Vec<BigInt> {
    let mut v = vec![BigInt::from(0)];
    let mut both = |x: BigInt| v.extend([x.clone(), -x]);
    for x in [1, 2, 3, 5] {
        both(BigInt::from(x));
    }
    for k in [8, 16, 31, 32, 63, 64, 127, 128] {
        for d in -1..=1 {
            both((BigInt::from(1) << k) + BigInt::from(d));
        }
    }
    v
}

pub struct UGen<'a> {
    pub rng: Rng,
    pub out: &'a mut dyn FnMut(&Value),
    pub round: usize,
    pub stream: u64,
    pub streams: u64,
}

impl<'a> UGen<'a> {
    fn emit(&mut self, calls: &[Value]) {
        for e in crate::words::run(calls) {
            (self.out)(&e);
        }
    }

    pub fn scenario(&mut self, prop: &str) {
        if prop == "C19" {
            self.c19()
        } else {
            self.c20()
        }
        self.round += 1;
    }

    fn some_bytes(&mut self, n: usize) -> Vec<u8> {
        let kind = self.rng.below(6);
        (0..n)
            .map(|i| match kind {
                0 => 0,
                1 => 0xff,
                2 => 1u8 << (i % 8),
                3 => i as u8,
                _ => self.rng.next() as u8,
            })
            .collect()
    }

    fn c19(&mut self) {
        let mut calls = vec![json!({"op": "reset", "lanes": 0})];
        // every byte value, then longer strings
        let first = self.round < 4;
        let n = if first { 64 } else { *self.rng.pick(&[0, 1, 2, 3, 4, 7, 8, 9, 16, 17, 31, 32, 33, 64, 100]) };
        // (one long string now and then)
        let n = if self.round % 23 == 22 { *self.rng.pick(&[127, 128, 255, 256, 257, 1000, 1025]) } else { n };
        let b: Vec<u8> = if first { (0..64).map(|i| (64 * self.round + i) as u8).collect() } else { self.some_bytes(n) };
        for k in ["bytes2bits_le", "bytes2bits_be", "bytes2hex"] {
            calls.push(json!({"op": "util", "k": k, "v": b}));
        }
        let c: Vec<u8> = if first { b.clone() } else { self.some_bytes(n) };
        let le: Vec<u8> = c.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1)).collect();
        for k in ["bits2bytes_le", "bits2bytes_be"] {
            calls.push(json!({"op": "util", "k": k, "v": le}));
        }
        for _ in 0..6 {
            calls.push(json!({"op": "util", "k": "hex2bytes", "v": self.hex_string()}));
        }
        self.emit(&calls);
        if self.round == 5 {
            // more than 2^16 bits or digits
            let mut calls = vec![json!({"op": "reset", "lanes": 0})];
            let big = self.some_bytes(8195);
            let ks = ["bytes2bits_le", "bytes2bits_be", "bits2bytes_le", "bits2bytes_be", "bytes2hex", "hex2bytes"];
            let k = ks[self.stream as usize % 6];
            calls.push(match k {
                "bits2bytes_le" | "bits2bytes_be" => {
                    let bits: Vec<u8> = big.iter().flat_map(|x| (0..8).map(move |i| (x >> i) & 1)).collect();
                    json!({"op": "util", "k": k, "v": bits})
                }
                "bytes2hex" => json!({"op": "util", "k": k, "v": self.some_bytes(65_600)}),
                "hex2bytes" => {
                    let mut d: Vec<u8> = (0..65_600).map(|_| *self.rng.pick(b"0123456789abcdefABCDEF")).collect();
                    if self.rng.bit() {
                        d[65_590] = b'g';
                    }
                    json!({"op": "util", "k": k, "v": d})
                }
                _ => json!({"op": "util", "k": k, "v": big}),
            });
            self.emit(&calls);
        }
        if self.round < 40 {
            // all two-digit strings of this stream's share, around the hex alphabet
            let mut calls = vec![json!({"op": "reset", "lanes": 0})];
            let alphabet: Vec<u32> = (0..=127u32).chain([0xe9, 0x660, 0xff11, 0x1d7d8]).collect();
            let part = (self.round as u64 * self.streams + self.stream) as usize;
            for i in 0..60 {
                let j = part * 60 + i;
                if j < alphabet.len() * alphabet.len() {
                    calls.push(json!({"op": "util", "k": "hex2bytes",
                                      "v": [alphabet[j / alphabet.len()], alphabet[j % alphabet.len()]]}));
                }
            }
            if calls.len() > 1 {
                self.emit(&calls);
            }
        }
    }

    fn hex_string(&mut self) -> Vec<u32> {
        let n = *self.rng.pick(&[0, 1, 2, 3, 4, 5, 6, 8, 10, 11, 16, 32, 33, 64]);
        let n = if self.rng.chance(1, 60) { *self.rng.pick(&[255, 256, 257, 511, 512, 513, 2000]) } else { n };
        let n = if self.rng.chance(2, 3) { n / 2 * 2 } else { n };
        let kind = self.rng.below(3);
        let mut s: Vec<u32> = (0..n)
            .map(|_| {
                let d = self.rng.below(16) as u32;
                let up = match kind {
                    0 => false,
                    1 => true,
                    _ => self.rng.bit(),
                };
                if d < 10 {
                    48 + d
                } else if up {
                    55 + d
                } else {
                    87 + d
                }
            })
            .collect();
        if n > 0 && self.rng.chance(1, 2) {
            let bad = [71, 103, 47, 58, 64, 96, 32, 45, 43, 95, 120, 88, 0, 10, 9, 13, 46, 0xe9, 0x663, 0xff21];
            let i = self.rng.below(n);
            s[i] = *self.rng.pick(&bad);
        }
        if self.rng.chance(1, 30) && n >= 2 {
            s[0] = 48;
            s[1] = 120;
        }
        s
    }

    fn big(&mut self) -> BigInt {
        let n = *self.rng.pick(&[0usize, 1, 2, 3, 4, 5, 6, 8, 12, 13, 24, 31, 32, 33, 48, 63, 64, 65, 100, 128]);
        let n = if self.rng.chance(1, 40) { *self.rng.pick(&[127, 192, 255, 256, 257, 384, 521, 1024]) } else { n };
        let b: Vec<bool> = (0..n).map(|_| self.rng.bit()).collect();
        let mut m = word_big(&bits_word(&b));
        match self.rng.below(8) {
            0 => m = BigUint::from(1u32) << n,
            1 => m = (BigUint::from(1u32) << n) - BigUint::from(1u32),
            _ => {}
        }
        let x = BigInt::from(m);
        if self.rng.bit() {
            -x
        } else {
            x
        }
    }

    fn c20(&mut self) {
        let mut calls = vec![json!({"op": "reset", "lanes": 0})];
        let mut add = |a: &BigInt, b: &BigInt| {
            calls.push(json!({"op": "util", "k": "ext_gcd", "v": [of_int(a), of_int(b)]}));
        };
        // all small pairs, one part per stream
        let small = 41i64;
        let part = self.round as u64 * self.streams + self.stream;
        let lo = part as i64 * 60;
        if lo < small * small {
            for i in lo..(lo + 60).min(small * small) {
                add(&BigInt::from(i / small - 20), &BigInt::from(i % small - 20));
            }
        }
        // all pairs of numbers at the edges of machine words, likewise
        let edges = edges();
        let lo = part as usize * 60;
        for i in lo..(lo + 60).min(edges.len() * edges.len()) {
            add(&edges[i / edges.len()], &edges[i % edges.len()]);
        }
        let mut more = Vec::new();
        for _ in 0..20 {
            let a = self.big();
            let b = match self.rng.below(10) {
                0 => a.clone(),
                1 => -a.clone(),
                2 => BigInt::from(0),
                3 => &a * self.big(),
                4 => &a + BigInt::from(1),
                5 => {
                    // consecutive Fibonacci numbers
                    let (mut x, mut y) = (BigInt::from(1), BigInt::from(1));
                    for _ in 0..self.rng.below(if self.round % 9 == 8 { 1500 } else { 180 }) {
                        let z = &x + &y;
                        x = y;
                        y = z;
                    }
                    more.push((x, y));
                    self.big()
                }
                _ => self.big(),
            };
            let g = if self.rng.chance(1, 3) { self.big() } else { BigInt::from(1) };
            let (a, b) = (a * &g, b * &g);
            more.push(if self.rng.bit() { (a, b) } else { (b, a) });
        }
        for (a, b) in more {
            add(&a, &b);
        }
        self.emit(&calls);
    }
}
