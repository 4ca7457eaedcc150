//! Random-generator adapters (C13) and platform buffers (C14).
use crate::json::{J, read_lines};
use crate::util::*;
use std::cell::RefCell;
use tpm2_impl::platform::crypto::{Drbg, DrbgError, drbg_helpers as h};
use tpm2_impl::platform::{TpmReadBuffer, TpmWriteBuffer};

/// A byte stream; `kind` says which calls are native, the others go through the adapters.
struct Stream {
    kind: String,
    pos: u64,
    calls: i64,
    fail: i64,
    log: RefCell<Vec<J>>,
}
impl Stream {
    fn native(&mut self, c: &str, add: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        self.calls += 1;
        let ok = self.calls != self.fail;
        let mut b = vec![];
        if ok {
            for x in dest.iter_mut() {
                // neighbouring bytes differ, no short period
                *x = (self.pos.wrapping_mul(0x9E3779B97F4A7C15) >> 40) as u8;
                self.pos += 1;
                b.push(*x);
            }
        }
        self.log.borrow_mut().push(J::obj([("c", J::s(c)), ("n", J::I(dest.len() as i64)), ("add", J::bytes(add)), ("ok", J::B(ok)), ("b", J::bytes(&b))]));
        if ok { Ok(()) } else { Err(DrbgError) }
    }
}
impl Drbg for Stream {
    type Entropy = [u8; 32];
    type Nonce = [u8; 16];
    fn instantiate(_: &[u8; 32], _: &[u8; 16], _: &[u8]) -> Result<Self, DrbgError> {
        unreachable!()
    }
    fn reseed(&mut self, _: &[u8; 32], _: &[u8]) -> Result<(), DrbgError> {
        self.log.borrow_mut().push(J::obj([("c", J::s("reseed")), ("n", J::I(0)), ("add", J::A(vec![])), ("ok", J::B(true)), ("b", J::A(vec![]))]));
        Ok(())
    }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> {
        if self.kind == "bytes" {
            return h::next_u32_via_fill(self, a);
        }
        let mut b = [0; 4];
        self.native("u32", a, &mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> {
        match self.kind.as_str() {
            "bytes" => return h::next_u64_via_fill(self, a),
            "u32" => return h::next_u64_via_u32(self, a),
            _ => {}
        }
        let mut b = [0; 8];
        self.native("u64", a, &mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn fill_bytes(&mut self, a: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        match self.kind.as_str() {
            "u32" | "words" => h::fill_bytes_via_next(self, a, dest),
            _ => self.native("fill", a, dest),
        }
    }
    fn requires_reseeding(&mut self) -> bool {
        false
    }
}
pub fn adapters(cases: &str, out: &str) {
    watchdog(out, 30);
    let mut o = Out::new(out);
    for c in read_lines(cases) {
        let kind = c.get("kind").str().to_string();
        begin(format!("adapter {kind}"));
        let mut g = Stream { kind: kind.clone(), pos: 1, calls: 0, fail: c.get("fail").int(), log: RefCell::default() };
        let mut ops = vec![];
        for op in c.get("ops").arr() {
            let (f, n, add) = (op.get("f").str(), op.get("n").int() as usize, op.get("add").as_bytes());
            let mut dest = vec![0xA5u8; n];
            let r = guard(|| match f {
                "fill" => g.fill_bytes(&add, &mut dest),
                "u32" => g.next_u32(&add).map(|x| dest = x.to_le_bytes().to_vec()),
                "u64" => g.next_u64(&add).map(|x| dest = x.to_le_bytes().to_vec()),
                "fillvia" => h::fill_bytes_via_next(&mut g, &add, &mut dest),
                "u32fill" => h::next_u32_via_fill(&mut g, &add).map(|x| dest = x.to_le_bytes().to_vec()),
                "u64fill" => h::next_u64_via_fill(&mut g, &add).map(|x| dest = x.to_le_bytes().to_vec()),
                "u64u32" => h::next_u64_via_u32(&mut g, &add).map(|x| dest = x.to_le_bytes().to_vec()),
                x => panic!("op {x}"),
            });
            let res = match r {
                Err(_) => "panic",
                Ok(Err(_)) => "err",
                Ok(Ok(())) => "ok",
            };
            let calls = std::mem::take(&mut *g.log.borrow_mut());
            ops.push(J::obj([("f", J::s(f)), ("n", J::I(n as i64)), ("add", J::bytes(&add)), ("r", J::s(res)), ("b", J::bytes(if res == "ok" { &dest } else { &[] })), ("calls", J::A(calls))]));
        }
        end();
        o.line(J::obj([("kind", J::s(kind)), ("ops", J::A(ops))]));
    }
    o.done();
}

/// A buffer that implements only the required methods.
struct Own(Vec<u8>);
impl TpmReadBuffer for Own {
    fn len(&self) -> usize {
        self.0.len()
    }
    fn read_into(&self, o: usize, out: &mut [u8]) -> Result<(), tpm2_impl::platform::ReadOutOfBounds> {
        TpmReadBuffer::read_into(&self.0[..], o, out)
    }
}
fn big(j: &J) -> usize {
    // ["lo", k] is k, ["top", k] is usize::MAX - k, ["half", k] is isize::MAX - k as usize
    let (b, k) = (j.arr()[0].str(), j.arr()[1].int() as usize);
    match b {
        "lo" => k,
        "top" => usize::MAX - k,
        "half" => (isize::MAX as usize).wrapping_sub(k),
        x => panic!("{x}"),
    }
}
fn buf_op(m: &mut Vec<u8>, op: &J) -> J {
    let f = op.get("f").str().to_string();
    let off = big(op.get("o"));
    let mut j = op.clone();
    let (mut got, mut called) = (vec![], 0i64);
    let mut win = -1i64;
    let r: Result<bool, String> = match f.as_str() {
        "read" => {
            got = vec![0xA5; op.get("n").int() as usize];
            guard(|| TpmReadBuffer::read_into(&m[..], off, &mut got).is_ok())
        }
        "u16" => guard(|| match TpmReadBuffer::read_be_u16(&m[..], off) {
            Ok(x) => {
                got = x.to_be_bytes().to_vec();
                true
            }
            Err(_) => false,
        }),
        "u32" => guard(|| match TpmReadBuffer::read_be_u32(&m[..], off) {
            Ok(x) => {
                got = x.to_be_bytes().to_vec();
                true
            }
            Err(_) => false,
        }),
        "own16" => guard(|| match Own(m.clone()).read_be_u16(off) {
            Ok(x) => {
                got = x.to_be_bytes().to_vec();
                true
            }
            Err(_) => false,
        }),
        "own32" => guard(|| match Own(m.clone()).read_be_u32(off) {
            Ok(x) => {
                got = x.to_be_bytes().to_vec();
                true
            }
            Err(_) => false,
        }),
        "write" => {
            let d = op.get("d").as_bytes();
            guard(|| TpmWriteBuffer::write(&mut m[..], off, &d).is_ok())
        }
        "cb" => {
            let d = op.get("d").as_bytes();
            let size = big(op.get("s"));
            guard(|| {
                TpmWriteBuffer::write_callback(&mut m[..], off, size, |w| {
                    called += 1;
                    win = w.len() as i64;
                    got = w.to_vec();
                    for (i, x) in w.iter_mut().enumerate() {
                        if i < d.len() {
                            *x = d[i];
                        }
                    }
                })
                .is_ok()
            })
        }
        "len" => guard(|| {
            got = vec![TpmReadBuffer::len(&m[..]) as u8, TpmReadBuffer::is_empty(&m[..]) as u8, Own(m.clone()).is_empty() as u8];
            true
        }),
        x => panic!("{x}"),
    };
    j.put("r", J::s(match r { Err(_) => "panic", Ok(true) => "ok", Ok(false) => "err" }));
    j.put("got", J::bytes(&got));
    j.put("called", J::I(called));
    j.put("win", J::I(win));
    j.put("after", J::bytes(m));
    j
}
/// One operation at one offset and size: its outcome, and what it did to the memory.
fn buf_one(f: &str, m: &[u8], data: &[u8], o: usize, n: usize) -> String {
    let mut x = m.to_vec();
    let window = |w: &[u8], n: usize| m.get(o..).is_some_and(|t| t.len() >= n && w == &t[..n]);
    let seen = |r: bool, b: Vec<u8>| if !r { "err" } else if window(&b, b.len()) { "ok" } else { "other" };
    let r = guard(|| match f {
        "read" => {
            let mut b = vec![0xA5; n];
            let r = TpmReadBuffer::read_into(&x[..], o, &mut b).is_ok();
            if !r && b.iter().any(|y| *y != 0xA5) { "dirty" } else { seen(r, b) }
        }
        "u16" => TpmReadBuffer::read_be_u16(&x[..], o).map(|v| seen(true, v.to_be_bytes().to_vec())).unwrap_or("err"),
        "u32" => TpmReadBuffer::read_be_u32(&x[..], o).map(|v| seen(true, v.to_be_bytes().to_vec())).unwrap_or("err"),
        "own16" => Own(x.clone()).read_be_u16(o).map(|v| seen(true, v.to_be_bytes().to_vec())).unwrap_or("err"),
        "own32" => Own(x.clone()).read_be_u32(o).map(|v| seen(true, v.to_be_bytes().to_vec())).unwrap_or("err"),
        "write" => if TpmWriteBuffer::write(&mut x[..], o, &data[..n]).is_ok() { "ok" } else { "err" },
        "cb" => {
            let mut calls = vec![];
            let r = TpmWriteBuffer::write_callback(&mut x[..], o, n, |w| {
                calls.push(w.len() == n && window(w, w.len()));
                let k = w.len().min(n);
                w[..k].copy_from_slice(&data[..k]);
            })
            .is_ok();
            match (r, &calls[..]) {
                (true, [true]) => "ok",
                (false, []) => "err",
                _ => "other",
            }
        }
        y => panic!("{y}"),
    })
    .unwrap_or("panic");
    // what the operation did to the memory: nothing, or exactly the given bytes in the window
    let put = x.len() == m.len() && o + n <= m.len() && x[..o] == m[..o] && x[o..o + n] == data[..n] && x[o + n..] == m[o + n..];
    let did = if put && r == "ok" && matches!(f, "write" | "cb") {
        "put"
    } else if x == m {
        "same"
    } else {
        "other"
    };
    format!("{r}/{did}")
}
fn pattern(len: usize) -> Vec<u8> {
    (0..len).map(|x| ((x + 1) * 10 + ((x + 1) >> 8) * 3 + 1) as u8).collect()
}
/// Every offset and size on one memory: per offset the runs of sizes with the same observation.
fn buf_sweep(c: &J) -> J {
    let (f, top_o, top_n) = (c.get("f").str(), c.get("tops").arr()[0].int() as usize, c.get("tops").arr()[1].int() as usize);
    let m = pattern(c.get("len").int() as usize);
    let data = verif_sweep::styled(top_n, 2);
    let mut rows = vec![];
    for o in 0..=top_o {
        let mut runs = Runs::default();
        let sizes = if matches!(f, "read" | "write" | "cb") { top_n } else { 0 };
        for n in 0..=sizes {
            runs.add(n, buf_one(f, &m, &data, o, n));
        }
        rows.push(runs.json());
    }
    let mut j = c.clone();
    j.put("rows", J::A(rows));
    j
}
/// Chosen offsets and sizes.
fn buf_far(c: &J) -> J {
    let m = pattern(c.get("len").int() as usize);
    let data = verif_sweep::styled(140_000, 2);
    let num = |k: &str| c.get(k).arr().iter().map(|x| x.int() as usize).collect::<Vec<_>>();
    let obs = parallel(&num("offs"), |o| J::A(num("sizes").iter().map(|n| J::s(buf_one(c.get("f").str(), &m, &data, *o, *n))).collect()));
    let mut j = c.clone();
    let known = guard(|| (TpmReadBuffer::len(&m[..]), TpmReadBuffer::is_empty(&m[..]), Own(m.clone()).is_empty()));
    j.put("empty", J::s(match known {
        Ok((n, a, b)) => format!("{n} {a} {b}"),
        Err(_) => "panic".into(),
    }));
    j.put("obs", J::A(obs));
    j
}
pub fn buffers(cases: &str, out: &str) {
    watchdog(out, 30);
    let mut o = Out::new(out);
    for c in read_lines(cases) {
        begin("platform buffer".into());
        if c.opt("f").is_some() {
            o.line(if c.opt("offs").is_some() { buf_far(&c) } else { buf_sweep(&c) });
            end();
            continue;
        }
        let mut m = c.get("m").as_bytes();
        let ops: Vec<J> = c.get("ops").arr().iter().map(|op| buf_op(&mut m, op)).collect();
        end();
        o.line(J::obj([("m", c.get("m").clone()), ("ops", J::A(ops))]));
    }
    o.done();
}
