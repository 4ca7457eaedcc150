//! Response codes (C18), handle ranges and attribute fields (C20).
use crate::json::{J, read_lines};
use crate::util::*;
use tpm2::errors::*;
use tpm2_rs_base::TpmaNv;
use tpm2_rs_base::constants::TpmNt;
use verif_sweep::{Outcome, Run};

fn w(v: u32) -> J {
    J::A(vec![J::I((v >> 16) as i64), J::I((v & 0xffff) as i64)])
}
fn u(j: &J) -> u32 {
    ((j.arr()[0].int() as u32) << 16) | j.arr()[1].int() as u32
}
fn item(e: TpmRcError) -> J {
    match e.format1_parameter() {
        None => J::obj([("k", J::s("none")), ("n", J::I(0))]),
        Some((t, p)) => J::obj([("k", J::s(format!("{t:?}"))), ("n", J::I(p as i64))]),
    }
}
fn code(e: TpmRcError) -> [(&'static str, J); 5] {
    let t: TssError = e.into();
    [("p", J::B(false)), ("v", w(e.get())), ("warn", J::B(e.is_warning())), ("item", item(e)), ("tss", w(t.get()))]
}
const POS: [ErrorPosition; 15] = {
    use ErrorPosition::*;
    [Pos1, Pos2, Pos3, Pos4, Pos5, Pos6, Pos7, Pos8, Pos9, PosA, PosB, PosC, PosD, PosE, PosF]
};

pub fn codes(cases: &str, out: &str) {
    let mut o = Out::new(out);
    let mut rec = |head: &[(&str, J)], f: &dyn Fn() -> TpmRcError| {
        let body = match guard(|| code(f())) {
            Ok(b) => b,
            Err(_) => [("p", J::B(true)), ("v", w(0)), ("warn", J::B(false)), ("item", J::obj([("k", J::s("none")), ("n", J::I(0))])), ("tss", w(0))],
        };
        let mut l = J::obj([]);
        for (k, v) in head.iter().cloned().chain(body) {
            l.put(k, v);
        }
        o.line(l);
    };
    macro_rules! named { ($($n:ident),*) => { $( rec(&[("op", J::s("named")), ("name", J::s(stringify!($n)))], &|| TpmRcError::$n); )* } }
    named!(Asymmetric, Value, Size, Selector, BadTag, Initialize, Failure, Sequence, CommandSize, CommandCode, ContextGap, ObjectMemory, SessionMemory, Memory);
    for (bn, f) in [
        ("Asymmetric", TpmRcError::AsymmetricFor as fn(ErrorType, ErrorPosition) -> TpmRcError),
        ("Value", TpmRcError::ValueFor),
        ("Size", TpmRcError::SizeFor),
        ("Selector", TpmRcError::SelectorFor),
    ] {
        for (tn, t) in [("Handle", ErrorType::Handle), ("Parameter", ErrorType::Parameter), ("Session", ErrorType::Session)] {
            for (i, p) in POS.iter().enumerate() {
                rec(&[("op", J::s("qual")), ("name", J::s(bn)), ("on", J::s(tn)), ("pos", J::I(i as i64 + 1))], &|| f(t, *p));
            }
        }
    }
    macro_rules! layer { ($l:expr, $t:ident; $($n:ident),*) => { $( {
        let e = $t::$n;
        let t: TssError = e.into();
        o.line(J::obj([("op", J::s("layer")), ("layer", J::I($l)), ("name", J::s(stringify!($n))), ("tss", w(t.get()))]));
    } )* } }
    macro_rules! layers { ($($l:expr, $t:ident);*) => { $( layer!($l, $t; GeneralFailure, BadParameter, InternalError, OutOfMemory, NotImplemented, KeyAlredyRegistered, TpmUnexpected, CommFailure, Timeout, Unsupported, Canceled); )* } }
    layers!(1, TssTddlError; 2, TssTcsError; 3, TssTspError);
    for c in read_lines(cases) {
        let v = u(c.get("v"));
        let r = guard(|| match TssError::try_from(v) {
            Ok(e) => {
                let io: std::io::Error = e.into();
                let back = io.get_ref().and_then(|x| x.downcast_ref::<TssError>()).map(|x| x.get()).unwrap_or(0);
                (true, e.get(), back, e.to_string().parse::<u32>().unwrap_or(0))
            }
            Err(_) => (false, 0, 0, 0),
        });
        let (p, (ok, g, io, txt)) = match r {
            Ok(x) => (false, x),
            Err(_) => (true, (false, 0, 0, 0)),
        };
        o.line(J::obj([("op", J::s("try")), ("p", J::B(p)), ("in", w(v)), ("ok", J::B(ok)), ("v", w(g)), ("io", w(io)), ("txt", w(txt))]));
    }
    ranges(&mut o, &verif_sweep::CODES);
    o.done();
}

struct R(Vec<Run>);
impl R {
    fn add(&mut self, lo: u32, hi: u32, o: (u8, u32)) {
        if let Some(l) = self.0.last_mut() {
            if l.1.wrapping_add(1) == lo && l.2 == o {
                l.1 = hi;
                return;
            }
        }
        self.0.push((lo, hi, o));
    }
}
fn one(f: fn(u32) -> Outcome, v: u32) -> Outcome {
    guard(|| f(v)).unwrap_or((3, 0))
}
/// All 2^32 values through each function, run-length encoded.
pub fn ranges(o: &mut Out, fs: &[verif_sweep::F]) {
    let ranges: Vec<(u32, u32)> = (0..64u32).map(|i| (i << 26, (i << 26) | 0x3ff_ffff)).collect();
    for &(name, f, sweep) in fs {
        let next = std::sync::atomic::AtomicUsize::new(0);
        let res: std::sync::Mutex<Vec<(usize, R)>> = std::sync::Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= ranges.len() {
                            break;
                        }
                        let (a, z) = ranges[i];
                        begin(format!("{name} of {a:#x}..={z:#x}"));
                        let r = guard(|| R(sweep(a, z))).unwrap_or_else(|_| {
                            // some value panics: find out which
                            let mut r = R(vec![]);
                            let mut panics = 0;
                            for v in a..=z {
                                let x = one(f, v);
                                panics += (x.0 == 3) as u32;
                                if panics > 1000 {
                                    break;
                                }
                                if r.0.len() < 2000 {
                                    r.add(v, v, x);
                                }
                            }
                            r
                        });
                        end();
                        res.lock().unwrap().push((i, r));
                    }
                });
            }
        });
        let mut v = res.into_inner().unwrap();
        v.sort_by_key(|x| x.0);
        let mut m = R(vec![]);
        for (_, r) in v {
            for (a, z, x) in r.0 {
                m.add(a, z, x);
            }
        }
        for (a, z, x) in m.0 {
            o.line(J::obj([("op", J::s("range")), ("f", J::s(name)), ("lo", w(a)), ("hi", w(z)), ("k", J::I(x.0 as i64)), ("d", w(x.1))]));
        }
    }
}
/// Handle ranges, and histories of index-type changes.
pub fn handles(cases: &str, out: &str) {
    let mut o = Out::new(out);
    ranges(&mut o, &verif_sweep::ALL);
    for c in read_lines(cases) {
        // attribute word, then a sequence of index types to set
        let v = u(c.get("v"));
        let ts: Vec<u8> = c.get("ts").as_bytes();
        let r = guard(|| {
            let mut a = TpmaNv(v);
            let mut l = vec![];
            l.push(J::obj([("set", J::I(-1)), ("v", w(a.0)), ("get", J::I(a.get_index_type().0 as i64)), ("from", w(0))]));
            for t in &ts {
                a.set_type(TpmNt(*t));
                l.push(J::obj([("set", J::I(*t as i64)), ("v", w(a.0)), ("get", J::I(a.get_index_type().0 as i64)), ("from", w(TpmaNv::from(TpmNt(*t)).0))]));
            }
            l
        });
        let (p, l) = match r {
            Ok(l) => (false, l),
            Err(_) => (true, vec![]),
        };
        o.line(J::obj([("op", J::s("nv")), ("p", J::B(p)), ("in", w(v)), ("steps", J::A(l))]));
    }
    o.done();
}
