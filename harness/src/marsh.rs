//! The allocation-free marshalling layer and its hash limits (C21).
use crate::json::{J, read_lines};
use crate::util::*;
use tpm2::{Alg, Limits, Marshal, TpmiAlgHash, TpmtHa, Unmarshal};

const HASHES: [TpmiAlgHash; 8] = {
    use TpmiAlgHash::*;
    [Sha1, Sha256, Sha384, Sha512, Sm3_256, Sha3_256, Sha3_384, Sha3_512]
};
/// Bit i: HASHES[i] is supported.
#[derive(Clone, Copy)]
struct Set(u8);
impl Limits for Set {
    fn supports_hash(self, h: TpmiAlgHash) -> bool {
        HASHES.iter().position(|x| *x == h).is_some_and(|i| self.0 >> i & 1 == 1)
    }
}
fn pan(p: bool) -> (&'static str, J) {
    ("p", J::B(p))
}
/// What a placeholder may hold before something is decoded into it.
fn starts() -> [TpmtHa<'static>; 4] {
    use TpmiAlgHash::*;
    static A: [u8; Sha1.digest_size()] = [0xEE; Sha1.digest_size()];
    static B: [u8; Sha256.digest_size()] = [0xED; Sha256.digest_size()];
    static C: [u8; Sha384.digest_size()] = [0xEC; Sha384.digest_size()];
    static D: [u8; Sha512.digest_size()] = [0xEB; Sha512.digest_size()];
    [TpmtHa::Sha1(&A), TpmtHa::Sha256(&B), TpmtHa::Sha384(&C), TpmtHa::Sha512(&D)]
}
/// Decodes into a placeholder; what comes out in bytes.
fn dec_ha(start: TpmtHa<'static>, set: u8, input: &[u8]) -> J {
    let r = guard(|| {
        let mut h = start;
        match h.unmarshal(Set(set), input) {
            Ok(rest) => Some((h.hash_alg() as u16, h.digest().to_vec(), rest.to_vec(), h.marshaled_size())),
            Err(_) => None,
        }
    });
    match r {
        Ok(Some((a, d, rest, n))) => J::obj([pan(false), ("ok", J::B(true)), ("alg", J::I(a as i64)), ("d", J::bytes(&d)), ("rest", J::bytes(&rest)), ("n", J::I(n as i64))]),
        Ok(None) => J::obj([pan(false), ("ok", J::B(false))]),
        Err(_) => J::obj([pan(true), ("ok", J::B(false))]),
    }
}
fn ha<'a>(alg: u16, d: &'a [u8]) -> Option<TpmtHa<'a>> {
    Some(match alg {
        4 => TpmtHa::Sha1(d.try_into().ok()?),
        11 => TpmtHa::Sha256(d.try_into().ok()?),
        12 => TpmtHa::Sha384(d.try_into().ok()?),
        13 => TpmtHa::Sha512(d.try_into().ok()?),
        _ => return None,
    })
}
fn enc<T: Marshal>(v: &T, set: u8, len: usize) -> J {
    let mut buf = vec![0x5A; len];
    let r = guard(|| {
        let r = v.marshal(Set(set), &mut buf).map(|r| r.len());
        (r, v.marshaled_size(), T::marshaled_size_max(Set(set)))
    });
    match r {
        Ok((Ok(rest), n, m)) => J::obj([pan(false), ("ok", J::B(true)), ("rest", J::I(rest as i64)), ("buf", J::bytes(&buf)), ("n", J::I(n as i64)), ("max", J::I(m as i64))]),
        Ok((Err(_), n, m)) => J::obj([pan(false), ("ok", J::B(false)), ("n", J::I(n as i64)), ("max", J::I(m as i64))]),
        Err(_) => J::obj([pan(true), ("ok", J::B(false)), ("n", J::I(0)), ("max", J::I(0))]),
    }
}
fn with(mut j: J, op: &str, kv: &[(&str, J)]) -> J {
    j.put("op", J::s(op));
    for (k, v) in kv {
        j.put(k, v.clone());
    }
    j
}
macro_rules! ints { ($t:expr, $b:expr, $len:expr, $($n:literal $T:ty),*) => { match $t { $( $n => {
    let v = <$T>::from_be_bytes($b.try_into().expect("width"));
    let e = enc(&v, 0, $len);
    let mut src = $b.to_vec();
    src.extend([1, 2, 3]);
    src.truncate($len);
    let d = |start: $T| guard(|| { let mut x = start; x.unmarshal(Set(0), &src).map(|r| (x.to_be_bytes().to_vec(), r.to_vec())) });
    let (d0, d1) = (d(0), d(!v));
    (e, if format!("{d0:?}") == format!("{d1:?}") { d0 } else { Err("depends on what was there before".into()) })
} )* x => panic!("int type {x}") } } }

pub fn run(cases: &str, out: &str) {
    watchdog(out, 60);
    let mut o = Out::new(out);
    begin("limits".into());
    for set in 0..=255u8 {
        let r = guard(|| (Set(set).max_digest_size(), <TpmtHa as Marshal>::marshaled_size_max(Set(set)), <TpmiAlgHash as Marshal>::marshaled_size_max(Set(set))));
        let (p, (m, x, i)) = match r {
            Ok(v) => (false, v),
            Err(_) => (true, (0, 0, 0)),
        };
        o.line(J::obj([("op", J::s("max")), pan(p), ("set", J::I(set as i64)), ("max", J::I(m as i64)), ("ha", J::I(x as i64)), ("id", J::I(i as i64))]));
    }
    // all identifiers
    let mut runs = [Runs::default(), Runs::default(), Runs::default()];
    for id in 0..=65535u16 {
        let a = guard(|| TpmiAlgHash::try_from(Alg(id)).map(|h| (Alg::from(h).0.wrapping_sub(id), h.digest_size())));
        let s = |r: Result<Result<(u16, usize), ()>, String>| match r {
            Ok(Ok((d, n))) => format!("ok {d} {n}"),
            Ok(Err(())) => "err".into(),
            Err(_) => "panic".into(),
        };
        runs[0].add(id as usize, s(a.map(|x| x.map_err(|_| ()))));
        let b = |start: TpmiAlgHash| guard(|| {
            let mut h = start;
            h.unmarshal(Set(255), &[(id >> 8) as u8, id as u8, 77]).map(|r| ((h as u16).wrapping_sub(id), r.len())).map_err(|_| ())
        });
        let both = |x: String, y: String| if x == y { x } else { format!("{x} or {y}") };
        runs[1].add(id as usize, both(s(b(TpmiAlgHash::Sha1)), s(b(TpmiAlgHash::Sha3_512))));
        let c = |start: u16| guard(|| {
            let mut h = Alg(start);
            h.unmarshal(Set(255), &[(id >> 8) as u8, id as u8, 77]).map(|r| (h.0.wrapping_sub(id), r.len())).map_err(|_| ())
        });
        runs[2].add(id as usize, both(s(c(0)), s(c(!id))));
    }
    for (n, r) in ["try", "id", "alg"].iter().zip(&runs) {
        o.line(J::obj([("op", J::s("ids")), ("f", J::s(*n)), ("runs", r.json())]));
    }
    // all identifiers under all sets
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                loop {
                    let set = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if set > 255 {
                        break;
                    }
                    let mut r = Runs::default();
                    let mut b = [0u8; 70];
                    let z = starts();
                    for id in 0..=65535u16 {
                        b[..2].copy_from_slice(&id.to_be_bytes());
                        let one = |start: TpmtHa<'static>| guard(|| {
                            let mut h: TpmtHa = start;
                            h.unmarshal(Set(set as u8), &b).map(|rest| {
                                let n = h.digest().len();
                                ((h.hash_alg() as u16).wrapping_sub(id), n, rest.len(), h.digest() == &b[2..2 + n])
                            }).ok()
                        });
                        let x = z.map(one).into_iter().reduce(|x, y| if x == y { x } else { Err("differs".into()) }).unwrap();
                        r.add(
                            id as usize,
                            match x {
                                Ok(Some((d, n, l, true))) => format!("ok {d} {n} {l}"),
                                Ok(Some(_)) => "other digest".into(),
                                Ok(None) => "err".into(),
                                Err(_) => "panic".into(),
                            },
                        );
                    }
                    res.lock().unwrap().push((set, r));
                }
            });
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (set, r) in v {
        o.line(J::obj([("op", J::s("haids")), ("set", J::I(set as i64)), ("runs", r.json())]));
    }
    for c in read_lines(cases) {
        begin(format!("{c:?}"));
        match c.get("op").str() {
            "dec" => {
                let b = c.get("in").as_bytes();
                let set = c.get("set").int() as u8;
                for l in 0..=b.len() {
                    // one line per outcome that differs from the first placeholder's
                    let mut first = None;
                    for st in starts() {
                        let j = dec_ha(st, set, &b[..l]);
                        let t = format!("{j:?}");
                        if first.get_or_insert_with(String::new) != &t {
                            first = Some(t);
                            o.line(with(j, "dec", &[("set", J::I(set as i64)), ("in", J::bytes(&b[..l]))]));
                        }
                    }
                }
            }
            "enc" => {
                let (alg, d) = (c.get("alg").int() as u16, c.get("d").as_bytes());
                for s in c.get("sets").arr() {
                    for l in c.get("lens").arr() {
                        // a digest of the right length that the type cannot hold counts as not encodable
                        let j = match ha(alg, &d) {
                            Some(v) => enc(&v, s.int() as u8, l.int() as usize),
                            None => J::obj([pan(true), ("ok", J::B(false)), ("n", J::I(0)), ("max", J::I(0))]),
                        };
                        o.line(with(j, "enc", &[("set", s.clone()), ("alg", J::I(alg as i64)), ("d", J::bytes(&d)), ("len", l.clone())]));
                    }
                }
            }
            "id" => {
                let i = c.get("i").int() as usize;
                let set = c.get("set").int() as u8;
                for l in 0..6 {
                    let j = enc(&HASHES[i], set, l);
                    o.line(with(j, "encid", &[("i", J::I(i as i64 + 1)), ("set", J::I(set as i64)), ("len", J::I(l as i64))]));
                    let a = Alg::from(HASHES[i]);
                    o.line(with(enc(&a, set, l), "encid", &[("i", J::I(i as i64 + 1)), ("set", J::I(set as i64)), ("len", J::I(l as i64))]));
                    let src = [0u8, 4, 9, 9, 9, 9];
                    let r = guard(|| {
                        let mut h = TpmiAlgHash::Sha512;
                        h.unmarshal(Set(set), &src[..l]).map(|r| (h as u16, r.len())).ok()
                    });
                    let (p, ok, h, n) = match r {
                        Ok(Some((h, n))) => (false, true, h, n),
                        Ok(None) => (false, false, 0, 0),
                        Err(_) => (true, false, 0, 0),
                    };
                    o.line(J::obj([("op", J::s("decid")), pan(p), ("ok", J::B(ok)), ("alg", J::I(h as i64)), ("rest", J::I(n as i64)), ("len", J::I(l as i64))]));
                }
            }
            "int" => {
                let (t, b) = (c.get("t").str(), c.get("b").as_bytes());
                for len in 0..=b.len() + 3 {
                    let (e, d) = ints!(t, b.as_slice(), len, "u8" u8, "u16" u16, "u32" u32, "u64" u64, "i8" i8, "i16" i16, "i32" i32, "i64" i64);
                    let (p, ok, x, r) = match d {
                        Ok(Ok((x, r))) => (false, true, x, r),
                        Ok(Err(_)) => (false, false, vec![], vec![]),
                        Err(_) => (true, false, vec![], vec![]),
                    };
                    let dj = J::obj([pan(p), ("ok", J::B(ok)), ("b", J::bytes(&x)), ("rest", J::bytes(&r))]);
                    o.line(with(e, "int", &[("t", J::s(t)), ("b", J::bytes(&b)), ("len", J::I(len as i64)), ("dec", dj)]));
                }
            }
            "arr" => {
                let b = c.get("b").as_bytes();
                for len in 0..=b.len() + 2 {
                    macro_rules! arr { ($($n:literal),*) => { match b.len() { $( $n => enc::<[u8; $n]>(&b.as_slice().try_into().unwrap(), 0, len), )* x => panic!("array {x}") } } }
                    let e = arr!(0, 1, 2, 7, 20, 32, 48, 64);
                    o.line(with(e, "arr", &[("b", J::bytes(&b)), ("len", J::I(len as i64))]));
                }
            }
            x => panic!("op {x}"),
        }
        end();
    }
    end();
    o.done();
}
