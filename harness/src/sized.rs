//! Sized buffers (TPM2B).
use crate::json::{J, read_lines};
use crate::util::*;
use crate::wire::user::UserWrap;
use crate::wire::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::Marshalable;

fn views<T: Tpm2bSimple + AsRef<[u8]> + Marshalable>(j: &mut J, v: Result<Result<T, tpm2_rs_marshalable::Error>, String>) {
    let o = match v {
        Err(_) => Err("panic"),
        Ok(Err(e)) => Err(err_name(&e)),
        Ok(Ok(v)) => guard(|| {
            let mut b = vec![0u8; v.get_size() as usize + 8];
            let n = v.try_marshal(&mut b).unwrap_or(0);
            (v.get_size(), v.get_buffer().to_vec(), v.as_ref().to_vec(), b[..n].to_vec())
        })
        .map_err(|_| "panic"),
    };
    let (r, sz, out, asref, enc) = match o {
        Err(e) => (e, 0, vec![], vec![], vec![]),
        Ok((sz, a, b, c)) => ("ok", sz, a, b, c),
    };
    j.put("r", J::s(r));
    j.put("sz", J::I(sz as i64));
    j.put("out", J::bytes(&out));
    j.put("asref", J::bytes(&asref));
    j.put("enc", J::bytes(&enc));
}
pub fn from_bytes_case<T: Tpm2bSimple + AsRef<[u8]> + Marshalable + Default>(b: Option<&[u8]>) -> J {
    let mut j = J::obj([]);
    match b {
        Some(b) => views(&mut j, guard(|| T::from_bytes(b))),
        None => views(&mut j, guard(|| Ok(T::default()))),
    }
    j
}

/// Every length from 0 to beyond the capacity in one content style; runs of equal outcomes relative to the length.
pub fn all_case<T: Tpm2bSimple + AsRef<[u8]> + Marshalable + Default + PartialEq>(style: usize, top: usize) -> J {
    let mut runs = Runs::default();
    for n in 0..=top {
        let b = verif_sweep::styled(n, style);
        let o = match guard(|| T::from_bytes(&b)) {
            Err(_) => "panic".into(),
            Ok(Err(e)) => err_name(&e).to_string(),
            Ok(Ok(v)) => guard(|| {
                let (big, exact) = (encode_into(&v, n + 11), encode_into(&v, n + 2));
                let wire = [&(n as u16).to_be_bytes()[..], &b].concat();
                let enc = big.0 == format!("ok{}", n + 2) && big.0 == exact.0 && big.1[..n + 2] == wire && exact.1 == wire;
                let dec = decode::<T>(&wire).val.is_some_and(|x| x == v && x.get_buffer() == v.get_buffer());
                let f = |b: bool, y: &str| if b { y.to_string() } else { "-".to_string() };
                format!("ok{:+}", v.get_size() as i64 - n as i64)
                    + &f(v.get_buffer() == &b[..], "b")
                    + &f(v.as_ref() == &b[..], "a")
                    + &f(enc, "e")
                    + &f(dec, "d")
            })
            .unwrap_or("panic".into()),
        };
        runs.add(n, o);
    }
    runs.json()
}
fn wrap_case<S: Tpm2bStruct>(j: &mut J, b: &[u8])
where
    S::StructType: Proj + PartialEq,
{
    let d = decode::<S::StructType>(b);
    let Some(v) = d.val else {
        j.put("r", J::s(format!("case:{}", d.out)));
        return;
    };
    let (mut r, mut sz, mut out, mut back, mut l, mut eq) = ("ok", 0, vec![], "none", Leaves::new(), false);
    match guard(|| S::from_struct(&v)) {
        Err(_) => r = "panic",
        Ok(Err(e)) => r = err_name(&e),
        Ok(Ok(s)) => {
            sz = s.get_size();
            out = s.get_buffer().to_vec();
            match guard(|| s.to_struct()) {
                Err(_) => back = "panic",
                Ok(Err(e)) => back = err_name(&e),
                Ok(Ok(x)) => {
                    back = "ok";
                    eq = x == v;
                    x.leaves("", &mut l);
                }
            }
        }
    }
    j.put("r", J::s(r));
    j.put("sz", J::I(sz as i64));
    j.put("out", J::bytes(&out));
    j.put("back", J::s(back));
    j.put("eq", J::B(eq));
    j.put("l", leaves_json(&l));
}
fn unwrap_case<S: Tpm2bStruct>(j: &mut J, b: &[u8])
where
    S::StructType: Proj,
{
    let mut l = Leaves::new();
    let r = match S::from_bytes(b) {
        Err(_) => "toolong",
        Ok(s) => match guard(|| s.to_struct()) {
            Err(_) => "panic",
            Ok(Err(e)) => err_name(&e),
            Ok(Ok(x)) => {
                x.leaves("", &mut l);
                "ok"
            }
        },
    };
    j.put("r", J::s(r));
    j.put("l", leaves_json(&l));
}

pub fn run(cases: &str, out: &str) {
    watchdog(out, 30);
    let mut o = Out::new(out);
    for c in read_lines(cases) {
        let (op, t) = (c.get("op").str(), c.get("t").str());
        let mut j = J::obj([("op", J::s(op)), ("t", J::s(t)), ("n", c.get("n").clone())]);
        begin(format!("{op} {t}"));
        match op {
            "fb" | "def" => {
                let n = c.get("n").int() as usize;
                let salt = c.get("salt").int() as usize;
                let b: Vec<u8> = (0..n).map(|i| ((i + 1) * 31 + (i >> 8) * 7 + salt) as u8).collect();
                let f = SIZED.iter().find(|x| x.0 == t).expect("sized type").2;
                let r = f(if op == "fb" { Some(&b) } else { None });
                if let J::O(m) = r {
                    for (k, v) in m {
                        j.put(&k, v);
                    }
                }
                // very long inputs are refused; their content says nothing
                let long = n > 8192 && j.get("r").str() != "ok";
                j.put("b", if long { J::A(vec![]) } else { J::bytes(&b) });
            }
            "all" => {
                let f = SIZED.iter().find(|x| x.0 == t).expect("sized type").3;
                let style = c.get("salt").int() as usize;
                begin(format!("{op} {t} {style}"));
                j.put("style", c.get("salt").clone());
                j.put("runs", f(style, c.get("n").int() as usize));
            }
            _ => {
                let b = c.get("b").as_bytes();
                j.put("b", J::bytes(&b));
                match (op, t) {
                    ("wrap", "UserWrap") => wrap_case::<UserWrap>(&mut j, &b),
                    ("wrap", "Tpm2bPublic") => wrap_case::<Tpm2bPublic>(&mut j, &b),
                    ("wrap", "Tpm2bSensitiveCreate") => wrap_case::<Tpm2bSensitiveCreate>(&mut j, &b),
                    ("wrap", "Tpm2bCreationData") => wrap_case::<Tpm2bCreationData>(&mut j, &b),
                    ("unwrap", "UserWrap") => unwrap_case::<UserWrap>(&mut j, &b),
                    ("unwrap", "Tpm2bPublic") => unwrap_case::<Tpm2bPublic>(&mut j, &b),
                    ("unwrap", "Tpm2bSensitiveCreate") => unwrap_case::<Tpm2bSensitiveCreate>(&mut j, &b),
                    ("unwrap", "Tpm2bCreationData") => unwrap_case::<Tpm2bCreationData>(&mut j, &b),
                    x => panic!("unknown case {x:?}"),
                }
            }
        }
        end();
        o.line(j);
    }
    o.done();
}
