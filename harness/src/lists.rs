//! Typed lists: executes histories of operations.
use crate::json::{J, read_lines};
use crate::util::*;
use crate::wire::{decode, enc_all};
use std::collections::BTreeMap;
use tpm2::errors::TpmRcError;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::Marshalable;

type RcRes<T> = Result<T, TpmRcError>;
pub trait List: Marshalable + Default {
    type E: Marshalable + Copy + Default;
    fn mk(e: &[Self::E]) -> RcRes<Self>;
    fn push(&mut self, e: &Self::E) -> RcRes<()>;
    fn n(&self) -> usize;
    fn els(&self) -> Vec<Self::E>;
}
macro_rules! lists { ($($t:ident, $e:ty, $acc:ident);* $(;)?) => { $(impl List for $t {
    type E = $e;
    fn mk(e: &[$e]) -> RcRes<Self> { $t::new(e).map_err(Into::into) }
    fn push(&mut self, e: &$e) -> RcRes<()> { self.add(e).map_err(Into::into) }
    fn n(&self) -> usize { self.count() }
    fn els(&self) -> Vec<$e> { self.$acc().to_vec() }
})*
fn dispatch(t: &str, c: &J, pool: &[Vec<u8>]) -> J { match t { $(stringify!($t) => hist::<$t>(c, pool),)* x => panic!("list {x}") } }
} }
lists!(TpmlPcrSelection, TpmsPcrSelection, pcr_selections; TpmlAlgProperty, TpmsAlgProperty, alg_properties; TpmlHandle, TpmHandle, handle;
    TpmlCc, TpmCc, command_codes; TpmlTaggedTpmProperty, TpmsTaggedProperty, tpm_property; TpmlTaggedPcrProperty, TpmsTaggedPcrSelect, pcr_property;
    TpmlEccCurve, TpmEccCurve, ecc_curves; TpmlTaggedPolicy, TpmsTaggedPolicy, policies; TpmlDigest, Tpm2bDigest, digests);

fn rc(r: Result<RcRes<()>, String>) -> String {
    match r {
        Err(_) => "panic".into(),
        Ok(Ok(())) => "ok".into(),
        Ok(Err(e)) => format!("rc{}", e.get()),
    }
}
fn state<L: List>(j: &mut J, l: &L, ids: &BTreeMap<Vec<u8>, i64>) {
    let s = guard(|| (l.n(), l.els().iter().map(enc_all).collect::<Vec<_>>()));
    let (n, e) = match s {
        Ok(x) => x,
        Err(_) => (usize::MAX, vec![]),
    };
    j.put("count", J::I(if n > 1 << 30 { -1 } else { n as i64 }));
    j.put("ids", J::A(e.iter().map(|x| J::I(*ids.get(x).unwrap_or(&-1))).collect()));
}
fn hist<L: List>(c: &J, pool: &[Vec<u8>]) -> J {
    // number 0 is the default element
    let mut els = vec![L::E::default()];
    els.extend(pool.iter().map(|b| legal(decode::<L::E>(b).val, std::any::type_name::<L::E>(), b)));
    let mut enc = vec![legal(guard(|| enc_all(&els[0])).ok(), std::any::type_name::<L::E>(), &[])];
    enc.extend(pool.iter().cloned());
    let ids: BTreeMap<Vec<u8>, i64> = enc.iter().enumerate().map(|(i, b)| (b.clone(), i as i64)).collect();
    let init: Vec<usize> = c.get("init").arr().iter().map(|x| x.int() as usize).collect();
    let w = c.get("w").arr();
    let mut j = J::obj([("t", c.get("t").clone()), ("kind", c.get("kind").clone()), ("init", c.get("init").clone()), ("len", J::I(w.len() as i64)), ("def", J::bytes(&enc[0]))]);
    let mut cur: Option<L> = None;
    let r = match c.get("kind").str() {
        "default" => {
            cur = Some(L::default());
            "ok".into()
        }
        "new" => {
            let v: Vec<L::E> = init.iter().map(|i| els[*i]).collect();
            rc(guard(|| L::mk(&v).map(|x| cur = Some(x))))
        }
        _ => {
            let mut b = (init.len() as u32).to_be_bytes().to_vec();
            b.extend(init.iter().flat_map(|i| enc[*i].clone()));
            let d = decode::<L>(&b);
            cur = d.val;
            d.out
        }
    };
    j.put("r", J::s(r));
    let mut steps = vec![];
    if let Some(mut l) = cur {
        state(&mut j, &l, &ids);
        for x in w {
            let x = x.int();
            let mut s = J::obj([("op", J::s(if x >= 0 { "add" } else { "rt" }))]);
            if x >= 0 {
                s.put("x", J::I(x));
                let r = rc(guard(|| l.push(&els[x as usize])));
                s.put("r", J::s(r));
            } else {
                let b = guard(|| enc_all(&l));
                let (r, b) = match b {
                    Ok(b) => ("ok".to_string(), b),
                    Err(_) => ("panic".into(), vec![]),
                };
                let r = if r == "ok" {
                    let d = decode::<L>(&b);
                    if let Some(v) = d.val {
                        l = v;
                    }
                    d.out
                } else {
                    r
                };
                s.put("r", J::s(r));
                s.put("enc", J::bytes(&b));
            }
            state(&mut s, &l, &ids);
            steps.push(s);
        }
    } else {
        j.put("count", J::I(-1));
        j.put("ids", J::A(vec![]));
    }
    j.put("steps", J::A(steps));
    j
}
pub fn run(cases: &str, out: &str) {
    watchdog(out, 30);
    let mut o = Out::new(out);
    let mut pool: Vec<Vec<u8>> = vec![];
    for c in read_lines(cases) {
        if c.get("op").str() == "pool" {
            pool = c.get("pool").arr().iter().map(|x| x.as_bytes()).collect();
            continue;
        }
        let t = c.get("t").str();
        begin(format!("list {t}"));
        o.line(dispatch(t, &c, &pool));
        end();
    }
    o.done();
}
