//! The inner loops of exhaustive sweeps, compiled with optimization (the overflow and debug checks stay on).
use tpm2::errors::{TpmRcError, TssError};
use tpm2_rs_base::marshal::Marshalable;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_base::marshal::UnmarshalBuf;

/// Outcome of a classification: (0, 0) no, (1, out - in) yes, (2, code) refused with that code, (3, _) panicked or unusable.
pub type Outcome = (u8, u32);
fn out_of<T: Marshalable>(v: u32, r: Result<T, TpmRcError>) -> Outcome {
    match r {
        Err(e) => (2, e.get()),
        Ok(t) => {
            let mut b = [0u8; 8];
            match t.try_marshal(&mut b) {
                Ok(4) => (1, u32::from_be_bytes([b[0], b[1], b[2], b[3]]).wrapping_sub(v)),
                _ => (3, 1),
            }
        }
    }
}
pub trait Cls {
    fn f(v: u32) -> Outcome;
}
macro_rules! cls { ($($n:ident = $e:expr;)*) => { $( pub struct $n; impl Cls for $n { #[inline(always)] fn f(v: u32) -> Outcome { ($e)(v) } } )* } }
cls! {
    NvIndex = |v| out_of(v, TpmiRhNvIndex::try_from(v));
    AuthSession = |v| out_of(v, TpmiShAuthSession::try_from(v));
    IsNv = |v| (TpmHc::is_nv_index(v) as u8, 0);
    IsHmac = |v| (TpmHc::is_hmac_session(v) as u8, 0);
    IsPolicy = |v| (TpmHc::is_policy_session(v) as u8, 0);
}
cls! {
    TryTss = |v| match TssError::try_from(v) {
        Ok(e) => (1, e.get().wrapping_sub(v)),
        Err(_) => (0, 0),
    };
}
pub type Run = (u32, u32, Outcome);
fn sweep<C: Cls>(a: u32, z: u32) -> Vec<Run> {
    let mut r = vec![];
    let (mut lo, mut cur, mut v) = (a, C::f(a), a);
    while v != z {
        v += 1;
        let x = C::f(v);
        if x != cur {
            r.push((lo, v - 1, cur));
            lo = v;
            cur = x;
            if r.len() >= 2000 {
                return r;
            }
        }
    }
    r.push((lo, z, cur));
    r
}
pub type F = (&'static str, fn(u32) -> Outcome, fn(u32, u32) -> Vec<Run>);
pub const ALL: [F; 5] = [
    ("nvindex", NvIndex::f, sweep::<NvIndex>),
    ("authsession", AuthSession::f, sweep::<AuthSession>),
    ("is_nv", IsNv::f, sweep::<IsNv>),
    ("is_hmac", IsHmac::f, sweep::<IsHmac>),
    ("is_policy", IsPolicy::f, sweep::<IsPolicy>),
];
pub const CODES: [F; 1] = [("try_tss", TryTss::f, sweep::<TryTss>)];
/// Decoding four bytes and encoding the result.
macro_rules! words { ($($n:ident $t:ty),*) => {
    cls! { $( $n = |v: u32| match <$t>::try_unmarshal(&mut UnmarshalBuf::new(&v.to_be_bytes())) {
        Ok(t) => {
            let mut b = [0u8; 5];
            match t.try_marshal(&mut b) {
                Ok(4) => (1, u32::from_be_bytes([b[0], b[1], b[2], b[3]]).wrapping_sub(v)),
                _ => (3, 1),
            }
        }
        Err(_) => (2, 0),
    }; )* }
    pub const WORDS: [F; 13] = [$( (stringify!($t), $n::f, sweep::<$n>) ),*];
} }
words!(W0 u32, W1 TpmaNv, W2 TpmaObject, W3 TpmaAlgorithm, W4 TpmaCc, W5 TpmCc, W6 TpmCap, W7 TpmPt, W8 TpmPtPcr, W9 TpmHandle, WA TpmGenerated, WB TpmiRhNvIndex, WC TpmiShAuthSession);
pub fn all_are(b: &[u8], x: u8) -> bool {
    b.iter().all(|y| *y == x)
}
/// Content of n bytes in one of several styles.
pub fn styled(n: usize, style: usize) -> Vec<u8> {
    let mut v: Vec<u8> = match style {
        0 => vec![0; n],
        1 => vec![0xFF; n],
        5 => vec![0x80; n],
        _ => (0..n).map(|i| ((i + 1) * 31 + (i >> 8) * 7 + n * 5 + style) as u8 | 1).collect(),
    };
    let k = n.min(2);
    match style {
        3 => v[..k].fill(0),
        4 => v[n - k..].fill(0),
        6 => v[n / 2..n / 2 + n.min(1)].fill(0),
        _ => {}
    }
    v
}
