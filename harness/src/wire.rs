//! Drives every marshalable type: decode, project, re-encode. Logs only; the specification judges.
use crate::json::{J, read_lines};
use crate::util::*;
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::*;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error, Marshalable, MarshalableVariant, UnmarshalBuf};
use safe_discriminant::Discriminant;

pub type Leaves = Vec<(String, Vec<u8>)>;
pub trait Proj {
    fn leaves(&self, p: &str, o: &mut Leaves);
}
pub fn sub(p: &str, f: &str) -> String {
    if p.is_empty() { f.to_string() } else { format!("{p}.{f}") }
}
pub fn enc_all<T: Marshalable>(x: &T) -> Vec<u8> {
    let mut b = vec![0u8; 16384];
    let n = x.try_marshal(&mut b).expect("encode");
    b.truncate(n);
    b
}
macro_rules! prim { ($($t:ty),*) => { $(impl Proj for $t { fn leaves(&self, p:&str, o:&mut Leaves){ o.push((p.into(), self.to_be_bytes().to_vec())); } })* } }
prim!(u8, u16, u32, u64, i8, i16, i32, i64);
macro_rules! newt { ($($t:ty),* $(,)?) => { $(impl Proj for $t { fn leaves(&self, p:&str, o:&mut Leaves){ o.push((p.into(), self.0.to_be_bytes().to_vec())); } })* } }
newt!(TpmaLocality, TpmaNv, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiAlgHash, TpmiAlgKdf, TpmiAlgPublic,
    TpmiAlgSymMode, TpmiAlgSymObject, TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme, TpmiAlgSigScheme, TpmiAlgEccScheme,
    TpmiAlgAsymScheme, TpmiYesNo, TpmiStAttest, TpmiStCommandTag, TpmAlgId, TpmEccCurve, TpmSt, TpmSu, TpmCc, TpmCap,
    TpmPt, TpmPtPcr, TpmHandle, TpmGenerated);
// Types without public access to their value: their own encoding is the observation.
macro_rules! opaque { ($($t:ty),* $(,)?) => { $(impl Proj for $t { fn leaves(&self, p:&str, o:&mut Leaves){ o.push((p.into(), enc_all(self))); } })* } }
opaque!(TpmiRhNvIndex, TpmiShAuthSession, TpmiEccCurve, TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits,
    TpmiRsaKeyBits, TpmsTaggedPcrSelect, TpmsTaggedPolicy, PcrReadCmd, PcrReadResp);
macro_rules! unit { ($($t:ty),*) => { $(impl Proj for $t { fn leaves(&self, _:&str, _:&mut Leaves){} })* } }
unit!((), TpmsEmpty);
impl<const N: usize> Proj for [u8; N] {
    fn leaves(&self, p: &str, o: &mut Leaves) {
        o.push((p.into(), self.to_vec()));
    }
}
macro_rules! sized { ($($t:ident),* $(,)?) => {
    $(impl Proj for $t { fn leaves(&self, p:&str, o:&mut Leaves){
        // size, content and as_ref are three views of the same sequence; all are logged.
        let b = self.get_buffer().to_vec();
        let sz = self.get_size().to_be_bytes().to_vec();
        let ar: &[u8] = self.as_ref();
        if ar != &b[..] || sz != (b.len() as u16).to_be_bytes() { o.push((format!("{p}!views"), sz)); }
        o.push((p.into(), b));
    } })*
    #[allow(clippy::type_complexity)]
    pub const SIZED: &[(&str, usize, fn(Option<&[u8]>) -> J, fn(usize, usize) -> J)] = &[$((stringify!($t), <$t as Tpm2bSimple>::MAX_BUFFER_SIZE, crate::sized::from_bytes_case::<$t>, crate::sized::all_case::<$t>)),*];
} }
sized!(Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
    Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
    Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
    Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData, UserSmall, UserWrap, UserTop);
macro_rules! st { ($t:ty; $($f:ident),*) => { impl Proj for $t { fn leaves(&self, p:&str, o:&mut Leaves){ $(self.$f.leaves(&sub(p, stringify!($f)), o);)* } } } }
st!(TpmsClockInfo; clock, reset_count, restart_count, safe);
st!(TpmsQuoteInfo; pcr_select, pcr_digest);
st!(TpmsCreationInfo; object_name, creation_hash);
st!(TpmsCertifyInfo; name, qualified_name);
st!(TpmsCommandAuditInfo; audit_counter, digest_alg, audit_digest, command_digest);
st!(TpmsSessionAuditInfo; exclusive_session, session_digest);
st!(TpmsTimeInfo; time, clock_info);
st!(TpmsTimeAttestInfo; time, firmware_version);
st!(TpmsNvCertifyInfo; index_name, offset, nv_contents);
st!(TpmsDerive; label, context);
st!(TpmsSensitiveCreate; user_auth, data);
st!(TpmsEccPoint; x, y);
st!(TpmsSchemeXor; hash_alg, kdf);
st!(TpmsKeyedHashParms; scheme);
st!(TpmsSymCipherParms; sym);
st!(TpmsSignatureRsa; hash, sig);
st!(TpmsSignatureEcc; hash, signature_r, signature_s);
st!(TpmsSchemeHash; hash_alg);
st!(TpmsSchemeEcdaa; hash_alg, count);
st!(TpmsRsaParms; symmetric, scheme, key_bits, exponent);
st!(TpmsEccParms; symmetric, scheme, curve_id, kdf);
st!(TpmsAsymParms; symmetric, scheme);
st!(TpmsAlgProperty; alg, alg_properties);
st!(TpmsTaggedProperty; property, value);
st!(TpmsAuthCommand; session_handle, nonce, session_attributes, hmac);
st!(TpmsAuthResponse; nonce, session_attributes, hmac);
st!(TpmsIdObject; integrity_hmac, enc_identity);
st!(TpmsNvPublic; nv_index, name_alg, attributes, auth_policy, data_size);
st!(TpmsContextData; integrity, encrypted);
st!(TpmsCreationData; pcr_select, pcr_digest, locality, parent_name_alg, parent_name, parent_qualified_name, outside_info);
st!(GetCapabilityCmd; capability, property, property_count);
st!(GetCapabilityResp; more_data, capability_data);
st!(GetRandomCmd; bytes_requested);
st!(GetRandomResp; random_bytes);
st!(StartupCmd; startup_type);
st!(tpm2_client::RespHeader; tag, size, rc);
impl Proj for tpm2_client::CmdHeader {
    fn leaves(&self, p: &str, o: &mut Leaves) {
        o.push((p.into(), enc_all(self)));
    }
}
impl Proj for TpmsPcrSelection {
    fn leaves(&self, p: &str, o: &mut Leaves) {
        self.hash.leaves(&sub(p, "hash"), o);
        let n = (self.sizeof_select as usize).min(self.pcr_select.len());
        o.push((sub(p, "sizeof_select"), vec![self.sizeof_select]));
        o.push((sub(p, "pcr_select"), self.pcr_select[..n].to_vec()));
    }
}
impl Proj for TpmsAttest {
    fn leaves(&self, p: &str, o: &mut Leaves) {
        self.magic.leaves(&sub(p, "magic"), o);
        o.push((sub(p, &format!("attested={}", self.attested.vname())), self.attested.discriminant().to_be_bytes().to_vec()));
        self.qualified_signer.leaves(&sub(p, "qualified_signer"), o);
        self.extra_data.leaves(&sub(p, "extra_data"), o);
        self.clock_info.leaves(&sub(p, "clock_info"), o);
        self.firmware_version.leaves(&sub(p, "firmware_version"), o);
        self.attested.vleaves(&sub(p, "attested"), o);
    }
}
impl Proj for TpmtPublic {
    fn leaves(&self, p: &str, o: &mut Leaves) {
        o.push((sub(p, &format!("parms_and_id={}", self.parms_and_id.vname())), self.parms_and_id.discriminant().to_be_bytes().to_vec()));
        self.name_alg.leaves(&sub(p, "name_alg"), o);
        self.object_attributes.leaves(&sub(p, "object_attributes"), o);
        self.auth_policy.leaves(&sub(p, "auth_policy"), o);
        self.parms_and_id.vleaves(&sub(p, "parms_and_id"), o);
    }
}
impl Proj for TpmtSensitive {
    fn leaves(&self, p: &str, o: &mut Leaves) {
        o.push((sub(p, &format!("sensitive={}", self.sensitive.vname())), self.sensitive.discriminant().to_be_bytes().to_vec()));
        self.auth_value.leaves(&sub(p, "auth_value"), o);
        self.seed_value.leaves(&sub(p, "seed_value"), o);
        self.sensitive.vleaves(&sub(p, "sensitive"), o);
    }
}
pub trait VProj {
    fn vname(&self) -> &'static str;
    fn vleaves(&self, p: &str, o: &mut Leaves);
}
macro_rules! un { ($t:ident; $($v:ident($($f:ident),*)),* $(,)?) => {
    impl VProj for $t {
        fn vname(&self) -> &'static str { match self { $($t::$v(..) => stringify!($v)),* } }
        fn vleaves(&self, p:&str, o:&mut Leaves) { match self { $($t::$v($($f),*) => { $($f.leaves(&format!("{p}.{}", stringify!($f)), o);)* })* } }
    }
    impl Proj for $t { fn leaves(&self, p:&str, o:&mut Leaves){
        o.push((format!("{p}={}", self.vname()), self.discriminant().to_be_bytes().to_vec()));
        self.vleaves(p, o);
    } }
} }
un!(TpmtHa; Sha1(f0), Sha256(f0), Sha384(f0), Sha512(f0), Sm3_256(f0));
un!(TpmuAttest; Certify(f0), Creation(f0), Quote(f0), CommandAudit(f0), SessionAudit(f0), Time(f0), Nv(f0));
un!(TpmtKeyedHashScheme; Hmac(f0), ExclusiveOr(f0), Null(f0));
un!(TpmtSymDefObject; Aes(f0, f1), Sm4(f0, f1), Camellia(f0, f1), ExclusiveOr(f0, f1), Null(f0, f1));
un!(TpmtSignature; Rsassa(f0), Rsapss(f0), Ecdsa(f0), Ecdaa(f0), Sm2(f0), Ecschnorr(f0), Hmac(f0), Null(f0));
un!(TpmtSigScheme; Rsassa(f0), Rsapss(f0), Ecdsa(f0), Ecdaa(f0), Sm2(f0), Ecschnorr(f0), Hmac(f0), Null(f0));
un!(TpmtRsaScheme; Rsapss(f0), Rsassa(f0), Ecdsa(f0), Ecdaa(f0), Sm2(f0), Ecschnorr(f0), Rsaes(f0), Oaep(f0), Null(f0));
un!(TpmtEccScheme; Rsapss(f0), Rsassa(f0), Ecdsa(f0), Ecdaa(f0), Sm2(f0), Ecschnorr(f0), Ecdh(f0), Ecmqv(f0), Null(f0));
un!(TpmtKdfScheme; Mgf1(f0), Kdf1Sp800_56a(f0), Kdf2(f0), Kdf1Sp800_108(f0), Null(f0));
un!(TpmtAsymScheme; Ecdh(f0), Ecmqv(f0), Sm2(f0), Rsapss(f0), Rsassa(f0), Ecdsa(f0), Ecdaa(f0), Ecschnorr(f0), Rsaes(f0), Oaep(f0), Null(f0));
un!(PublicParmsAndId; KeyedHash(f0, f1), Sym(f0, f1), Rsa(f0, f1), Ecc(f0, f1));
un!(TpmuSensitiveComposite; Rsa(f0), Ecc(f0), Bits(f0), Sym(f0), Any(f0));
un!(TpmsCapabilityData; Algorithms(f0), Handles(f0), Command(f0), PpCommands(f0), AuditCommands(f0), AssignedPcr(f0),
    TpmProperties(f0), PcrProperties(f0), EccCurves(f0), AuthPolicies(f0));
macro_rules! tpml { ($($t:ident, $acc:ident);* $(;)?) => { $(impl Proj for $t { fn leaves(&self, p:&str, o:&mut Leaves){
    o.push((format!("{p}#"), (self.count() as u32).to_be_bytes().to_vec()));
    for e in self.$acc() { e.leaves(&format!("{p}[]"), o); }
} })* } }
tpml!(TpmlPcrSelection, pcr_selections; TpmlAlgProperty, alg_properties; TpmlHandle, handle; TpmlCc, command_codes;
    TpmlTaggedPcrProperty, pcr_property; TpmlEccCurve, ecc_curves; TpmlTaggedPolicy, policies; TpmlDigest, digests;
    TpmlTaggedTpmProperty, tpm_property);
opaque!(TpmlCca);

// Types of a user of the derive macros, covering shapes the base crate does not use.
pub mod user {
    use super::*;
    use core::mem::size_of;
    use tpm2_rs_marshalable::Tpm2bStruct;
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
    #[repr(C)]
    pub struct UserMixed {
        pub a: i8,
        pub b: i16,
        pub n: u8,
        #[marshalable(length=n)]
        pub words: [u16; 5],
        pub tri: [u32; 3],
        pub c: i64,
        pub m: u16,
        #[marshalable(length=m)]
        pub pairs: [UserPair; 2],
        pub d: i32,
    }
    #[derive(Clone, Copy, Debug, Default, PartialEq, Marshalable)]
    #[repr(C)]
    pub struct UserPair(pub u8, pub u32);
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
    #[marshalable(tpm2b_simple)]
    #[repr(C)]
    pub struct UserSmall {
        size: u16,
        content: [u8; 3],
    }
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable)]
    #[marshalable(tpm2b_simple)]
    #[repr(C)]
    pub struct UserTop {
        size: u16,
        bytes: [u8; 65535],
    }
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable, Tpm2bStruct)]
    #[marshalable(tpm2b_simple)]
    #[repr(C)]
    pub struct UserWrap {
        size: u16,
        inner: [u8; size_of::<UserMixed>()],
    }
    #[derive(Clone, Copy, Debug, PartialEq, Marshalable, Discriminant)]
    #[repr(C, u8)]
    pub enum UserChoice {
        One(u32) = 1,
        Two(UserPair, UserMixed) = 2,
        Top([u8; 3]) = 255,
    }
    impl Proj for UserPair {
        fn leaves(&self, p: &str, o: &mut Leaves) {
            self.0.leaves(&sub(p, "0"), o);
            self.1.leaves(&sub(p, "1"), o);
        }
    }
    impl Proj for UserMixed {
        fn leaves(&self, p: &str, o: &mut Leaves) {
            self.a.leaves(&sub(p, "a"), o);
            self.b.leaves(&sub(p, "b"), o);
            o.push((format!("{}#", sub(p, "words")), vec![self.n]));
            for w in self.words.iter().take(self.n as usize) {
                w.leaves(&format!("{}[]", sub(p, "words")), o);
            }
            for w in self.tri {
                w.leaves(&format!("{}[]", sub(p, "tri")), o);
            }
            self.c.leaves(&sub(p, "c"), o);
            o.push((format!("{}#", sub(p, "pairs")), self.m.to_be_bytes().to_vec()));
            for w in self.pairs.iter().take(self.m as usize) {
                w.leaves(&format!("{}[]", sub(p, "pairs")), o);
            }
            self.d.leaves(&sub(p, "d"), o);
        }
    }
    un!(UserChoice; One(f0), Two(f0, f1), Top(f0));
}
use user::*;

pub fn err_name(e: &Error) -> &'static str {
    match e {
        Error::ArrayLengthExceeded => "ArrLen",
        Error::UnexpectedEndOfBuffer => "End",
        Error::UnknownSelector => "Sel",
    }
}
pub fn leaves_json(l: &Leaves) -> J {
    J::A(l.iter().map(|(p, b)| J::obj([("p", J::s(p.clone())), ("b", J::bytes(b))])).collect())
}

pub struct Decoded<T> {
    pub out: String,
    pub val: Option<T>,
    pub rest: Vec<u8>,
}
pub fn decode<T: Marshalable>(b: &[u8]) -> Decoded<T> {
    let r = guard(|| {
        let mut u = UnmarshalBuf::new(b);
        let r = T::try_unmarshal(&mut u);
        let n = u.len();
        let e = u.is_empty();
        (r, n, e, u.get(n).map(|x| x.to_vec()))
    });
    match r {
        Err(_) => Decoded { out: "panic".into(), val: None, rest: vec![] },
        Ok((Err(e), ..)) => Decoded { out: err_name(&e).into(), val: None, rest: vec![] },
        Ok((Ok(v), n, e, rest)) => {
            let rest = rest.unwrap_or_default();
            let out = if rest.len() == n && e == (n == 0) { "ok".into() } else { "badcursor".into() };
            Decoded { out, val: Some(v), rest }
        }
    }
}
/// Encodes into a buffer of m bytes pre-filled with a canary.
pub fn encode_into<T: Marshalable>(v: &T, m: usize) -> (String, Vec<u8>) {
    let mut buf = vec![0xA5u8; m];
    let r = guard(|| {
        let r = v.try_marshal(&mut buf);
        (r, ())
    });
    match r {
        Err(_) => ("panic".into(), vec![]),
        Ok((Err(e), _)) => (err_name(&e).into(), vec![]),
        Ok((Ok(n), _)) => (format!("ok{n}"), buf),
    }
}
/// One full case: decode, project, encode; plus all prefixes and all output lengths if `deep`.
pub fn case<T: Marshalable + Proj + PartialEq>(t: &str, b: &[u8], deep: bool) -> J {
    begin(format!("decode {t} {b:?}"));
    let j = case_inner::<T>(t, b, deep);
    end();
    j
}
fn case_inner<T: Marshalable + Proj + PartialEq>(t: &str, b: &[u8], deep: bool) -> J {
    let d = decode::<T>(b);
    let mut j = J::obj([("op", J::s("case")), ("t", J::s(t)), ("b", J::bytes(b)), ("r", J::s(d.out.clone()))]);
    j.put("deep", J::B(deep));
    let used = b.len().saturating_sub(d.rest.len());
    j.put("rest", J::bytes(&d.rest));
    let mut pre = Runs::default();
    let mut enc = Runs::default();
    let mut far = Runs::default();
    if let Some(v) = &d.val {
        let lv = guard(|| {
            let mut l = Leaves::new();
            v.leaves("", &mut l);
            l
        });
        match lv {
            Ok(l) => j.put("l", leaves_json(&l)),
            Err(_) => {
                j.put("l", J::A(vec![]));
                j.put("r", J::s("panic"));
            }
        }
        let (o, buf) = encode_into(v, used + 7);
        j.put("e", J::s(o));
        j.put("eb", J::bytes(&buf));
        // the same bytes with nothing, or other bytes, behind them
        let mut same = vec![];
        for fill in [None, Some(0u8), Some(0x5A), Some(0xFF)] {
            let mut x = b[..used].to_vec();
            x.extend(fill.map(|f| vec![f; 2100]).unwrap_or_default());
            same.push(J::B(decode::<T>(&x).val.is_some_and(|y| y == *v)));
        }
        if deep {
            // so many bytes that lengths exceed 16 bits
            for total in [65535, 65536, 65536 + used.saturating_sub(1), 131072 + used / 2] {
                let mut x = b[..used].to_vec();
                x.resize(total.max(used), 0x11);
                let y = decode::<T>(&x);
                same.push(J::B(y.rest.len() + used == x.len() && y.val.is_some_and(|y| y == *v)));
            }
        }
        j.put("same", J::A(same));
        if deep {
            for (i, m) in [65536, 65536 + used.saturating_sub(1), 131072 + used / 2].into_iter().enumerate() {
                let (o, buf) = encode_into(v, m);
                let o = match o.strip_prefix("ok").and_then(|n| n.parse::<usize>().ok()) {
                    Some(n) if n <= buf.len() && n <= b.len() && buf[..n] == b[..n] && verif_sweep::all_are(&buf[n..], 0xA5) => o,
                    Some(_) => format!("{o}!"),
                    None => o,
                };
                far.add(i, o);
            }
            // every output length
            let mut m = 0;
            while m <= used + 2 {
                let (o, buf) = encode_into(v, m);
                let o = if let Some(n) = o.strip_prefix("ok") {
                    let n: usize = n.parse().unwrap();
                    let same = buf.len() >= n && n <= b.len() && buf[..n] == b[..n] && buf[n..].iter().all(|x| *x == 0xA5);
                    format!("ok{n}{}", if same { "" } else { "!" })
                } else {
                    o
                };
                enc.add(m, o);
                m += 1;
            }
        }
    } else {
        j.put("l", J::A(vec![]));
        j.put("e", J::s("none"));
        j.put("eb", J::A(vec![]));
        j.put("same", J::A(vec![]));
    }
    if deep {
        for k in 0..=b.len() {
            let d = decode::<T>(&b[..k]);
            let o = if d.out == "ok" { format!("ok{}", k as i64 - d.rest.len() as i64) } else { d.out };
            pre.add(k, o);
        }
    }
    j.put("pre", pre.json());
    j.put("enc", enc.json());
    j.put("far", far.json());
    j
}
/// Selector sweep over a union: for each selector value, the variant decoded from zero content.
fn sweep<T: Marshalable + Proj>(t: &str, head: &[u8], sw: usize, tail: &[u8]) -> J {
    let mut runs = Runs::default();
    let max: u64 = if sw == 1 { 256 } else { 65536 };
    let extra: &[u64] = &[65536, 65537, 65541, 0x10000 + 8, 0x1000000, 0x80000000, 0x80000001, 0xFFFFFFFF, 0x7FFFFFFF];
    let one = |sel: u64, idx: usize, runs: &mut Runs| {
        let mut b = head.to_vec();
        b.extend_from_slice(&sel.to_be_bytes()[8 - sw..]);
        b.extend_from_slice(tail);
        let d = decode::<T>(&b);
        let o = match d.val {
            Some(v) => {
                let mut l = Leaves::new();
                v.leaves("", &mut l);
                l.iter().find_map(|(p, _)| p.split_once('=').map(|x| x.1.to_string())).unwrap_or("?".into())
            }
            None => d.out,
        };
        runs.add(idx, o);
    };
    for s in 0..max {
        one(s, s as usize, &mut runs);
    }
    if sw == 4 {
        for e in extra {
            let mut r2 = Runs::default();
            one(*e, 0, &mut r2);
            // values above 2^16 are logged as one pseudo run each, beyond the swept range
            let J::A(a) = r2.json() else { unreachable!() };
            runs.add(65536 + 2 * runs_len(&runs), a[0].get("o").str().to_string());
        }
    }
    J::obj([("op", J::s("sweep")), ("t", J::s(t)), ("sw", J::I(sw as i64)), ("max", J::I(max as i64)), ("runs", runs.json())])
}
fn runs_len(r: &Runs) -> usize {
    let J::A(a) = r.json() else { unreachable!() };
    a.len()
}

/// One input in brief: result with the number of bytes used relative to `base`; whether the value encodes to exactly
/// the used bytes in every buffer of that length or more and in none shorter by one; the leaves.
fn brief<T: Marshalable + Proj>(b: &[u8], base: usize) -> (String, bool, Leaves) {
    let d = decode::<T>(b);
    let Some(v) = d.val else { return (d.out, false, vec![]) };
    let used = b.len().saturating_sub(d.rest.len());
    let mut l = Leaves::new();
    if guard(|| v.leaves("", &mut l)).is_err() {
        return ("panic".into(), false, vec![]);
    }
    let want = format!("ok{used}");
    let mut e = [used, used + 9].iter().all(|m| {
        let (o, x) = encode_into(&v, *m);
        o == want && x.len() >= used && x[..used] == b[..used] && x[used..].iter().all(|y| *y == 0xA5)
    });
    if used > 0 {
        e &= encode_into(&v, used - 1).0 == "End";
    }
    let out = if d.out == "ok" { format!("ok{:+}", used as i64 - base as i64) } else { d.out };
    (out, e, l)
}
/// A value of fixed size in brief, quickly.
fn word<T: Marshalable + Proj>(b: &[u8]) -> &'static str {
    let mut u = UnmarshalBuf::new(b);
    let v = match T::try_unmarshal(&mut u) {
        Ok(v) => v,
        Err(e) => return err_name(&e),
    };
    let mut l = Leaves::new();
    v.leaves("", &mut l);
    let mut x = [0xA5u8; 16];
    let e = matches!(v.try_marshal(&mut x), Ok(n) if n == b.len()) && x[..b.len()] == *b;
    match (u.is_empty(), e, l.len() == 1 && l[0].1 == b) {
        (true, true, true) => "ok+0/e/c",
        (true, true, false) => "ok+0/e/-",
        (true, false, true) => "ok+0/-/c",
        (true, false, false) => "ok+0/-/-",
        _ => "ok?",
    }
}
fn outcome(r: String, e: bool, c: bool) -> String {
    if r.starts_with("ok") { format!("{r}/{}/{}", if e { "e" } else { "-" }, if c { "c" } else { "-" }) } else { r }
}
/// Sweeps of one type: every size, count or value of a range; runs of equal outcomes relative to the index.
fn span<T: Marshalable + Proj>(c: &J) -> J {
    let (op, style) = (c.get("op").str(), c.get("style").int() as usize);
    let mut runs = Runs::default();
    match op {
        "sizes" | "shorts" => {
            // followed by plenty of bytes, or by one byte less than announced
            let cap = c.get("n").int() as usize;
            let mut huge = vec![0x33u8; 2 + 65536];
            for n in 0..if style == 0 { 65536usize } else { cap + 300 } {
                if n > cap + 300 {
                    huge[..2].copy_from_slice(&(n as u16).to_be_bytes());
                    let b = if op == "sizes" { &huge[..] } else { &huge[..n + 1] };
                    runs.add(n, match guard(|| T::try_unmarshal(&mut UnmarshalBuf::new(b)).err()) {
                        Err(_) => "panic".into(),
                        Ok(None) => "ok".into(),
                        Ok(Some(e)) => err_name(&e).into(),
                    });
                    continue;
                }
                let body = verif_sweep::styled(n, style);
                let mut b = (n as u16).to_be_bytes().to_vec();
                b.extend(&body);
                if op == "sizes" {
                    b.extend([0xEE; 5]);
                } else {
                    b.pop();
                }
                let (r, e, l) = brief::<T>(&b, n);
                runs.add(n, outcome(r, e, l.len() == 1 && l[0].1 == body));
            }
        }
        "counts" => {
            let cw = c.get("n").int() as usize;
            let elems: Vec<Vec<u8>> = c.get("elems").arr().iter().map(|x| x.as_bytes()).collect();
            let input = |n: usize| [&(n as u64).to_be_bytes()[8 - cw..], &elems.iter().take(n).flatten().copied().collect::<Vec<u8>>()[..]].concat();
            let full = brief::<T>(&input(elems.len()), 0).2;
            for n in 0..if cw == 1 { 256usize } else { 65536 } {
                let mut b = input(n);
                let len = b.len();
                b.extend([0xEE; 3]);
                let (r, e, l) = brief::<T>(&b, len);
                let content = if l.len() == 1 && n > 0 {
                    l[0].1 == b[..len]
                } else {
                    !l.is_empty() && l[0].1 == b[..cw.min(l[0].1.len())] && (l.len() - 1) * elems.len() == full.len().saturating_sub(1) * n && full.get(1..l.len()).is_some_and(|f| l[1..] == *f)
                };
                runs.add(n, outcome(r, e, content));
            }
        }
        "vals" => {
            let n = c.get("n").int() as usize;
            let pick: Vec<u8> = match n {
                0..=2 => (0..=255).collect(),
                3..=4 => vec![0, 1, 2, 0x10, 0x40, 0x7F, 0x80, 0xFE, 0xFF],
                _ => vec![0, 1, 0x7F, 0x80, 0xFF],
            };
            for i in 0..pick.len().pow(n.min(7) as u32) {
                let (mut b, mut x) = (vec![], i);
                for _ in 0..n {
                    b.push(pick[x % pick.len()]);
                    x /= pick.len();
                }
                let (r, e, l) = brief::<T>(&b, n);
                runs.add(i, outcome(r, e, if n == 0 { l.iter().all(|x| x.1.is_empty()) } else { l.len() == 1 && l[0].1 == b }));
            }
        }
        "words" => {
            // every value of two adjacent bytes, the others fixed
            let n = c.get("n").int() as usize;
            const REST: [u16; 9] = [0, 1, 7, 0x0100, 0x0200, 0x4000, 0x8000, 0x8028, 0xFFFF];
            for at in 0..n / 2 {
                for (k, f) in REST.iter().enumerate() {
                    let mut b = f.to_be_bytes().repeat(n / 2);
                    let base = (at * REST.len() + k) << 16;
                    let mut i = 0u32;
                    while i < 0x10000 {
                        let (from, mut last) = (i, "");
                        // the outcome at `from`, and how far it stays the same
                        let r = guard(|| {
                            while i < 0x10000 {
                                b[2 * at..2 * at + 2].copy_from_slice(&(i as u16).to_be_bytes());
                                let w = word::<T>(&b);
                                if i > from && w != last {
                                    break;
                                }
                                last = w;
                                i += 1;
                            }
                        });
                        if i > from {
                            runs.add(base + from as usize, last.into());
                            runs.0.last_mut().unwrap().1 = base + i as usize - 1;
                        }
                        if r.is_err() {
                            runs.add(base + i as usize, "panic".into());
                            i += 1;
                        }
                    }
                }
            }
        }
        x => panic!("unknown sweep {x}"),
    }
    J::obj([("op", J::s(op)), ("t", c.get("t").clone()), ("n", c.get("n").clone()), ("style", c.get("style").clone()), ("runs", runs.json())])
}
type CaseFn = fn(&str, &[u8], bool) -> J;
macro_rules! table { ($($t:ident),* $(,)?) => {
    pub fn table() -> Vec<(&'static str, CaseFn)> { vec![$((stringify!($t), case::<$t> as CaseFn)),*] }
    fn spans() -> Vec<(&'static str, fn(&J) -> J)> { vec![$((stringify!($t), span::<$t> as fn(&J) -> J)),*] }
} }
use tpm2_client::{CmdHeader, RespHeader};
type Unit = ();
type I8 = i8;
type I16 = i16;
type I32 = i32;
type I64 = i64;
type U8 = u8;
type U16 = u16;
type U32 = u32;
type U64 = u64;
type Raw5 = [u8; 5];
type Raw0 = [u8; 0];
table!(U8, U16, U32, U64, I8, I16, I32, I64, Unit, Raw5, Raw0, UserPair, UserMixed, UserChoice, UserSmall, UserWrap,
    TpmaLocality, TpmaNv, TpmaObject, TpmaAlgorithm, TpmaSession, TpmaCc, TpmiAlgHash, TpmiAlgKdf, TpmiAlgPublic,
    TpmiAlgSymMode, TpmiAlgSymObject, TpmiAlgKeyedhashScheme, TpmiAlgRsaScheme, TpmiAlgSigScheme, TpmiAlgEccScheme,
    TpmiAlgAsymScheme, TpmiYesNo, TpmiStAttest, TpmiStCommandTag, TpmAlgId, TpmEccCurve, TpmSt, TpmSu, TpmCc, TpmCap,
    TpmPt, TpmPtPcr, TpmHandle, TpmGenerated,
    TpmiRhNvIndex, TpmiShAuthSession, TpmiEccCurve, TpmiAesKeyBits, TpmiSm4KeyBits, TpmiCamelliaKeyBits,
    TpmiRsaKeyBits, TpmsTaggedPcrSelect, TpmsTaggedPolicy, PcrReadCmd, PcrReadResp, TpmsEmpty,
    Tpm2bDigest, Tpm2bData, Tpm2bEvent, Tpm2bMaxBuffer, Tpm2bMaxNvBuffer, Tpm2bIv, Tpm2bName, Tpm2bAttest, Tpm2bSymKey,
    Tpm2bLabel, Tpm2bSensitiveData, Tpm2bSensitiveCreate, Tpm2bPublicKeyRsa, Tpm2bPrivateKeyRsa, Tpm2bEccParameter,
    Tpm2bEncryptedSecret, Tpm2bPublic, Tpm2bTemplate, Tpm2bPrivateVendorSpecific, Tpm2bPrivate, Tpm2bIdObject,
    Tpm2bContextSensitive, Tpm2bContextData, Tpm2bCreationData,
    TpmsClockInfo, TpmsQuoteInfo, TpmsCreationInfo, TpmsCertifyInfo, TpmsCommandAuditInfo, TpmsSessionAuditInfo,
    TpmsTimeInfo, TpmsTimeAttestInfo, TpmsNvCertifyInfo, TpmsDerive, TpmsSensitiveCreate, TpmsEccPoint, TpmsSchemeXor,
    TpmsKeyedHashParms, TpmsSymCipherParms, TpmsSignatureRsa, TpmsSignatureEcc, TpmsSchemeHash, TpmsSchemeEcdaa,
    TpmsRsaParms, TpmsEccParms, TpmsAsymParms, TpmsAlgProperty, TpmsTaggedProperty, TpmsAuthCommand, TpmsAuthResponse,
    TpmsIdObject, TpmsNvPublic, TpmsContextData, TpmsCreationData, GetCapabilityCmd, GetCapabilityResp, GetRandomCmd,
    GetRandomResp, StartupCmd, RespHeader, CmdHeader, TpmsPcrSelection, TpmsAttest, TpmtPublic, TpmtSensitive,
    TpmtHa, TpmuAttest, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme,
    TpmtEccScheme, TpmtKdfScheme, TpmtAsymScheme, PublicParmsAndId, TpmuSensitiveComposite, TpmsCapabilityData,
    TpmlPcrSelection, TpmlAlgProperty, TpmlHandle, TpmlCc, TpmlCca, TpmlTaggedPcrProperty, TpmlEccCurve,
    TpmlTaggedPolicy, TpmlDigest, TpmlTaggedTpmProperty);

/// Sizes of the sized-buffer types, needed by the generator.
pub fn caps(out: &str) {
    let mut o = Out::new(out);
    for (n, c, ..) in SIZED {
        o.line(J::obj([("t", J::s(*n)), ("cap", J::I(*c as i64))]));
    }
    o.done();
}

pub fn mutate(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..=r.below(3) {
        match r.below(7) {
            0 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] = r.byte();
            }
            1 if !v.is_empty() => {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            2 => {
                let i = r.below(v.len() + 1);
                let b = r.byte();
                v.insert(i, b);
            }
            3 if !v.is_empty() => {
                let i = r.below(v.len());
                v.remove(i);
            }
            4 => {
                let n = r.below(v.len() + 1);
                v.truncate(n);
            }
            5 => {
                let n = r.below(6);
                let x = r.bytes(n);
                v.extend(x);
            }
            _ if v.len() >= 2 => {
                // small values in big-endian positions: plausible sizes and counts
                let i = r.below(v.len() - 1);
                v[i] = 0;
                v[i + 1] = r.byte() & 0x1F;
            }
            _ => {}
        }
    }
    v
}

pub fn run(cases: &str, out: &str, seed: u64, nmut: usize, hunt: usize) {
    watchdog(out, 120);
    let tab = table();
    let find = |n: &str| tab.iter().find(|x| x.0 == n).unwrap_or_else(|| panic!("type {n}")).1;
    let cs = read_lines(cases);
    let mut o = Out::new(out);
    let mut by: std::collections::BTreeMap<String, Vec<Vec<u8>>> = Default::default();
    // the sweeps are independent of each other
    let sp: Vec<&J> = cs.iter().filter(|c| c.opt("op").is_some()).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let done = std::sync::Mutex::new(vec![]);
    begin("sweeps".into());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| {
                let fs = spans();
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(c) = sp.get(i) else { return end() };
                    begin(format!("sweep {i}"));
                    let j = fs.iter().find(|x| x.0 == c.get("t").str()).expect("type").1(c);
                    done.lock().unwrap().push((i, j));
                }
            });
        }
    });
    end();
    let mut done = done.into_inner().unwrap();
    done.sort_by_key(|x| x.0);
    for (_, j) in done {
        o.line(j);
    }
    for c in &cs {
        if c.opt("op").is_some() {
            continue;
        }
        let t = c.get("t").str();
        let b = c.get("b").as_bytes();
        o.line(find(t)(t, &b, true));
        by.entry(t.into()).or_default().push(b);
    }
    // seeded mutation and random inputs
    let mut r = Rng::new(seed);
    for i in 0..nmut {
        let (t, f) = tab[i % tab.len()];
        let b = if r.below(4) == 0 || !by.contains_key(t) {
            let n = r.below(24);
            r.bytes(n)
        } else {
            let k = r.below(by[t].len());
            let mut x = by[t][k].clone();
            if x.len() > 400 {
                // keep logged random cases short; long ones are in the generated set
                let k2 = (0..by[t].len()).min_by_key(|q| by[t][*q].len()).unwrap();
                x = by[t][k2].clone();
                if x.len() > 400 {
                    x.truncate(400);
                }
            }
            mutate(&mut r, &x)
        };
        o.line(f(t, &b, false));
    }
    // high-volume search: only suspicious executions (panic, or re-encoding not reproducing the input) are logged
    let mut hunted = 0usize;
    let mut logged = 0usize;
    for i in 0..hunt {
        let (t, f) = tab[i % tab.len()];
        let b = if !by.contains_key(t) || r.below(5) == 0 {
            let n = r.below(64);
            r.bytes(n)
        } else {
            let k = r.below(by[t].len());
            mutate(&mut r, &by[t][k])
        };
        let j = f(t, &b, false);
        hunted += 1;
        let sus = j.get("r").str() == "panic" || j.get("e").str() == "panic" || j.get("r").str() == "badcursor" || {
            j.get("r").str() == "ok" && {
                let eb = j.get("eb").as_bytes();
                let used = b.len().saturating_sub(j.get("rest").arr().len());
                j.get("e").str() != format!("ok{used}") || eb.len() < used || eb[..used] != b[..used]
            }
        };
        if sus && logged < 50 {
            logged += 1;
            o.line(j);
        }
    }
    o.line(J::obj([("op", J::s("hunt")), ("n", J::I(hunted as i64)), ("sus", J::I(logged as i64))]));
    let z = vec![0u8; 6000];
    // content after the selector that is valid for every variant of the type
    let mut sig = z.clone();
    sig[1] = 4;
    let nul: Vec<u8> = (0..6000).map(|i| if i % 2 == 1 { 0x10 } else { 0 }).collect();
    let tail = |t: &str| match t {
        "TpmtSignature" => &sig,
        "PublicParmsAndId" | "TpmtPublic" => &nul,
        _ => &z,
    };
    macro_rules! sw { ($($t:ident, $h:expr, $w:expr);* $(;)?) => { $(o.line(sweep::<$t>(stringify!($t), $h, $w, tail(stringify!($t))));)* } }
    sw!(UserChoice, &[], 1; TpmtHa, &[], 2; TpmuAttest, &[], 2; TpmtKeyedHashScheme, &[], 2; TpmtSymDefObject, &[], 2; TpmtSignature, &[], 2;
        TpmtSigScheme, &[], 2; TpmtRsaScheme, &[], 2; TpmtEccScheme, &[], 2; TpmtKdfScheme, &[], 2; TpmtAsymScheme, &[], 2;
        PublicParmsAndId, &[], 2; TpmuSensitiveComposite, &[], 2; TpmsCapabilityData, &[], 4;
        TpmsAttest, &[1, 2, 3, 4], 2; TpmtPublic, &[], 2; TpmtSensitive, &[], 2);
    if hunt > 100_000 {
        crate::codes::ranges(&mut o, &verif_sweep::WORDS);
    }
    built(&mut o);
    variants(&mut o, &by);
    rcmap(&mut o);
    o.done();
}

/// Values built through public fields, with content beyond the counted part and with counts beyond the array.
fn built(o: &mut Out) {
    fn put<T: Marshalable>(o: &mut Out, t: &str, over: bool, wire: Vec<u8>, v: &T) {
        let mut enc = Runs::default();
        for m in 0..=wire.len() + 3 {
            let (s, buf) = encode_into(v, m);
            let s = if let Some(n) = s.strip_prefix("ok") {
                let n: usize = n.parse().unwrap();
                let same = n <= wire.len() && n <= buf.len() && buf[..n] == wire[..n] && buf[n..].iter().all(|x| *x == 0xA5);
                format!("ok{n}{}", if same { "" } else { "!" })
            } else {
                s
            };
            enc.add(m, s);
        }
        let (s, buf) = encode_into(v, 6000);
        o.line(J::obj([("op", J::s("built")), ("t", J::s(t)), ("over", J::B(over)), ("w", J::bytes(&wire)), ("enc", enc.json()), ("big", J::s(s.clone())),
            ("bb", J::bytes(&buf[..buf.len().min(wire.len() + 4)]))]));
    }
    for n in 0..=6u8 {
        let v = TpmsPcrSelection { hash: TpmiAlgHash::SHA256, sizeof_select: n, pcr_select: [0x11, 0x22, 0x33, 0x44] };
        let k = (n as usize).min(4);
        let mut w = vec![0x00, 0x0B, n];
        w.extend_from_slice(&v.pcr_select[..k]);
        put(o, "TpmsPcrSelection", n > 4, w, &v);
    }
    put(o, "TpmsPcrSelection", true, vec![0, 0xB, 255, 0x11, 0x22, 0x33, 0x44],
        &TpmsPcrSelection { hash: TpmiAlgHash::SHA256, sizeof_select: 255, pcr_select: [0x11, 0x22, 0x33, 0x44] });
    let mut v = TpmlTaggedTpmProperty::default();
    for (i, e) in v.tpm_property.iter_mut().enumerate() {
        *e = TpmsTaggedProperty { property: TpmPt(0x100 + i as u32), value: 0x01020300 + i as u32 };
    }
    for n in [0u32, 1, 2, 126, 127, 128, 129, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] {
        v.count = n;
        let mut w = n.to_be_bytes().to_vec();
        for e in v.tpm_property.iter().take(n as usize) {
            w.extend_from_slice(&e.property.0.to_be_bytes());
            w.extend_from_slice(&e.value.to_be_bytes());
        }
        put(o, "TpmlTaggedTpmProperty", n > 127, w, &v);
    }
    for n in [0u8, 3, 5, 6, 200] {
        for m in [0u16, 2, 3, 40000] {
            let v = UserMixed { a: -2, b: -300, n, words: [1, 2, 3, 4, 0x1234], tri: [9, 8, 7], c: -1, m, pairs: [UserPair(1, 2), UserPair(3, 4)], d: -70000 };
            let mut w = vec![0xFE, 0xFE, 0xD4, n];
            for x in v.words.iter().take(n as usize) {
                w.extend_from_slice(&x.to_be_bytes());
            }
            for x in v.tri {
                w.extend_from_slice(&x.to_be_bytes());
            }
            w.extend_from_slice(&v.c.to_be_bytes());
            w.extend_from_slice(&m.to_be_bytes());
            for x in v.pairs.iter().take(m as usize) {
                w.push(x.0);
                w.extend_from_slice(&x.1.to_be_bytes());
            }
            w.extend_from_slice(&v.d.to_be_bytes());
            put(o, "UserMixed", n > 5 || m > 2, w, &v);
        }
    }
}

/// The variant-only interface: external selector, content without selector.
fn variants(o: &mut Out, by: &std::collections::BTreeMap<String, Vec<Vec<u8>>>) {
    macro_rules! vv { ($($t:ident),*) => { $(
        for b in by.get(stringify!($t)).into_iter().flatten() {
            if b.len() < 2 || b.len() > 700 { continue; }
            let sel = u16::from_be_bytes([b[0], b[1]]);
            let r = guard(|| { let mut u = UnmarshalBuf::new(&b[2..]); let r = <$t>::try_unmarshal_variant(sel, &mut u); (r, u.len()) });
            let mut j = J::obj([("op", J::s("var")), ("t", J::s(stringify!($t))), ("b", J::bytes(b))]);
            match r {
                Err(_) => { j.put("r", J::s("panic")); }
                Ok((Err(e), _)) => { j.put("r", J::s(err_name(&e))); }
                Ok((Ok(v), rest)) => {
                    j.put("r", J::s(format!("ok{}", b.len() as i64 - rest as i64)));
                    let mut l = Leaves::new();
                    if guard(|| v.leaves("", &mut l)).is_err() { j.put("r", J::s("panic")); }
                    j.put("l", leaves_json(&l));
                    let mut buf = vec![0xA5u8; b.len()];
                    match guard(|| v.try_marshal_variant(&mut buf)) {
                        Ok(Ok(n)) => { j.put("e", J::s("ok")); j.put("eb", J::bytes(&buf[..n.min(b.len())])); }
                        Ok(Err(e)) => { j.put("e", J::s(err_name(&e))); j.put("eb", J::A(vec![])); }
                        Err(_) => { j.put("e", J::s("panic")); j.put("eb", J::A(vec![])); }
                    }
                }
            }
            if j.opt("l").is_none() { j.put("l", J::A(vec![])); j.put("e", J::s("none")); j.put("eb", J::A(vec![])); }
            o.line(j);
        }
    )* } }
    vv!(TpmtHa, TpmuAttest, TpmtKeyedHashScheme, TpmtSymDefObject, TpmtSignature, TpmtSigScheme, TpmtRsaScheme, TpmtEccScheme,
        TpmtKdfScheme, TpmtAsymScheme, PublicParmsAndId, TpmuSensitiveComposite);
}

fn rcmap(o: &mut Out) {
    use tpm2::errors::{TpmRcError, TssError};
    for e in [Error::ArrayLengthExceeded, Error::UnexpectedEndOfBuffer, Error::UnknownSelector] {
        let a = TpmRcError::from(e).get();
        let b = TssError::from(e).get();
        o.line(J::obj([("op", J::s("rc")), ("e", J::s(err_name(&e))), ("tpm", J::I(a as i64)), ("tss", J::I(b as i64))]));
    }
}
