//! The client command pipeline: scripted connection, scripted sessions, scripted commands.
use crate::json::{J, read_lines};
use crate::util::*;
use crate::wire::{decode, enc_all};
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use tpm2::errors::{TssError, TssTcsError};
use tpm2_client::connection::Connection;
use tpm2_client::sessions::*;
use tpm2_client::{get_capability, run_command, run_command_with_handles};
use tpm2_rs_base::commands::*;
use tpm2_rs_base::constants::TpmCc;
use tpm2_rs_base::*;
use tpm2_rs_marshalable::{Error, Marshalable, UnmarshalBuf};

// ---- connection -----------------------------------------------------------
#[derive(Debug)]
pub enum ConnError {
    Down,
    Tss(TssError),
}
impl std::fmt::Display for ConnError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for ConnError {}
impl From<TssError> for ConnError {
    fn from(e: TssError) -> Self {
        ConnError::Tss(e)
    }
}
#[derive(Default)]
pub struct Mock {
    pub sent: Vec<Vec<u8>>,
    pub fail: bool,
    pub resp: Vec<u8>,
    pub n: usize,
    pub off: usize, // where in the buffer the response is put
}
impl Connection for Mock {
    type Error = ConnError;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], ConnError> {
        self.sent.push(cmd.to_vec());
        let off = if self.off + self.resp.len() > rsp.len() { 0 } else { self.off };
        if self.fail || self.n > rsp.len() {
            return Err(ConnError::Down);
        }
        let (before, rsp) = rsp.split_at_mut(off);
        for (i, x) in before.iter_mut().enumerate() {
            *x = [0x80, 1, 0, 0, 0, 10, 0, 0, 0, 0][i % 10];
        }
        let k = self.resp.len().min(rsp.len());
        rsp[..k].copy_from_slice(&self.resp[..k]);
        Ok(&mut rsp[..self.n])
    }
}

// ---- commands with scripted content -----------------------------------------
thread_local! {
    static RH: Cell<usize> = const { Cell::new(0) };
    static RP: Cell<(u8, usize)> = const { Cell::new((0, 0)) };
}
fn put(b: &[u8], out: &mut [u8]) -> tpm2_rs_marshalable::Result<usize> {
    if b.len() > out.len() {
        return Err(Error::UnexpectedEndOfBuffer);
    }
    out[..b.len()].copy_from_slice(b);
    Ok(b.len())
}
#[derive(Default, Clone)]
pub struct Blob(Vec<u8>, bool);
impl Marshalable for Blob {
    fn try_unmarshal(_: &mut UnmarshalBuf) -> tpm2_rs_marshalable::Result<Self> {
        Err(Error::UnknownSelector)
    }
    fn try_marshal(&self, o: &mut [u8]) -> tpm2_rs_marshalable::Result<usize> {
        if self.1 {
            return Err(Error::ArrayLengthExceeded);
        }
        put(&self.0, o)
    }
}
pub struct RespH(Vec<u8>);
impl Marshalable for RespH {
    fn try_unmarshal(u: &mut UnmarshalBuf) -> tpm2_rs_marshalable::Result<Self> {
        u.get(RH.get()).map(|b| RespH(b.to_vec())).ok_or(Error::UnexpectedEndOfBuffer)
    }
    fn try_marshal(&self, o: &mut [u8]) -> tpm2_rs_marshalable::Result<usize> {
        put(&self.0, o)
    }
}
pub struct RespP(Vec<u8>);
impl Marshalable for RespP {
    fn try_unmarshal(u: &mut UnmarshalBuf) -> tpm2_rs_marshalable::Result<Self> {
        match RP.get() {
            (0, n) => u.get(n).map(|b| RespP(b.to_vec())).ok_or(Error::UnexpectedEndOfBuffer),
            _ => Tpm2bDigest::try_unmarshal(u).map(|d| RespP(enc_all(&d))),
        }
    }
    fn try_marshal(&self, o: &mut [u8]) -> tpm2_rs_marshalable::Result<usize> {
        put(&self.0, o)
    }
}
macro_rules! dynamic { ($($t:ident, $cc:expr);*) => { $(
    pub struct $t(Blob);
    impl Marshalable for $t {
        fn try_unmarshal(_: &mut UnmarshalBuf) -> tpm2_rs_marshalable::Result<Self> { Err(Error::UnknownSelector) }
        fn try_marshal(&self, o: &mut [u8]) -> tpm2_rs_marshalable::Result<usize> { self.0.try_marshal(o) }
    }
    impl TpmCommand for $t { const CMD_CODE: TpmCc = $cc; type Handles = Blob; type RespT = RespP; type RespHandles = RespH; }
)* } }
dynamic!(DynA, TpmCc(0x17B); DynB, TpmCc(0x2000_A1C3));

/// A command whose code differs from GetRandom's in one bit.
pub struct Flip<const N: u32>(pub Vec<u8>);
impl<const N: u32> Marshalable for Flip<N> {
    fn try_unmarshal(_: &mut UnmarshalBuf) -> tpm2_rs_marshalable::Result<Self> {
        Err(Error::UnknownSelector)
    }
    fn try_marshal(&self, o: &mut [u8]) -> tpm2_rs_marshalable::Result<usize> {
        put(&self.0, o)
    }
}
impl<const N: u32> TpmCommand for Flip<N> {
    const CMD_CODE: TpmCc = TpmCc(0x17B ^ (1 << N));
    type Handles = ();
    type RespT = RespP;
    type RespHandles = ();
}

// ---- sessions ---------------------------------------------------------------
#[derive(Default)]
struct Log {
    gets: Vec<usize>,
    vals: Vec<(usize, Vec<u8>)>,
    verd: Vec<bool>,
}
type L = Rc<RefCell<Log>>;
#[derive(Clone)]
enum Kind {
    Rec(TpmsAuthCommand),
    Pw(Rc<PasswordSession>),
}
#[derive(Clone)]
pub struct Sess {
    i: usize,
    k: Kind,
    l: L,
}
impl Session for Sess {
    fn get_auth_command(&self) -> TpmsAuthCommand {
        self.l.borrow_mut().gets.push(self.i);
        match &self.k {
            Kind::Rec(a) => *a,
            Kind::Pw(p) => p.get_auth_command(),
        }
    }
    fn validate_auth_response(&self, auth: &TpmsAuthResponse) -> tpm2::errors::TssResult<()> {
        self.l.borrow_mut().vals.push((self.i, enc_all(auth)));
        match &self.k {
            Kind::Rec(_) => {
                if self.l.borrow().verd.get(self.i - 1).copied().unwrap_or(true) {
                    Ok(())
                } else {
                    Err(TssTcsError::BadParameter.into())
                }
            }
            Kind::Pw(p) => p.validate_auth_response(auth),
        }
    }
}

pub type Outcome = Result<(Vec<u8>, Vec<u8>), ConnError>;
pub fn password(i: usize, secret: &[u8]) -> Sess {
    Sess { i, k: Kind::Pw(Rc::new(legal(PasswordSession::new(secret).ok(), "password", secret))), l: Default::default() }
}
pub fn any_command(b: &[u8]) -> DynB {
    DynB(Blob(b.to_vec(), false))
}
pub fn any_handles(b: &[u8]) -> Blob {
    Blob(b.to_vec(), false)
}
pub fn need<T: Marshalable>(b: &[u8]) -> T {
    legal(decode::<T>(b).val, std::any::type_name::<T>(), b)
}
pub fn go<C: TpmCommand, N: Connection<Error = ConnError>>(c: &C, h: C::Handles, s: &[Sess], m: &mut N, bare: bool) -> Outcome {
    if bare {
        return run_command(c, m).map(|r| (enc_all(&r), vec![]));
    }
    let f = |r: (C::RespT, C::RespHandles)| (enc_all(&r.0), enc_all(&r.1));
    match s {
        [] => run_command_with_handles(c, h, (), m).map(f),
        [a] => run_command_with_handles(c, h, a.clone(), m).map(f),
        [a, b] => run_command_with_handles(c, h, (a.clone(), b.clone()), m).map(f),
        [a, b, d] => run_command_with_handles(c, h, (a.clone(), b.clone(), d.clone()), m).map(f),
        _ => panic!("too many sessions"),
    }
}
fn step(st: &J, sess: &[Sess], log: &L) -> J {
    let h = st.get("h").as_bytes();
    let p = st.get("p").as_bytes();
    let rp = st.get("rp");
    RH.set(st.get("rh").int() as usize);
    RP.set((if rp.get("k").str() == "raw" { 0 } else { 1 }, rp.get("n").int() as usize));
    let mut m = Mock { sent: vec![], fail: st.get("fail").bool(), resp: st.get("resp").as_bytes(), n: st.get("n").int() as usize, off: st.opt("off").map(|x| x.int() as usize).unwrap_or(0) };
    {
        let mut g = log.borrow_mut();
        g.gets.clear();
        g.vals.clear();
        g.verd = st.get("verd").arr().iter().map(|x| x.bool()).collect();
    }
    let bare = st.get("bare").bool();
    let blob = Blob(p.clone(), st.get("pfail").bool());
    let cmd = st.get("cmd").str().to_string();
    begin(format!("client {cmd} h={} p={} n={}", h.len(), p.len(), m.n));
    let r = guard(|| match cmd.as_str() {
        "DynA" => go(&DynA(blob), Blob(h.clone(), false), sess, &mut m, bare),
        "DynB" => go(&DynB(blob), Blob(h.clone(), false), sess, &mut m, bare),
        "GetRandomCmd" => go(&need::<GetRandomCmd>(&p), (), sess, &mut m, bare),
        "StartupCmd" => go(&need::<StartupCmd>(&p), (), sess, &mut m, bare),
        "PcrReadCmd" => go(&need::<PcrReadCmd>(&p), (), sess, &mut m, bare),
        "GetCapabilityCmd" => go(&need::<GetCapabilityCmd>(&p), (), sess, &mut m, bare),
        "get_capability" => get_capability(&mut m, &need::<GetCapabilityCmd>(&p)).map(|r| (enc_all(&r), vec![])),
        x => panic!("unknown command {x}"),
    });
    end();
    let mut j = st.clone();
    let (out, code, rpb, rhb) = match r {
        Err(_) => ("panic", 0u32, vec![], vec![]),
        Ok(Err(ConnError::Down)) => ("conn", 0, vec![], vec![]),
        Ok(Err(ConnError::Tss(e))) => ("tss", e.get(), vec![], vec![]),
        Ok(Ok((a, b))) => ("ok", 0, a, b),
    };
    j.put("out", J::s(out));
    j.put("code", J::bytes(&code.to_be_bytes()));
    j.put("orp", J::bytes(&rpb));
    j.put("orh", J::bytes(&rhb));
    j.put("sent", J::A(m.sent.iter().map(|b| J::bytes(b)).collect()));
    let g = log.borrow();
    j.put("gets", J::A(g.gets.iter().map(|x| J::I(*x as i64)).collect()));
    j.put("vals", J::A(g.vals.iter().map(|(i, b)| J::obj([("i", J::I(*i as i64)), ("a", J::bytes(b))])).collect()));
    j
}

fn secret_case(c: &J) -> J {
    let n = c.get("n").int() as usize;
    let salt = c.get("salt").int() as usize;
    let b: Vec<u8> = if salt >= 1000 { verif_sweep::styled(n, salt - 1000) } else { (0..n).map(|i| (i * 31 + salt) as u8).collect() };
    let mut j = J::obj([("op", J::s("secret")), ("b", if n > 300 { J::A(vec![]) } else { J::bytes(&b) }), ("n", J::I(n as i64))]);
    let r = guard(|| PasswordSession::new(&b).map(|s| (s.get_secret().to_vec(), enc_all(&s.get_auth_command()))));
    let (r, s, a) = match r {
        Err(_) => ("panic".to_string(), vec![], vec![]),
        Ok(Err(e)) => (format!("rc{}", e.get()), vec![], vec![]),
        Ok(Ok((s, a))) => ("ok".into(), s, a),
    };
    j.put("r", J::s(r));
    j.put("s", J::bytes(&s));
    j.put("a", J::bytes(&a));
    j
}

fn sessions_of(c: &J, log: &L) -> Vec<Sess> {
    let mut sess = vec![];
    for (i, s) in c.get("sess").arr().iter().enumerate() {
        let b = s.get("b").as_bytes();
        let k = if s.get("k").str() == "rec" {
            Kind::Rec(need(&b))
        } else {
            Kind::Pw(Rc::new(legal(PasswordSession::new(&b).ok(), "password", &b)))
        };
        sess.push(Sess { i: i + 1, k, l: log.clone() });
    }
    sess
}
/// Sweeps: one command per index of a range, with the frame or the response depending on the index; logged as runs of
/// indexes with the same outcome relative to the index.
///   hlen, plen: length of handles or parameters = index
///   rlen: a response with that many parameter bytes between `pre` and `post`, sizes at the given places
///   rc: response code = index * mul + add
fn sweep(c: &J) -> J {
    let log: L = Default::default();
    let sess = sessions_of(c, &log);
    let what = c.get("what").str();
    let (pre, post, psat) = (c.get("pre").as_bytes(), c.get("post").as_bytes(), c.get("psat").int() as usize);
    let (hl, pl) = (c.get("h").int() as usize, c.get("p").int() as usize);
    let (mul, add) = (c.get("mul").int() as u32, c.get("add").int() as u32);
    RH.set(c.get("rh").int() as usize);
    let mut runs: Vec<(i64, i64, String, J)> = vec![];
    for i in c.get("from").int()..=c.get("to").int() {
        let n = i as usize;
        let h = verif_sweep::styled(if what == "hlen" { n } else { hl }, 2);
        let p = verif_sweep::styled(if what == "plen" { n } else { pl }, 4);
        let body = verif_sweep::styled(if what == "rlen" { n } else { 0 }, 3);
        RP.set((0, body.len()));
        let mut resp = [&pre[..], &body, &post].concat();
        let total = (resp.len() as u32).to_be_bytes();
        resp[2..6].copy_from_slice(&total);
        if psat > 0 {
            resp[psat - 1..psat + 3].copy_from_slice(&(body.len() as u32).to_be_bytes());
        }
        let rc = (i as u32).wrapping_mul(mul).wrapping_add(add);
        if what == "rc" {
            resp[6..10].copy_from_slice(&rc.to_be_bytes());
        }
        {
            let mut g = log.borrow_mut();
            g.gets.clear();
            g.vals.clear();
            g.verd = vec![true; sess.len()];
        }
        let mut m = Mock { n: resp.len(), resp, ..Default::default() };
        begin(format!("client sweep {what} {i}"));
        let r = guard(|| go(&DynB(Blob(p.clone(), false)), Blob(h.clone(), false), &sess, &mut m, false));
        end();
        let (out, code, orp, orh) = match r {
            Err(_) => ("panic", 0u32, vec![], vec![]),
            Ok(Err(ConnError::Down)) => ("conn", 0, vec![], vec![]),
            Ok(Err(ConnError::Tss(e))) => ("tss", e.get(), vec![], vec![]),
            Ok(Ok((a, b))) => ("ok", 0, a, b),
        };
        let f = m.sent.first().cloned().unwrap_or_default();
        let at = |a: usize, b: usize| f.get(a..b).unwrap_or(&[]).to_vec();
        let end = f.len().saturating_sub(p.len());
        let g = log.borrow();
        let o = J::obj([
            ("sent", J::I(m.sent.len() as i64)),
            ("tag", J::bytes(&at(0, 2))),
            ("size", J::I(at(2, 6).iter().fold(0i64, |a, b| (a * 256 + *b as i64) & 0x7FFFFFFF) - f.len() as i64)),
            ("cc", J::bytes(&at(6, 10))),
            ("h", J::B(at(10, 10 + h.len()) == h)),
            ("auth", J::bytes(&at(10 + h.len(), end.max(10 + h.len())))),
            ("p", J::B(at(end, f.len()) == p)),
            ("out", J::s(out)),
            ("code", J::s(if out != "tss" { "none" } else if what == "rc" && code == rc { "same" } else if code != 0 { "some" } else { "zero" })),
            ("orp", J::B(orp == body)),
            ("orh", J::bytes(&orh)),
            ("gets", J::I(g.gets.len() as i64)),
            ("vals", J::I(g.vals.len() as i64)),
        ]);
        let mut s = String::new();
        o.write(&mut s);
        match runs.last_mut() {
            Some(l) if l.1 + 1 == i && l.2 == s => l.1 = i,
            _ => runs.push((i, i, s, o)),
        }
        if runs.len() > 100 {
            break;
        }
    }
    let mut j = c.clone();
    j.put("runs", J::A(runs.into_iter().map(|(a, b, _, o)| J::obj([("lo", J::I(a)), ("hi", J::I(b)), ("o", o)])).collect()));
    j
}

pub fn run(cases: &str, out: &str, seed: u64, nmut: usize) {
    watchdog(out, 30);
    let mut o = Out::new(out);
    let mut all = read_lines(cases);
    // seeded mutations of the generated responses
    let base: Vec<usize> = (0..all.len())
        .filter(|i| all[*i].opt("steps").is_some_and(|s| s.arr().len() == 1) && all[*i].get("steps").arr()[0].get("resp").arr().len() < 300 && all[*i].get("steps").arr()[0].get("h").arr().len() < 20)
        .collect();
    let mut r = Rng::new(seed);
    for _ in 0..nmut {
        let mut c = all[*r.pick(&base)].clone();
        let mut st = c.get("steps").arr()[0].clone();
        let mut b = crate::wire::mutate(&mut r, &st.get("resp").as_bytes());
        if r.below(2) == 0 && b.len() >= 10 {
            let n = b.len() as u32;
            b[2..6].copy_from_slice(&n.to_be_bytes());
        }
        if r.below(3) == 0 && b.len() >= 10 {
            b[6..10].copy_from_slice(&[0, 0, 0, 0]);
        }
        let n = if r.below(4) == 0 { r.below(b.len() + 1) } else { b.len() };
        let nv = c.get("sess").arr().len();
        st.put("verd", J::A((0..nv).map(|_| J::B(r.below(5) != 0)).collect()));
        st.put("n", J::I(n as i64));
        st.put("resp", J::bytes(&b));
        c.put("steps", J::A(vec![st]));
        all.push(c);
    }
    for c in all {
        if c.get("op").str() == "secret" {
            o.line(secret_case(&c));
            continue;
        }
        if c.get("op").str() == "sweep" {
            o.line(sweep(&c));
            continue;
        }
        let log: L = Default::default();
        let sess = sessions_of(&c, &log);
        let steps: Vec<J> = c.get("steps").arr().iter().map(|st| step(st, &sess, &log)).collect();
        o.line(J::obj([("op", J::s("hist")), ("sess", c.get("sess").clone()), ("steps", J::A(steps))]));
    }
    decompose(&mut o);
    o.done();
}

/// The typed views of an authorization area.
fn decompose(o: &mut Out) {
    let l: L = Default::default();
    let s = |i| Sess { i, k: Kind::Rec(need(&[0x40, 0, 0, 9, 0, 0, 0, 0, 0])), l: l.clone() };
    let id = |x: Option<&Sess>| x.map(|s| s.i as i64).unwrap_or(0);
    let mut put = |n: i64, v: &str, a: [i64; 3], e: bool| {
        o.line(J::obj([("op", J::s("decomp")), ("n", J::I(n)), ("view", J::s(v)), ("ids", J::A(a.iter().map(|x| J::I(*x)).collect())), ("empty", J::B(e))]))
    };
    {
        let a = ();
        let (x, y, z) = AuthorizationArea::decompose_ref(&a);
        put(0, "any", [x.is_some() as i64, y.is_some() as i64, z.is_some() as i64], AuthorizationArea::is_empty(&a));
    }
    {
        let a = s(1);
        let (x, y, z) = AuthorizationArea::decompose_ref(&a);
        put(1, "any", [id(x), y.is_some() as i64, z.is_some() as i64], AuthorizationArea::is_empty(&a));
        let (x, y, z) = AuthorizationArea1Plus::decompose_ref(&a);
        put(1, "1plus", [x.i as i64, y.is_some() as i64, z.is_some() as i64], false);
    }
    {
        let a = (s(1), s(2));
        let (x, y, z) = AuthorizationArea::decompose_ref(&a);
        put(2, "any", [id(x), id(y), z.is_some() as i64], AuthorizationArea::is_empty(&a));
        let (x, y, z) = AuthorizationArea1Plus::decompose_ref(&a);
        put(2, "1plus", [x.i as i64, id(y), z.is_some() as i64], false);
        let (x, y, z) = AuthorizationArea2Plus::decompose_ref(&a);
        put(2, "2plus", [x.i as i64, y.i as i64, z.is_some() as i64], false);
    }
    {
        let a = (s(1), s(2), s(3));
        let (x, y, z) = AuthorizationArea::decompose_ref(&a);
        put(3, "any", [id(x), id(y), id(z)], AuthorizationArea::is_empty(&a));
        let (x, y, z) = AuthorizationArea1Plus::decompose_ref(&a);
        put(3, "1plus", [x.i as i64, id(y), id(z)], false);
        let (x, y, z) = AuthorizationArea2Plus::decompose_ref(&a);
        put(3, "2plus", [x.i as i64, y.i as i64, id(z)], false);
    }
}
