//! The client talking to the server of this repository (C22).
use crate::client::{ConnError, Flip, any_command, any_handles, go, need, password};
use crate::json::{J, read_lines};
use crate::server::{Ctx, script, set_script, take_events};
use crate::util::*;
use tpm2_client::connection::Connection;
use tpm2_rs_base::commands::*;

/// Hands the command to the server; `m`: size of the server's buffer.
struct Link<'c> {
    ctx: &'c mut Ctx,
    m: usize,
    inplace: bool,
    sent: Vec<Vec<u8>>,
    got: Vec<Vec<u8>>,
}
impl Connection for Link<'_> {
    type Error = ConnError;
    fn transact<'a>(&mut self, cmd: &[u8], rsp: &'a mut [u8]) -> Result<&'a mut [u8], ConnError> {
        self.sent.push(cmd.to_vec());
        let mut b = vec![0x5A; self.m];
        let n = if self.inplace {
            if b.len() < cmd.len() {
                b.resize(cmd.len(), 0x5A);
            }
            b[..cmd.len()].copy_from_slice(cmd);
            self.ctx.execute_command_in_place(&mut b[..], cmd.len())
        } else {
            self.ctx.execute_command_separate(cmd, &mut b[..])
        };
        if n > b.len() || n > rsp.len() {
            return Err(ConnError::Down);
        }
        self.got.push(b[..n].to_vec());
        rsp[..n].copy_from_slice(&b[..n]);
        Ok(&mut rsp[..n])
    }
}
fn step(ctx: &mut Ctx, st: &J) -> J {
    let p = st.get("p").as_bytes();
    let sess: Vec<_> = st.get("sess").arr().iter().enumerate().map(|(i, s)| password(i + 1, &s.as_bytes())).collect();
    let mut m = Link { ctx, m: st.get("m").int() as usize, inplace: st.get("inplace").bool(), sent: vec![], got: vec![] };
    let cmd = st.get("cmd").str().to_string();
    begin(format!("loop {cmd}"));
    let r = guard(|| match cmd.as_str() {
        "GetRandomCmd" => go(&need::<GetRandomCmd>(&p), (), &sess, &mut m, false),
        "StartupCmd" => go(&need::<StartupCmd>(&p), (), &sess, &mut m, false),
        "PcrReadCmd" => go(&need::<PcrReadCmd>(&p), (), &sess, &mut m, false),
        "GetCapabilityCmd" => go(&need::<GetCapabilityCmd>(&p), (), &sess, &mut m, false),
        "DynB" => go(&any_command(&p), any_handles(&[]), &sess, &mut m, false),
        x => {
            macro_rules! flips { ($($n:literal)*) => { match x { $(concat!("Flip", $n) => go(&Flip::<$n>(p.clone()), (), &sess, &mut m, false),)* _ => panic!("unknown command {x}") } } }
            flips!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31)
        }
    });
    end();
    let (out, code, orp) = match r {
        Err(_) => ("panic", 0u32, vec![]),
        Ok(Err(ConnError::Down)) => ("conn", 0, vec![]),
        Ok(Err(ConnError::Tss(e))) => ("tss", e.get(), vec![]),
        Ok(Ok((a, _))) => ("ok", 0, a),
    };
    let mut j = st.clone();
    j.put("out", J::s(out));
    j.put("code", J::bytes(&code.to_be_bytes()));
    j.put("orp", J::bytes(&orp));
    j.put("sent", J::A(m.sent.iter().map(|b| J::bytes(b)).collect()));
    j.put("got", J::A(m.got.iter().map(|b| J::bytes(b)).collect()));
    j.put("es", J::A(take_events()));
    j
}
fn hist(c: &J) -> J {
    set_script(script(c.get("script")));
    let mut ctx = match guard(Ctx::new) {
        Ok(Ok(x)) => x,
        _ => return J::obj([("created", J::B(false)), ("steps", J::A(vec![]))]),
    };
    take_events();
    let steps: Vec<J> = c.get("steps").arr().iter().map(|s| step(&mut ctx, s)).collect();
    J::obj([("created", J::B(true)), ("steps", J::A(steps))])
}
pub fn run(cases: &str, out: &str, seed: u64, n: usize) {
    watchdog(out, 30);
    let mut o = Out::new(out);
    let cs = read_lines(cases);
    for c in &cs {
        o.line(hist(c));
    }
    // random histories of the generated steps
    let pool: Vec<J> = cs.iter().flat_map(|c| c.get("steps").arr().to_vec()).collect();
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let k = 1 + r.below(6);
        let mut steps = vec![];
        for _ in 0..k {
            let mut s = r.pick(&pool).clone();
            if s.get("cmd").str() == "GetRandomCmd" && r.below(2) == 0 {
                let v = r.below(300);
                s.put("p", J::bytes(&[(v >> 8) as u8, v as u8]));
            }
            if r.below(3) == 0 {
                s.put("m", J::I((10 + r.below(100)) as i64));
            }
            s.put("inplace", J::B(r.below(2) == 0));
            steps.push(s);
        }
        let pick = |r: &mut Rng| -> J { J::A((1..6).filter(|_| r.below(6) == 0).map(J::I).collect()) };
        let (rf, ff) = (pick(&mut r), pick(&mut r));
        let lead = if r.below(2) == 0 { vec![0, r.byte() % 70] } else { vec![] };
        let sc = J::obj([("interval", J::I([-1, 1, 2, 3][r.below(4)])), ("need0", J::B(r.below(4) == 0)), ("instf", J::B(false)), ("reseedf", rf), ("fillf", ff), ("lead", J::bytes(&lead))]);
        o.line(hist(&J::obj([("script", sc), ("steps", J::A(steps))])));
    }
    o.done();
}
