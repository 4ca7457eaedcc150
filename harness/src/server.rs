//! The TPM server with a scripted generator and entropy source.
use crate::json::{J, read_lines};
use crate::util::*;
use std::cell::RefCell;
use tpm2_impl::TpmContext;
use tpm2_impl::platform::{ReadOutOfBounds, TpmContextDeps, TpmReadBuffer, TpmWriteBuffer, WriteOutOfBounds};
use tpm2_impl::platform::crypto::{Drbg, DrbgError, EntropySource};

#[derive(Default, Clone)]
pub struct Script {
    pub interval: i64, // reseeding is required after this many outputs (-1: never)
    pub need0: bool,
    pub inst_fails: bool,
    pub reseed_fails: Vec<i64>,
    pub fill_fails: Vec<i64>,
    pub lead: Vec<u8>, // what every output starts with
    pub flat: Option<u8>, // what every output consists of
    pub dull: Option<u8>, // what all entropy consists of
}
#[derive(Default)]
struct World {
    s: Script,
    es: Vec<J>,
    /// in a sweep what the generator puts out is kept here and not in the events
    outs: Option<Vec<u8>>,
    draws: i64,
    reseeds: i64,
    fills: i64,
}
thread_local! { static W: RefCell<World> = RefCell::default(); }
pub fn set_script(s: Script) {
    W.with(|w| *w.borrow_mut() = World { s, ..Default::default() });
}
pub fn take_events() -> Vec<J> {
    W.with(|w| std::mem::take(&mut w.borrow_mut().es))
}
fn ev(e: &str, b: &[u8], nonce: &[u8], need: bool, ok: bool, add: &[u8]) -> J {
    J::obj([("e", J::s(e)), ("b", J::bytes(b)), ("nonce", J::bytes(nonce)), ("need", J::B(need)), ("ok", J::B(ok)), ("add", J::bytes(add))])
}
pub struct Source;
impl EntropySource for Source {
    fn instantiate() -> Self {
        W.with(|w| w.borrow_mut().es.push(ev("source", &[], &[], false, true, &[])));
        Source
    }
    fn fill_entropy(&mut self, dest: &mut [u8]) {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.draws += 1;
            let d = w.draws;
            for (i, x) in dest.iter_mut().enumerate() {
                *x = if i == 0 { d as u8 } else if i == 1 { (d >> 8) as u8 } else { (d * 37 + i as i64 * 5 + 1) as u8 };
            }
            if let Some(v) = w.s.dull {
                dest.fill(v);
            }
            let e = ev("ent", dest, &[], false, true, &[]);
            w.es.push(e);
        })
    }
}
/// Seeds and nonces of any length.
pub struct Seed<const N: usize>([u8; N]);
impl<const N: usize> Default for Seed<N> {
    fn default() -> Self {
        Seed([0; N])
    }
}
impl<const N: usize> AsMut<[u8]> for Seed<N> {
    fn as_mut(&mut self) -> &mut [u8] {
        &mut self.0
    }
}
#[derive(Clone, Copy)]
pub struct Gen<const E: usize = 32, const N: usize = 16> {
    left: i64,
    need: bool,
}
impl<const E: usize, const N: usize> Gen<E, N> {
    fn produce(&mut self, kind: &str, add: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.fills += 1;
            let f = w.fills;
            let fail = w.s.fill_fails.contains(&f);
            let need = self.need;
            let n = dest.len();
            for (i, x) in dest.iter_mut().enumerate() {
                // a failing call may leave some bytes behind
                if !fail || i < n / 2 {
                    *x = (f * 101 + i as i64 * 7 + (i as i64 >> 8) * 3 + 3) as u8;
                }
            }
            if let (Some(v), false) = (w.s.flat, fail) {
                dest.fill(v);
            }
            for (x, y) in dest.iter_mut().zip(&w.s.lead) {
                *x = *y;
            }
            // of a failed call only the length is recorded: what it left untouched is the caller's
            let e = if let Some(outs) = &mut w.outs {
                if !fail {
                    outs.extend_from_slice(dest);
                }
                ev(kind, &[], &[], need, !fail, add)
            } else {
                let zero = vec![0u8; n];
                ev(kind, if fail { &zero } else { dest }, &[], need, !fail, add)
            };
            w.es.push(e);
            if fail {
                return Err(DrbgError);
            }
            if self.left > 0 {
                self.left -= 1;
                if self.left == 0 {
                    self.need = true;
                }
            }
            Ok(())
        })
    }
}
impl<const E: usize, const N: usize> Drbg for Gen<E, N> {
    type Entropy = Seed<E>;
    type Nonce = Seed<N>;
    fn instantiate(e: &Seed<E>, n: &Seed<N>, p: &[u8]) -> Result<Self, DrbgError> {
        W.with(|w| {
            let mut w = w.borrow_mut();
            let fail = w.s.inst_fails;
            let x = ev("inst", &e.0, &n.0, false, !fail, p);
            w.es.push(x);
            if fail { Err(DrbgError) } else { Ok(Gen { left: w.s.interval, need: w.s.need0 }) }
        })
    }
    fn reseed(&mut self, e: &Seed<E>, a: &[u8]) -> Result<(), DrbgError> {
        W.with(|w| {
            let mut w = w.borrow_mut();
            w.reseeds += 1;
            let fail = w.s.reseed_fails.contains(&w.reseeds);
            let x = ev("reseed", &e.0, &[], self.need, !fail, a);
            w.es.push(x);
            if fail {
                return Err(DrbgError);
            }
            self.need = false;
            self.left = w.s.interval;
            Ok(())
        })
    }
    fn next_u32(&mut self, a: &[u8]) -> Result<u32, DrbgError> {
        let mut b = [0; 4];
        self.produce("next", a, &mut b)?;
        Ok(u32::from_le_bytes(b))
    }
    fn next_u64(&mut self, a: &[u8]) -> Result<u64, DrbgError> {
        let mut b = [0; 8];
        self.produce("next", a, &mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn fill_bytes(&mut self, a: &[u8], dest: &mut [u8]) -> Result<(), DrbgError> {
        self.produce("fill", a, dest)
    }
    fn requires_reseeding(&mut self) -> bool {
        W.with(|w| w.borrow_mut().es.push(ev("need", &[], &[], self.need, true, &[])));
        self.need
    }
}
pub struct Deps<const E: usize = 32, const N: usize = 16>;
impl<const E: usize, const N: usize> TpmContextDeps for Deps<E, N> {
    type Drbg = Gen<E, N>;
    type EntropySource = Source;
    type Request = [u8];
    type Response = [u8];
}
pub type Ctx = TpmContext<Deps>;

/// A buffer that is not memory: every access is recorded, windows are copied in and out.
pub struct Device {
    cells: Vec<u8>,
    acc: RefCell<Vec<J>>,
}
impl Device {
    fn new(b: &[u8]) -> Self {
        Device { cells: b.to_vec(), acc: RefCell::default() }
    }
    fn window(&self, kind: &str, at: usize, n: usize) -> bool {
        let ok = at <= self.cells.len() && n <= self.cells.len() - at;
        self.acc.borrow_mut().push(J::obj([("k", J::s(kind)), ("at", J::I(at.min(1 << 30) as i64)), ("n", J::I(n.min(1 << 30) as i64)), ("ok", J::B(ok))]));
        ok
    }
}
impl TpmReadBuffer for Device {
    fn len(&self) -> usize {
        self.cells.len()
    }
    fn read_into(&self, at: usize, out: &mut [u8]) -> Result<(), ReadOutOfBounds> {
        if !self.window("r", at, out.len()) {
            return Err(ReadOutOfBounds);
        }
        out.copy_from_slice(&self.cells[at..at + out.len()]);
        Ok(())
    }
}
impl TpmWriteBuffer for Device {
    fn write(&mut self, at: usize, data: &[u8]) -> Result<(), WriteOutOfBounds> {
        if !self.window("w", at, data.len()) {
            return Err(WriteOutOfBounds);
        }
        self.cells[at..at + data.len()].copy_from_slice(data);
        Ok(())
    }
    fn write_callback(&mut self, at: usize, n: usize, f: impl FnOnce(&mut [u8])) -> Result<(), WriteOutOfBounds> {
        if !self.window("w", at, n) {
            return Err(WriteOutOfBounds);
        }
        // the window does not show what the device held before
        let mut w = vec![0xD7; n];
        f(&mut w);
        self.cells[at..at + n].copy_from_slice(&w);
        Ok(())
    }
}
pub struct DevDeps;
impl TpmContextDeps for DevDeps {
    type Drbg = Gen;
    type EntropySource = Source;
    type Request = Device;
    type Response = Device;
}
/// How a TPM is given its buffers.
trait Flavour: TpmContextDeps<EntropySource = Source> + Sized {
    fn sep(ctx: &mut TpmContext<Self>, req: &[u8], resp: &mut [u8]) -> (Result<usize, String>, Vec<J>);
    fn inp(ctx: &mut TpmContext<Self>, buf: &mut [u8], rs: usize) -> (Result<usize, String>, Vec<J>);
}
impl<const E: usize, const N: usize> Flavour for Deps<E, N> {
    fn sep(ctx: &mut TpmContext<Self>, req: &[u8], resp: &mut [u8]) -> (Result<usize, String>, Vec<J>) {
        (guard(|| ctx.execute_command_separate(req, resp)), vec![])
    }
    fn inp(ctx: &mut TpmContext<Self>, buf: &mut [u8], rs: usize) -> (Result<usize, String>, Vec<J>) {
        (guard(|| ctx.execute_command_in_place(buf, rs)), vec![])
    }
}
impl Flavour for DevDeps {
    fn sep(ctx: &mut TpmContext<Self>, req: &[u8], resp: &mut [u8]) -> (Result<usize, String>, Vec<J>) {
        let (q, mut r) = (Device::new(req), Device::new(resp));
        let x = guard(|| ctx.execute_command_separate(&q, &mut r));
        resp.copy_from_slice(&r.cells);
        (x, vec![])
    }
    fn inp(ctx: &mut TpmContext<Self>, buf: &mut [u8], rs: usize) -> (Result<usize, String>, Vec<J>) {
        let mut d = Device::new(buf);
        let x = guard(|| ctx.execute_command_in_place(&mut d, rs));
        buf.copy_from_slice(&d.cells);
        (x, d.acc.take())
    }
}

pub fn script(c: &J) -> Script {
    let ints = |k: &str| c.get(k).arr().iter().map(|x| x.int()).collect();
    let byte = |k: &str| c.opt(k).map(|x| x.int()).filter(|x| *x >= 0).map(|x| x as u8);
    Script { interval: c.get("interval").int(), need0: c.get("need0").bool(), inst_fails: c.get("instf").bool(), reseed_fails: ints("reseedf"), fill_fails: ints("fillf"), lead: c.opt("lead").map(|x| x.as_bytes()).unwrap_or_default(), flat: byte("flat"), dull: byte("dull") }
}
fn create<D: Flavour>() -> (Option<TpmContext<D>>, J) {
    let r = guard(TpmContext::<D>::new);
    let es = take_events();
    let (r, c) = match r {
        Err(_) => ("panic", None),
        Ok(Err(_)) => ("err", None),
        Ok(Ok(c)) => ("ok", Some(c)),
    };
    (c, J::obj([("r", J::s(r)), ("es", J::A(es))]))
}
fn result((r, acc): (Result<usize, String>, Vec<J>), b: &[u8], m: usize) -> J {
    let (o, n) = match r {
        Err(_) => ("panic", 0),
        Ok(n) => ("ok", n),
    };
    J::obj([
        ("o", J::s(o)),
        ("ret", J::I(n.min(1 << 30) as i64)),
        ("b", J::bytes(&b[..n.min(m)])),
        ("es", J::A(take_events())),
        ("acc", J::A(acc)),
    ])
}
fn run_sep<D: Flavour>(ctx: &mut TpmContext<D>, req: &[u8], m: usize) -> J {
    let mut resp = vec![0x5Au8; m];
    let keep = req.to_vec();
    let r = D::sep(ctx, &keep, &mut resp);
    result(r, &resp, m)
}
fn run_in<D: Flavour>(ctx: &mut TpmContext<D>, buf: &[u8], rs: usize, m: usize) -> J {
    let mut b = buf.to_vec();
    b.resize(m, 0xEE);
    let r = D::inp(ctx, &mut b[..], rs);
    result(r, &b, m)
}
fn hist(c: &J) -> J {
    let lens = c.opt("lens").map(|x| (x.arr()[0].int(), x.arr()[1].int())).unwrap_or((32, 16));
    let mut j = match lens {
        _ if c.opt("dev").is_some_and(|x| x.bool()) => hist_of::<DevDeps>(c),
        (32, 16) => hist_of::<Deps>(c),
        (64, 48) => hist_of::<Deps<64, 48>>(c),
        (16, 32) => hist_of::<Deps<16, 32>>(c),
        (5, 3) => hist_of::<Deps<5, 3>>(c),
        (300, 129) => hist_of::<Deps<300, 129>>(c),
        x => panic!("{x:?}"),
    };
    j.put("lens", J::A(vec![J::I(lens.0), J::I(lens.1)]));
    j
}
fn hist_of<D: Flavour>(c: &J) -> J {
    let s = script(c.get("script"));
    let twin = c.get("kind").str() == "twin";
    let mut j = J::obj([("kind", c.get("kind").clone())]);
    let steps = c.get("steps").arr();
    // effective requests
    let eff: Vec<(Vec<u8>, usize, usize, Vec<u8>)> = steps
        .iter()
        .map(|st| {
            let m = st.get("m").int() as usize;
            let b = st.get("b").as_bytes();
            let rs = match st.get("rs").int() {
                -1 => usize::MAX,
                -2 => usize::MAX / 2,
                -3 => (1 << 32) + 12,
                -4 => 1 << 32,
                -5 => (1 << 63) + 12,
                -6 => (1 << 48) + 40,
                x => x as usize,
            };
            let mut full = b.clone();
            if twin {
                full.resize(m, 0xEE);
                full.truncate(rs.min(m));
            }
            (b, rs, m, full)
        })
        .collect();
    set_script(s.clone());
    let (mut a, ja) = create::<D>();
    j.put("create", ja);
    let ra: Vec<J> = match &mut a {
        Some(ctx) => eff.iter().map(|(_, _, m, q)| run_sep(ctx, q, *m)).collect(),
        None => vec![],
    };
    let mut rb = vec![];
    if twin {
        set_script(s);
        let (mut b, jb) = create::<D>();
        j.put("createb", jb);
        if let Some(ctx) = &mut b {
            rb = eff.iter().map(|(b, rs, m, _)| run_in(ctx, b, *rs, *m)).collect();
        }
    }
    j.put("steps", J::A(ra.into_iter().enumerate().map(|(i, x)| {
        let mut s = J::obj([("req", J::bytes(&eff[i].3)), ("m", J::I(eff[i].2 as i64)), ("sep", x)]);
        if twin && i < rb.len() {
            s.put("inp", rb[i].clone());
        }
        s
    }).collect()));
    j.put("n", J::I(steps.len() as i64));
    j
}
/// The request of a sweep at index `i`: the buffer, the response size and the request size in place.
fn sweep_step(c: &J, i: usize) -> (Vec<u8>, usize, usize) {
    let (count, m) = (c.get("c").int() as usize, c.get("m").int());
    let get = |size: usize, n: usize| -> Vec<u8> { [&[0x80, 1][..], &(size as u32).to_be_bytes(), &[0, 0, 1, 0x7B], &(n as u16).to_be_bytes()].concat() };
    let word = (i as u16).to_be_bytes();
    let mut q = get(12, count);
    let mut m = m as usize;
    match c.get("vary").str() {
        "count" => {
            q = get(12, i);
            m = (10 + i as i64 + c.get("m").int()) as usize;
        }
        "mem" => m = i,
        "code" => q[6 + c.get("at").int() as usize..][..2].copy_from_slice(&word),
        "size" => q[2 + c.get("at").int() as usize..][..2].copy_from_slice(&word),
        "tag" => q[..2].copy_from_slice(&word),
        // a request of i bytes, its size field right; an unknown command
        "reqlen" => {
            q = get(i, count);
            q[9] = 0x7A;
            q.extend(verif_sweep::styled(i.saturating_sub(12), 2));
            q.truncate(i);
            m = m.max(i);
        }
        // the same of the known command, with bytes behind its parameter
        "trail" => {
            q = get(12 + i, count);
            q.extend(verif_sweep::styled(i, 3));
            m = m.max(q.len());
        }
        // a request in a larger buffer, of another claimed length
        "rs" => {
            let mut b = q.clone();
            b.resize(m, 0xEE);
            return (b, m, i);
        }
        x => panic!("{x}"),
    }
    let n = q.len();
    (q, m, n)
}
/// Result, answer, what the generator put out, events.
type Seen = (Result<usize, String>, Vec<u8>, Vec<u8>, Vec<J>);
fn sweep(c: &J) -> J {
    // a fresh pair of TPMs for every index, or one pair that sees all of them
    let keep = matches!(c.get("vary").str(), "code" | "size" | "tag");
    sweep_runs(c, keep).or_else(|| sweep_runs(c, false)).unwrap()
}
/// None if one pair answers so differently from index to index that runs do not describe it.
fn sweep_runs(c: &J, keep: bool) -> Option<J> {
    let s = script(c.get("script"));
    let (lo, top) = (c.get("lo").int() as usize, c.get("top").int() as usize);
    let fixed = (vec![0x80, 1, 0, 0, 0, 12, 0, 0, 1, 0x7B, 0, 9], 40usize, 12usize);
    let mut runs: Vec<(usize, usize, J)> = vec![];
    let mut pair: Vec<(Option<Ctx>, J, World)> = vec![];
    for i in lo..=top {
        begin(format!("server sweep {} {i}", c.get("vary").str()));
        let steps: Vec<_> = (0..c.get("pre").int()).map(|_| fixed.clone()).chain([sweep_step(c, i)]).chain((0..c.get("post").int()).map(|_| fixed.clone())).collect();
        if !keep || i == lo {
            pair = (0..2)
                .map(|_| {
                    set_script(s.clone());
                    W.with(|w| w.borrow_mut().outs = Some(vec![]));
                    let (ctx, j) = create::<Deps>();
                    (ctx, j, W.with(|w| w.take()))
                })
                .collect();
        }
        let mut o = J::obj([("create", pair[0].1.clone()), ("createb", pair[1].1.clone())]);
        let mut raw: Vec<Vec<Seen>> = vec![];
        for (inp, (ctx, _, world)) in pair.iter_mut().enumerate() {
            W.with(|w| std::mem::swap(&mut *w.borrow_mut(), world));
            let mut xs = vec![];
            if let Some(ctx) = ctx {
                for (b, m, rs) in &steps {
                    let (r, buf) = if inp == 1 {
                        let mut x = b.clone();
                        x.resize(*m, 0xEE);
                        (<Deps>::inp(ctx, &mut x[..], *rs).0, x)
                    } else {
                        let mut x = vec![0x5Au8; *m];
                        (<Deps>::sep(ctx, &b[..(*rs).min(b.len())], &mut x).0, x)
                    };
                    let n = r.as_ref().map_or(0, |n| (*n).min(*m));
                    let outs = W.with(|w| w.borrow_mut().outs.replace(vec![])).unwrap_or_default();
                    xs.push((r, buf[..n].to_vec(), outs, take_events().into_iter().filter(|e| e.get("e").str() != "need").collect()));
                }
            }
            W.with(|w| std::mem::swap(&mut *w.borrow_mut(), world));
            raw.push(xs);
        }
        let obs = |x: &Seen, st: &(Vec<u8>, usize, usize)| -> J {
            let (r, b, outs, es) = x;
            let want = if st.0.len() >= 12 { u16::from_be_bytes([st.0[10], st.0[11]]) as usize } else { 0 };
            let ret = r.as_ref().map_or(0, |n| *n);
            let pay = if ret <= 10 { "none" } else if ret == b.len() && b[10..] == outs[..] && outs.len() == want { "gen" } else { "other" };
            let head = b.len() >= 10 && b.len() == ret && b[..2] == [0x80, 1] && b[2..6] == (ret as u32).to_be_bytes();
            let rc = if b.len() >= 10 { u32::from_be_bytes([b[6], b[7], b[8], b[9]]).min(1 << 30) as i64 } else { -1 };
            J::obj([
                ("o", J::s(if r.is_ok() { "ok" } else { "panic" })),
                ("fits", J::B(ret <= st.1)),
                ("full", J::B(pay == "gen" || (ret == 10 && want == 0))),
                ("bare", J::B(ret == 10)),
                ("pay", J::s(pay)),
                ("head", J::B(head)),
                ("rc", J::I(rc)),
                ("es", J::A(es.clone())),
            ])
        };
        let js = raw[0].iter().enumerate().map(|(k, a)| {
            let mut j = J::obj([("sep", obs(a, &steps[k]))]);
            if let Some(b) = raw[1].get(k) {
                j.put("inp", obs(b, &steps[k]));
                j.put("same", J::B(a.0.is_ok() == b.0.is_ok() && a.0.as_ref().ok() == b.0.as_ref().ok() && a.1 == b.1 && a.2 == b.2 && a.3 == b.3));
            }
            j
        });
        o.put("steps", J::A(js.collect()));
        match runs.last_mut() {
            Some(l) if l.2 == o => l.1 = i,
            _ => runs.push((i, i, o)),
        }
        if keep && runs.len() > 500 {
            return None;
        }
    }
    let mut j = c.clone();
    j.put("lens", J::A(vec![J::I(32), J::I(16)]));
    j.put("runs", J::A(runs.into_iter().map(|(a, z, o)| J::obj([("lo", J::I(a as i64)), ("hi", J::I(z as i64)), ("o", o)])).collect()));
    Some(j)
}
pub fn run(cases: &str, out: &str, seed: u64, nmut: usize) {
    watchdog(out, 30);
    let mut o = Out::new(out);
    let cs = read_lines(cases);
    let (sweeps, hists): (Vec<&J>, Vec<&J>) = cs.iter().partition(|c| c.get("kind").str() == "sweep");
    for c in hists {
        begin("server history".into());
        o.line(hist(c));
        end();
    }
    for l in parallel(&sweeps, |c| sweep(c)) {
        o.line(l);
    }
    let mut r = Rng::new(seed);
    for _ in 0..nmut {
        let k = 1 + r.below(4);
        let steps: Vec<J> = (0..k)
            .map(|_| {
                let n = match r.below(6) { 0 => r.below(100), 1 => 0, _ => r.below(30) };
                let mut b = vec![0x80, 1, 0, 0, 0, 12, 0, 0, 1, 0x7B, 0, n as u8];
                if r.below(2) == 0 {
                    b = crate::wire::mutate(&mut r, &b);
                    if r.below(2) == 0 && b.len() >= 6 {
                        let l = b.len() as u32;
                        b[2..6].copy_from_slice(&l.to_be_bytes());
                    }
                }
                let m = b.len().max(10) + r.below(40);
                let rs = if r.below(6) == 0 { r.below(60) } else { b.len() };
                J::obj([("b", J::bytes(&b)), ("m", J::I(m as i64)), ("rs", J::I(rs as i64))])
            })
            .collect();
        let pick = |r: &mut Rng| -> J { J::A((1..6).filter(|_| r.below(6) == 0).map(J::I).collect()) };
        let (rf, ff) = (pick(&mut r), pick(&mut r));
        let sc = J::obj([("interval", J::I([-1, 1, 2, 3][r.below(4)])), ("need0", J::B(r.below(4) == 0)), ("instf", J::B(r.below(20) == 0)), ("reseedf", rf), ("fillf", ff)]);
        let c = J::obj([("kind", J::s("twin")), ("dev", J::B(r.below(3) == 0)), ("script", sc), ("steps", J::A(steps))]);
        begin("server random history".into());
        o.line(hist(&c));
        end();
    }
    o.done();
}
