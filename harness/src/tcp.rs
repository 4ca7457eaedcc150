//! The TCP connection against a scripted simulator.
use crate::json::{J, read_lines};
use crate::util::*;
use std::io::{ErrorKind, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tpm2_client::connection::Connection;
use tpm2_client::connection::{SimulatorPlatformSignal as Sig, TcpConnection};

/// How long a party that should be talking is waited for.
const STALL: Duration = Duration::from_secs(4);
pub static STALLS: AtomicUsize = AtomicUsize::new(0);

struct Exch {
    want: usize,
    chunks: Vec<Vec<u8>>,
    slow: u64,
    end: String, // keep, fin, drop, reset
    op: usize,
}
fn read_some(s: &mut TcpStream, ms: u64, buf: &mut [u8]) -> Option<usize> {
    // None: nothing yet; Some(0): end of stream
    s.set_read_timeout(Some(Duration::from_millis(ms))).ok()?;
    match s.read(buf) {
        Ok(n) => Some(n),
        Err(e) if matches!(e.kind(), ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted) => None,
        Err(_) => Some(0),
    }
}
type Seen = (Vec<(Vec<u8>, bool, usize)>, Vec<u8>, bool);
fn serve(l: TcpListener, xs: Vec<Exch>, done: Arc<AtomicUsize>) -> J {
    let (x, tail, conn) = serve_raw(l, xs, done);
    let x = x.into_iter().map(|(got, early, extra)| J::obj([("got", J::bytes(&got)), ("early", J::B(early)), ("extra", J::I(extra as i64))]));
    J::obj([("x", J::A(x.collect())), ("tail", J::bytes(&tail)), ("conn", J::B(conn))])
}
fn serve_raw(l: TcpListener, xs: Vec<Exch>, done: Arc<AtomicUsize>) -> Seen {
    l.set_nonblocking(true).unwrap();
    let t = Instant::now();
    let mut s = loop {
        match l.accept() {
            Ok((s, _)) => break Some(s),
            Err(_) if t.elapsed() < STALL && done.load(SeqCst) != usize::MAX => std::thread::sleep(Duration::from_micros(200)),
            Err(_) => break None,
        }
    };
    drop(l);
    let mut x = vec![];
    let mut tail = vec![];
    if let Some(st) = &mut s {
        st.set_nonblocking(false).unwrap();
        let _ = st.set_nodelay(true);
        let mut carry: Vec<u8> = vec![];
        let mut buf = vec![0u8; 1 << 16];
        let mut dropped = false;
        let mut eof = false;
        for e in xs {
            let t = Instant::now();
            while carry.len() < e.want && !eof && t.elapsed() < STALL {
                let k = (e.want - carry.len()).min(buf.len());
                match read_some(st, 50, &mut buf[..k]) {
                    None => {}
                    Some(0) => eof = true,
                    Some(n) => carry.extend_from_slice(&buf[..n]),
                }
            }
            if carry.len() < e.want && !eof {
                STALLS.fetch_add(1, SeqCst);
            }
            let k = e.want.min(carry.len());
            let got: Vec<u8> = carry.drain(..k).collect();
            let (mut early, mut extra) = (false, 0);
            if e.slow > 0 {
                std::thread::sleep(Duration::from_millis(e.slow));
                let d = done.load(SeqCst);
                early = d > e.op && d != usize::MAX;
                if e.end != "drop" && e.end != "reset" {
                    while let Some(n) = read_some(st, 1, &mut buf) {
                        if n == 0 {
                            break;
                        }
                        carry.extend_from_slice(&buf[..n]);
                    }
                    extra = carry.len();
                }
            }
            x.push((got, early, extra));
            for (i, c) in e.chunks.iter().enumerate() {
                if i > 0 {
                    std::thread::sleep(Duration::from_micros(700));
                }
                let _ = st.write_all(c);
            }
            match e.end.as_str() {
                "fin" => {
                    let _ = st.shutdown(Shutdown::Write);
                }
                "drop" | "reset" => {
                    dropped = true;
                    break;
                }
                _ => {}
            }
        }
        tail = carry;
        if !dropped {
            let t = Instant::now();
            while !eof && t.elapsed() < STALL {
                match read_some(st, 50, &mut buf) {
                    None => {}
                    Some(0) => eof = true,
                    Some(n) => tail.extend_from_slice(&buf[..n]),
                }
            }
            if !eof {
                // the client waits for something the protocol does not provide
                STALLS.fetch_add(1, SeqCst);
                let _ = st.shutdown(Shutdown::Both);
            }
        }
    }
    (x, tail, s.is_some())
}
fn signal(n: &str) -> Sig {
    match n {
        "PowerOn" => Sig::PowerOn,
        "PowerOff" => Sig::PowerOff,
        "PhysicalPresenceOn" => Sig::PhysicalPresenceOn,
        "PhysicalPresenceOff" => Sig::PhysicalPresenceOff,
        "CancelOn" => Sig::CancelOn,
        "CancelOff" => Sig::CancelOff,
        "NvOn" => Sig::NvOn,
        "NvOff" => Sig::NvOff,
        "KeyCacheOn" => Sig::KeyCacheOn,
        "KeyCacheOff" => Sig::KeyCacheOff,
        "Reset" => Sig::Reset,
        "Restart" => Sig::Restart,
        x => panic!("{x}"),
    }
}
fn kind(e: &std::io::Error) -> String {
    format!("{:?}", e.kind())
}
fn u(j: &J) -> u32 {
    u32::from_be_bytes(j.as_bytes().try_into().unwrap())
}
fn do_op(c: &mut TcpConnection, op: &J) -> (String, Vec<u8>) {
    let f = op.get("f").str();
    let arg = op.get("a");
    let r = guard(|| -> std::io::Result<Vec<u8>> {
        let w = |xs: &[u32]| xs.iter().flat_map(|x| x.to_be_bytes()).collect::<Vec<u8>>();
        Ok(match f {
            "transact" => {
                let cmd = arg.as_bytes();
                let mut resp = vec![0x5Au8; op.get("cap").int() as usize];
                c.transact(&cmd, &mut resp)?.to_vec()
            }
            "locality" => {
                c.set_locality(arg.as_bytes()[0]);
                vec![]
            }
            "hcrtm" => c.hcrtm_sequence(&arg.as_bytes()).map(|_| vec![])?,
            "handshake" => c.remote_handshake(u(arg)).map(|r| w(&[r.server_version(), r.endpoint_info()]))?,
            "alt" => c.set_alternative_result(u(arg)).map(|_| vec![])?,
            "signal" => c.platform_signal(signal(op.get("name").str())).map(|_| vec![])?,
            "reinit" => c.reinit().map(|_| vec![])?,
            "failure" => c.test_failure_mode().map(|_| vec![])?,
            "sizes" => c.get_command_response_sizes().map(|r| w(&[r.largest_command_size(), r.largest_command(), r.largest_response_size(), r.largest_response()]))?,
            "act" => c.act_get_signaled(u(arg)).map(|r| w(&[r]))?,
            "hash" => c.set_firmware_hash(u(arg)).map(|_| vec![])?,
            "svn" => c.set_firmware_svn(u(arg)).map(|_| vec![])?,
            "end" => c.session_end().map(|_| vec![])?,
            "stop" => c.stop_simulator().map(|_| vec![])?,
            x => panic!("unknown op {x}"),
        })
    });
    match r {
        Err(_) => ("panic".into(), vec![]),
        Ok(Err(e)) => (kind(&e), vec![]),
        Ok(Ok(b)) => ("ok".into(), b),
    }
}
fn pattern(n: usize, z: usize) -> Vec<u8> {
    (0..n).map(|i| ((i + 1) * 37 + (i >> 8) * 11 + z * 53 + 129) as u8).collect()
}
fn sweep_range(c: &J) -> std::ops::RangeInclusive<usize> {
    let s = c.get("sweep");
    s.get("from").int() as usize..=s.get("to").int() as usize
}
fn sweep_resp(c: &J, n: usize) -> usize {
    let s = c.get("sweep");
    s.get("a").int() as usize * n + s.get("b").int() as usize
}
/// One command of every length of a range on one connection; runs of equal relative outcomes.
fn sweep(c: &J) -> J {
    let slack = c.get("sweep").get("slack").int();
    let loc = c.get("sweep").get("loc").int() as u8;
    let (lt, lp) = (TcpListener::bind("127.0.0.1:0").expect("bind"), TcpListener::bind("127.0.0.1:0").expect("bind"));
    let (at, ap) = (lt.local_addr().unwrap().port(), lp.local_addr().unwrap().port());
    let done = Arc::new(AtomicUsize::new(0));
    let (xt, d1, d2) = (exchanges(c, "tpm"), done.clone(), done.clone());
    let ht = std::thread::spawn(move || serve_raw(lt, xt, d1));
    let hp = std::thread::spawn(move || serve_raw(lp, vec![], d2));
    let mut rs = vec![];
    let cr = match guard(|| TcpConnection::connect("127.0.0.1", Some(at), Some(ap))) {
        Err(_) => "panic".to_string(),
        Ok(Err(e)) => kind(&e),
        Ok(Ok(mut conn)) => {
            conn.set_locality(loc);
            for n in sweep_range(c) {
                let m = sweep_resp(c, n);
                let cmd = pattern(n, 5);
                let mut resp = vec![0x5Au8; (m as i64 + slack).max(0) as usize];
                let (r, out) = match guard(|| conn.transact(&cmd, &mut resp).map(|x| x.to_vec())) {
                    Err(_) => ("panic".to_string(), "none"),
                    Ok(Err(e)) => (kind(&e), "none"),
                    Ok(Ok(b)) => ("ok".to_string(), if b == pattern(m, n + 1) { "same" } else { "other" }),
                };
                let failed = r != "ok" && (slack >= 0 || r != "InvalidInput");
                rs.push((n, r, out));
                if failed && rs.len() > 3 && STALLS.load(SeqCst) > 0 {
                    break;
                }
            }
            "ok".to_string()
        }
    };
    done.store(usize::MAX, SeqCst);
    let (x, tail, _) = ht.join().unwrap();
    let (_, ptail, _) = hp.join().unwrap();
    let mut runs: Vec<(usize, usize, J)> = vec![];
    for (i, (n, r, out)) in rs.into_iter().enumerate() {
        let got = x.get(i).map(|x| x.0.clone()).unwrap_or_default();
        let h = |a: usize, b: usize| got.get(a..b).unwrap_or(&[]).to_vec();
        let len = h(5, 9).iter().fold(0i64, |a, b| a * 256 + *b as i64) - n as i64;
        let o = J::obj([
            ("r", J::s(r)),
            ("code", J::bytes(&h(0, 4))),
            ("loc", J::I(h(4, 5).first().map(|x| *x as i64).unwrap_or(-1))),
            ("len", J::I(len)),
            ("body", J::B(got.get(9..).map(|b| b == pattern(n, 5)).unwrap_or(false))),
            ("out", J::s(out)),
        ]);
        match runs.last_mut() {
            Some(l) if l.1 + 1 == n && same(&l.2, &o) => l.1 = n,
            _ => runs.push((n, n, o)),
        }
    }
    let mut j = c.clone();
    j.put("cr", J::s(cr));
    j.put("tail", J::I((tail.len() + ptail.len()) as i64));
    j.put("runs", J::A(runs.into_iter().map(|(a, b, o)| J::obj([("from", J::I(a as i64)), ("to", J::I(b as i64)), ("o", o)])).collect()));
    j
}
/// One operation with a quantity that takes every value of a range, on one pair of connections.
fn vary(c: &J) -> J {
    let v = c.get("vary");
    let four = |k: &str| u(v.get(k)) as u64;
    let val = |i: usize| (i as u64 * four("mul") + four("add")) as u32;
    let what = v.get("what").str();
    let range = v.get("from").int() as usize..=v.get("to").int() as usize;
    // operation and exchanges (port, sent, answer) at an index
    let at = |i: usize| -> (J, Vec<(String, Vec<u8>, Vec<u8>)>, Vec<u8>) {
        let mut op = v.get("op").clone();
        let mut xs: Vec<(String, Vec<u8>, Vec<u8>, Vec<u8>)> = v.get("x").arr().iter().map(|x| (x.get("port").str().to_string(), x.get("send").as_bytes(), x.get("data").as_bytes(), x.get("ack").as_bytes())).collect();
        let last = xs.len() - 1;
        let set = |b: &mut Vec<u8>, at: usize, x: u32| b[at..at + 4].copy_from_slice(&x.to_be_bytes());
        match what {
            "arg" => {
                op.put("a", J::bytes(&val(i).to_be_bytes()));
                let n = xs[0].1.len();
                set(&mut xs[0].1, n - 4, val(i));
            }
            "len" => {
                op.put("a", J::bytes(&pattern(i, 5)));
                if xs.len() > 1 {
                    let n = xs[1].1.len();
                    set(&mut xs[1].1, n - 4, i as u32);
                    xs[1].1.extend(pattern(i, 5));
                }
            }
            "data" => set(&mut xs[last].2, v.get("at").int() as usize, val(i)),
            "ack" => set(&mut xs[last].3, 0, val(i)),
            x => panic!("{x}"),
        }
        let mut want = xs[last].2.split_off(v.get("skip").int() as usize);
        xs[last].2.extend_from_slice(&want);
        if v.get("swap").bool() {
            want[0..4].reverse();
            want[8..12].reverse();
        }
        (op, xs.into_iter().map(|(p, s, d, a)| (p, s, [d, a].concat())).collect(), want)
    };
    let steps: Vec<_> = range.clone().map(at).collect();
    let script = |port: &str| -> Vec<Exch> {
        steps.iter().enumerate().flat_map(|(i, st)| st.1.iter().filter(|x| x.0 == port).map(move |x| Exch { want: x.1.len(), chunks: vec![x.2.clone()], slow: 0, end: "keep".into(), op: i })).collect()
    };
    let (lt, lp) = (TcpListener::bind("127.0.0.1:0").expect("bind"), TcpListener::bind("127.0.0.1:0").expect("bind"));
    let (pt, pp) = (lt.local_addr().unwrap().port(), lp.local_addr().unwrap().port());
    let done = Arc::new(AtomicUsize::new(0));
    let (xt, xp, d1, d2) = (script("tpm"), script("plat"), done.clone(), done.clone());
    let ht = std::thread::spawn(move || serve_raw(lt, xt, d1));
    let hp = std::thread::spawn(move || serve_raw(lp, xp, d2));
    let mut rs = vec![];
    let cr = match guard(|| TcpConnection::connect("127.0.0.1", Some(pt), Some(pp))) {
        Err(_) => "panic".to_string(),
        Ok(Err(e)) => kind(&e),
        Ok(Ok(mut conn)) => {
            conn.set_locality(v.get("loc").int() as u8);
            for (op, _, want) in &steps {
                let (r, b) = do_op(&mut conn, op);
                rs.push((r.clone(), if r != "ok" { "none" } else if b == *want { "same" } else { "other" }));
                if STALLS.load(SeqCst) > 0 {
                    break;
                }
            }
            "ok".to_string()
        }
    };
    done.store(usize::MAX, SeqCst);
    let (gt, tail, _) = ht.join().unwrap();
    let (gp, ptail, _) = hp.join().unwrap();
    let (mut gt, mut gp) = (gt.into_iter(), gp.into_iter());
    let mut runs: Vec<(usize, usize, J)> = vec![];
    for (k, ((r, out), i)) in rs.into_iter().zip(range).enumerate() {
        let sent = steps[k].1.iter().all(|x| (if x.0 == "tpm" { gt.next() } else { gp.next() }).is_some_and(|g| g.0 == x.1));
        let o = J::obj([("r", J::s(r)), ("out", J::s(out)), ("sent", J::B(sent)), ("zero", J::B(val(i) == 0))]);
        match runs.last_mut() {
            Some(l) if l.2 == o => l.1 = i,
            _ => runs.push((i, i, o)),
        }
    }
    let mut j = c.clone();
    j.put("cr", J::s(cr));
    j.put("tail", J::I((tail.len() + ptail.len()) as i64));
    j.put("varied", J::A(runs.into_iter().map(|(a, b, o)| J::obj([("from", J::I(a as i64)), ("to", J::I(b as i64)), ("o", o)])).collect()));
    j
}
fn same(a: &J, b: &J) -> bool {
    let (mut x, mut y) = (String::new(), String::new());
    a.write(&mut x);
    b.write(&mut y);
    x == y
}
fn exchanges(c: &J, port: &str) -> Vec<Exch> {
    let mut v = vec![];
    if c.opt("sweep").is_some() && port == "tpm" {
        for (i, n) in sweep_range(c).enumerate() {
            let m = sweep_resp(c, n);
            let r = [&(m as u32).to_be_bytes()[..], &pattern(m, n + 1), &[0; 4]].concat();
            v.push(Exch { want: 9 + n, chunks: vec![r], slow: 0, end: "keep".into(), op: i });
        }
    }
    for (i, o) in c.get("ops").arr().iter().enumerate() {
        for e in o.get("x").arr() {
            if e.get("port").str() == port {
                v.push(Exch {
                    want: e.get("want").int() as usize,
                    chunks: e.get("chunks").arr().iter().map(|x| x.as_bytes()).collect(),
                    slow: e.get("slow").int() as u64,
                    end: e.get("end").str().into(),
                    op: i,
                });
            }
        }
    }
    v
}
static ADDR: AtomicUsize = AtomicUsize::new(1);
fn one(c: &J) -> J {
    if c.opt("sweep").is_some() {
        return sweep(c);
    }
    if c.opt("vary").is_some() {
        return vary(c);
    }
    let how = c.get("connect").str();
    // every case has its own loopback address, so that fixed ports do not collide
    let n = ADDR.fetch_add(1, SeqCst);
    let ip = format!("127.{}.{}.{}", 20 + (std::process::id() as usize % 200), 1 + (n / 250) % 250, 1 + n % 250);
    let bind = |p: u16| TcpListener::bind((ip.as_str(), p)).expect("bind");
    let (pt, pp) = if how == "default" { (2321, 2322) } else { (0, 0) };
    let (lt, lp) = (bind(pt), bind(pp));
    let (at, ap) = (lt.local_addr().unwrap().port(), lp.local_addr().unwrap().port());
    let done = Arc::new(AtomicUsize::new(0));
    let (xt, xp) = (exchanges(c, "tpm"), exchanges(c, "plat"));
    let (d1, d2) = (done.clone(), done.clone());
    let gone = |l: TcpListener| {
        drop(l);
        None
    };
    let ht = if how == "notpm" { gone(lt) } else { Some(std::thread::spawn(move || serve(lt, xt, d1))) };
    let hp = if how == "noplat" { gone(lp) } else { Some(std::thread::spawn(move || serve(lp, xp, d2))) };
    let conn = guard(|| match how {
        "default" => TcpConnection::connect(&ip, None, None),
        "retries" => TcpConnection::connect_with_retries(&ip, Some(at), Some(ap)),
        _ => TcpConnection::connect(&ip, Some(at), Some(ap)),
    });
    let mut j = c.clone();
    let mut rs = vec![];
    let cr = match conn {
        Err(_) => "panic".to_string(),
        Ok(Err(e)) => kind(&e),
        Ok(Ok(mut conn)) => {
            for op in c.get("ops").arr() {
                let (r, b) = do_op(&mut conn, op);
                rs.push(J::obj([("r", J::s(r)), ("b", J::bytes(&b))]));
                done.fetch_add(1, SeqCst);
                if op.get("x").arr().iter().any(|x| x.get("end").str() == "drop") {
                    // so that the next operation usually finds the connection closed
                    std::thread::sleep(Duration::from_millis(8));
                }
            }
            "ok".to_string()
        }
    };
    done.store(usize::MAX, SeqCst);
    let none = || J::obj([("x", J::A(vec![])), ("tail", J::A(vec![])), ("conn", J::B(false))]);
    j.put("cr", J::s(cr));
    j.put("rs", J::A(rs));
    j.put("tpm", ht.map(|h| h.join().unwrap()).unwrap_or_else(none));
    j.put("plat", hp.map(|h| h.join().unwrap()).unwrap_or_else(none));
    j
}
pub fn run(cases: &str, out: &str) {
    let cs = Arc::new(read_lines(cases));
    let next = Arc::new(AtomicUsize::new(0));
    let res: Arc<Mutex<Vec<(usize, J)>>> = Arc::default();
    // nothing here may take this long, whatever the code under test does
    let whole = out.to_string();
    std::thread::spawn(move || {
        std::thread::sleep(Duration::from_secs(400));
        let _ = std::fs::write(format!("{whole}.hang"), "tcp operations do not return");
        std::process::exit(0);
    });
    let hs: Vec<_> = (0..12)
        .map(|_| {
            let (cs, next, res) = (cs.clone(), next.clone(), res.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= cs.len() || STALLS.load(SeqCst) > 24 {
                    return;
                }
                let j = one(&cs[i]);
                res.lock().unwrap().push((i, j));
            })
        })
        .collect();
    for h in hs {
        h.join().expect("worker");
    }
    let mut v = std::mem::take(&mut *res.lock().unwrap());
    v.sort_by_key(|x| x.0);
    let mut o = Out::new(out);
    for (_, j) in v {
        o.line(j);
    }
    o.done();
}
