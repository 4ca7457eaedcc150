//! Starting and stopping simulators: every scenario runs in a process of its own
//! (`simcase`), starting `fakesim` children in a scratch directory.
use crate::json::{J, read_lines};
use crate::util::*;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tpm2_client::connection::TcpSimulator;

fn ms(n: i64) {
    if n > 0 {
        std::thread::sleep(Duration::from_millis(n as u64));
    }
}
/// Milliseconds since the epoch; launcher and simulator are different processes.
fn clock() -> i64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as i64).unwrap_or(0)
}
fn until(t: i64) {
    ms(t - clock());
}
fn note(file: &str, v: i64) {
    let _ = std::fs::write(format!("{file}.tmp"), format!("{v}"));
    let _ = std::fs::rename(format!("{file}.tmp"), file);
}
fn noted(d: &Path, file: &str) -> i64 {
    std::fs::read_to_string(d.join(file)).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(-1)
}
/// Counts how often a file was closed by somebody who only read it.
struct Reads(i32, i64);
unsafe extern "C" {
    fn inotify_init1(flags: i32) -> i32;
    fn inotify_add_watch(fd: i32, path: *const std::ffi::c_char, mask: u32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
}
impl Reads {
    fn of(file: &str) -> Option<Self> {
        let c = std::ffi::CString::new(file).ok()?;
        // IN_NONBLOCK; IN_CLOSE_NOWRITE
        unsafe {
            let fd = inotify_init1(0o4000);
            (fd >= 0 && inotify_add_watch(fd, c.as_ptr(), 0x10) >= 0).then_some(Reads(fd, 0))
        }
    }
    fn count(&mut self) -> i64 {
        let mut b = [0u8; 4096];
        loop {
            let n = unsafe { read(self.0, b.as_mut_ptr(), b.len()) };
            if n <= 0 {
                return self.1;
            }
            let mut at = 0;
            while at + 16 <= n as usize {
                self.1 += (b[at + 4] & 0x10 != 0) as i64;
                at += 16 + u32::from_ne_bytes([b[at + 12], b[at + 13], b[at + 14], b[at + 15]]) as usize;
            }
        }
    }
}
fn u32_of(s: &mut TcpStream) -> Option<u32> {
    let mut b = [0; 4];
    s.read_exact(&mut b).ok()?;
    Some(u32::from_be_bytes(b))
}
/// Answers on one port; returns true when told to stop.
fn talk(mut s: TcpStream, who: u32) -> bool {
    loop {
        let Some(c) = u32_of(&mut s) else { return false };
        let reply: Vec<u8> = match c {
            15 => {
                let Some(v) = u32_of(&mut s) else { return false };
                [who.to_be_bytes(), v.to_be_bytes(), [0; 4]].concat()
            }
            26 => {
                let _ = u32_of(&mut s);
                [who.to_be_bytes(), [0; 4]].concat()
            }
            20 => return false,
            21 => return true,
            _ => vec![0; 4],
        };
        if s.write_all(&reply).is_err() {
            return false;
        }
    }
}
/// Connections taken, connections ended, and how often it was told to stop.
#[derive(Default)]
struct Tally(AtomicUsize, AtomicUsize, AtomicUsize);
fn serve(l: TcpListener, who: u32, told: Arc<Tally>, file: &str, t0: i64) {
    for s in l.incoming().flatten() {
        if told.0.fetch_add(1, SeqCst) == 0 {
            note(&format!("{file}.first"), clock() - t0);
        }
        if talk(s, who) {
            told.2.fetch_add(1, SeqCst);
        }
        told.1.fetch_add(1, SeqCst);
    }
}
fn publish(file: &str, p: &J, port: u16, t0: i64) {
    until(t0 + p.get("delay").int());
    let put = |c: String| std::fs::write(file, c);
    let _ = match p.get("how").str() {
        "plain" => put(format!("{port}")),
        "newline" => put(format!("{port}\n")),
        "crlf" => put(format!(" {port}\r\n")),
        "empty-then" => {
            let _ = put(String::new());
            ms(p.get("gap").int());
            put(format!("{port}\n"))
        }
        "partial-then" => {
            let _ = put("x".into());
            ms(p.get("gap").int());
            put(format!("{port}"))
        }
        // complete it after it was read a number of times
        "after-reads" => {
            let _ = put(String::new());
            if let Some(mut w) = Reads::of(file) {
                let mut seen = 0;
                while seen < p.get("gap").int() {
                    ms(2);
                    if w.count() > seen {
                        seen = w.count();
                        note(&format!("{file}.seen"), seen);
                    }
                }
                // the file is complete at once
                let _ = std::fs::write(format!("{file}.new"), format!("{port}\n"));
                let before = w.count();
                let t = Instant::now();
                let _ = std::fs::rename(format!("{file}.new"), file);
                let n = w.count();
                note(&format!("{file}.reads"), if n == before && t.elapsed().as_millis() < 400 { n } else { -2 });
            }
            Ok(())
        }
        "empty" => put(String::new()),
        "garbage" => put("not a port".into()),
        "large" => put(format!("{}", 65536 + port as u32)),
        "negative" => put("-5".into()),
        "never" => Ok(()),
        x => panic!("{x}"),
    };
    note(&format!("{file}.at"), clock() - t0);
}
/// The simulator stand-in: `fakesim CONFIG`, running in its own directory.
pub fn fakesim(cfg: &str) {
    let c = &read_lines(cfg)[0];
    std::thread::spawn(|| {
        ms(25_000);
        std::process::exit(3);
    });
    let me = std::process::id();
    let _ = std::fs::write("pid", format!("{me}"));
    let ip = c.get("ip").str().to_string();
    let life = c.get("life").str().to_string();
    if life == "exit-at-once" {
        std::process::exit(1);
    }
    let t0 = noted(Path::new("."), "t0");
    let tallies: [Arc<Tally>; 2] = Default::default();
    let mut hs = vec![];
    for (k, (file, key, lkey)) in [("command.port", "cmd", "lcmd"), ("platform.port", "plat", "lplat")].into_iter().enumerate() {
        // -1: nobody listens, 0: at once, else after that many ms; -10-n: after the other port saw n connections end
        let listen = c.get(lkey).int();
        let l = TcpListener::bind((ip.as_str(), 0)).unwrap();
        let port = l.local_addr().unwrap().port();
        let t = tallies[k].clone();
        if listen == 0 {
            note(&format!("{file}.listen"), clock() - t0);
            std::thread::spawn(move || serve(l, me, t, file, t0));
        } else {
            drop(l);
            let (other, ip) = (tallies[1 - k].clone(), ip.clone());
            std::thread::spawn(move || {
                let n = (-10 - listen).max(0) as usize;
                match listen {
                    -1 => return,
                    0.. => until(t0 + listen),
                    _ => while other.1.load(SeqCst) < n {
                        ms(2);
                    },
                }
                if let Ok(l) = TcpListener::bind((ip.as_str(), port)) {
                    note(&format!("{file}.after"), other.0.load(SeqCst) as i64);
                    note(&format!("{file}.listen"), clock() - t0);
                    serve(l, me, t, file, t0);
                }
            });
        }
        let p = c.get(key).clone();
        hs.push(std::thread::spawn(move || publish(file, &p, port, t0)));
    }
    for h in hs {
        let _ = h.join();
    }
    if life == "exit-after-publish" {
        std::process::exit(1);
    }
    if life == "exit-while-running" {
        ms(1200);
        std::process::exit(1);
    }
    let stop = c.get("stop").str().to_string();
    loop {
        ms(5);
        if tallies.iter().map(|t| t.2.load(SeqCst)).sum::<usize>() >= 2 {
            match stop.as_str() {
                "obey" => std::process::exit(0),
                "slow" => {
                    ms(300);
                    std::process::exit(0)
                }
                "slowlong" => {
                    ms(3000);
                    std::process::exit(0)
                }
                _ => {}
            }
        }
    }
}
/// Children of this process, running or not reaped.
fn children() -> (i64, i64) {
    let me = std::process::id().to_string();
    let (mut live, mut zombie) = (0, 0);
    for e in std::fs::read_dir("/proc").into_iter().flatten().flatten() {
        let Ok(s) = std::fs::read_to_string(e.path().join("stat")) else { continue };
        let Some(p) = s.rfind(')') else { continue };
        let f: Vec<&str> = s[p + 1..].split_whitespace().collect();
        if f.len() > 1 && f[1] == me {
            if f[0] == "Z" || f[0] == "X" { zombie += 1 } else { live += 1 }
        }
    }
    (live, zombie)
}
fn left() -> J {
    let (l, z) = children();
    J::obj([("live", J::I(l)), ("zombie", J::I(z))])
}
fn pid_of(d: &Path) -> u32 {
    std::fs::read_to_string(d.join("pid")).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(0)
}
pub fn simcase(cfg: &str, out: &str, dir: &str, ip: &str) {
    let mut c = read_lines(cfg)[0].clone();
    c.put("ip", J::s(ip));
    let d = PathBuf::from(dir);
    let mut o = Out::new(out);
    // files of an earlier simulator
    let decoy = TcpListener::bind((ip, 0)).unwrap();
    let dport = decoy.local_addr().unwrap().port();
    let decoyed = Arc::new(AtomicUsize::new(0));
    match c.get("stale").str() {
        "none" => drop(decoy),
        k => {
            let _ = std::fs::write(d.join("command.port"), format!("{dport}\n"));
            if k != "dead-one" && k != "decoy-one" {
                let _ = std::fs::write(d.join("platform.port"), format!("{dport}\n"));
            }
            if k.starts_with("decoy") {
                let t = decoyed.clone();
                std::thread::spawn(move || {
                    for s in decoy.incoming().flatten() {
                        t.fetch_add(1, SeqCst);
                        std::thread::spawn(move || talk(s, 1));
                    }
                });
            }
        }
    }
    let cf = d.join("config.json");
    let mut s = String::new();
    c.write(&mut s);
    std::fs::write(&cf, s).unwrap();
    let me = std::env::current_exe().unwrap();
    let bin = match c.get("bin").str() {
        "missing" => d.join("no-such-simulator"),
        "notexec" => cf.clone(),
        _ => me,
    };
    let cwd = if c.get("bin").str() == "nodir" { d.join("no-such-directory") } else { d.clone() };
    let args = ["fakesim".to_string(), cf.to_string_lossy().to_string()];
    let t = Instant::now();
    note(&d.join("t0").to_string_lossy(), clock());
    let r = guard(|| TcpSimulator::new(&bin, &args, &cwd, ip));
    let took = t.elapsed().as_millis() as i64;
    c.put("took", J::I(took));
    // what the simulator did, and when
    for (k, f) in [("cmd", "command.port"), ("plat", "platform.port")] {
        c.put(&format!("{k}_did"), J::obj(["at", "reads", "seen", "listen", "after", "first"].map(|x| (x, J::I(noted(&d, &format!("{f}.{x}")))))));
    }
    let mut steps = vec![];
    match r {
        Err(_) => c.put("r", J::s("panic")),
        Ok(Err(e)) => c.put("r", J::s(format!("{:?}", e.kind()))),
        Ok(Ok(sim)) => {
            c.put("r", J::s("ok"));
            let mut sim = Some(sim);
            let pid = pid_of(&d);
            if c.get("life").str() == "exit-while-running" {
                ms(1500);
            }
            for e in c.get("end").arr() {
                let e = e.str();
                let mut ok = true;
                let g = guard(|| match e {
                    "ask" => {
                        // who is at the other end of both connections
                        let cn = sim.as_mut().unwrap().connection_mut();
                        ok = cn.remote_handshake(7).map(|h| h.server_version() == pid).unwrap_or(false) && cn.act_get_signaled(1).map(|x| x == pid).unwrap_or(false);
                    }
                    "stop" => ok = sim.as_mut().unwrap().stop().is_ok(),
                    "nicely" => ok = sim.as_mut().unwrap().stop_nicely().is_ok(),
                    "wait" => ms(600),
                    "drop" => drop(sim.take()),
                    x => panic!("{x}"),
                });
                let mut st = J::obj([("e", J::s(e)), ("ok", J::B(ok)), ("panic", J::B(g.is_err()))]);
                st.put("left", left());
                steps.push(st);
            }
        }
    }
    c.put("left", left());
    c.put("steps", J::A(steps));
    c.put("decoyed", J::I(decoyed.load(SeqCst) as i64));
    o.line(c);
    o.done();
}
pub fn run(cases: &str, out: &str) {
    let cs = Arc::new(read_lines(cases));
    let scratch = PathBuf::from(format!("{out}.scratch"));
    let _ = std::fs::remove_dir_all(&scratch);
    let next = Arc::new(AtomicUsize::new(0));
    let res: Arc<Mutex<Vec<(usize, J)>>> = Arc::default();
    let me = std::env::current_exe().unwrap();
    let hs: Vec<_> = (0..28)
        .map(|_| {
            let (cs, next, res, scratch, me) = (cs.clone(), next.clone(), res.clone(), scratch.clone(), me.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, SeqCst);
                if i >= cs.len() {
                    return;
                }
                // where the outcome depends on time it is tried again if it is not the usual one (`again`): a busy machine
                let again = cs[i].opt("again").map(|x| x.str().to_string()).unwrap_or_default();
                let mut j = J::obj([]);
                for tries in 0..3 {
                    let d = scratch.join(format!("{i}-{tries}"));
                    let w = d.join("work");
                    std::fs::create_dir_all(&w).unwrap();
                    let (cf, of) = (d.join("case.json"), d.join("out.json"));
                    let mut s = String::new();
                    cs[i].write(&mut s);
                    std::fs::write(&cf, s).unwrap();
                    let ip = format!("127.{}.{}.{}", 20 + (std::process::id() as usize % 200), 1 + i / 250 + 80 * tries, 1 + i % 250);
                    let mut child = std::process::Command::new(&me).arg("simcase").arg(&cf).arg(&of).arg(&w).arg(&ip).spawn().expect("simcase");
                    let t = Instant::now();
                    let mut hung = false;
                    loop {
                        if let Ok(Some(_)) = child.try_wait() {
                            break;
                        }
                        if t.elapsed() > Duration::from_secs(40) {
                            hung = true;
                            let _ = child.kill();
                            let _ = child.wait();
                            break;
                        }
                        ms(5);
                    }
                    j = if hung || !of.exists() || std::fs::metadata(&of).map(|m| m.len() == 0).unwrap_or(true) {
                        let mut j = cs[i].clone();
                        j.put("r", J::s(if hung { "hang" } else { "died" }));
                        j.put("left", J::obj([("live", J::I(0)), ("zombie", J::I(0))]));
                        j.put("steps", J::A(vec![]));
                        j.put("decoyed", J::I(0));
                        j.put("took", J::I(0));
                        for k in ["cmd_did", "plat_did"] {
                            j.put(k, J::obj(["at", "reads", "seen", "listen", "after", "first"].map(|x| (x, J::I(-1)))));
                        }
                        j
                    } else {
                        read_lines(of.to_str().unwrap())[0].clone()
                    };
                    if again.is_empty() || (j.get("r").str() == "ok") == (again == "ok") {
                        break;
                    }
                }
                j.put("i", J::I(i as i64));
                res.lock().unwrap().push((i, j));
            })
        })
        .collect();
    for h in hs {
        h.join().expect("worker");
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let mut v = std::mem::take(&mut *res.lock().unwrap());
    v.sort_by_key(|x| x.0);
    let mut o = Out::new(out);
    for (_, j) in v {
        o.line(j);
    }
    o.done();
}
