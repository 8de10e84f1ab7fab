//! Results, signals and the registry of processes, against independent statements of what they must be.
use crate::util::*;
use chrono::{DateTime, Utc};
use procstar::err::Error;
use procstar::procs::{Notification, NotificationSub, Proc, SharedProcs};
use procstar::shutdown::State;
use procstar::spec::{CaptureEncoding, CaptureMode, Fd};
use procstar::{fd, res, sig};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::rc::Rc;
use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::Mutex;
use std::task::{Context, Poll};
use std::time::{Duration, Instant};

// ---- kill(2) only records, while recording is on
static RECORD: AtomicI32 = AtomicI32::new(0);
static KILLS: Mutex<Vec<(i32, i32)>> = Mutex::new(vec![]);
static TIMED: Mutex<Vec<(u64, i32, i32)>> = Mutex::new(vec![]); // with the time since T0, ms
static T0: Mutex<Option<tokio::time::Instant>> = Mutex::new(None);
static FAIL: Mutex<Vec<(i32, i32)>> = Mutex::new(vec![]); // pid -> errno

#[no_mangle]
pub extern "C" fn kill(pid: libc::pid_t, sig: libc::c_int) -> libc::c_int {
    if RECORD.load(Ordering::SeqCst) == 0 {
        return unsafe { libc::syscall(libc::SYS_kill, pid as i64, sig as i64) as i32 };
    }
    KILLS.lock().unwrap().push((pid, sig));
    let t = T0.lock().unwrap().map_or(0, |t| t.elapsed().as_millis() as u64);
    TIMED.lock().unwrap().push((t, pid, sig));
    let e = FAIL.lock().unwrap().iter().find(|x| x.0 == pid).map(|x| x.1);
    if let Some(e) = e {
        unsafe { *libc::__errno_location() = e };
        return -1;
    }
    0
}

pub fn recorded<T>(fails: &[(i32, i32)], f: impl FnOnce() -> T) -> (Result<T, String>, Vec<(i32, i32)>) {
    KILLS.lock().unwrap().clear();
    *FAIL.lock().unwrap() = fails.to_vec();
    RECORD.store(1, Ordering::SeqCst);
    let r = guard(f);
    RECORD.store(0, Ordering::SeqCst);
    (r, std::mem::take(&mut *KILLS.lock().unwrap()))
}

pub fn record(fails: &[(i32, i32)]) {
    KILLS.lock().unwrap().clear();
    *FAIL.lock().unwrap() = fails.to_vec();
    RECORD.store(1, Ordering::SeqCst);
}

pub fn record_end() -> Vec<(i32, i32)> {
    RECORD.store(0, Ordering::SeqCst);
    std::mem::take(&mut *KILLS.lock().unwrap())
}

pub const SIGNALS: [(&str, i32); 30] = [("SIGHUP", 1), ("SIGINT", 2), ("SIGQUIT", 3), ("SIGILL", 4), ("SIGTRAP", 5), ("SIGABRT", 6), ("SIGBUS", 7), ("SIGFPE", 8), ("SIGKILL", 9),
    ("SIGUSR1", 10), ("SIGSEGV", 11), ("SIGUSR2", 12), ("SIGPIPE", 13), ("SIGALRM", 14), ("SIGTERM", 15), ("SIGCHLD", 17), ("SIGCONT", 18), ("SIGSTOP", 19), ("SIGTSTP", 20),
    ("SIGTTIN", 21), ("SIGTTOU", 22), ("SIGURG", 23), ("SIGXCPU", 24), ("SIGXFSZ", 25), ("SIGVTALRM", 26), ("SIGPROF", 27), ("SIGWINCH", 28), ("SIGIO", 29), ("SIGPWR", 30),
    ("SIGSYS", 31)];

fn signal_name(n: i32) -> Option<&'static str> {
    SIGNALS.iter().find(|x| x.1 == n).map(|x| x.0)
}

pub fn zero_rusage() -> libc::rusage {
    unsafe { std::mem::zeroed() }
}

pub fn fake(pid: i32) -> Proc {
    Proc::new(pid, Utc::now(), Instant::now(), vec![])
}

// ------------------------------------------------------------------------------------------ results
fn status_value(w: i32) -> Value {
    let s = w & 0x7f;
    if s == 0 {
        json!({"status": w, "exit_code": (w >> 8) & 0xff, "signum": null, "signal": null, "core_dump": false})
    } else {
        json!({"status": w, "exit_code": null, "signum": s, "signal": signal_name(s), "core_dump": w & 0x80 != 0})
    }
}

fn rusage_of(c: &mut Ctx) -> (libc::rusage, Value) {
    let mut r = zero_rusage();
    let mut n = || c.below(1 << 30) as i64;
    r.ru_utime.tv_sec = n() % 5000;
    r.ru_utime.tv_usec = n() % 1000000;
    r.ru_stime.tv_sec = n() % 5000;
    r.ru_stime.tv_usec = n() % 1000000;
    r.ru_maxrss = n();
    r.ru_ixrss = n();
    r.ru_idrss = n();
    r.ru_isrss = n();
    r.ru_minflt = n();
    r.ru_majflt = n();
    r.ru_nswap = n();
    r.ru_inblock = n();
    r.ru_oublock = n();
    r.ru_msgsnd = n();
    r.ru_msgrcv = n();
    r.ru_nsignals = n();
    r.ru_nvcsw = n();
    r.ru_nivcsw = n();
    let v = json!({"maxrss": r.ru_maxrss * 1024, "minflt": r.ru_minflt, "majflt": r.ru_majflt, "nswap": r.ru_nswap, "inblock": r.ru_inblock, "oublock": r.ru_oublock,
        "nvcsw": r.ru_nvcsw, "nivcsw": r.ru_nivcsw});
    (r, v)
}

fn check_usage(r: &libc::rusage, want: &Value, got: &Value) -> bool {
    let t = |x: &Value, tv: libc::timeval| x.as_f64().map_or(false, |x| (x - (tv.tv_sec as f64 + tv.tv_usec as f64 / 1e6)).abs() < 1e-5);
    want.as_object().unwrap().iter().all(|(k, v)| &got[k] == v) && t(&got["utime"], r.ru_utime) && t(&got["stime"], r.ru_stime)
}

pub fn results(c: &mut Ctx) {
    let mut statuses: Vec<i32> = (0..256).map(|x| x << 8).collect();
    statuses.extend((1..127).flat_map(|s| [s, s | 0x80]).filter(|s| s & 0x7f != 16));
    for &w in &statuses {
        let want = status_value(w);
        c.eval(|| json!({"wait status": w}));
        match guard(|| serde_json::to_value(res::Status::new(w)).unwrap()) {
            Ok(g) if g == want => {}
            Ok(g) => return c.fail(json!({"Status::new": w}), want, g),
            Err(p) => return c.fail(json!({"Status::new": w}), want, json!({"panic": p})),
        }
    }
    let me = std::process::id() as i32;
    let stat = procstar::procinfo::ProcStat::load(me).ok();
    while c.go() {
        let (r, uv) = rusage_of(c);
        let g = guard(|| serde_json::to_value(res::ResourceUsage::new(&r)).unwrap()).unwrap_or(json!("panic"));
        c.eval(|| json!({"rusage": uv}));
        if !check_usage(&r, &uv, &g) {
            return c.fail(json!({"ResourceUsage::new": uv, "utime": [r.ru_utime.tv_sec, r.ru_utime.tv_usec], "stime": [r.ru_stime.tv_sec, r.ru_stime.tv_usec]}), uv, g);
        }
        // a whole process
        let w = *c.pick(&statuses);
        let reaped = c.below(2) == 0;
        let pid = if c.below(2) == 0 { me } else { 0x3ffffff };
        let start: DateTime<Utc> = Utc::now() - chrono::Duration::seconds(c.below(100000) as i64);
        let since = Duration::from_millis(c.below(5000) as u64);
        let si = Instant::now().checked_sub(since).unwrap();
        let mut pipes = fd::Pipes::new();
        let mut hs = vec![];
        let mut wantfds = BTreeMap::new();
        for (n, name) in [(0, "stdin"), (1, "stdout"), (2, "stderr"), (3, "3"), (17, "17"), (120, "120")] {
            if c.below(2) == 0 {
                continue;
            }
            let (spec, v) = match c.below(4) {
                0 => (Fd::Null { flags: procstar::spec::OpenFlag::Default }, json!(null)),
                1 => (Fd::Close, json!(null)),
                2 => (Fd::Capture { mode: CaptureMode::TempFile, encoding: None, attached: true }, json!({"type": "data", "data": "", "encoding": "base64"})),
                _ => (Fd::Capture { mode: CaptureMode::TempFile, encoding: Some(CaptureEncoding::Utf8), attached: false }, json!({"type": "detached", "length": 0, "encoding": "utf-8"})),
            };
            if let Ok((n2, h)) = guard(|| fd::make_fd_handler(&"p".to_string(), name.to_string(), spec, &mut pipes)) {
                if n2 == n {
                    hs.push((n, h));
                    wantfds.insert(name.to_string(), v);
                }
            }
        }
        if c.below(2) == 0 { hs.reverse(); }
        let mut p = Proc::new(pid, start, si, hs);
        let errors: Vec<String> = (0..c.below(3)).map(|i| format!("err {i}")).collect();
        p.errors = errors.clone();
        let stop = start + chrono::Duration::milliseconds(c.below(1000000) as i64);
        let el = Duration::from_micros(c.below(1 << 30) as u64);
        let rec = stat.clone().filter(|_| c.below(2) == 0).map(|mut s| { s.num_threads = 4711; s });
        p.proc_stat = rec.clone();
        if reaped {
            p.wait_info = Some((pid, w, r));
            p.stop_time = Some(stop);
            p.elapsed = Some(el);
        }
        let input = json!({"pid": if pid == me { "own" } else { "none" }, "errors": errors, "reaped": reaped, "wait status": w, "recorded stat": rec.is_some(), "fds": wantfds});
        c.eval(|| input.clone());
        let lo = (si.elapsed().as_secs_f64(), Utc::now());
        let g = match guard(|| serde_json::to_value(p.to_result()).unwrap()) {
            Ok(g) => g,
            Err(e) => return c.fail(input, json!("a result"), json!({"panic": e})),
        };
        let hi = (si.elapsed().as_secs_f64(), Utc::now());
        let mut bad: Vec<(&str, Value, Value)> = vec![];
        let mut eq = |n: &'static str, w: Value, g: &Value| if &w != g { bad.push((n, w, g.clone())) };
        eq("state", json!(if !errors.is_empty() { "error" } else if reaped { "terminated" } else { "running" }), &g["state"]);
        eq("errors", json!(errors), &g["errors"]);
        eq("pid", json!(pid), &g["pid"]);
        eq("status", if reaped { status_value(w) } else { json!(null) }, &g["status"]);
        eq("rusage present", json!(reaped), &json!(!g["rusage"].is_null()));
        if reaped {
            eq("rusage", json!(true), &json!(check_usage(&r, &uv, &g["rusage"])));
        }
        eq("proc_statm present", json!(!reaped && pid == me), &json!(!g["proc_statm"].is_null()));
        if rec.is_some() {
            eq("recorded proc_stat", json!(4711), &g["proc_stat"]["num_threads"]);
        } else if stat.is_some() {
            eq("current proc_stat", if pid == me { json!(me) } else { json!(null) }, &g["proc_stat"]["pid"]);
        }
        eq("start", json!(start.to_rfc3339()), &g["times"]["start"]);
        eq("stop", if reaped { json!(stop.to_rfc3339()) } else { json!(null) }, &g["times"]["stop"]);
        let now = g["times"]["now"].as_str().and_then(|s| DateTime::parse_from_rfc3339(s).ok()).map_or(false, |t| t >= lo.1 && t <= hi.1);
        eq("now", json!(true), &json!(now));
        let e = g["times"]["elapsed"].as_f64().unwrap_or(-1.0);
        let ok = if reaped { (e - el.as_secs_f64()).abs() < 1e-9 } else { e >= lo.0 - 1e-9 && e <= hi.0 + 1e-9 };
        eq("elapsed", json!(true), &json!(ok));
        eq("fds", json!(wantfds), &g["fds"]);
        drop(eq);
        if let Some((n, w, g)) = bad.pop() {
            return c.fail(json!({"process": input, "field": n}), w, g);
        }
    }
}

// ------------------------------------------------------------------------------------------ signals
pub fn signals(c: &mut Ctx) {
    for (n, k) in SIGNALS {
        c.eval(|| json!({"signal": n}));
        let g = guard(|| (sig::parse_signum(n), sig::parse_signum(&k.to_string()), sig::get_abbrev(k)));
        if g != Ok((Some(k), Some(k), Some(n))) {
            return c.fail(json!({"signal": n}), json!([k, k, n]), json!(format!("{g:?}")));
        }
    }
    for k in -3..200 {
        c.eval(|| json!({"signal number": k}));
        if k != 16 && guard(|| sig::get_abbrev(k)) != Ok(signal_name(k)) {
            return c.fail(json!({"get_abbrev": k}), json!(signal_name(k)), json!(format!("{:?}", guard(|| sig::get_abbrev(k)))));
        }
    }
    let mut bads: Vec<String> = ["", "TERM", "sigterm", "SIG", "SIGRT", "9x", " 9", "9 ", "SIGTERM ", "99999999999"].iter().map(|s| s.to_string()).collect();
    bads.extend(c.strs.iter().cloned());
    for b in bads {
        let want = SIGNALS.iter().find(|x| x.0 == b).map(|x| x.1).or(b.parse::<i32>().ok());
        c.eval(|| json!({"signal name": b}));
        if guard(|| sig::parse_signum(&b)) != Ok(want) && want != Some(16) && !["SIGSTKFLT", "SIGPOLL", "SIGIOT", "SIGCLD"].contains(&b.as_str()) {
            return c.fail(json!({"parse_signum": b}), json!(want), json!(format!("{:?}", guard(|| sig::parse_signum(&b)))));
        }
    }
    while c.go() {
        let n = c.below(6);
        let s = *c.pick(&[1, 2, 9, 10, 15, 17, 34, 64]);
        let procs = SharedProcs::new();
        let mut recs = vec![];
        let mut fails = vec![];
        for i in 0..n {
            let pid = 1000000 + 7 * i as i32;
            let mut p = fake(pid);
            let (reaped, errs) = (c.below(3) == 0, c.below(4) == 0);
            if reaped {
                p.wait_info = Some((pid, 0, zero_rusage()));
            }
            if errs {
                p.errors.push("x".into());
            }
            if c.below(4) == 0 {
                fails.push((pid, *c.pick(&[1, 3, 22])));
            }
            recs.push((format!("p{i}"), pid, reaped, errs));
            procs.insert(format!("p{i}"), Rc::new(RefCell::new(p)));
        }
        let desc = json!({"processes (id, pid, reaped, errors)": recs, "kill fails for (pid, errno)": fails, "signal": s});
        for (id, pid, reaped, _) in &recs {
            let p = procs.get(id).unwrap();
            let (r, k) = recorded(&fails, || p.borrow().send_signal(s));
            let e = fails.iter().find(|f| f.0 == *pid).map(|f| f.1);
            let want = if *reaped { "missing" } else { match e { None => "sent", Some(3) => "missing", _ => "failed" } };
            let got = match &r { Ok(Ok(())) => "sent".to_string(), Ok(Err(Error::NoProc)) => "missing".into(), Ok(Err(_)) => "failed".into(), Err(p) => format!("panic: {p}") };
            let wk: Vec<(i32, i32)> = if *reaped { vec![] } else { vec![(*pid, s)] };
            c.eval(|| desc.clone());
            if got != want || k != wk {
                return c.fail(json!({"setup": desc, "send_signal to": id}), json!({"result": want, "kill calls": wk}), json!({"result": got, "kill calls": k}));
            }
        }
        let (r, mut k) = recorded(&fails, || procs.send_signal_all(s));
        k.sort();
        let run: Vec<_> = recs.iter().filter(|x| !x.2 && !x.3).collect();
        let wk: Vec<(i32, i32)> = run.iter().map(|x| (x.1, s)).collect();
        let ok = !run.iter().any(|x| fails.iter().any(|f| f.0 == x.1));
        let got = match &r { Ok(x) => json!(x.is_ok()), Err(p) => json!({"panic": p}) };
        c.eval(|| desc.clone());
        if k != wk || got != json!(ok) {
            return c.fail(json!({"setup": desc, "send_signal_all": s}), json!({"ok": ok, "kill calls": wk}), json!({"ok": got, "kill calls": k}));
        }
    }
}

// ------------------------------------------------------------------------------------------ registry
fn poll<F: Future + ?Sized>(f: std::pin::Pin<&mut F>) -> Option<F::Output> {
    let w = futures_util::task::noop_waker();
    match f.poll(&mut Context::from_waker(&w)) {
        Poll::Ready(x) => Some(x),
        Poll::Pending => None,
    }
}

fn st(s: &State) -> &'static str {
    match s { State::Active => "active", State::Idling => "idling", State::Done => "done" }
}

fn drain(sub: &mut NotificationSub) -> Vec<String> {
    let mut v = vec![];
    loop {
        let mut f = Box::pin(sub.recv());
        match poll(f.as_mut()) {
            Some(Some(Notification::Start(i))) => v.push(format!("start {i}")),
            Some(Some(Notification::NotRunning(i))) => v.push(format!("notrunning {i}")),
            Some(Some(Notification::Delete(i))) => v.push(format!("delete {i}")),
            Some(Some(Notification::ShutDown(s))) => v.push(format!("shutdown {}", st(&s))),
            Some(None) => { v.push("closed".into()); return v }
            None => return v,
        }
    }
}

pub fn registry(c: &mut Ctx) {
    while c.go() {
        let procs = SharedProcs::new();
        let nsubs = c.below(3);
        let mut subs: Vec<NotificationSub> = (0..nsubs).map(|_| procs.subscribe()).collect();
        let mut model: BTreeMap<String, (i32, bool)> = BTreeMap::new(); // id -> pid, running
        let mut shut = "active";
        let mut pid = 100000;
        let mut log: Vec<String> = vec![];
        let (pa, pb, pc) = (procs.clone(), procs.clone(), procs.clone());
        type F = std::pin::Pin<Box<dyn Future<Output = ()>>>;
        let mut waits: [(&str, Option<F>); 3] = [("wait_running", None), ("wait_idle", None), ("wait_for_shutdown", Some(Box::pin(async move { pc.wait_for_shutdown().await })))];
        for _ in 0..12 {
            let id = format!("p{}", c.below(4));
            let mut want: Vec<String> = vec![];
            let (got, exp): (Result<Value, String>, Value);
            let op;
            let mut idle = |want: &mut Vec<String>, empty: bool, shut: &mut &str| if empty && *shut == "idling" { *shut = "done"; want.push("shutdown done".into()) };
            match c.below(12) {
                0 | 1 | 2 => {
                    op = format!("insert {id}");
                    if model.contains_key(&id) { continue }
                    pid += 1;
                    let mut p = fake(pid);
                    let run = c.below(2) == 0;
                    if !run {
                        if c.below(2) == 0 { p.wait_info = Some((pid, 0, zero_rusage())); } else { p.errors.push("e".into()); }
                    }
                    model.insert(id.clone(), (pid, run));
                    want.push(format!("start {id}"));
                    got = guard(|| { procs.insert(id.clone(), Rc::new(RefCell::new(p))); json!(null) });
                    exp = json!(null);
                }
                3 | 4 | 5 => {
                    op = format!("remove_if_not_running {id}");
                    got = guard(|| match procs.remove_if_not_running(&id) {
                        Ok(p) => json!({"pid": p.borrow().pid}),
                        Err(Error::ProcRunning(i)) => json!({"running": i}),
                        Err(Error::NoProcId(i)) => json!({"unknown": i}),
                        Err(e) => json!(format!("{e:?}")),
                    });
                    exp = match model.get(&id).copied() {
                        None => json!({"unknown": id}),
                        Some((_, true)) => json!({"running": id}),
                        Some((p, false)) => {
                            model.remove(&id);
                            want.push(format!("delete {id}"));
                            idle(&mut want, model.is_empty(), &mut shut);
                            json!({"pid": p})
                        }
                    };
                }
                6 => {
                    op = format!("finish {id}");
                    if !model.contains_key(&id) { continue }
                    let p = model[&id].0;
                    model.insert(id.clone(), (p, false));
                    got = guard(|| { let x = procs.get(&id).unwrap(); let mut x = x.borrow_mut(); x.wait_info = Some((x.pid, 0, zero_rusage())); json!(null) });
                    exp = json!(null);
                }
                7 => {
                    op = "pop".to_string();
                    got = guard(|| json!(procs.pop().map(|(i, p)| (i, p.borrow().pid))));
                    // any one process may go
                    let g: Option<(String, i32)> = got.as_ref().ok().and_then(|v| serde_json::from_value(v.clone()).ok()).unwrap_or(None);
                    exp = match g {
                        Some((i, p)) if model.get(&i).map(|x| x.0) == Some(p) => {
                            model.remove(&i);
                            want.push(format!("delete {i}"));
                            json!((i, p))
                        }
                        _ => if model.is_empty() { json!(null) } else { json!("one of the processes") },
                    };
                    idle(&mut want, model.is_empty(), &mut shut);
                }
                8 => {
                    op = "collect_results".to_string();
                    if c.below(2) == 0 { continue }
                    exp = json!(model.iter().map(|(i, p)| (i.clone(), p.0)).collect::<BTreeMap<_, _>>());
                    want.extend(model.keys().map(|i| format!("delete {i}")));
                    model.clear();
                    idle(&mut want, true, &mut shut);
                    got = guard(|| json!(procs.collect_results().into_iter().map(|(i, r)| (i, r.pid)).collect::<BTreeMap<_, _>>()));
                }
                9 => {
                    if c.below(2) == 0 { continue }
                    let s = match c.below(4) { 0 => State::Active, 1 => State::Done, _ => State::Idling };
                    op = format!("set_shutdown {}", st(&s));
                    shut = st(&s);
                    want.push(format!("shutdown {shut}"));
                    idle(&mut want, model.is_empty(), &mut shut);
                    got = guard(|| { procs.set_shutdown(s); json!(null) });
                    exp = json!(null);
                }
                10 => {
                    op = "to_result".to_string();
                    exp = json!(model.iter().map(|(i, p)| (i.clone(), p.0)).collect::<BTreeMap<_, _>>());
                    got = guard(|| json!(procs.to_result().into_iter().map(|(i, r)| (i, r.pid)).collect::<BTreeMap<_, _>>()));
                }
                _ => {
                    let k = c.below(2);
                    if waits[k].1.is_some() { continue }
                    op = format!("start {}", waits[k].0);
                    let (p, q) = (pa.clone(), pb.clone());
                    waits[k].1 = Some(if k == 0 { Box::pin(async move { p.wait_running().await }) } else { Box::pin(async move { q.wait_idle().await }) });
                    got = Ok(json!(null));
                    exp = json!(null);
                }
            }
            log.push(op);
            c.eval(|| json!({"subscribers": nsubs, "operations": log}));
            let mut bad: Vec<(String, Value, Value)> = vec![];
            if got.as_ref().ok() != Some(&exp) {
                bad.push(("result".into(), exp, json!(got)));
            }
            for s in subs.iter_mut() {
                // the order of the deletions of one collection is free
                let (mut w, mut g) = (want.clone(), drain(s));
                if want.len() > 2 { let n = want.len().min(g.len()); w[..].sort(); g[..n].sort(); }
                if w != g {
                    bad.push(("notifications".into(), json!(w), json!(g)));
                }
            }
            let ids: Vec<String> = procs.get_proc_ids();
            let mut ids2 = ids.clone();
            ids2.sort();
            let wids: Vec<String> = model.keys().cloned().collect();
            if ids2 != wids || procs.len() != wids.len() {
                bad.push(("registered".into(), json!(wids), json!(ids)));
            } else {
                for (i, (p, _)) in &model {
                    let g = procs.get(i).map(|x| x.borrow().pid);
                    if g != Some(*p) {
                        bad.push(("get".into(), json!(p), json!(g)));
                    }
                }
            }
            if procs.get("nope").is_some() {
                bad.push(("get(unknown)".into(), json!(null), json!("some")));
            }
            if st(&procs.get_shutdown()) != shut {
                bad.push(("shutdown state".into(), json!(shut), json!(st(&procs.get_shutdown()))));
            }
            let conds = [!model.values().any(|x| x.1), model.is_empty(), shut == "done"];
            for (k, (n, f)) in waits.iter_mut().enumerate() {
                let mut done = false;
                if let Some(x) = f {
                    let r = guard(|| poll(x.as_mut()).is_some());
                    done = r.clone().unwrap_or(true);
                    // termination is announced by the task of the process, which is not there: only deletions end a wait
                    if r.is_err() || done && !conds[k] || !done && conds[k] && (k > 0 || model.is_empty()) {
                        bad.push((n.to_string(), json!({"returns": conds[k]}), json!(format!("{r:?}"))));
                    }
                }
                if done { *f = None }
            }
            if let Some((n, w, g)) = bad.pop() {
                return c.fail(json!({"subscribers": nsubs, "operations": log, "observed": n}), w, g);
            }
        }
    }
}

// ------------------------------------------------------------------------------------------ handlers of termination signals, in virtual time
#[derive(Clone, Copy)]
struct End {
    /// when it ends (ms after the signal), None: it never does
    end: Option<u64>,
    /// how long after that its record is deleted
    del: Option<u64>,
}

pub fn handler(c: &mut Ctx) {
    use procstar::shutdown::{install_signal_handler, SignalStyle};
    let times = [0, 1, 700, 3000, 4900, 5200, 30000, 59800, 60300, 63000, 64800, 65300, 80000];
    while c.go() {
        let n = c.below(4);
        let style = c.below(3);
        let ends: Vec<End> = (0..n).map(|_| {
            let end = if c.below(5) == 0 { None } else if c.below(3) == 0 { Some(c.below(66000) as u64) } else { Some(*c.pick(&times)) };
            End { end, del: end.and_then(|_| match c.below(4) { 0 => None, 1 => Some(*c.pick(&times)), _ => Some(0) }) }
        }).collect();
        // ties with a timeout have no defined outcome
        let early = c.below(2) == 0; // some have ended already
        let name = ["idle", "terminate", "quit"][style];
        let desc = json!({"request": name, "processes (ends after ms, deleted after that)": ends.iter().map(|e| json!([e.end, e.del])).collect::<Vec<_>>(), "first one had ended before": early});
        // the documented course
        let fin = |i: usize| if early && i == 0 { Some(0) } else { ends[i].end };
        let gone = |i: usize| ends[i].end.and_then(|e| ends[i].del.map(|d| e + d));
        let mut want: Vec<(u64, i32, i32)> = vec![];
        let running_at = |t: u64| (0..n).filter(|&i| if early && i == 0 { false } else { fin(i).map_or(true, |e| e > t) }).collect::<Vec<_>>();
        let allgone: Option<u64> = (0..n).map(|i| gone(i)).fold(Some(0), |a, g| Some(a?.max(g?)));
        let start = if style == 1 { 15 } else { 9 };
        let mut t1 = 0;
        // a process that ends at the very moment of the signal is still running then
        let done: Option<u64> = if style == 0 { allgone } else {
            for i in 0..n { if !(early && i == 0) { want.push((0, pid_of(i), start)); } }
            if style == 1 {
                // the wait ends with the deletion of the last running process, as termination is announced by its task only
                let t = (0..n).filter(|&i| !(early && i == 0)).map(|i| gone(i)).fold(Some(0), |a, g| Some(a?.max(g?)));
                let ended = (0..n).filter(|&i| !(early && i == 0)).map(|i| fin(i)).fold(Some(0), |a, g| Some(a?.max(g?)));
                if t != ended { continue }
                t1 = t.unwrap_or(u64::MAX).min(60000);
                if t.map_or(true, |t| t > 60000) {
                    for i in running_at(60000) { want.push((60000, pid_of(i), 9)); }
                }
            }
            Some(allgone.unwrap_or(u64::MAX).max(t1).min(t1 + 5000))
        };
        if [allgone.unwrap_or(0), t1].iter().any(|t| (*t as i64 - 60000).abs() < 50 && *t != 60000 || (*t as i64 - t1 as i64 - 5000).abs() < 50) { continue }
        c.eval(|| desc.clone());
        KILLS.lock().unwrap().clear();
        TIMED.lock().unwrap().clear();
        *FAIL.lock().unwrap() = vec![];
        RECORD.store(1, Ordering::SeqCst);
        let r = guard(|| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
            rt.block_on(tokio::task::LocalSet::new().run_until(async {
                let procs = SharedProcs::new();
                let mut recs = vec![];
                for i in 0..n {
                    let mut p = fake(pid_of(i));
                    if early && i == 0 { p.wait_info = Some((pid_of(i), 0, zero_rusage())); }
                    let p = Rc::new(RefCell::new(p));
                    procs.insert(format!("p{i}"), p.clone());
                    recs.push(p);
                }
                let signum = [libc::SIGUSR1, libc::SIGTERM, libc::SIGQUIT][style];
                let h = install_signal_handler(&procs, signum, [SignalStyle::ShutdownOnIdle, SignalStyle::TermThenKill, SignalStyle::Kill].into_iter().nth(style).unwrap());
                let task = tokio::task::spawn_local(h);
                tokio::time::sleep(Duration::from_secs(100)).await;
                if st(&procs.get_shutdown()) != "active" || !TIMED.lock().unwrap().is_empty() {
                    return Err("acted before the signal".to_string());
                }
                unsafe { libc::raise(signum); }
                // let it arrive
                let real = Instant::now();
                while st(&procs.get_shutdown()) == "active" && TIMED.lock().unwrap().is_empty() && real.elapsed() < Duration::from_millis(if n == 0 || n == 1 && early { 3 } else { 200 }) {
                    tokio::task::yield_now().await;
                }
                let t0 = tokio::time::Instant::now();
                *T0.lock().unwrap() = Some(t0);
                for (i, e) in ends.iter().enumerate() {
                    let (e, procs, rec) = (*e, procs.clone(), recs[i].clone());
                    tokio::task::spawn_local(async move {
                        let Some(end) = e.end else { return };
                        tokio::time::sleep_until(t0 + Duration::from_millis(end)).await;
                        let pid = rec.borrow().pid;
                        rec.borrow_mut().wait_info = Some((pid, 0, zero_rusage()));
                        let Some(del) = e.del else { return };
                        tokio::time::sleep_until(t0 + Duration::from_millis(end + del)).await;
                        _ = procs.remove_if_not_running(&format!("p{i}"));
                    });
                }
                let done = tokio::time::timeout(Duration::from_secs(200), procs.wait_for_shutdown()).await.ok().map(|_| t0.elapsed().as_millis() as u64);
                let state = st(&procs.get_shutdown());
                if style == 0 && done.is_none() && state != "idling" {
                    return Err(format!("shutdown state {state}"));
                }
                tokio::time::sleep(Duration::from_millis(20)).await;
                if !task.is_finished() {
                    return Err("the handler does not end".into());
                }
                Ok(done)
            }))
        });
        RECORD.store(0, Ordering::SeqCst);
        *T0.lock().unwrap() = None;
        let mut got = std::mem::take(&mut *TIMED.lock().unwrap());
        got.sort();
        want.sort();
        let near = |a: u64, b: u64| (a as i64 - b as i64).abs() <= 20;
        let same = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| near(g.0, w.0) && g.1 == w.1 && g.2 == w.2);
        let ok = same && match (&r, done) { (Ok(Ok(Some(g))), Some(w)) => near(*g, w), (Ok(Ok(None)), None) => true, _ => false };
        if !ok {
            return c.fail(desc, json!({"signals (ms, pid, signal)": want, "shutdown complete after ms": done}), json!({"signals (ms, pid, signal)": got, "shutdown complete after ms": format!("{r:?}")}));
        }
    }
}

fn pid_of(i: usize) -> i32 {
    1000000 + i as i32
}
