//! Requests of the server against what the protocol documents for them.
use crate::procs::{recorded, zero_rusage};
use crate::util::*;
use futures_util::FutureExt;
use procstar::fd::{make_fd_handler, Pipes, SharedFdHandler};
use procstar::procs::{Proc, SharedProcs};
use procstar::proto::{handle_incoming, IncomingMessage, OutgoingMessage};
use procstar::shutdown::State;
use procstar::spec::{self, CaptureEncoding, CaptureMode, Fd};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Fake {
    pub pid: i32,
    pub reaped: bool,
    pub errors: bool,
    /// fd -> text, data; None: not captured
    pub fds: BTreeMap<i32, Option<(bool, Vec<u8>)>>,
}

fn open_fds() -> Vec<i32> {
    (0..128).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).collect()
}

fn capture(name: &str, text: bool, data: &[u8]) -> (i32, SharedFdHandler) {
    let before = open_fds();
    let mut pipes = Pipes::new();
    let spec = Fd::Capture { mode: CaptureMode::TempFile, encoding: if text { Some(CaptureEncoding::Utf8) } else { None }, attached: false };
    let r = make_fd_handler(&"p".to_owned(), name.to_owned(), spec, &mut pipes);
    for fd in open_fds() {
        if !before.contains(&fd) {
            assert_eq!(unsafe { libc::write(fd, data.as_ptr() as *const _, data.len()) }, data.len() as isize);
        }
    }
    r
}

pub fn fd_of(name: &str) -> Option<i32> {
    match name {
        "stdin" => Some(0),
        "stdout" => Some(1),
        "stderr" => Some(2),
        _ => name.parse::<i32>().ok(),
    }
}

pub fn spec_of(argv: &[&str], fds: Vec<(String, Fd)>) -> spec::Proc {
    spec::Proc { id: None, exe: None, argv: argv.iter().map(|s| s.to_string()).collect(), env: Default::default(), fds }
}

pub fn specs(c: &mut Ctx, taken: &[String]) -> (BTreeMap<String, spec::Proc>, bool) {
    let mut m = BTreeMap::new();
    let mut ok = true;
    for i in 0..c.below(3) {
        let null = || Fd::Null { flags: Default::default() };
        let mut fds = vec![("stdout".to_string(), null()), ("stderr".to_string(), null())];
        match c.below(8) {
            0 => { fds.push(("stdout".into(), null())); ok = false; }
            1 => { fds.push(("bogus".into(), null())); ok = false; }
            2 => { fds.push(("7".into(), Fd::PipeWrite {})); ok = false; }
            _ => {}
        }
        let id = if c.below(6) == 0 && !taken.is_empty() { ok = false; c.pick(taken).clone() } else { format!("new{i}") };
        m.insert(id, spec_of(&["/bin/true"], fds));
    }
    (m, ok)
}

/// A set of made-up processes.
pub fn world(c: &mut Ctx, procs: &SharedProcs) -> (BTreeMap<String, Fake>, Vec<(i32, i32)>) {
    let mut model: BTreeMap<String, Fake> = BTreeMap::new();
    let mut fails = vec![];
    for i in 0..c.below(5) {
        let pid = 2000000 + 3 * i as i32;
        let mut hs = vec![];
        let mut f = Fake { pid, reaped: c.below(2) == 0, errors: c.below(5) == 0, fds: BTreeMap::new() };
        for (n, name) in [(0, "stdin"), (1, "stdout"), (2, "2"), (17, "17")] {
            match c.below(3) {
                0 => {
                    hs.push(make_fd_handler(&"p".to_owned(), name.to_owned(), Fd::Close, &mut Pipes::new()));
                    f.fds.insert(n, None);
                }
                1 => {
                    let mut k = *c.pick(&[0usize, 1, 10, 5000]);
                    let near: Vec<usize> = c.ints.iter().filter(|&&x| x > 1 && x < 1 << 25).map(|&x| x as usize).collect();
                    if !near.is_empty() && c.below(6) == 0 {
                        k = *c.pick(&near) + c.below(3) - 1;
                    }
                    let data: Vec<u8> = (0..k).map(|j| (j * 7 + n as usize) as u8).collect();
                    let text = c.below(2) == 0;
                    hs.push(capture(name, text, &data));
                    f.fds.insert(n, Some((text, data)));
                }
                _ => {}
            }
        }
        let mut p = Proc::new(pid, chrono::Utc::now(), std::time::Instant::now(), hs);
        if f.reaped {
            p.wait_info = Some((pid, 0, zero_rusage()));
        }
        if f.errors {
            p.errors.push("x".into());
        }
        if c.below(4) == 0 {
            fails.push((pid, *c.pick(&[1, 3, 22])));
        }
        let id = if i == 0 && c.below(2) == 0 { "".to_string() } else { format!("p{i}") };
        procs.insert(id.clone(), Rc::new(RefCell::new(p)));
        model.insert(id, f);
    }
    (model, fails)
}

pub fn describe(model: &BTreeMap<String, Fake>) -> Value {
    json!(model.iter().map(|(k, f)| (k.clone(), json!({"pid": f.pid, "reaped": f.reaped, "errors": f.errors,
                "fds": f.fds.iter().map(|(n, x)| (n.to_string(), json!(x.as_ref().map(|x| x.1.len())))).collect::<BTreeMap<_, _>>()}))).collect::<BTreeMap<_, _>>())
}

pub fn requests(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    while c.go() {
        let local = tokio::task::LocalSet::new();
        local.block_on(&rt, async {
            let procs = SharedProcs::new();
            let (mut model, fails) = world(c, &procs);
            let shut = c.below(6) == 0;
            if shut {
                procs.set_shutdown(if c.below(2) == 0 { State::Idling } else { State::Done });
            }
            let desc = describe(&model);
            let mut log: Vec<Value> = vec![];
            for _ in 0..10 {
                let ids: Vec<String> = model.keys().cloned().collect();
                let id = if c.below(4) == 0 || ids.is_empty() { "nobody".to_string() } else { c.pick(&ids).clone() };
                let known = model.contains_key(&id);
                let mut reply_ok: Vec<Value> = vec![]; // any of these
                let mut kills = vec![];
                let error = json!({"type": "RequestError"});
                let unknown = json!({"type": "ProcUnknown", "proc_id": id});
                let mut started: Vec<String> = vec![];
                let msg = match c.below(9) {
                    0 => { reply_ok.push(error.clone()); IncomingMessage::Registered }
                    1 if !c.go() => break,
                    1 => {
                        let (m, ok) = specs(c, &ids);
                        if ok && !shut { reply_ok.push(json!(null)); started = m.keys().cloned().collect(); } else { reply_ok.push(error.clone()); }
                        IncomingMessage::ProcStartRequest { specs: m }
                    }
                    2 => {
                        reply_ok.push(json!({"type": "ProcidList", "proc_ids": ids}));
                        IncomingMessage::ProcidListRequest {}
                    }
                    3 => {
                        reply_ok.push(if known { json!({"type": "ProcResult", "proc_id": id}) } else { unknown });
                        IncomingMessage::ProcResultRequest { proc_id: id.clone() }
                    }
                    4 | 5 => {
                        let signum = *c.pick(&[1, 9, 15, 34]);
                        match model.get(&id) {
                            None => reply_ok.push(unknown),
                            Some(f) if f.reaped => reply_ok.push(error.clone()),
                            Some(f) => {
                                kills.push((f.pid, signum));
                                reply_ok.push(if fails.iter().any(|x| x.0 == f.pid) { error.clone() } else { json!(null) });
                            }
                        }
                        IncomingMessage::ProcSignalRequest { proc_id: id.clone(), signum }
                    }
                    6 | 7 => {
                        let fd = c.pick(&["stdin", "stdout", "1", "2", "17", "stderr", "9", "bad", ""]).to_string();
                        let start = *c.pick(&[0i64, 1, 9, 10, 11, 4999, 6000, -1, i64::MIN, 1 << 40]);
                        let stop = *c.pick(&[None, Some(0i64), Some(1), Some(10), Some(4000), Some(i64::MAX), Some(-1)]);
                        let bad = fd_of(&fd).is_none() || start < 0 || stop.map_or(false, |s| s < 0);
                        if bad { reply_ok.push(error.clone()); }
                        match model.get(&id) {
                            None => reply_ok.push(unknown),
                            Some(_) if bad => {}
                            Some(f) => match f.fds.get(&fd_of(&fd).unwrap()) {
                                Some(Some((text, d))) => {
                                    let e = stop.map_or(d.len(), |s| (s as usize).min(d.len()));
                                    let part = if (start as usize) < e { d[start as usize..e].to_vec() } else { vec![] };
                                    reply_ok.push(json!({"type": "ProcFdData", "proc_id": id, "fd": fd, "start": start, "stop": start + part.len() as i64,
                                        "encoding": if *text { json!("utf-8") } else { json!(null) }, "data": part}));
                                }
                                _ => reply_ok.push(error.clone()),
                            },
                        }
                        IncomingMessage::ProcFdDataRequest { proc_id: id.clone(), fd, start, stop }
                    }
                    _ => {
                        match model.get(&id) {
                            None => reply_ok.push(unknown),
                            Some(f) if !f.reaped && !f.errors => reply_ok.push(error.clone()),
                            Some(_) => { reply_ok.push(json!(null)); model.remove(&id); }
                        }
                        IncomingMessage::ProcDeleteRequest { proc_id: id.clone() }
                    }
                };
                let sent = serde_json::to_value(&msg).unwrap();
                log.push(sent.clone());
                let input = json!({"processes": desc, "kill fails for (pid, errno)": fails, "shutting down": shut, "requests": log});
                c.eval(|| input.clone());
                let (got, k) = recorded(&fails, || handle_incoming(&procs, msg).now_or_never());
                let got = match got {
                    Err(p) => return c.fail(input, json!(reply_ok), json!({"panic": p})),
                    Ok(None) => return c.fail(input, json!(reply_ok), json!("not done at once")),
                    Ok(Some(x)) => x,
                };
                let g = match &got { None => json!(null), Some(m) => serde_json::to_value(m).unwrap() };
                let fits = |w: &Value| match w["type"].as_str() {
                    None => g.is_null(),
                    Some("RequestError") => g["type"] == "RequestError" && g["msg"] == sent,
                    Some("ProcResult") => g["type"] == "ProcResult" && g["proc_id"] == w["proc_id"] && g["res"]["pid"] == model[w["proc_id"].as_str().unwrap()].pid,
                    Some("ProcidList") => match &got {
                        Some(OutgoingMessage::ProcidList { proc_ids }) => { let mut v = proc_ids.clone(); v.sort(); json!(v) == w["proc_ids"] }
                        _ => false,
                    },
                    _ => &g == w,
                };
                if !reply_ok.iter().any(fits) {
                    return c.fail(input, json!({"reply": reply_ok}), json!({"reply": g}));
                }
                if k != kills {
                    return c.fail(input, json!({"kill calls": kills}), json!({"kill calls": k}));
                }
                for i in started {
                    let pid = procs.get(&i).map_or(-1, |p| p.borrow().pid);
                    // the real one: its fate is not followed here
                    model.insert(i, Fake { pid, reaped: false, errors: false, fds: BTreeMap::new() });
                }
                let mut have: Vec<String> = procs.get_proc_ids();
                have.sort();
                let want: Vec<String> = model.keys().cloned().collect();
                if have != want || model.iter().any(|(i, f)| procs.get(i).map(|p| p.borrow().pid) != Some(f.pid)) {
                    return c.fail(input, json!({"processes": want}), json!({"processes": have}));
                }
                // the started ones end in their own time: no more requests about them
                if want.iter().any(|i| i.starts_with("new")) {
                    break;
                }
            }
            let t = std::time::Instant::now();
            while procs.get_proc_ids::<Vec<_>>().iter().any(|i| i.starts_with("new") && procs.get(i).map_or(false, |p| p.borrow().wait_info.is_none())) && t.elapsed().as_secs() < 5 {
                tokio::time::sleep(std::time::Duration::from_millis(1)).await;
            }
        });
    }
}
