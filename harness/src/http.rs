//! The HTTP service against its documentation, over real connections.
use crate::procs::{fake, record, record_end, SIGNALS};
use crate::requests::{describe, fd_of, specs, world, Fake};
use crate::util::*;
use procstar::http::run_http;
use procstar::procs::SharedProcs;
use procstar::shutdown::State;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::TcpStream;

struct Rsp {
    status: i64,
    ctype: Option<String>,
    body: Vec<u8>,
}

fn free_port() -> u16 {
    std::net::TcpListener::bind(("127.0.0.1", 0)).unwrap().local_addr().unwrap().port()
}

async fn request(port: u16, method: &str, path: &str, ctype: Option<&str>, body: &[u8], whole: bool) -> Result<Rsp, String> {
    let mut s = TcpStream::connect(("127.0.0.1", port)).await.map_err(|e| format!("connect: {e}"))?;
    let mut head = format!("{method} {path} HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n");
    if let Some(t) = ctype {
        head += &format!("Content-Type: {t}\r\n");
    }
    if !body.is_empty() || method == "POST" || method == "PUT" {
        head += &format!("Content-Length: {}\r\n", body.len() + if whole { 0 } else { 5 });
    }
    head += "\r\n";
    s.write_all(head.as_bytes()).await.map_err(|e| e.to_string())?;
    s.write_all(body).await.map_err(|e| e.to_string())?;
    if !whole {
        s.shutdown().await.map_err(|e| e.to_string())?;
    }
    let mut d = vec![];
    s.read_to_end(&mut d).await.map_err(|e| e.to_string())?;
    let end = d.windows(4).position(|w| w == b"\r\n\r\n").ok_or_else(|| if d.is_empty() { "closed without an answer".to_string() } else { "no header end".to_string() })?;
    let text = String::from_utf8_lossy(&d[..end]).to_string();
    let status = text.split(' ').nth(1).and_then(|x| x.parse().ok()).unwrap_or(-1);
    let ctype = text.lines().find_map(|l| l.to_lowercase().strip_prefix("content-type:").map(|v| v.trim().to_string()));
    Ok(Rsp { status, ctype, body: d[end + 4..].to_vec() })
}

enum Want {
    /// error with any of these statuses
    Error(Vec<i64>),
    Data(Value),
    /// results of these processes
    Results(Vec<String>),
    Bytes(bool, Vec<u8>),
}

fn fits(w: &Want, r: &Rsp, model: &BTreeMap<String, Fake>, head: bool) -> Result<(), String> {
    let js = || -> Result<Value, String> {
        if r.ctype.as_deref() != Some("application/json") {
            return Err(format!("content type {:?}", r.ctype));
        }
        if head {
            return Ok(json!(null));
        }
        serde_json::from_slice(&r.body).map_err(|e| e.to_string())
    };
    let status = |s: i64| if r.status == s { Ok(()) } else { Err(format!("status {}", r.status)) };
    match w {
        Want::Error(ss) => {
            if !ss.contains(&r.status) {
                return Err(format!("status {}", r.status));
            }
            let j = js()?;
            if !head && !(j["errors"]["status"].is_string() && j["errors"].get("detail").is_some()) {
                return Err(j.to_string());
            }
            Ok(())
        }
        Want::Data(v) => {
            status(200)?;
            let j = js()?;
            if j == json!({ "data": v }) { Ok(()) } else { Err(j.to_string()) }
        }
        Want::Results(ids) => {
            status(200)?;
            let j = js()?;
            let m = j["data"]["procs"].as_object().ok_or(j.to_string())?;
            if j.as_object().unwrap().len() != 1 || j["data"].as_object().unwrap().len() != 1 || m.len() != ids.len() {
                return Err(j.to_string());
            }
            for id in ids {
                if m.get(id).map(|x| x["pid"] == model[id].pid && x.get("state").is_some() && x.get("fds").is_some()) != Some(true) {
                    return Err(j.to_string());
                }
            }
            Ok(())
        }
        Want::Bytes(text, d) => {
            status(200)?;
            let t = if *text { "text/plain; charset=utf-8" } else { "application/octet-stream" };
            if r.ctype.as_deref() != Some(t) {
                return Err(format!("content type {:?}", r.ctype));
            }
            if &r.body != d { Err(format!("{} bytes: {:?}…", r.body.len(), &r.body[..r.body.len().min(20)])) } else { Ok(()) }
        }
    }
}

fn show(w: &Want) -> Value {
    match w {
        Want::Error(s) => json!({"error with status": s}),
        Want::Data(v) => json!({"status": 200, "data": v}),
        Want::Results(v) => json!({"status": 200, "results of": v}),
        Want::Bytes(t, d) => json!({"status": 200, "text": t, "bytes": d.len()}),
    }
}

pub fn http(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    while c.go() {
        let local = tokio::task::LocalSet::new();
        local.block_on(&rt, async {
            let procs = SharedProcs::new();
            let (mut model, fails) = world(c, &procs);
            if c.below(2) == 0 {
                let id = c.pick(&["a%20b", "x.y-z~", "procs", "data", "output"]).to_string();
                procs.insert(id.clone(), Rc::new(RefCell::new(fake(2500000))));
                model.insert(id, Fake { pid: 2500000, reaped: false, errors: false, fds: BTreeMap::new() });
            }
            let shut = c.below(8) == 0;
            if shut {
                procs.set_shutdown(State::Idling);
            }
            let desc = describe(&model);
            let port = free_port();
            let svc = tokio::task::spawn_local(run_http(procs.clone(), port).map_err_string());
            let t0 = std::time::Instant::now();
            while TcpStream::connect(("127.0.0.1", port)).await.is_err() {
                if svc.is_finished() {
                    return; // the port was taken in between
                }
                if t0.elapsed().as_secs() > 5 {
                    return c.fail(json!({"port": port}), json!("listens on 127.0.0.1"), json!("connection refused for 5 s"));
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            // clients that stay: one between requests, one in the middle of one
            let mut others = vec![];
            for part in ["GET /procs HTTP/1.1\r\nHost: localhost\r\n\r\n", "GET /procs HT"] {
                if c.below(2) == 0 {
                    let mut s = TcpStream::connect(("127.0.0.1", port)).await.unwrap();
                    s.write_all(part.as_bytes()).await.unwrap();
                    if part.ends_with('\n') {
                        let _ = tokio::time::timeout(Duration::from_secs(5), s.read_u8()).await;
                    }
                    others.push(s);
                }
            }
            let mut log: Vec<Value> = vec![];
            for _ in 0..25 {
                if !c.go() {
                    break;
                }
                let all: Vec<String> = model.keys().cloned().collect();
                // no path names the empty one
                let ids: Vec<String> = all.iter().filter(|i| !i.is_empty()).cloned().collect();
                let id = if c.below(4) == 0 || ids.is_empty() { c.pick(&["nobody", "p", "p0p", "P0"]).to_string() } else { c.pick(&ids).clone() };
                let known = model.contains_key(&id);
                let method = c.pick(&["GET", "GET", "POST", "DELETE", "PUT", "PATCH", "HEAD", "OPTIONS", "GOT", "get"]).to_string();
                let mut ctype: Option<String> = None;
                let mut body: Vec<u8> = vec![];
                let mut kills = vec![];
                let mut started = vec![];
                let mut whole = true;
                let mut method = method;
                let (path, want) = match c.below(8) {
                    0 => {
                        let w = match method.as_str() {
                            "GET" => Want::Results(all.clone()),
                            "POST" => Want::Error(vec![400]),
                            _ => Want::Error(vec![405]),
                        };
                        let q = *c.pick(&["", "", "?fds", "?a=b&c"]);
                        (format!("/procs{q}"), w)
                    }
                    1 => {
                        let w = match method.as_str() {
                            "GET" if known => Want::Results(vec![id.clone()]),
                            "GET" => Want::Error(vec![404]),
                            "DELETE" => match model.get(&id) {
                                None => Want::Error(vec![404]),
                                Some(f) if !f.reaped && !f.errors => Want::Error(vec![400]),
                                Some(_) => {
                                    model.remove(&id);
                                    Want::Data(json!({}))
                                }
                            },
                            _ => Want::Error(vec![405]),
                        };
                        (format!("/procs/{id}"), w)
                    }
                    2 | 3 => {
                        if c.below(3) > 0 {
                            method = "POST".into();
                        }
                        let mut s = c.pick(&["15", "9", "1", "SIGTERM", "SIGUSR1", "sigterm", "TERM", "bogus", "99999999999", "15x", "SIGSYS"]).to_string();
                        if c.below(4) == 0 && !c.strs.is_empty() {
                            let n = c.strs.len();
                            let k = c.below(n);
                            let x = c.strs[k].clone();
                            if !x.is_empty() && x.bytes().all(|b| b.is_ascii_alphanumeric()) {
                                s = x;
                            }
                        }
                        let num = SIGNALS.iter().find(|x| x.0 == s).map(|x| x.1).or(s.parse::<i32>().ok());
                        let w = if method != "POST" {
                            Want::Error(vec![405])
                        } else {
                            match (num, model.get(&id)) {
                                (None, None) => Want::Error(vec![400, 404]),
                                (None, _) => Want::Error(vec![400]),
                                (_, None) => Want::Error(vec![404]),
                                (Some(_), Some(f)) if f.reaped => Want::Error(vec![400]),
                                (Some(n), Some(f)) => {
                                    kills.push((f.pid, n));
                                    if fails.iter().any(|x| x.0 == f.pid) { Want::Error(vec![400]) } else { Want::Data(json!({})) }
                                }
                            }
                        };
                        (format!("/procs/{id}/signals/{s}"), w)
                    }
                    4 | 5 => {
                        if c.below(3) > 0 {
                            method = "GET".into();
                        }
                        let fd = c.pick(&["stdin", "stdout", "1", "2", "17", "stderr", "9", "bad", "1.5", "99999999999"]).to_string();
                        let n = fd_of(&fd);
                        let w = if method != "GET" {
                            Want::Error(vec![405])
                        } else {
                            match (n, model.get(&id)) {
                                (None, None) => Want::Error(vec![400, 404]),
                                (None, _) => Want::Error(vec![400]),
                                (_, None) => Want::Error(vec![404]),
                                (Some(n), Some(f)) => match f.fds.get(&n) {
                                    Some(Some((text, d))) => Want::Bytes(*text, d.clone()),
                                    // whether nothing captured is an error is not documented
                                    Some(None) => Want::Bytes(false, vec![]),
                                    None => Want::Error(vec![400]),
                                },
                            }
                        };
                        (format!("/procs/{id}/output/{fd}/data"), w)
                    }
                    6 => {
                        method = "POST".into();
                        let (m, ok) = specs(c, &ids);
                        // in the documented form
                        let specs: BTreeMap<&String, Value> = m.iter().map(|(i, p)| {
                            let fds: Vec<Value> = p.fds.iter().map(|(n, f)| match f {
                                procstar::spec::Fd::PipeWrite {} => json!([n, {"pipe-write": {}}]),
                                _ => json!([n, {"null": {}}]),
                            }).collect();
                            (i, json!({"argv": p.argv, "fds": fds}))
                        }).collect();
                        body = serde_json::to_vec(&json!({"specs": specs})).unwrap();
                        ctype = Some("application/json".into());
                        let w = match c.below(7) {
                            0 => { ctype = c.pick(&[None, Some("text/plain".to_string()), Some("application/jsonx".to_string()), Some("application".to_string())]).clone(); Want::Error(vec![400]) }
                            1 => { body = vec![]; Want::Error(vec![400]) }
                            2 => { let n = c.below(body.len()); body.truncate(n); Want::Error(vec![400]) }
                            3 => { body = c.pick(&[&b"{}"[..], b"[]", b"null", b"{\"specs\": 3}", b"{\"specs\": {\"x\": {\"argvs\": []}}}", b"\xff\xfe"]).to_vec(); Want::Error(vec![400]) }
                            4 if c.below(3) == 0 => { whole = false; Want::Error(vec![400]) }
                            _ if ok && !shut => { started = m.keys().cloned().collect(); Want::Data(json!({})) }
                            _ => Want::Error(vec![400]),
                        };
                        ("/procs".to_string(), w)
                    }
                    _ => {
                        let p = match c.below(12) {
                            0 => "/".to_string(),
                            1 => "/proc".to_string(),
                            2 => format!("/procs/{id}/signals"),
                            3 => format!("/procs/{id}/output"),
                            4 => format!("/procs/{id}/output/1"),
                            5 => format!("/procs/{id}/output/1/data/x"),
                            6 => "/Procs".to_string(),
                            7 => format!("/x/procs/{id}"),
                            8 => format!("/procs/{id}/signal/15"),
                            9 => format!("/procs/{id}/signals/15/x"),
                            10 => format!("/procs/{id}/output/1/Data"),
                            _ => "/procsx".to_string(),
                        };
                        (p, Want::Error(vec![404]))
                    }
                };
                let whole2 = whole;
                log.push(json!({"method": method, "path": path, "content type": ctype, "body": String::from_utf8_lossy(&body), "cut short": !whole2}));
                let input = json!({"processes": desc, "kill fails for (pid, errno)": fails, "shutting down": shut, "other open connections": others.len(), "requests": log});
                c.eval(|| input.clone());
                record(&fails);
                let r = tokio::time::timeout(Duration::from_secs(10), request(port, &method, &path, ctype.as_deref(), &body, whole)).await;
                let k = record_end();
                let head = method == "HEAD";
                match r {
                    Err(_) => return c.fail(input, show(&want), json!("no answer in 10 s")),
                    // the client broke off: no answer is owed
                    Ok(Err(_)) if !whole => {}
                    Ok(Err(e)) => return c.fail(input, show(&want), json!(e)),
                    Ok(Ok(r)) => {
                        if let Err(e) = fits(&want, &r, &model, head) {
                            return c.fail(input, show(&want), json!({"status": r.status, "content type": r.ctype, "why": e}));
                        }
                    }
                }
                if k != kills {
                    return c.fail(input, json!({"kill calls": kills}), json!({"kill calls": k}));
                }
                for i in &started {
                    let pid = procs.get(i).map_or(-1, |p| p.borrow().pid);
                    model.insert(i.clone(), Fake { pid, reaped: false, errors: false, fds: BTreeMap::new() });
                }
                let mut have: Vec<String> = procs.get_proc_ids();
                have.sort();
                let wants: Vec<String> = model.keys().cloned().collect();
                if have != wants || model.iter().any(|(i, f)| procs.get(i).map(|p| p.borrow().pid) != Some(f.pid)) {
                    return c.fail(input, json!({"processes": wants}), json!({"processes": have}));
                }
                if svc.is_finished() {
                    return c.fail(input, json!("the service goes on"), json!("it ended"));
                }
                if !started.is_empty() {
                    break; // they end in their own time
                }
            }
            svc.abort();
            let t = std::time::Instant::now();
            while procs.get_proc_ids::<Vec<_>>().iter().any(|i| i.starts_with("new") && procs.get(i).map_or(false, |p| p.borrow().wait_info.is_none())) && t.elapsed().as_secs() < 5 {
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
        });
    }
}

trait MapErr {
    fn map_err_string(self) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), String>>>>;
}

impl<F: std::future::Future<Output = Result<(), Box<dyn std::error::Error>>> + 'static> MapErr for F {
    fn map_err_string(self) -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<(), String>>>> {
        Box::pin(async move { self.await.map_err(|e| e.to_string()) })
    }
}
