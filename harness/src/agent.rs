//! The agent against a server of its own that fails, refuses and talks in many ways, in virtual time.
use crate::procs::{fake, zero_rusage};
use crate::requests::spec_of;
use crate::util::*;
use futures_util::{SinkExt, StreamExt};
use procstar::agent::{run, ConnectConfig, Connection};
use procstar::procs::SharedProcs;
use procstar::proto::IncomingMessage;
use procstar::shutdown::State;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream};
use tokio::time::Instant;
use tokio_tungstenite::tungstenite::protocol::Message;
use tokio_tungstenite::WebSocketStream;

#[derive(Clone, Copy, Debug, PartialEq)]
enum First {
    /// drop the connection before it is a websocket
    Refuse,
    /// answer the registration with something else
    Garbage, List, Start, Text, Close, Drop,
    Confirm,
}

#[derive(Clone, Debug)]
struct Plan {
    first: First,
    /// what happens while the registration is on its way
    change: usize,
    talk: Vec<usize>,
    end: usize,
}

type Ws = WebSocketStream<TcpStream>;
type R<T> = Result<T, (Value, Value)>;

fn bin(m: &IncomingMessage) -> Message {
    Message::Binary(rmp_serde::to_vec_named(m).unwrap())
}

fn bad<T>(want: impl Into<Value>, got: impl Into<Value>) -> R<T> {
    Err((want.into(), got.into()))
}

/// the next message other than a pong; None at the end
async fn next(ws: &mut Ws, pongs: &mut Vec<Vec<u8>>) -> R<Option<Value>> {
    loop {
        match ws.next().await {
            Some(Ok(Message::Binary(b))) => return match rmp_serde::from_slice::<Value>(&b) {
                Ok(v) => Ok(Some(v)),
                Err(e) => bad("a message", e.to_string()),
            },
            Some(Ok(Message::Pong(p))) => pongs.push(p),
            Some(Ok(Message::Close(_))) | None | Some(Err(_)) => return Ok(None),
            Some(Ok(m)) => return bad("a binary message", format!("{m:?}")),
        }
    }
}

async fn expect(ws: &mut Ws, pongs: &mut Vec<Vec<u8>>, want: Value) -> R<()> {
    let got = next(ws, pongs).await?;
    let g = got.clone().unwrap_or(json!(null));
    if want.as_object().unwrap().iter().all(|(k, v)| &g[k] == v) { Ok(()) } else { bad(json!({"message": want}), json!({"message": got})) }
}

struct World {
    procs: SharedProcs,
    model: BTreeMap<String, bool>,
    n: usize,
    shut: &'static str,
}

impl World {
    fn insert(&mut self) -> String {
        self.n += 1;
        let id = format!("p{}", self.n);
        let mut p = fake(3000000 + self.n as i32);
        p.wait_info = Some((p.pid, 0, zero_rusage()));
        self.procs.insert(id.clone(), Rc::new(RefCell::new(p)));
        self.model.insert(id.clone(), false);
        id
    }

    /// whether shutdown is now complete
    fn remove(&mut self, id: &str) -> bool {
        self.model.remove(id);
        let done = self.shut == "idling" && self.model.is_empty();
        if done { self.shut = "done"; }
        done
    }
}

/// one connection; what was seen wrong, else whether the agent was told to end
async fn serve(tcp: TcpStream, p: &Plan, w: &RefCell<World>, token: &str) -> R<()> {
    if p.first == First::Refuse {
        return Ok(());
    }
    let mut pongs = vec![];
    let Ok(mut ws) = tokio_tungstenite::accept_async(tcp).await else { return bad("a websocket handshake", "none") };
    let ids: Vec<String> = w.borrow().model.keys().cloned().collect();
    let Some(mut reg) = next(&mut ws, &mut pongs).await? else { return bad("a registration", "the end") };
    if let Some(a) = reg["proc_ids"].as_array_mut() { a.sort_by_key(|x| x.as_str().map(|s| s.to_string())); }
    let got = json!({"type": reg["type"], "conn_id": reg["conn"]["conn_id"], "group_id": reg["conn"]["group_id"], "pid": reg["proc"]["pid"],
        "proc_ids": reg["proc_ids"], "access_token": reg["access_token"], "shutdown_state": reg["shutdown_state"]});
    let want = json!({"type": "Register", "conn_id": "me", "group_id": "us", "pid": std::process::id(), "proc_ids": ids, "access_token": token, "shutdown_state": w.borrow().shut});
    if got != want {
        return bad(json!({"first message": want}), json!({"first message": got}));
    }
    let mut news = vec![];
    match p.change {
        0 => { let i = w.borrow_mut().insert(); news.push(json!({"type": "ProcResult", "proc_id": i})); }
        1 if !ids.is_empty() => {
            let i = ids[0].clone();
            let _ = w.borrow().procs.remove_if_not_running(&i);
            news.push(json!({"type": "ProcDelete", "proc_id": i}));
            if w.borrow_mut().remove(&i) { news.push(json!({"type": "ShutDown", "shutdown_state": "done"})); }
        }
        2 if p.first == First::Confirm => {
            let mut w = w.borrow_mut();
            w.procs.set_shutdown(State::Done);
            w.shut = "done";
            news.push(json!({"type": "ShutDown", "shutdown_state": "done"}));
        }
        _ => {}
    }
    let m = match p.first {
        First::Garbage => Message::Binary(vec![0xc1, 1, 2]),
        First::List => bin(&IncomingMessage::ProcidListRequest {}),
        First::Start => bin(&IncomingMessage::ProcStartRequest { specs: [("early".to_string(), spec_of(&["/bin/true"], vec![]))].into_iter().collect() }),
        First::Text => Message::Text("Registered".into()),
        First::Close => { let _ = ws.close(None).await; return Ok(()) }
        First::Drop => return Ok(()),
        _ => bin(&IncomingMessage::Registered),
    };
    if ws.send(m).await.is_err() {
        return bad("the connection stays", "it was closed");
    }
    if p.first != First::Confirm {
        // it gives up this connection without a word
        let got = next(&mut ws, &mut pongs).await?;
        return if got.is_none() { Ok(()) } else { bad("nothing served before the registration was confirmed", json!(got)) };
    }
    for n in news {
        expect(&mut ws, &mut pongs, n).await?;
    }
    if w.borrow().shut == "done" {
        let got = next(&mut ws, &mut pongs).await?;
        return if got.is_none() { Ok(()) } else { bad("the end", json!(got)) };
    }
    for t in &p.talk {
        match t {
            0 => {
                let _ = ws.send(Message::Binary(vec![0xff, 0, 7])).await;
                let _ = ws.send(Message::Binary(vec![])).await;
                let _ = ws.send(Message::Binary(rmp_serde::to_vec_named(&json!({"type": "NoSuchRequest", "proc_id": 3})).unwrap())).await;
            }
            1 => {
                pongs.clear();
                let _ = ws.send(Message::Ping(b"payload \x00\xff".to_vec())).await;
            }
            2 => { let i = w.borrow_mut().insert(); expect(&mut ws, &mut pongs, json!({"type": "ProcResult", "proc_id": i})).await?; }
            3 => {
                let Some(i) = w.borrow().model.keys().next().cloned() else { continue };
                let _ = ws.send(bin(&IncomingMessage::ProcDeleteRequest { proc_id: i.clone() })).await;
                expect(&mut ws, &mut pongs, json!({"type": "ProcDelete", "proc_id": i})).await?;
                if w.borrow_mut().remove(&i) {
                    expect(&mut ws, &mut pongs, json!({"type": "ShutDown", "shutdown_state": "done"})).await?;
                    break;
                }
            }
            _ => {
                let _ = ws.send(bin(&IncomingMessage::ProcResultRequest { proc_id: "nobody".into() })).await;
                expect(&mut ws, &mut pongs, json!({"type": "ProcUnknown", "proc_id": "nobody"})).await?;
            }
        }
        // still there, and nothing else was said
        let ids: Vec<String> = w.borrow().model.keys().cloned().collect();
        let _ = ws.send(bin(&IncomingMessage::ProcidListRequest {})).await;
        match next(&mut ws, &mut pongs).await? {
            Some(mut v) if v["type"] == "ProcidList" => {
                if let Some(a) = v["proc_ids"].as_array_mut() { a.sort_by_key(|x| x.as_str().map(|s| s.to_string())); }
                if v["proc_ids"] != json!(ids) { return bad(json!(ids), v) }
            }
            g => return bad(json!({"after": t, "reply to a list request": ids}), json!(g)),
        }
        if *t == 1 && (pongs.is_empty() || pongs.iter().any(|p| p != b"payload \x00\xff")) {
            return bad("the same payload in the pong", json!(pongs));
        }
    }
    match p.end {
        _ if w.borrow().shut == "done" => {}
        0 => { let _ = ws.close(None).await; while let Some(Ok(_)) = ws.next().await {} }
        1 => {}
        4 => {
            // more than the channel of notifications holds: all are announced, or the connection is started over
            for _ in 0..1100 { w.borrow_mut().insert(); }
            for _ in 0..1100 {
                match next(&mut ws, &mut pongs).await? { None => break, Some(v) if v["type"] == "ProcResult" => {}, Some(v) => return bad("a result", v) }
            }
        }
        2 => {
            let idle = { let mut w = w.borrow_mut(); w.procs.set_shutdown(State::Idling); w.shut = if w.model.is_empty() { "done" } else { "idling" }; w.shut };
            expect(&mut ws, &mut pongs, json!({"type": "ShutDown", "shutdown_state": "idling"})).await?;
            if idle == "done" {
                expect(&mut ws, &mut pongs, json!({"type": "ShutDown", "shutdown_state": "done"})).await?;
            }
        }
        _ => {
            { let mut w = w.borrow_mut(); w.procs.set_shutdown(State::Done); w.shut = "done"; }
            expect(&mut ws, &mut pongs, json!({"type": "ShutDown", "shutdown_state": "done"})).await?;
        }
    }
    if w.borrow().shut == "done" {
        let got = next(&mut ws, &mut pongs).await?;
        if got.is_some() { return bad("the end", json!(got)) }
    }
    Ok(())
}

async fn scenario(plans: &[Plan], cfg: &ConnectConfig, late: Option<u64>, token: &str, at: &Cell<usize>) -> R<()> {
    let listener = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let url = url::Url::parse(&format!("ws://127.0.0.1:{}/", listener.local_addr().unwrap().port())).unwrap();
    let procs = SharedProcs::new();
    let w = RefCell::new(World { procs: procs.clone(), model: BTreeMap::new(), n: 0, shut: "active" });
    w.borrow_mut().insert();
    let cfg2 = ConnectConfig { interval_start: cfg.interval_start, interval_mult: cfg.interval_mult, interval_max: cfg.interval_max, count_max: cfg.count_max };
    let agent = tokio::task::spawn_local(async move { run(Connection::new(&url, Some("me"), Some("us")), procs, &cfg2).await.map_err(|e| e.to_string()) });
    let mut fails = 0;
    let mut wait = cfg.interval_start.as_secs_f64();
    let mut ended: Option<(Instant, f64, bool)> = None;
    for (i, p) in plans.iter().enumerate() {
        at.set(i);
        let (tcp, _) = listener.accept().await.unwrap();
        tcp.set_nodelay(true).unwrap();
        if let Some((t, want, exact)) = ended {
            let got = t.elapsed().as_secs_f64();
            if exact && (got - want).abs() > 0.005 || got > want + 0.005 {
                return bad(json!({"wait before connection": i, "s": want}), json!({"s": got}));
            }
        }
        if let Err((a, b)) = serve(tcp, p, &w, token).await {
            return bad(json!({"connection": i, "expected": a}), json!({"connection": i, "got": b}));
        }
        if w.borrow().procs.get("early").is_some() {
            return bad("no process started by an unconfirmed server", "one started");
        }
        let now = Instant::now();
        if p.first == First::Confirm {
            fails = 0;
            wait = cfg.interval_start.as_secs_f64();
            ended = Some((now, wait, false));
        } else {
            fails += 1;
            ended = Some((now, wait, true));
            wait = (wait * cfg.interval_mult).min(cfg.interval_max.as_secs_f64());
        }
        let gave_up = fails >= cfg.count_max.max(1) && p.first != First::Confirm;
        if let (Some(ms), true) = (late, i + 1 == plans.len() && !gave_up && p.first != First::Confirm) {
            // shutdown completes between connections
            tokio::time::sleep(Duration::from_millis(ms)).await;
            let mut w = w.borrow_mut();
            w.procs.set_shutdown(State::Done);
            w.shut = "done";
        }
        let done = w.borrow().shut == "done";
        if gave_up || done {
            let got = match agent.await { Err(e) => json!({"panic": e.to_string()}), Ok(Ok(())) => json!("ends"), Ok(Err(_)) => json!("gives up") };
            let want = json!(if gave_up { "gives up" } else { "ends" });
            let more = futures_util::FutureExt::now_or_never(listener.accept()).is_some();
            return if (got == want || gave_up && done && got == "ends") && !more { Ok(()) } else { bad(json!({"after connection": i, "agent": want}), json!({"agent": got, "connected once more": more})) };
        }
        if agent.is_finished() {
            let got = match agent.await { Err(e) => json!({"panic": e.to_string()}), Ok(Ok(())) => json!("ends"), Ok(Err(_)) => json!("gives up") };
            return bad(json!({"after connection": i, "agent": "goes on", "failed in a row": fails, "allowed": cfg.count_max}), got);
        }
    }
    // it is still trying
    tokio::task::yield_now().await;
    let fin = agent.is_finished();
    agent.abort();
    let e = agent.await;
    match e {
        Err(e) if e.is_panic() => bad("the agent goes on", json!({"panic": e.to_string()})),
        _ if fin => bad("the agent goes on", "it ended"),
        _ => Ok(()),
    }
}

pub fn agent(c: &mut Ctx) {
    let token = "se/cret";
    std::env::set_var("PROCSTAR_AGENT_TOKEN", token);
    while c.go() {
        let count_max = *c.pick(&[1u64, 2, 3, 5, u64::MAX, u64::MAX]);
        let start = *c.pick(&[0.25f64, 1.0, 5.0]);
        let mult = *c.pick(&[1.0f64, 1.5, 2.0, 10.0, 1e30, 0.5]);
        let max = *c.pick(&[5.0f64, 7.0, 60.0]);
        let cfg = ConnectConfig { interval_start: Duration::from_secs_f64(start), interval_mult: mult, interval_max: Duration::from_secs_f64(max), count_max };
        let friendly = 1 + c.below(4);
        let plans: Vec<Plan> = (0..1 + c.below(7)).map(|_| {
            let first = if c.below(4) < friendly - 1 { First::Confirm } else { *c.pick(&[First::Refuse, First::Refuse, First::Garbage, First::List, First::Start, First::Text, First::Close, First::Drop]) };
            let talk = (0..c.below(4)).map(|_| c.below(5)).collect();
            Plan { first, change: c.below(12), talk, end: match c.below(25) { 0 => 4, 1 | 2 => 3, 3 | 4 => 2, x => x % 2 } }
        }).collect();
        let late = if c.below(4) == 0 { Some(c.below(200) as u64) } else { None };
        let input = json!({"config": {"start": start, "mult": mult, "max": max, "count": count_max}, "server": plans.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>(), "done after the last, ms": late});
        c.eval(|| input.clone());
        let mut seen = None;
        for _ in 0..2 {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
            let local = tokio::task::LocalSet::new();
            // A timer of ours would go off at once while messages are on their way, so measure silence outside.
            let (tx, silence) = tokio::sync::oneshot::channel::<()>();
            std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(8)); let _ = tx.send(()); });
            let at = Cell::new(0);
            let run = async {
                tokio::select! {
                    r = scenario(&plans, &cfg, late, token, &at) => r,
                    _ = silence => bad(json!({"connection": at.get(), "goes on": true}), json!("silence")),
                }
            };
            seen = match guard(|| local.block_on(&rt, run)) {
                Ok(r) => r.err(),
                Err(p) => Some((json!("no panic"), json!({"panic": p}))),
            };
            if seen.is_none() {
                break;
            }
        }
        if let Some((want, got)) = seen {
            return c.fail(input, want, got);
        }
    }
}
