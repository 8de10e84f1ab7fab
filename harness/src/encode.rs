//! The encoded form of results and messages, as JSON and as MessagePack, against the documented names and types.
use crate::util::*;
use procstar::procinfo::ProcessInfo;
use procstar::proto::{ConnectionInfo, IncomingMessage, OutgoingMessage};
use procstar::res::{FdRes, ProcRes, ResourceUsage, Status, Times};
use procstar::spec::{CaptureEncoding, Input};
use procstar::{shutdown, state};
use serde::de::{Deserialize, Deserializer, Visitor};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Accepts nothing but a byte string.
struct Bytes(Vec<u8>);
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Bytes;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "bytes")
            }
            fn visit_bytes<E>(self, b: &[u8]) -> Result<Bytes, E> {
                Ok(Bytes(b.to_vec()))
            }
            fn visit_byte_buf<E>(self, b: Vec<u8>) -> Result<Bytes, E> {
                Ok(Bytes(b))
            }
        }
        d.deserialize_any(V)
    }
}

#[derive(serde::Deserialize)]
#[serde(deny_unknown_fields)]
struct FdDataMsg {
    r#type: String,
    proc_id: String,
    fd: String,
    start: i64,
    stop: i64,
    encoding: Option<String>,
    data: Bytes,
}

fn text(c: &mut Ctx) -> String {
    let mut v: Vec<String> = ["", "a", "null", "type", "é", "\n", "\"", "0", "漢字", "true", "error", "\0"].iter().map(|s| s.to_string()).collect();
    v.extend(c.strs.iter().take(40).cloned());
    c.pick(&v).clone()
}

fn opt<T>(c: &mut Ctx, f: impl FnOnce(&mut Ctx) -> T) -> Option<T> {
    if c.below(2) == 0 {
        None
    } else {
        Some(f(c))
    }
}

fn int(c: &mut Ctx) -> i64 {
    let mut v = vec![0, 1, -1, 127, 128, 255, 256, -128, 65535, 65536, i32::MAX as i64, i32::MIN as i64];
    v.extend(c.ints.iter().filter(|x| **x <= i32::MAX as i128 && **x >= i32::MIN as i128).map(|x| *x as i64));
    *c.pick(&v)
}

fn nat(c: &mut Ctx) -> u64 {
    match c.below(3) {
        0 => int(c).unsigned_abs(),
        1 => c.rnd() >> 1,
        _ => 1 << 53,
    }
}

fn float(c: &mut Ctx) -> f64 {
    *c.pick(&[0.0, 0.5, 1.0, 1e-6, 123456.789012, 1e9])
}

fn fdres(c: &mut Ctx) -> (FdRes, Value) {
    let (a, e) = (text(c), text(c));
    match c.below(5) {
        0 => (FdRes::Error, json!({"type": "error"})),
        1 => (FdRes::File { path: a.clone().into() }, json!({"type": "file", "path": a})),
        2 => {
            let n = nat(c) as i64;
            (FdRes::Detached { length: n, encoding: e.clone() }, json!({"type": "detached", "length": n, "encoding": e}))
        }
        3 => (FdRes::Text { text: a.clone(), encoding: e.clone() }, json!({"type": "text", "text": a, "encoding": e})),
        _ => (FdRes::Data { data: a.clone(), encoding: e.clone() }, json!({"type": "data", "data": a, "encoding": e})),
    }
}

fn status(c: &mut Ctx) -> (Status, Value) {
    let s = Status {
        status: int(c) as i32,
        exit_code: opt(c, |c| int(c) as i32),
        signum: opt(c, |c| int(c) as i32),
        signal: opt(c, text),
        core_dump: c.below(2) == 0,
    };
    let v = json!({"status": s.status, "exit_code": s.exit_code, "signum": s.signum, "signal": s.signal, "core_dump": s.core_dump});
    (s, v)
}

fn rusage(c: &mut Ctx) -> (ResourceUsage, Value) {
    let r = ResourceUsage {
        utime: float(c),
        stime: float(c),
        maxrss: nat(c),
        minflt: nat(c),
        majflt: nat(c),
        nswap: nat(c),
        inblock: nat(c),
        oublock: nat(c),
        nvcsw: nat(c),
        nivcsw: nat(c),
    };
    let v = json!({"utime": r.utime, "stime": r.stime, "maxrss": r.maxrss, "minflt": r.minflt, "majflt": r.majflt, "nswap": r.nswap, "inblock": r.inblock,
        "oublock": r.oublock, "nvcsw": r.nvcsw, "nivcsw": r.nivcsw});
    (r, v)
}

fn result(c: &mut Ctx) -> (ProcRes, Value) {
    let (state, sn) = match c.below(3) {
        0 => (state::State::Error, "error"),
        1 => (state::State::Running, "running"),
        _ => (state::State::Terminated, "terminated"),
    };
    let times = Times { start: text(c), now: text(c), stop: opt(c, text), elapsed: float(c) };
    let tv = json!({"start": times.start, "now": times.now, "stop": times.stop, "elapsed": times.elapsed});
    let errors: Vec<String> = (0..c.below(3)).map(|_| text(c)).collect();
    let (status, sv) = opt(c, status).map_or((None, Value::Null), |x| (Some(x.0), x.1));
    let (rusage, rv) = opt(c, rusage).map_or((None, Value::Null), |x| (Some(x.0), x.1));
    let mut fds = BTreeMap::new();
    let mut fv = serde_json::Map::new();
    for n in ["stdin", "stdout", "3"].iter().take(c.below(4)) {
        let (f, v) = opt(c, fdres).map_or((None, Value::Null), |x| (Some(x.0), x.1));
        fds.insert(n.to_string(), f);
        fv.insert(n.to_string(), v);
    }
    let pid = int(c) as i32;
    let v = json!({"state": sn, "errors": errors, "pid": pid, "proc_stat": null, "proc_statm": null, "times": tv, "status": sv, "rusage": rv, "fds": fv});
    (ProcRes { state, errors, pid, proc_stat: None, proc_statm: None, times, status, rusage, fds }, v)
}

fn shut(c: &mut Ctx) -> (shutdown::State, &'static str) {
    match c.below(3) {
        0 => (shutdown::State::Active, "active"),
        1 => (shutdown::State::Idling, "idling"),
        _ => (shutdown::State::Done, "done"),
    }
}

fn message(c: &mut Ctx) -> (OutgoingMessage, Value) {
    let id = text(c);
    match c.below(7) {
        0 => {
            let (m, mv) = match c.below(4) {
                0 => (IncomingMessage::Registered, json!({"type": "Registered"})),
                1 => (IncomingMessage::ProcidListRequest {}, json!({"type": "ProcidListRequest"})),
                2 => (IncomingMessage::ProcResultRequest { proc_id: id.clone() }, json!({"type": "ProcResultRequest", "proc_id": id})),
                _ => {
                    let (fd, start, stop) = (text(c), int(c), opt(c, int));
                    (
                        IncomingMessage::ProcFdDataRequest { proc_id: id.clone(), fd: fd.clone(), start, stop },
                        json!({"type": "ProcFdDataRequest", "proc_id": id, "fd": fd, "start": start, "stop": stop}),
                    )
                }
            };
            let err = text(c);
            (OutgoingMessage::RequestError { msg: m, err: err.clone() }, json!({"type": "RequestError", "msg": mv, "err": err}))
        }
        1 => (OutgoingMessage::ProcUnknown { proc_id: id.clone() }, json!({"type": "ProcUnknown", "proc_id": id})),
        2 => {
            let conn = ConnectionInfo { conn_id: text(c), group_id: text(c), restricted_exe: opt(c, text) };
            let cv = json!({"conn_id": conn.conn_id, "group_id": conn.group_id, "restricted_exe": conn.restricted_exe});
            let p = ProcessInfo {
                pid: int(c) as _,
                ppid: int(c) as _,
                uid: int(c) as _,
                euid: int(c) as _,
                username: opt(c, text),
                gid: int(c) as _,
                egid: int(c) as _,
                groupname: opt(c, text),
                hostname: text(c),
            };
            let pv = json!({"pid": p.pid, "ppid": p.ppid, "uid": p.uid, "euid": p.euid, "username": p.username, "gid": p.gid, "egid": p.egid,
                "groupname": p.groupname, "hostname": p.hostname});
            let ids: Vec<String> = (0..c.below(3)).map(|_| text(c)).collect();
            let tok = text(c);
            let (s, sv) = shut(c);
            (
                OutgoingMessage::Register { conn, proc: p, proc_ids: ids.clone(), access_token: tok.clone(), shutdown_state: s },
                json!({"type": "Register", "conn": cv, "proc": pv, "proc_ids": ids, "access_token": tok, "shutdown_state": sv}),
            )
        }
        3 => {
            let ids: Vec<String> = (0..c.below(3)).map(|_| text(c)).collect();
            (OutgoingMessage::ProcidList { proc_ids: ids.clone() }, json!({"type": "ProcidList", "proc_ids": ids}))
        }
        4 => {
            let (r, rv) = result(c);
            (OutgoingMessage::ProcResult { proc_id: id.clone(), res: r }, json!({"type": "ProcResult", "proc_id": id, "res": rv}))
        }
        5 => (OutgoingMessage::ProcDelete { proc_id: id.clone() }, json!({"type": "ProcDelete", "proc_id": id})),
        _ => {
            let (s, sv) = shut(c);
            (OutgoingMessage::ShutDown { shutdown_state: s }, json!({"type": "ShutDown", "shutdown_state": sv}))
        }
    }
}

fn both<T: serde::Serialize>(c: &mut Ctx, what: &str, x: &T, want: Value) {
    c.eval(|| want.clone());
    let j = guard(|| serde_json::to_value(x).map_err(|e| e.to_string()));
    if j != Ok(Ok(want.clone())) {
        c.fail(json!({"encoded as JSON": what}), want.clone(), json!(format!("{:?}", j)));
    }
    // the order and the number of the fields, too
    let m = guard(|| rmp_serde::to_vec_named(x).map_err(|e| e.to_string()));
    let back = m.clone().and_then(|m| m).and_then(|m| rmp_serde::from_slice::<Value>(&m).map_err(|e| e.to_string()));
    if back != Ok(want.clone()) {
        c.fail(json!({"encoded as MessagePack": what}), want, json!(format!("{:?}", back)));
    }
}

/// The entries of one fd spec, with the debug form of what they mean.
fn fdspec(c: &mut Ctx) -> (Value, String) {
    let flags = ["Default", "Read", "Write", "Create", "Replace", "CreateAppend", "Append", "ReadWrite"];
    let (a, b) = (text(c), text(c));
    let fl = opt(c, |c| *c.pick(&flags));
    match c.below(8) {
        0 => (json!("inherit"), "Inherit".into()),
        1 => (json!("close"), "Close".into()),
        2 => {
            let mut m = serde_json::Map::new();
            fl.map(|f| m.insert("flags".into(), json!(f)));
            (json!({"null": m}), format!("Null {{ flags: {} }}", fl.unwrap_or("Default")))
        }
        3 => {
            let mut m = serde_json::Map::new();
            m.insert("path".into(), json!(a));
            fl.map(|f| m.insert("flags".into(), json!(f)));
            let mode = opt(c, |c| int(c) as i32);
            mode.map(|f| m.insert("mode".into(), json!(f)));
            (json!({"file": m}), format!("File {{ path: {:?}, flags: {}, mode: {} }}", a, fl.unwrap_or("Default"), mode.unwrap_or(0o666)))
        }
        4 => {
            let n = int(c) as i32;
            (json!({"dup": {"fd": n}}), format!("Dup {{ fd: {} }}", n))
        }
        5 => {
            let mut m = serde_json::Map::new();
            let mode = opt(c, |c| *c.pick(&[("tempfile", "TempFile"), ("memory", "Memory")]));
            mode.map(|f| m.insert("mode".into(), json!(f.0)));
            let enc = c.below(3);
            if enc > 0 {
                m.insert("encoding".into(), if enc == 1 { Value::Null } else { json!("utf-8") });
            }
            let at = opt(c, |c| c.below(2) == 0);
            at.map(|f| m.insert("attached".into(), json!(f)));
            let e = if enc == 2 { "Some(Utf8)" } else { "None" };
            (json!({"capture": m}), format!("Capture {{ mode: {}, encoding: {}, attached: {} }}", mode.map_or("TempFile", |x| x.1), e, at.unwrap_or(true)))
        }
        6 => (json!("pipe-write"), "PipeWrite".into()),
        _ => (json!({"pipe-read": {"proc_id": a, "fd": b}}), format!("PipeRead {{ proc_id: {:?}, fd: {:?} }}", a, b)),
    }
}

fn strings(c: &mut Ctx) -> Vec<String> {
    (0..c.below(4)).map(|_| text(c)).collect()
}

fn procspec(c: &mut Ctx) -> (Value, String) {
    let mut m = serde_json::Map::new();
    let id = opt(c, |c| opt(c, text));
    id.clone().map(|x| m.insert("id".into(), json!(x)));
    let exe = opt(c, |c| opt(c, text));
    exe.clone().map(|x| m.insert("exe".into(), json!(x)));
    let argv = opt(c, strings);
    argv.clone().map(|x| m.insert("argv".into(), json!(x)));
    let (mut inh, mut vars) = ("All".to_string(), BTreeMap::<String, Option<String>>::new());
    if c.below(3) > 0 {
        let mut e = serde_json::Map::new();
        match c.below(4) {
            0 => drop(e.insert("inherit".into(), json!(true))),
            1 => {
                e.insert("inherit".into(), json!(false));
                inh = "None".into();
            }
            2 => {
                let v = strings(c);
                e.insert("inherit".into(), json!(v));
                inh = format!("Vars({:?})", v);
            }
            _ => (),
        }
        if c.below(2) == 0 {
            for _ in 0..c.below(3) {
                vars.insert(text(c), opt(c, text));
            }
            e.insert("vars".into(), json!(vars));
        }
        m.insert("env".into(), Value::Object(e));
    }
    let fds = opt(c, |c| (0..c.below(3)).map(|_| (text(c), fdspec(c))).collect::<Vec<_>>());
    if let Some(f) = &fds {
        m.insert("fds".into(), json!(f.iter().map(|(n, x)| json!([n, x.0])).collect::<Vec<_>>()));
    }
    let fd: Vec<String> = fds.unwrap_or_default().iter().map(|(n, x)| format!("({:?}, {})", n, x.1)).collect();
    let want = format!(
        "Proc {{ id: {:?}, exe: {:?}, argv: {:?}, env: Env {{ inherit: {}, vars: {:?} }}, fds: [{}] }}",
        id.flatten(),
        exe.flatten(),
        argv.unwrap_or_default(),
        inh,
        vars,
        fd.join(", ")
    );
    (Value::Object(m), want)
}

/// Some spec with one entry too many, too few, twice or unknown.
fn bad(c: &mut Ctx) -> String {
    let fds = |x: &str| format!(r#"{{"specs": {{"a": {{"argv": ["x"], "fds": [["stdout", {}]]}}}}}}"#, x);
    match c.below(16) {
        0 => r#"{"specs": {"a": {"argv": ["x"], "cwd": "/"}}}"#.into(),
        1 => r#"{"specs": {"a": {"argv": ["x"], "argv": ["y"]}}}"#.into(),
        2 => r#"{"specs": {"a": {"argv": ["x"], "env": {"inherits": false}}}}"#.into(),
        3 => r#"{"specs": {}, "spec": 1}"#.into(),
        4 => "{}".into(),
        5 => fds(r#""pipe_write""#),
        6 => fds(r#"{"dup": {}}"#),
        7 => fds(r#"{"dup": {"fd": 1, "fds": 2}}"#),
        8 => fds(r#"{"file": {"flags": "Read"}}"#),
        9 => fds(r#"{"file": {"path": "a", "flags": "read"}}"#),
        10 => fds(r#"{"file": {"path": "a", "mod": 1}}"#),
        11 => fds(r#"{"capture": {"mode": "TempFile"}}"#),
        12 => fds(r#"{"capture": {"encoding": "utf8"}}"#),
        13 => fds(r#"{"capture": {"mode": "memory", "mode": "memory"}}"#),
        14 => fds(r#"{"pipe-read": {"fd": "1"}}"#),
        _ => fds(r#"{"null": {"flag": "Read"}}"#),
    }
}

fn decode(c: &mut Ctx) {
    let (v, want) = procspec(c);
    let v = json!({"specs": {"p": v}});
    c.eval(|| v.clone());
    let got = guard(|| serde_json::from_str::<Input>(&v.to_string()).map_err(|e| e.to_string())).and_then(|x| x).map(|i| format!("{:?}", i.specs["p"]));
    if got != Ok(want.clone()) {
        c.fail(json!({"decoded spec": v}), json!(want), json!(format!("{:?}", got)));
    }
    let b = bad(c);
    c.eval(|| json!(b));
    if let Ok(Ok(i)) = guard(|| serde_json::from_str::<Input>(&b)) {
        c.fail(json!({"decoded spec": b}), json!("refused"), json!(format!("{:?}", i)));
    }
    // requests
    let id = text(c);
    let (v, want) = match c.below(6) {
        0 => (json!({"type": "Registered"}), "Registered".to_string()),
        1 => (json!({"type": "ProcidListRequest"}), "ProcidListRequest".to_string()),
        2 => (json!({"type": "ProcResultRequest", "proc_id": id}), format!("ProcResultRequest {{ proc_id: {:?} }}", id)),
        3 => {
            let n = int(c) as i32;
            (json!({"type": "ProcSignalRequest", "proc_id": id, "signum": n}), format!("ProcSignalRequest {{ proc_id: {:?}, signum: {} }}", id, n))
        }
        4 => {
            let (fd, start, stop) = (text(c), int(c), opt(c, int));
            (
                json!({"type": "ProcFdDataRequest", "proc_id": id, "fd": fd, "start": start, "stop": stop}),
                format!("ProcFdDataRequest {{ proc_id: {:?}, fd: {:?}, start: {}, stop: {:?} }}", id, fd, start, stop),
            )
        }
        _ => (json!({"type": "ProcDeleteRequest", "proc_id": id}), format!("ProcDeleteRequest {{ proc_id: {:?} }}", id)),
    };
    c.eval(|| v.clone());
    let got = guard(|| rmp_serde::from_slice::<IncomingMessage>(&rmp_serde::to_vec_named(&v).unwrap()).map_err(|e| e.to_string())).and_then(|x| x).map(|i| format!("{:?}", i));
    if got != Ok(want.clone()) {
        c.fail(json!({"decoded request": v}), json!(want), json!(format!("{:?}", got)));
    }
}

pub fn encode(c: &mut Ctx) {
    while c.go() {
        decode(c);
        let (r, v) = result(c);
        both(c, "result", &r, v);
        let (m, v) = message(c);
        both(c, "message", &m, v);
        let data: Vec<u8> = (0..c.below(20)).map(|_| c.below(256) as u8).collect();
        let (id, fd, start, stop) = (text(c), text(c), int(c), int(c));
        let enc = c.below(2) == 0;
        let m = OutgoingMessage::ProcFdData {
            proc_id: id.clone(),
            fd: fd.clone(),
            start,
            stop,
            encoding: if enc { Some(CaptureEncoding::Utf8) } else { None },
            data: data.clone(),
        };
        let want = json!({"type": "ProcFdData", "proc_id": id, "fd": fd, "start": start, "stop": stop, "encoding": if enc { json!("utf-8") } else { Value::Null }, "data": data});
        c.eval(|| want.clone());
        let got = guard(|| rmp_serde::to_vec_named(&m).map_err(|e| e.to_string()))
            .and_then(|x| x)
            .and_then(|x| rmp_serde::from_slice::<FdDataMsg>(&x).map_err(|e| e.to_string()))
            .map(|d| json!({"type": d.r#type, "proc_id": d.proc_id, "fd": d.fd, "start": d.start, "stop": d.stop, "encoding": d.encoding, "data": d.data.0}));
        if got != Ok(want.clone()) {
            c.fail(json!({"encoded as MessagePack": "fd data"}), want, json!(format!("{:?}", got)));
        }
    }
}
