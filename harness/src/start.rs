//! Starting processes: whole start requests through start_procs, with a child program that reports what it was started as.
use crate::util::*;
use procstar::err::Error;
use procstar::procs::{restrict_exe, start_procs, Notification, Proc, SharedProcs};
use procstar::shutdown::State;
use procstar::spec::{self, CaptureMode, Env, EnvInherit, Fd, OpenFlag};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

const REPORT: &str = "PVHARNESS_REPORT";
const SECRETS: [&str; 3] = ["PROCSTAR_AGENT_CERT", "PROCSTAR_AGENT_KEY", "PROCSTAR_AGENT_TOKEN"];

fn link(fd: i32) -> Option<String> {
    std::fs::read_link(format!("/proc/self/fd/{fd}")).ok().map(|p| p.to_string_lossy().into_owned())
}

fn acc(fd: i32) -> i32 {
    unsafe { libc::fcntl(fd, libc::F_GETFL) & libc::O_ACCMODE }
}

/// What the started program does: report, and exit with the code it was told.
pub fn child() -> bool {
    let Ok(report) = std::env::var(REPORT) else { return false };
    let (path, code) = report.rsplit_once(':').unwrap();
    let mut fds = BTreeMap::new();
    for fd in 0..64 {
        if let Some(l) = link(fd) {
            fds.insert(fd, json!([l, acc(fd)]));
        }
    }
    let v = json!({
        "argv": std::env::args().collect::<Vec<_>>(),
        "env": std::env::vars().filter(|(k, _)| k != REPORT).collect::<BTreeMap<_, _>>(),
        "exe": std::fs::read_link("/proc/self/exe").unwrap().to_string_lossy(),
        "session leader": unsafe { libc::getsid(0) == libc::getpid() },
        "fds": fds,
    });
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new().append(true).create(true).open(path).unwrap();
    f.write_all((v.to_string() + "\n").as_bytes()).unwrap();
    std::process::exit(code.parse().unwrap());
}

struct Plan {
    spec: spec::Proc,
    code: i32,
    report: String,
    exe: String,
    fails: usize,
    /// expected link and access mode per fd; None for closed
    fds: BTreeMap<i32, Option<(String, Option<i32>)>>,
    why: Vec<String>,
}

fn fd_name(c: &mut Ctx, fd: i32) -> String {
    match fd {
        0 if c.below(3) > 0 => "stdin".into(),
        1 if c.below(3) > 0 => "stdout".into(),
        2 if c.below(3) > 0 => "stderr".into(),
        _ => fd.to_string(),
    }
}

fn text(c: &mut Ctx) -> String {
    match c.below(12) {
        0 => "".into(),
        1 => "two words".into(),
        2 => "ünï漢\n".into(),
        3 => "-c".into(),
        4 if !c.strs.is_empty() => { let s = c.strs.clone(); c.pick(&s).replace('\0', "") }
        5 => "x".repeat(c.below(3000)),
        _ => format!("arg{}", c.below(100)),
    }
}

fn plan(c: &mut Ctx, dir: &str, id: &str, n: usize, restricted: &Option<String>) -> Plan {
    let exes = [format!("{dir}/a/prog"), format!("{dir}/b/prog"), format!("{dir}/a/../b/prog"), format!("{dir}/missing"), format!("{dir}/a"), "".to_string(), format!("{dir}/a/prog\0x"), format!("{dir}/script")];
    let pick = |c: &mut Ctx| { let i = *c.pick(&[0usize, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6]); exes[i].clone() };
    let mut argv = vec![];
    if c.below(10) > 0 {
        argv.push(if c.below(3) > 0 { pick(c) } else { text(c) });
        for _ in 0..c.below(4) {
            argv.push(text(c));
        }
        if c.below(30) == 0 {
            argv.push("nul\0arg".into());
        }
    }
    let exe = if c.below(2) == 0 { Some(pick(c)) } else { None };
    let code = c.below(62) as i32;
    let report = format!("{dir}/report-{n}-{}", id.replace('/', "_"));
    let mut env = Env::default();
    env.inherit = match c.below(3) {
        0 => EnvInherit::None,
        1 => EnvInherit::All,
        _ => EnvInherit::Vars(vec!["PATH".into(), "PV_X".into(), SECRETS[c.below(3)].into(), "NOPE".into()]),
    };
    env.vars.insert(REPORT.into(), Some(format!("{report}:{code}")));
    for _ in 0..c.below(3) {
        let k = c.pick(&["A", "PATH", "PV_X", "PV_Y", "PROCSTAR_AGENT_KEY"]).to_string();
        let v = if c.below(3) == 0 { None } else { Some(text(c)) };
        env.vars.insert(k, v);
    }
    let mut nul_env = false;
    if c.below(40) == 0 {
        env.vars.insert("NUL".into(), Some("a\0b".into()));
        nul_env = true;
    }

    // fds, in order, against a table of what the child starts with
    let mut table: BTreeMap<i32, Option<(String, Option<i32>)>> = (0..3).map(|i| (i, Some((link(i).unwrap(), Some(acc(i)))))).collect();
    let mut fds = vec![];
    let mut used = BTreeSet::new();
    let (mut fails, mut why) = (0, vec![]);
    for j in 0..c.below(5) {
        let fd = *c.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 20, 31]);
        if !used.insert(fd) {
            continue;
        }
        let name = fd_name(c, fd);
        let f = match c.below(8) {
            0 => Fd::Inherit,
            1 if fd < 3 => { table.insert(fd, None); Fd::Close }
            1 | 2 => {
                let flags = *c.pick(&[OpenFlag::Read, OpenFlag::Write, OpenFlag::ReadWrite]);
                table.insert(fd, Some(("/dev/null".into(), Some(flags as i32 - 1 - if matches!(flags, OpenFlag::ReadWrite) { 4 } else { 0 }))));
                Fd::Null { flags }
            }
            3 => {
                let path = format!("{dir}/out-{n}-{}-{j}", id.replace('/', "_"));
                table.insert(fd, Some((path.clone(), Some(1))));
                Fd::File { path, flags: OpenFlag::Write, mode: 0o600 }
            }
            4 => {
                fails += 1;
                why.push(format!("fd {fd}"));
                match c.below(3) {
                    0 => Fd::File { path: format!("{dir}/missing/x"), flags: OpenFlag::Read, mode: 0o600 },
                    1 => Fd::File { path: format!("{dir}/a\0"), flags: OpenFlag::Write, mode: 0o600 },
                    _ => Fd::Dup { fd: 900 },
                }
            }
            5 => {
                let src = c.below(3) as i32;
                match table.get(&src).unwrap().clone() {
                    Some(x) => { table.insert(fd, Some(x)); }
                    None => { fails += 1; why.push(format!("fd {fd}")); }
                }
                Fd::Dup { fd: src }
            }
            6 => {
                table.insert(fd, Some(("pipe:".into(), Some(1))));
                Fd::Capture { mode: CaptureMode::Memory, encoding: None, attached: true }
            }
            _ => {
                table.insert(fd, Some(("/tmp/".into(), None)));
                Fd::Capture { mode: CaptureMode::TempFile, encoding: None, attached: true }
            }
        };
        fds.push((name, f));
    }
    let want = exe.clone().unwrap_or(argv.first().cloned().unwrap_or_default());
    if let Some(r) = restricted {
        if *r != want {
            fails += 1;
            why.push("restricted".into());
        }
    }
    // the exec itself
    if fails == 0 && (nul_env || argv.iter().any(|a| a.contains('\0')) || want.contains('\0') || !want.ends_with("/prog")) {
        fails += 1;
        why.push("exec".into());
    }
    Plan { spec: spec::Proc { id: if c.below(5) == 0 { Some(c.pick(&["p0", "p9"]).to_string()) } else { None }, exe, argv, env, fds }, code, report, exe: want, fails, fds: table, why }
}

fn wanted_env(s: &Env) -> BTreeMap<String, String> {
    let mut r: BTreeMap<String, String> = std::env::vars()
        .filter(|(k, _)| !SECRETS.contains(&k.as_str()))
        .filter(|(k, _)| match &s.inherit {
            EnvInherit::None => false,
            EnvInherit::All => true,
            EnvInherit::Vars(l) => l.contains(k),
        })
        .collect();
    for (k, v) in &s.vars {
        match v {
            Some(v) => r.insert(k.clone(), v.clone()),
            None => r.remove(k),
        };
    }
    r.remove(REPORT);
    r
}

fn no_child() -> bool {
    let mut st = 0;
    let r = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
    r == -1 && std::io::Error::last_os_error().raw_os_error() == Some(libc::ECHILD)
}

fn drain(sub: &mut procstar::procs::NotificationSub) -> Vec<String> {
    use futures_util::FutureExt;
    let mut out = vec![];
    while let Some(Some(n)) = sub.recv().now_or_never() {
        out.push(match n {
            Notification::Start(i) => format!("start {i}"),
            Notification::NotRunning(i) => format!("not running {i}"),
            Notification::Delete(i) => format!("delete {i}"),
            Notification::ShutDown(s) => format!("shutdown {s:?}"),
        });
    }
    out
}

fn check(c: &mut Ctx, id: &str, p: &Plan, res: &Value, input: &Value) {
    let reports: Vec<Value> = std::fs::read_to_string(&p.report).unwrap_or_default().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let _ = std::fs::remove_file(&p.report);
    let nerr = res["errors"].as_array().map_or(0, |a| a.len());
    let code = &res["status"]["exit_code"];
    if p.fails > 0 {
        if !reports.is_empty() || nerr != p.fails || *code != json!(63) || res["state"] != json!("error") {
            c.fail(json!({"case": input, "process": id}), json!({"errors": p.fails, "for": p.why, "exit code": 63, "executed": false, "state": "error"}),
                json!({"errors": res["errors"], "exit code": code, "executed": reports, "state": res["state"]}));
        }
        return;
    }
    if reports.len() != 1 || nerr != 0 || *code != json!(p.code) || res["state"] != json!("terminated") {
        return c.fail(json!({"case": input, "process": id}), json!({"executed": 1, "errors": [], "exit code": p.code, "state": "terminated"}),
            json!({"executed": reports.len(), "errors": res["errors"], "status": res["status"], "state": res["state"]}));
    }
    let r = &reports[0];
    let exe = std::fs::canonicalize(&p.exe).unwrap();
    // the kernel makes an empty argument list one empty argument
    let argv = if p.spec.argv.is_empty() { vec!["".to_string()] } else { p.spec.argv.clone() };
    let want = json!({"argv": argv, "env": wanted_env(&p.spec.env), "exe": exe, "session leader": true});
    for k in ["argv", "env", "exe", "session leader"] {
        if r[k] != want[k] {
            return c.fail(json!({"case": input, "process": id}), json!({k: want[k]}), json!({k: r[k]}));
        }
    }
    for (fd, x) in &p.fds {
        let got = &r["fds"][fd.to_string()];
        let ok = match x {
            None => got.is_null() || got[0] == json!("/dev/null"), // the program's runtime opens 0 to 2
            Some((l, a)) => got[0].as_str().map_or(false, |g| if l.ends_with(':') || l.ends_with('/') { g.starts_with(l.as_str()) } else { g == l })
                && a.map_or(true, |a| got[1] == json!(a)),
        };
        if !ok {
            return c.fail(json!({"case": input, "process": id}), json!({"fd": fd, "is": x}), json!({"fd": fd, "is": got}));
        }
    }
}

pub fn start(c: &mut Ctx) {
    let me = std::process::id();
    let dir = std::env::current_dir().unwrap().canonicalize().unwrap().to_str().unwrap().to_owned();
    for d in ["a", "b"] {
        std::fs::create_dir_all(format!("{dir}/{d}")).unwrap();
        std::fs::copy(std::env::current_exe().unwrap(), format!("{dir}/{d}/prog")).unwrap();
    }
    {
        // neither a program nor a script that says what runs it
        use std::os::unix::fs::PermissionsExt;
        let f = format!("{dir}/script");
        std::fs::write(&f, "exit 0\n").unwrap();
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    std::env::set_var("PV_X", "inherited");
    std::env::set_var("PROCSTAR_AGENT_TOKEN", "secret");
    std::env::remove_var(REPORT);
    let begun = Instant::now();
    let span = c.deadline - begun;
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut restricted = None;
    let ids = ["p0", "p1", "p2", "a/b", "", "é"];
    for n in 0.. {
        if !c.go() {
            break;
        }
        if begun.elapsed() > span / 2 {
            let r = c.pick(&[format!("{dir}/a/prog"), format!("{dir}/b/prog"), format!("{dir}/missing"), "".into()]).clone();
            restrict_exe(&r);
            restricted = Some(r);
        }
        // what is registered already
        let procs = SharedProcs::new();
        let mut old: BTreeMap<String, Rc<RefCell<Proc>>> = BTreeMap::new();
        for _ in 0..c.below(3) {
            let id = c.pick(&ids).to_string();
            let p = Rc::new(RefCell::new(Proc::new(1 << 28, chrono::Utc::now(), Instant::now(), vec![])));
            if !old.contains_key(&id) {
                if c.below(2) == 0 {
                    // ended, but not deleted yet
                    p.borrow_mut().wait_info = Some((1 << 28, 0, unsafe { std::mem::zeroed() }));
                }
                old.insert(id.clone(), p.clone());
                procs.insert(id, p);
            }
        }
        let state = if c.below(8) == 0 { c.pick(&[State::Idling, State::Done]).clone() } else { State::Active };
        if !matches!(state, State::Active) {
            procs.set_shutdown(state.clone());
        }
        // what is asked for
        let mut plans: BTreeMap<String, Plan> = BTreeMap::new();
        for _ in 0..c.below(4) {
            let id = c.pick(&ids).to_string();
            if old.contains_key(&id) && c.below(4) > 0 {
                continue;
            }
            let p = plan(c, &dir, &id, n, &restricted);
            plans.insert(id, p);
        }
        let mut valid = true;
        if c.below(10) == 0 && !plans.is_empty() {
            let k: Vec<String> = plans.keys().cloned().collect();
            let k = c.pick(&k).clone();
            let x = match c.below(3) {
                0 => ("nonsense".to_string(), Fd::Inherit),
                1 => ("50".to_string(), Fd::PipeWrite),
                _ => ("51".to_string(), Fd::PipeRead { proc_id: "p0".into(), fd: "stdin".into() }),
            };
            plans.get_mut(&k).unwrap().spec.fds.push(x);
            valid = false;
        } else if plans.len() > 1 && c.below(2) == 0 {
            // a pipe between two of them
            let mut k: Vec<String> = plans.keys().cloned().collect();
            if c.below(2) == 0 {
                k.reverse();
            }
            let (x, y) = (40 + c.below(3) as i32, 43 + c.below(3) as i32);
            plans.get_mut(&k[0]).unwrap().spec.fds.push((x.to_string(), Fd::PipeWrite));
            plans.get_mut(&k[0]).unwrap().fds.insert(x, Some(("pipe:".into(), Some(1))));
            plans.get_mut(&k[1]).unwrap().spec.fds.push((y.to_string(), Fd::PipeRead { proc_id: k[0].clone(), fd: x.to_string() }));
            plans.get_mut(&k[1]).unwrap().fds.insert(y, Some(("pipe:".into(), Some(0))));
        }
        let dup = plans.keys().any(|k| old.contains_key(k));
        let accept = !dup && valid && matches!(state, State::Active);
        let specs: spec::Procs = plans.iter().map(|(k, p)| (k.clone(), p.spec.clone())).collect();
        let input = json!({"specs": specs, "registered": old.keys().collect::<Vec<_>>(), "shutdown": format!("{state:?}"), "restricted": restricted});
        c.eval(|| input.clone());
        let mut sub = procs.subscribe();
        let idle_later = accept && !plans.is_empty() && c.below(4) == 0;
        let local = tokio::task::LocalSet::new();
        let out: Result<Result<Result<(), String>, Error>, String> = guard(|| {
            rt.block_on(local.run_until(async {
                let r = start_procs(specs.clone(), &procs);
                if std::process::id() != me {
                    unsafe { libc::_exit(99) } // a child got back into the agent's code
                }
                Ok(match r {
                    Err(e) => return Err(e),
                    Ok(tasks) => {
                        if idle_later {
                            procs.set_shutdown(State::Idling);
                        }
                        let n = tasks.len();
                        if n != specs.len() {
                            Err(format!("{n} tasks"))
                        } else {
                            match tokio::time::timeout(Duration::from_secs(20), futures_util::future::join_all(tasks)).await {
                                Ok(_) => Ok(()),
                                Err(_) => Err("the end of a process was not noticed".into()),
                            }
                        }
                    }
                })
            }))
        });
        if std::process::id() != me {
            unsafe { libc::_exit(99) }
        }
        let now: Vec<String> = procs.get_proc_ids();
        let kept = old.iter().all(|(k, p)| procs.get(k).map_or(false, |q| Rc::ptr_eq(p, &q)));
        let noti = drain(&mut sub);
        match out {
            Err(p) => return c.fail(input, json!({"accepted": accept}), json!({"panic": p})),
            Ok(Ok(Err(e))) => return c.fail(input, json!("one task for each process, which ends with it"), json!(e)),
            Ok(Ok(Ok(()))) if accept => {
                let want: BTreeSet<String> = old.keys().chain(plans.keys()).cloned().collect();
                let have: BTreeSet<String> = now.iter().cloned().collect();
                if want != have || !kept {
                    return c.fail(input, json!({"registered": want}), json!({"registered": have, "earlier ones kept": kept}));
                }
                let mut pids = BTreeSet::new();
                for (id, p) in &plans {
                    let q = procs.get(id).unwrap();
                    let q = q.borrow();
                    let res = serde_json::to_value(q.to_result()).unwrap();
                    pids.insert(q.pid);
                    let ok = q.wait_info.map_or(false, |w| w.0 == q.pid) && q.stop_time.map_or(false, |t| t >= q.start_time) && q.elapsed.is_some() && q.wait_info.unwrap().2.ru_maxrss > 0;
                    if !ok || q.fd_handlers.len() != p.spec.fds.len() {
                        return c.fail(json!({"case": input, "process": id}), json!("reaped under its own pid, with status, usage, stop and elapsed time, and all its fds"), res);
                    }
                    check(c, id, p, &res, &input);
                    if c.violation.is_some() {
                        return;
                    }
                }
                if pids.len() != plans.len() || !no_child() {
                    return c.fail(input, json!("each process forked once and reaped"), json!({"pids": pids, "others left": !no_child()}));
                }
                let mut want: Vec<String> = plans.keys().flat_map(|k| [format!("start {k}"), format!("not running {k}")]).collect();
                let mut got = noti.clone();
                if idle_later {
                    want.push("shutdown Idling".into());
                }
                want.sort();
                got.sort();
                if want != got {
                    return c.fail(input, json!({"notifications": want}), json!({"notifications": noti}));
                }
            }
            Ok(Err(e)) if !accept => {
                let have: BTreeSet<String> = now.iter().cloned().collect();
                let want: BTreeSet<String> = old.keys().cloned().collect();
                if have != want || !kept || !noti.is_empty() || !no_child() {
                    return c.fail(input, json!({"rejected": true, "registered": want, "notifications": [], "forked": 0}),
                        json!({"rejected": e.to_string(), "registered": have, "earlier ones kept": kept, "notifications": noti, "forked": !no_child()}));
                }
            }
            Ok(r) => return c.fail(input, json!({"accepted": accept}), json!({"accepted": matches!(r, Ok(_)), "error": r.err().map(|e| e.to_string())})),
        }
    }
}
