//! Reaping: real children that end in many ways, at the same time or one after another, and stop and continue meanwhile.
use crate::util::*;
use procstar::procs::{start_procs, SharedProcs};
use procstar::spec::{self, Fd};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

struct Plan {
    argv: Vec<String>,
    /// wait status wanted; None for any
    status: Option<i32>,
    sleep: f64,
    burn: bool,
    errors: usize,
    stops: u32,
}

fn plan(c: &mut Ctx) -> Plan {
    let sh = |s: String| vec!["/bin/sh".to_string(), "-c".into(), s];
    let d = c.below(8) as f64 * 0.02;
    match c.below(8) {
        0 => Plan { argv: vec!["/nonexistent/prog".into()], status: Some(63 << 8), sleep: 0., burn: false, errors: 1, stops: 0 },
        1 | 2 => {
            let n = *c.pick(&[0, 1, 2, 63, 127, 128, 255]);
            Plan { argv: sh(format!("sleep {d}; exit {n}")), status: Some(n << 8), sleep: d, burn: false, errors: 0, stops: c.below(3) as u32 }
        }
        3 => {
            let n = *c.pick(&[1, 2, 9, 10, 14, 15]);
            Plan { argv: sh(format!("sleep {d}; kill -{n} $$; sleep 1")), status: Some(n), sleep: d, burn: false, errors: 0, stops: 0 }
        }
        4 => Plan { argv: sh("i=0; while [ $i -lt 60000 ]; do i=$((i+1)); done".into()), status: Some(0), sleep: 0., burn: true, errors: 0, stops: 0 },
        5 => Plan { argv: sh(format!("sleep {d} & sleep 0.01; exit 5")), status: Some(5 << 8), sleep: 0., burn: false, errors: 0, stops: 0 },
        _ => Plan { argv: vec!["/bin/true".into()], status: Some(0), sleep: 0., burn: false, errors: 0, stops: 0 },
    }
}

pub fn lifecycle(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    loop {
        if !c.go() {
            break;
        }
        let groups: Vec<BTreeMap<String, Plan>> = (0..1 + c.below(2))
            .map(|g| {
                let most = if c.below(6) == 0 { 20 } else { 4 };
                let n = 1 + c.below(most);
                (0..n).map(|i| (format!("g{g}p{i}"), plan(c))).collect()
            })
            .collect();
        let apart = c.below(4) as u64 * 15;
        let slow = c.below(4) == 0;
        let input = json!({"groups": groups.iter().map(|g| g.iter().map(|(k, p)| (k.clone(), json!(p.argv))).collect::<BTreeMap<_, _>>()).collect::<Vec<_>>(),
            "apart ms": apart, "the agent is busy first": slow});
        c.eval(|| input.clone());
        let procs = SharedProcs::new();
        let local = tokio::task::LocalSet::new();
        let out: Result<Result<Option<(Value, Value)>, String>, String> = guard(|| {
            rt.block_on(local.run_until(async {
                let mut tasks = vec![];
                for (n, g) in groups.iter().enumerate() {
                    if n > 0 {
                        tokio::time::sleep(Duration::from_millis(apart)).await;
                    }
                    let specs = g.iter().map(|(k, p)| {
                        let fds = vec![("stdout".to_string(), Fd::Null { flags: Default::default() }), ("stderr".to_string(), Fd::Null { flags: Default::default() })];
                        (k.clone(), spec::Proc { id: None, exe: None, argv: p.argv.clone(), env: Default::default(), fds })
                    }).collect();
                    match start_procs(specs, &procs) {
                        Ok(t) => tasks.extend(t),
                        Err(e) => return Err(format!("rejected: {e}")),
                    }
                    if slow {
                        std::thread::sleep(Duration::from_millis(60)); // children end meanwhile
                    }
                }
                let begun = Instant::now();
                let mut bad = None;
                let mut stopped: Vec<String> = vec![];
                let mut stops: BTreeMap<String, u32> = groups.iter().flat_map(|g| g.iter().map(|(k, p)| (k.clone(), p.stops))).collect();
                loop {
                    let mut left = 0;
                    for (k, left_stops) in stops.iter_mut() {
                        let p = procs.get(k).unwrap();
                        let p = p.borrow();
                        let n = [p.wait_info.is_some(), p.stop_time.is_some(), p.elapsed.is_some()];
                        if n != [n[0]; 3] || (!n[0] && p.proc_stat.is_some()) {
                            bad = Some((json!("nothing recorded before the end, then everything"), json!({"process": k, "status": n[0], "stop time": n[1], "elapsed": n[2]})));
                        }
                        if !n[0] {
                            left += 1;
                            // it is ours and not reaped, so the pid is its own
                            if let Some(i) = stopped.iter().position(|i| i == k) {
                                unsafe { libc::kill(p.pid, libc::SIGCONT) };
                                stopped.remove(i);
                            } else if *left_stops > 0 {
                                *left_stops -= 1;
                                unsafe { libc::kill(p.pid, libc::SIGSTOP) };
                                stopped.push(k.clone());
                            }
                        }
                    }
                    if left > 0 && begun.elapsed() > Duration::from_secs(12) {
                        return Err(format!("the end of {left} was not noticed in 12 s"));
                    }
                    if left == 0 || bad.is_some() {
                        break;
                    }
                    tokio::time::sleep(Duration::from_millis(5)).await;
                }
                if bad.is_some() {
                    return Ok(bad);
                }
                if tokio::time::timeout(Duration::from_secs(5), futures_util::future::join_all(tasks)).await.is_err() {
                    return Err("the tasks did not end".into());
                }
                Ok(None)
            }))
        });
        match out {
            Err(p) => return c.fail(input, json!("each process reaped"), json!({"panic": p})),
            Ok(Err(e)) => return c.fail(input, json!("each process reaped"), json!(e)),
            Ok(Ok(Some((want, got)))) => return c.fail(input, want, got),
            Ok(Ok(None)) => {}
        }
        for (id, p) in groups.iter().flatten() {
            let q = procs.get(id).unwrap();
            let q = q.borrow();
            let w = q.wait_info.unwrap();
            let tv = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 * 1e-6;
            let wall = (q.stop_time.unwrap() - q.start_time).num_milliseconds() as f64 * 1e-3;
            let el = q.elapsed.unwrap().as_secs_f64();
            let cpu = tv(w.2.ru_utime) + tv(w.2.ru_stime);
            let stat = q.proc_stat.as_ref().map(|s| (s.pid, s.utime + s.stime));
            let got = json!({"process": id, "pid": q.pid, "waited": w.0, "status": w.1, "errors": q.errors, "elapsed": el, "stop - start": wall, "cpu s": cpu,
                "statistics pid, cpu s": stat});
            let mut want = None;
            if w.0 != q.pid || p.status.map_or(false, |s| s != w.1) {
                want = Some(json!({"waited": q.pid, "status": p.status}));
            } else if q.errors.len() != p.errors {
                want = Some(json!({"errors": p.errors}));
            } else if el < p.sleep || (el - wall).abs() > 1.0 {
                want = Some(json!({"elapsed": "as long as it ran", "at least": p.sleep}));
            } else if stat.map_or(true, |s| s.0 != q.pid || (s.1 - cpu).abs() > 0.1 + cpu / 10.) {
                want = Some(json!("its last statistics"));
            } else if p.burn && cpu <= 0.02 {
                want = Some(json!("its resource usage"));
            }
            if let Some(w) = want {
                return c.fail(input, w, got);
            }
        }
        let mut st = 0;
        if unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) } != -1 {
            return c.fail(input, json!("all children reaped"), json!("some are left"));
        }
    }
}
