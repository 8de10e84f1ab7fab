//! Process statistics against the format of the kernel's files.
use crate::procs::SIGNALS;
use crate::util::*;
use procstar::procinfo::{ProcStat, ProcStatm};
use serde_json::{json, Value};

fn names(mask: u64) -> Vec<Value> {
    SIGNALS.iter().filter(|x| mask >> (x.1 - 1) & 1 == 1).map(|x| json!(x.0)).collect()
}

fn close(a: &Value, b: f64) -> bool {
    a.as_f64().map_or(false, |a| (a - b).abs() <= 1e-9 * b.abs() + 1e-12)
}

const FIELDS: [&str; 50] = ["state", "ppid", "pgrp", "session", "tty_nr", "tpgid", "flags", "minflt", "cminflt", "majflt", "cmajflt", "utime", "stime", "cutime",
    "cstime", "priority", "nice", "num_threads", "itrealvalue", "starttime", "vsize", "rss", "rsslim", "startcode", "endcode", "startstack", "kstkesp", "kstkeip",
    "signal", "blocked", "sigignore", "sigcatch", "wchan", "nswap", "cnswap", "exit_signal", "processor", "rt_priority", "policy", "delayacct_blkio_ticks",
    "guest_time", "cguest_time", "start_data", "end_data", "start_brk", "arg_start", "arg_end", "env_start", "env_end", "exit_code"];

fn number(c: &mut Ctx, lo: i128, hi: i128) -> i128 {
    let near: Vec<i128> = c.ints.iter().flat_map(|x| [*x - 1, *x, *x + 1]).filter(|x| *x >= lo && *x <= hi).collect();
    if !near.is_empty() && c.below(6) == 0 {
        return *c.pick(&near);
    }
    match c.below(6) {
        0 => lo,
        1 => hi,
        2 if lo <= 0 && hi >= 0 => 0,
        3 => lo.max(0) + (c.below(300) as i128).min(hi - lo.max(0)),
        _ => {
            let r = (c.below(1 << 31) as i128) << 31 | c.below(1 << 31) as i128;
            let bits = 1 + c.below(62) as u32;
            lo + (r & ((1 << bits) - 1)) % (hi - lo + 1)
        }
    }
}

fn line(c: &mut Ctx) -> (i128, String, Vec<i128>, char, (i128, i128), String) {
    let pid = number(c, 1, (1 << 31) - 1);
    let mut comm = c.pick(&["sh", "a b", "a)b", ") (", "x) S 1 (y", ")", "(", "((sd-pam))", "", "kworker/0:1", "é)", " ) R 0 ", "\\n"]).to_string();
    if c.below(3) == 0 {
        comm = (0..c.below(16)).map(|_| *c.pick(&['a', ' ', ')', '(', '0', '-', '1', 'é'])).collect();
    }
    if !c.strs.is_empty() && c.below(5) == 0 {
        let s = c.strs.clone();
        comm = c.pick(&s).replace('\n', "\\n");
    }
    let state = *c.pick(&['R', 'S', 'D', 'Z', 'T', 't', 'X', 'I']);
    let (i32r, u32r, u64r) = ((i32::MIN as i128, i32::MAX as i128), (0, u32::MAX as i128), (0, u64::MAX as i128));
    let dev = (number(c, 0, 4095), number(c, 0, (1 << 20) - 1));
    let mut v = vec![0];
    for (i, n) in FIELDS.iter().enumerate() {
        let (lo, hi) = match *n {
            "state" => continue,
            "ppid" | "session" | "processor" | "exit_code" => i32r,
            "pgrp" => (1, i32::MAX as i128),
            "tpgid" => (-1, i32::MAX as i128),
            "flags" | "rt_priority" | "policy" => u32r,
            "starttime" => (0, 1 << 34),
            "rss" => (0, 1 << 40),
            "signal" | "blocked" | "sigignore" | "sigcatch" => (0, (1 << 31) - 1),
            "exit_signal" => (-1, 64),
            "priority" | "nice" | "cguest_time" => (i64::MIN as i128, i64::MAX as i128),
            "num_threads" => (0, i32::MAX as i128),
            _ => u64r,
        };
        assert!(v.len() == i);
        v.push(if *n == "tty_nr" { ((dev.1 & 0xff) | dev.0 << 8 | (dev.1 & !0xff) << 12) as u32 as i32 as i128 } else { number(c, lo, hi) });
    }
    let mut t = format!("{pid} ({comm}) {state}");
    for x in &v[1..] {
        t += &format!(" {x}");
    }
    (pid, comm, v, state, dev, t + "\n")
}

pub fn procinfo(c: &mut Ctx) {
    let tick = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64;
    let page = unsafe { libc::sysconf(libc::_SC_PAGESIZE) } as i128;
    let up: f64 = std::fs::read_to_string("/proc/uptime").unwrap().split(' ').next().unwrap().parse().unwrap();
    let boot = chrono::Utc::now().timestamp_millis() as f64 / 1e3 - up;
    // the files of a process by whatever name
    let old = std::fs::read("/proc/self/comm").unwrap();
    let me = std::process::id() as i32;
    for name in [&b"a b"[..], b"x) S 1 (", b"\xff\xfe", b"donn\xc3\xa9e-traite\xc3", b")", b""] {
        let _ = std::fs::write("/proc/self/comm", name);
        let input = json!({"name": String::from_utf8_lossy(name), "bytes": name});
        c.eval(|| input.clone());
        let r = guard(|| (ProcStat::load(me).map(|s| s.pid), ProcStatm::load(me).is_ok(), ProcStat::load_or_log(me).is_some()));
        if !matches!(r, Ok((Ok(p), true, true)) if p == me) {
            let _ = std::fs::write("/proc/self/comm", &old);
            return c.fail(input, json!("statistics"), json!(format!("{r:?}")));
        }
    }
    let _ = std::fs::write("/proc/self/comm", old);
    // no such process
    let input = json!({"pid": i32::MAX});
    c.eval(|| input.clone());
    let r = guard(|| (ProcStat::load_or_log(i32::MAX).is_none(), ProcStatm::load_or_log(i32::MAX).is_none()));
    if !matches!(r, Ok((true, true))) {
        return c.fail(input, json!("none, and no error"), json!(format!("{r:?}")));
    }
    let mut base: Option<f64> = None;
    while c.go() {
        if c.below(10) == 0 {
            let v: Vec<i128> = (0..7).map(|_| number(c, 0, 1 << 40)).collect();
            let t = v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ") + "\n";
            let input = json!({"statm": t});
            c.eval(|| input.clone());
            let want: Vec<i128> = [0, 1, 2, 3, 5].iter().map(|i| v[*i] * page).collect();
            let want = json!({"size": want[0] as u64, "resident": want[1] as u64, "shared": want[2] as u64, "text": want[3] as u64, "data": want[4] as u64});
            match guard(|| serde_json::to_value(ProcStatm::parse(&t)).unwrap()) {
                Ok(g) if g == want => {}
                g => return c.fail(input, want, json!(format!("{g:?}"))),
            }
            continue;
        }
        let (pid, comm, v, state, dev, t) = line(c);
        let input = json!({"stat": t});
        c.eval(|| input.clone());
        let g = match guard(|| serde_json::to_value(ProcStat::parse(&t)).unwrap()) {
            Ok(g) => g,
            Err(e) => return c.fail(input, json!("statistics"), json!(e)),
        };
        let mut want = vec![("pid", json!(pid as i64)), ("comm", json!(comm)), ("state", json!(state.to_string())), ("tty_nr", json!([dev.0 as i64, dev.1 as i64]))];
        for (i, n) in FIELDS.iter().enumerate() {
            let x = v[i];
            let num = || if x < 0 { json!(x as i64) } else { json!(x as u64) };
            let w = match *n {
                "state" | "tty_nr" | "itrealvalue" | "nswap" | "cnswap" => continue,
                "startcode" | "endcode" | "startstack" | "kstkesp" | "kstkeip" | "start_data" | "end_data" | "start_brk" | "arg_start" | "arg_end" | "env_start" | "env_end" => continue,
                "utime" | "stime" | "cutime" | "cstime" | "delayacct_blkio_ticks" | "guest_time" => {
                    if !close(&g[*n], x as f64 / tick) {
                        return c.fail(input, json!({*n: x as f64 / tick}), json!({*n: g[*n]}));
                    }
                    continue;
                }
                "starttime" => {
                    let s = g[*n].as_str().and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok()).map(|t| (t.timestamp_millis() as f64 / 1e3, t.offset().local_minus_utc()));
                    // the boot time is known to a second or so, but it is the same for all
                    let b = *base.get_or_insert_with(|| s.map_or(0., |s| s.0 - x as f64 / tick));
                    if !matches!(s, Some((s, 0)) if (s - boot - x as f64 / tick).abs() < 2. && (s - b - x as f64 / tick).abs() < 0.003) {
                        return c.fail(input, json!({*n: format!("{} s after boot", x as f64 / tick)}), json!({*n: g[*n]}));
                    }
                    continue;
                }
                "rss" => json!((x * page) as i64),
                "tpgid" => if x == -1 { json!(null) } else { num() },
                "exit_signal" => match x {
                    0 => json!(null),
                    x => match SIGNALS.iter().find(|s| s.1 as i128 == x) {
                        Some(s) => json!(s.0),
                        None => continue,
                    },
                },
                "signal" | "blocked" | "sigignore" | "sigcatch" => {
                    // the one without a name of its own here may have any
                    let got: Vec<Value> = g[*n].as_array().map_or(vec![], |a| a.iter().filter(|s| SIGNALS.iter().any(|t| *s == t.0)).cloned().collect());
                    let len = g[*n].as_array().map_or(0, |a| a.len());
                    if got != names(x as u64) || len != (x as u32).count_ones() as usize {
                        return c.fail(input, json!({*n: names(x as u64)}), json!({*n: g[*n]}));
                    }
                    continue;
                }
                _ => num(),
            };
            want.push((*n, w));
        }
        for (n, w) in want {
            if g[n] != w {
                return c.fail(input, json!({n: w}), json!({n: g[n]}));
            }
        }
    }
}
