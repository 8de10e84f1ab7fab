use crate::util::*;
use procstar::spec::{self, Error, Fd};
use serde_json::{json, Value};

const NAMES: [&str; 22] = ["stdin", "0", "stdout", "1", "+1", "01", "stderr", "2", "002", "3", "03", "4", "5", "2147483647", "2147483648", "-1", "", "x", " 1", "1 ", "Stdin", "0x1"];

/// the descriptor a name means
fn num(s: &str) -> Option<i64> {
    match s {
        "stdin" => return Some(0),
        "stdout" => return Some(1),
        "stderr" => return Some(2),
        _ => (),
    }
    let (neg, digits) = match s.as_bytes().first() {
        Some(b'+') => (false, &s[1..]),
        Some(b'-') => (true, &s[1..]),
        _ => (false, s),
    };
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: i64 = 0;
    for b in digits.bytes() {
        v = (v * 10 + (b - b'0') as i64).min(1 << 40);
    }
    let v = if neg { -v } else { v };
    if v > i32::MAX as i64 || v < i32::MIN as i64 { None } else { Some(v) }
}

type Procs = Vec<(String, Vec<(String, Fd)>)>;

fn readers(ps: &Procs, p: &str, n: i64) -> usize {
    ps.iter().flat_map(|(_, fds)| fds).filter(|(_, f)| matches!(f, Fd::PipeRead { proc_id, fd } if proc_id == p && num(fd) == Some(n))).count()
}

fn writers(ps: &Procs, p: &str, n: i64) -> usize {
    ps.iter().filter(|(q, _)| q == p).flat_map(|(_, fds)| fds).filter(|(m, f)| matches!(f, Fd::PipeWrite) && num(m) == Some(n)).count()
}

fn well_formed(ps: &Procs) -> bool {
    for (p, fds) in ps {
        for (i, (name, f)) in fds.iter().enumerate() {
            let Some(n) = num(name) else { return false };
            if fds[..i].iter().any(|(m, _)| num(m) == Some(n)) {
                return false;
            }
            match f {
                Fd::PipeWrite => if readers(ps, p, n) != 1 { return false },
                Fd::PipeRead { proc_id, fd } => match num(fd) {
                    None => return false,
                    Some(k) => if writers(ps, proc_id, k) != 1 || readers(ps, proc_id, k) != 1 { return false },
                },
                _ => (),
            }
        }
    }
    true
}

/// Does the error name something that is wrong here?
fn at_fault(ps: &Procs, e: &Error) -> bool {
    let shown = e.to_string();
    let all = || ps.iter().flat_map(|(p, fds)| fds.iter().map(move |(n, f)| (p, fds, n, f)));
    match e {
        Error::BadFd(s) => num(s).is_none() && shown.contains(s.as_str())
            && all().any(|(_, _, n, f)| n == s || matches!(f, Fd::PipeRead { fd, .. } if fd == s)),
        Error::DuplicateFd(s) => shown.contains(s.as_str())
            && all().any(|(_, fds, n, _)| n == s && num(s).is_some() && fds.iter().filter(|(m, _)| num(m) == num(s)).count() > 1),
        Error::UnmatchedReadFd(p, s) => shown.contains(p.as_str()) && shown.contains(s.as_str())
            && all().any(|(_, _, _, f)| matches!(f, Fd::PipeRead { proc_id, fd } if proc_id == p && fd == s))
            && num(s).map_or(false, |n| writers(ps, p, n) == 0 || readers(ps, p, n) > 1),
        Error::UnmatchedWriteFd(p, s) => shown.contains(p.as_str()) && shown.contains(s.as_str())
            && num(s).map_or(false, |n| writers(ps, p, n) > 0 && readers(ps, p, n) == 0),
        _ => false,
    }
}

fn show(ps: &Procs) -> Value {
    json!(ps.iter().map(|(p, fds)| json!({"id": p, "fds": fds.iter().map(|(n, f)| json!([n, format!("{:?}", f)])).collect::<Vec<_>>()})).collect::<Vec<_>>())
}

pub fn validate(c: &mut Ctx) {
    let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
    names.extend(c.strs.iter().filter(|s| s.len() < 40).cloned());
    for i in c.ints.clone() {
        names.push(i.to_string());
    }
    let good = ["stdin", "0", "1", "stdout", "01", "2", "stderr", "3", "03", "4", "5", "6", "7"];
    let mut k = 0u64;
    while c.go() {
        k += 1;
        let np = 1 + c.below(if k % 7 == 0 { 6 } else { 3 });
        let mut ps: Procs = (0..np).map(|i| (["a", "b", "", "é c", "d", "aa"][i].to_owned(), vec![])).collect();
        // matched pipes and plain fds, then perhaps something wrong
        let mut used: Vec<Vec<i64>> = vec![vec![]; np];
        let mut free = |c: &mut Ctx, i: usize| -> Option<String> {
            for _ in 0..6 {
                let n = good[c.below(good.len())];
                let v = num(n).unwrap();
                if !used[i].contains(&v) {
                    used[i].push(v);
                    return Some(n.to_owned());
                }
            }
            None
        };
        for _ in 0..c.below(if k % 7 == 0 { 9 } else { 4 }) {
            let (i, j) = (c.below(np), c.below(np));
            if c.below(3) == 0 {
                if let Some(n) = free(c, i) {
                    let f = match c.below(3) { 0 => Fd::Inherit, 1 => Fd::Close, _ => Fd::Dup { fd: 1 } };
                    ps[i].1.push((n, f));
                }
            } else if let (Some(w), Some(r)) = (free(c, i), free(c, j)) {
                // the reader may spell the writer's fd differently
                let spell = *c.pick(&good.iter().filter(|g| num(g) == num(&w)).cloned().collect::<Vec<_>>());
                let id = ps[i].0.clone();
                let read = (r, Fd::PipeRead { proc_id: id, fd: spell.to_owned() });
                let write = (w, Fd::PipeWrite);
                if c.below(2) == 0 { ps[j].1.push(read); ps[i].1.push(write) } else { ps[i].1.push(write); ps[j].1.push(read) }
            }
        }
        for _ in 0..[0, 0, 1, 1, 2][c.below(5)] {
            let (i, j) = (c.below(np), c.below(np));
            let n = c.pick(&names).clone();
            let f = match c.below(4) {
                0 => Fd::PipeWrite,
                1 => Fd::PipeRead { proc_id: if c.below(5) == 0 { "zz".into() } else { ps[j].0.clone() }, fd: c.pick(&names).clone() },
                2 => match ps[j].1.iter().find_map(|(n, f)| matches!(f, Fd::PipeWrite).then(|| n.clone())) {
                    Some(fd) => Fd::PipeRead { proc_id: ps[j].0.clone(), fd },
                    None => Fd::Inherit,
                },
                _ => Fd::Inherit,
            };
            match c.below(3) {
                0 if !ps[i].1.is_empty() => { let x = c.below(ps[i].1.len()); ps[i].1[x].0 = n }
                1 if !ps[i].1.is_empty() => { let x = c.below(ps[i].1.len()); ps[i].1.remove(x); }
                _ => { let x = c.below(ps[i].1.len() + 1); ps[i].1.insert(x, (n, f)) }
            }
        }
        let mut arg = spec::Procs::new();
        for (p, fds) in &ps {
            let fds = fds.iter().map(|(n, f)| (n.clone(), f.clone())).collect();
            arg.insert(p.clone(), spec::Proc { id: None, exe: None, argv: vec!["x".into()], env: Default::default(), fds });
        }
        c.eval(|| show(&ps));
        match guard(|| spec::validate_procs_fds(&arg)) {
            Err(m) => c.fail(show(&ps), json!("no panic"), json!(m)),
            Ok(Ok(())) => if !well_formed(&ps) { c.fail(show(&ps), json!("rejected"), json!("accepted")) },
            Ok(Err(e)) => if well_formed(&ps) {
                c.fail(show(&ps), json!("accepted"), json!(e.to_string()))
            } else if !at_fault(&ps, &e) {
                c.fail(show(&ps), json!("an error naming an fd at fault"), json!(e.to_string()))
            },
        }
    }
}
