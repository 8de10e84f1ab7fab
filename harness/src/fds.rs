//! File descriptors of a process: random specs set up by the real handlers in forked children, the descriptor tables
//! compared with what the specs say.
use crate::util::*;
use procstar::fd::{get_fd_name, make_fd_handler, Pipes, SharedFdHandler};
use procstar::spec::{self, CaptureMode, Fd, OpenFlag};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::os::unix::ffi::OsStrExt;

const TOP: i32 = 64;
const REPORT: i32 = 900;

/// What a descriptor is open to: device, inode, access mode and append flag, links (0: unlinked), and close-on-exec.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Id(u64, u64, i32, bool, bool);

type Table = BTreeMap<i32, Id>;

fn id(fd: i32) -> Option<Id> {
    unsafe {
        let mut s: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut s) != 0 {
            return None;
        }
        let fl = libc::fcntl(fd, libc::F_GETFL);
        let fdf = libc::fcntl(fd, libc::F_GETFD);
        Some(Id(s.st_dev, s.st_ino, fl & (libc::O_ACCMODE | libc::O_APPEND), s.st_nlink == 0, fdf & libc::FD_CLOEXEC != 0))
    }
}

fn table() -> Table {
    (0..TOP).filter_map(|fd| id(fd).map(|i| (fd, i))).collect()
}

fn flags_of(f: &OpenFlag, fd: i32) -> i32 {
    use libc::*;
    match f {
        OpenFlag::Default => match fd {
            0 => O_RDONLY,
            1 | 2 => O_WRONLY | O_CREAT | O_TRUNC,
            _ => O_RDWR | O_CREAT | O_TRUNC,
        },
        OpenFlag::Read => O_RDONLY,
        OpenFlag::Write => O_WRONLY | O_CREAT | O_TRUNC,
        OpenFlag::Create => O_WRONLY | O_CREAT | O_EXCL,
        OpenFlag::Replace => O_WRONLY | O_TRUNC,
        OpenFlag::Append => O_WRONLY | O_APPEND,
        OpenFlag::CreateAppend => O_WRONLY | O_CREAT | O_APPEND,
        OpenFlag::ReadWrite => O_RDWR | O_CREAT | O_TRUNC,
    }
}

fn stat(p: &str) -> Option<(u64, u64, u64, u32)> {
    use std::os::unix::fs::MetadataExt;
    std::fs::metadata(p).ok().map(|m| (m.dev(), m.ino(), m.len(), m.mode() & 0o777))
}

#[derive(Clone)]
struct Item {
    name: String,
    num: i32,
    spec: Fd,
}

struct Made {
    handler: SharedFdHandler,
    new: Vec<i32>,
    own: Vec<i32>,
}

fn report(v: Value) -> ! {
    let s = v.to_string();
    unsafe {
        libc::write(REPORT, s.as_ptr() as *const _, s.len());
        libc::_exit(0);
    }
}

fn fork_report(f: impl FnOnce() -> Value) -> Value {
    unsafe {
        let mut p = [0; 2];
        libc::pipe(p.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::dup2(p[1], REPORT);
            libc::close(p[0]);
            libc::close(p[1]);
            libc::alarm(20);
            let r = guard(f);
            report(match r {
                Ok(v) => v,
                Err(e) => json!({"panic": e}),
            });
        }
        libc::close(p[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        serde_json::from_slice(&out).unwrap_or(json!({"died": st}))
    }
}

fn ids(t: &Table) -> Value {
    json!(t.iter().map(|(k, v)| format!("{k}: {v:?}")).collect::<Vec<_>>())
}

/// Runs the procs as a start request does; Some(mismatch) if a table is not what the specs say.
fn run(procs: &[(String, Vec<Item>)], dense: bool, files: &BTreeMap<String, (bool, Vec<u8>)>) -> Value {
    unsafe {
        for fd in 3..TOP {
            libc::close(fd);
        }
        libc::umask(0o022);
    }
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let local = tokio::task::LocalSet::new();
    unsafe {
        if dense {
            for fd in 3..24 {
                if id(fd).is_none() {
                    let n = libc::open(b"/dev/zero\0".as_ptr() as *const _, libc::O_RDONLY);
                    if n != fd {
                        libc::dup2(n, fd);
                        libc::close(n);
                    }
                }
            }
        }
    }
    local.block_on(&rt, async {
        let mut pipes = Pipes::new();
        // the ends of pipes between processes kept for their peer: (proc, fd) -> (read, write)
        let mut held: BTreeMap<(String, i32), (Option<i32>, Option<i32>)> = BTreeMap::new();
        let mut keep = vec![];
        for (pid, items) in procs {
            let mut made: Vec<Made> = vec![];
            for it in items {
                let before = table();
                let (num, handler) = make_fd_handler(pid, it.name.clone(), it.spec.clone(), &mut pipes);
                if num != it.num {
                    return json!({"what": "fd number of a name", "name": it.name, "got": num});
                }
                let after = table();
                let new: Vec<i32> = after.keys().filter(|k| !before.contains_key(k)).cloned().collect();
                if before.iter().any(|(k, v)| after.get(k) != Some(v)) {
                    return json!({"what": "making a handler changed another descriptor", "item": it.name, "before": ids(&before), "after": ids(&after)});
                }
                let fifo = |ro: i32| new.iter().cloned().find(|k| after[k].2 == ro);
                let mut own = vec![];
                let want = match &it.spec {
                    Fd::Capture { mode: CaptureMode::TempFile, .. } => 1,
                    Fd::Capture { .. } => 2,
                    Fd::PipeWrite => {
                        let k = (pid.clone(), it.num);
                        if let Some((_, w)) = held.get_mut(&k).filter(|h| h.1.is_some()) {
                            own.push(w.take().unwrap());
                            0
                        } else {
                            if let (Some(r), Some(w)) = (fifo(libc::O_RDONLY), fifo(libc::O_WRONLY)) {
                                held.insert(k, (Some(r), None));
                                own.push(w);
                            }
                            2
                        }
                    }
                    Fd::PipeRead { proc_id, fd } => {
                        let k = (proc_id.clone(), spec::parse_fd(fd).unwrap());
                        if let Some((r, _)) = held.get_mut(&k).filter(|h| h.0.is_some()) {
                            own.push(r.take().unwrap());
                            0
                        } else {
                            if let (Some(r), Some(w)) = (fifo(libc::O_RDONLY), fifo(libc::O_WRONLY)) {
                                held.insert(k, (None, Some(w)));
                                own.push(r);
                            }
                            2
                        }
                    }
                    _ => 0,
                };
                match &it.spec {
                    Fd::Capture { mode: CaptureMode::Memory, .. } => {
                        if let (Some(r), Some(w)) = (fifo(libc::O_RDONLY), fifo(libc::O_WRONLY)) {
                            own = vec![r, w];
                        }
                    }
                    Fd::Capture { .. } => own = new.clone(),
                    _ => {}
                }
                if new.len() != want {
                    return json!({"what": "descriptors made for a handler", "item": it.name, "new": new, "want": want});
                }
                if let Fd::Capture { mode: CaptureMode::TempFile, .. } = it.spec {
                    if !after[&new[0]].3 {
                        return json!({"what": "capture file still has a name", "item": it.name});
                    }
                }
                made.push(Made { handler, new, own });
            }
            // numbers used by one handler and named by another: a known limitation, not judged here
            let mut privs: Vec<i32> = held.values().flat_map(|h| [h.0, h.1]).flatten().collect();
            for (i, it) in items.iter().enumerate() {
                for (j, m) in made.iter().enumerate() {
                    let mut names = vec![it.num];
                    if let Fd::Dup { fd } = it.spec {
                        names.push(fd);
                    }
                    if (i != j || names.len() > 1) && names.iter().any(|n| m.own.contains(n) || m.new.contains(n)) {
                        return json!({"skipped": true});
                    }
                }
                if privs.contains(&it.num) {
                    return json!({"skipped": true});
                }
            }
            privs.sort();
            let at_fork = table();
            // what the child's table should be
            let mut want = at_fork.clone();
            let mut want_err = vec![];
            let mut fs: BTreeMap<String, Option<(u64, u64, u64, u32)>> = BTreeMap::new();
            for (it, m) in items.iter().zip(&made) {
                let mut err = false;
                let file = |path: &str, fl: i32, want: &mut Table, fs: &mut BTreeMap<String, Option<(u64, u64, u64, u32)>>| -> bool {
                    let there = fs.get(path).cloned().unwrap_or_else(|| if path.contains('\0') { None } else { stat(path) });
                    let fails = path.contains('\0') || (there.is_none() && fl & libc::O_CREAT == 0) || (there.is_some() && fl & libc::O_EXCL != 0);
                    if fails {
                        return true;
                    }
                    let (d, i, len, mode) = there.unwrap_or((0, 0, 0, 0));
                    let dev = path == "/dev/null";
                    fs.insert(path.to_owned(), Some((d, i, if fl & libc::O_TRUNC != 0 && !dev { 0 } else { len }, mode)));
                    want.insert(it.num, Id(d, i, fl & (libc::O_ACCMODE | libc::O_APPEND), false, false));
                    false
                };
                match &it.spec {
                    Fd::Inherit => {}
                    Fd::Close => err = want.remove(&it.num).is_none(),
                    Fd::Null { flags } => err = file("/dev/null", flags_of(flags, it.num), &mut want, &mut fs),
                    Fd::File { path, flags, .. } => err = file(path, flags_of(flags, it.num), &mut want, &mut fs),
                    Fd::Dup { fd } => match want.get(fd).cloned() {
                        Some(mut i) => {
                            if *fd != it.num {
                                i.4 = false;
                            }
                            want.insert(it.num, i);
                        }
                        None => err = *fd != it.num,
                    },
                    Fd::Capture { mode: CaptureMode::Memory, .. } => {
                        want.remove(&m.own[0]);
                        let w = want.remove(&m.own[1]).unwrap();
                        want.insert(it.num, w);
                    }
                    Fd::Capture { .. } | Fd::PipeWrite | Fd::PipeRead { .. } => {
                        let w = want.remove(&m.own[0]).unwrap();
                        want.insert(it.num, w);
                    }
                }
                want_err.push(err);
            }
            for h in held.values() {
                for fd in [h.0, h.1].into_iter().flatten() {
                    want.remove(&fd);
                }
            }
            let nums: Vec<i32> = items.iter().map(|i| i.num).collect();
            let (mut hs, mut news) = (vec![], vec![]);
            for m in made {
                hs.push(m.handler);
                news.push((m.new, m.own));
            }
            // the child must own the handlers: fork first
            let v = fork_child(hs, pipes, |hs, pipes| {
                let errs: Vec<bool> = hs.into_iter().map(|h| h.in_child().is_err()).collect();
                let perr = pipes.close().is_err();
                let got = table();
                if errs != want_err || perr {
                    return json!({"what": "set-up reported as failed", "fds": nums, "want": want_err, "got": errs, "closing pipes failed": perr});
                }
                // files made by the set-up are matched by path
                for (it, e) in items.iter().zip(&want_err) {
                    if let (Fd::File { path, mode, flags }, false) = (&it.spec, *e) {
                        if let (Some(Some(w)), Some(s)) = (fs.get(path), stat(path)) {
                            if s.2 != w.2 {
                                return json!({"what": "contents of an opened file", "path": path, "flags": format!("{flags:?}"), "length wanted": w.2, "got": s.2});
                            }
                            if w.1 == 0 && s.3 != *mode as u32 & 0o755 {
                                return json!({"what": "permissions of a created file", "path": path, "wanted": mode, "got": s.3});
                            }
                            if w.1 == 0 {
                                if let Some(x) = want.get_mut(&it.num) {
                                    x.0 = s.0;
                                    x.1 = s.1;
                                }
                            }
                        }
                    }
                }
                // duplicates of files made by the set-up
                let by_mode: Table = want.iter().filter(|(_, v)| v.1 != 0).map(|(k, v)| (*k, *v)).collect();
                let got_known: Table = got.iter().filter(|(k, _)| want.get(k).map_or(true, |w| w.1 != 0)).map(|(k, v)| (*k, *v)).collect();
                if by_mode != got_known || want.keys().ne(got.keys()) {
                    return json!({"what": "descriptors of the child", "want": ids(&want), "got": ids(&got)});
                }
                json!({})
            });
            let (v, hs, p) = v;
            pipes = p;
            if v != json!({}) {
                return v;
            }
            // the parent
            let mut want = at_fork;
            for (it, (_, own)) in items.iter().zip(&news) {
                match &it.spec {
                    Fd::Capture { mode: CaptureMode::Memory, .. } => {
                        want.remove(&own[1]);
                    }
                    Fd::PipeWrite | Fd::PipeRead { .. } => {
                        want.remove(&own[0]);
                    }
                    _ => {}
                }
            }
            let mut tasks = vec![];
            for h in &hs {
                match h.in_parent() {
                    Ok(t) => tasks.push(t),
                    Err(e) => return json!({"what": "in_parent failed", "error": e.to_string()}),
                }
            }
            let got = table();
            if got != want {
                return json!({"what": "descriptors of the agent", "want": ids(&want), "got": ids(&got)});
            }
            for (it, t) in items.iter().zip(&tasks) {
                if t.is_some() != matches!(it.spec, Fd::Capture { mode: CaptureMode::Memory, .. }) {
                    return json!({"what": "task draining the capture", "item": it.name});
                }
            }
            keep.push((hs, tasks));
        }
        let _ = files;
        if pipes.close().ok() != Some(held.values().map(|h| h.0.is_some() as usize + h.1.is_some() as usize).sum()) {
            return json!({"what": "number of pipe ends left"});
        }
        let left: Vec<i32> = held.values().flat_map(|h| [h.0, h.1]).flatten().filter(|fd| id(*fd).is_some()).collect();
        if !left.is_empty() {
            return json!({"what": "pipe ends not closed", "fds": left});
        }
        report(json!({}))
    })
}

fn fork_child(hs: Vec<SharedFdHandler>, pipes: Pipes, f: impl FnOnce(Vec<SharedFdHandler>, Pipes) -> Value) -> (Value, Vec<SharedFdHandler>, Pipes) {
    unsafe {
        let mut p = [0; 2];
        // high numbers, out of the way
        libc::pipe(p.as_mut_ptr());
        let (r, w) = (libc::fcntl(p[0], libc::F_DUPFD, 910), libc::fcntl(p[1], libc::F_DUPFD, 920));
        libc::close(p[0]);
        libc::close(p[1]);
        let pid = libc::fork();
        if pid == 0 {
            libc::close(r);
            let v = guard(|| f(hs, pipes)).unwrap_or_else(|e| json!({"what": "panic in the child", "panic": e}));
            let s = v.to_string();
            libc::write(w, s.as_ptr() as *const _, s.len());
            libc::_exit(0);
        }
        libc::close(w);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(r, buf.as_mut_ptr() as *mut _, buf.len());
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(r);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        (serde_json::from_slice(&out).unwrap_or(json!({"what": "the child died", "status": st})), hs, pipes)
    }
}

const FLAGS: [OpenFlag; 8] = [
    OpenFlag::Default, OpenFlag::Read, OpenFlag::Write, OpenFlag::Create, OpenFlag::Replace, OpenFlag::CreateAppend, OpenFlag::Append, OpenFlag::ReadWrite,
];

fn names(c: &mut Ctx) {
    let mut ns: Vec<i32> = vec![0, 1, 2, 3, 9, 10, 63, 255, 1023, 65535, i32::MAX];
    ns.extend(c.ints.iter().filter_map(|i| i32::try_from(*i).ok()).filter(|i| *i >= 0));
    ns.push(c.below(2000) as i32);
    for n in ns {
        c.eval(|| json!({"name of": n}));
        let want = match n {
            0 => "stdin".to_owned(),
            1 => "stdout".to_owned(),
            2 => "stderr".to_owned(),
            _ => n.to_string(),
        };
        let got = get_fd_name(n);
        if got != want {
            c.fail(json!({"get_fd_name": n}), json!(want), json!(got));
        }
        for s in [want, n.to_string()] {
            match guard(|| spec::parse_fd(&s)) {
                Ok(Ok(m)) if m == n => {}
                x => c.fail(json!({"parse_fd": s}), json!(n), json!(format!("{x:?}"))),
            }
        }
    }
    let mut bad: Vec<String> = ["", " 1", "1 ", "std", "STDIN", "stdin ", "0x1", "1.0", "a", "99999999999", "stdout2"].iter().map(|s| s.to_string()).collect();
    bad.extend(c.strs.iter().filter(|s| s.parse::<i32>().is_err() && !["stdin", "stdout", "stderr"].contains(&s.as_str())).cloned());
    for s in bad {
        c.eval(|| json!({"parse_fd": s}));
        match guard(|| spec::parse_fd(&s)) {
            Ok(Err(spec::Error::BadFd(n))) if n == s => {}
            x => c.fail(json!({"parse_fd": s}), json!("bad fd, naming it"), json!(format!("{x:?}"))),
        }
    }
}

pub fn fds(c: &mut Ctx) {
    names(c);
    let dir = std::env::current_dir().unwrap();
    let mut round = 0;
    while c.go() {
        round += 1;
        let nprocs = if round % 3 == 0 { 1 } else { 1 + c.below(3) };
        let dense = nprocs > 1 && c.below(3) > 0 || c.below(3) == 0;
        let mut files: BTreeMap<String, (bool, Vec<u8>)> = BTreeMap::new();
        let d = dir.join(format!("r{round}"));
        std::fs::create_dir(&d).unwrap();
        let mut path = |c: &mut Ctx| {
            let n = files.len();
            if c.below(40) == 0 {
                return "a\0b".to_owned();
            }
            let p = String::from_utf8(d.join(format!("f{n}")).as_os_str().as_bytes().to_vec()).unwrap();
            let there = c.below(2) == 0;
            if there {
                std::fs::write(&p, b"old text").unwrap();
            }
            files.insert(p.clone(), (there, vec![]));
            p
        };
        let mut procs: Vec<(String, Vec<Item>)> = vec![];
        let mut writers: Vec<(String, i32)> = vec![];
        for i in 0..nprocs {
            let pid = format!("p{i}");
            let mut items: Vec<Item> = vec![];
            let n = 1 + if dense { c.below(5) } else { c.below(2) };
            for _ in 0..n {
                let num = c.below(if dense { 16 } else { 14 }) as i32;
                if items.iter().any(|i| i.num == num) {
                    continue;
                }
                let name = if num < 3 && c.below(2) == 0 { ["stdin", "stdout", "stderr"][num as usize].to_owned() } else { num.to_string() };
                let spec = match c.below(12) {
                    0 => Fd::Inherit,
                    1 => Fd::Close,
                    2 => Fd::Null { flags: *c.pick(&FLAGS[..3]) },
                    3 | 4 | 5 => Fd::File { path: path(c), flags: *c.pick(&FLAGS), mode: *c.pick(&[0o600, 0o644, 0o640]) },
                    6 | 7 => Fd::Dup { fd: c.below(14) as i32 },
                    8 => Fd::Capture { mode: CaptureMode::TempFile, encoding: None, attached: true },
                    9 => Fd::Capture { mode: CaptureMode::Memory, encoding: None, attached: true },
                    _ => {
                        if nprocs > 1 {
                            writers.push((pid.clone(), num));
                            Fd::PipeWrite
                        } else {
                            Fd::Capture { mode: CaptureMode::Memory, encoding: None, attached: true }
                        }
                    }
                };
                items.push(Item { name, num, spec });
            }
            procs.push((pid, items));
        }
        // readers for most writers
        for (p, w) in writers.clone() {
            if c.below(5) == 0 {
                continue;
            }
            let k = c.below(procs.len());
            let num = c.below(16) as i32;
            if procs[k].1.iter().any(|i| i.num == num) {
                continue;
            }
            let fd = if w < 3 { ["stdin", "stdout", "stderr"][w as usize].to_owned() } else { w.to_string() };
            procs[k].1.push(Item { name: num.to_string(), num, spec: Fd::PipeRead { proc_id: p, fd } });
        }
        let desc = || {
            json!({"dense": dense, "procs": procs.iter().map(|(p, i)| json!({"id": p, "fds": i.iter().map(|i| json!([i.name, i.spec])).collect::<Vec<_>>()})).collect::<Vec<_>>(),
                   "existing files": files.iter().filter(|f| f.1 .0).map(|f| f.0.clone()).collect::<Vec<_>>()})
        };
        let v = fork_report(|| run(&procs, dense, &files));
        if v.get("skipped").is_none() {
            c.eval(|| desc());
            if v != json!({}) {
                c.fail(desc(), json!("each fd as its spec says"), v);
            }
        }
        let _ = std::fs::remove_dir_all(&d);
    }
}
