//! Each wrapper against what the kernel is known to do for the given call.
use crate::util::*;
use procstar::sys;
use serde_json::json;
use std::os::fd::AsRawFd;

fn errno<T>(r: &std::io::Result<T>) -> Option<i32> {
    r.as_ref().err().map(|e| if e.kind() == std::io::ErrorKind::NotFound { 3 } else { e.raw_os_error().unwrap_or(-1) })
}

fn open_null() -> i32 {
    unsafe { libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR) }
}

fn is_open(fd: i32) -> bool {
    unsafe { libc::fcntl(fd, libc::F_GETFD) >= 0 }
}

macro_rules! want {
    ($c:expr, $name:expr, $e:expr, $got:expr) => {{
        let g = $got;
        $c.eval(|| json!($name));
        let s = format!("{:?}", g);
        if s != format!("{:?}", $e) {
            $c.fail(json!({"call": $name}), json!(format!("{:?}", $e)), json!(s));
        }
    }};
}

/// Runs a call in a child in which these system calls fail with this error; the error that the call reported (none: success), if that could be told.
fn faulted(nrs: &[i64], e: i32, f: impl FnOnce() -> Option<i32>) -> Option<Result<Option<i32>, String>> {
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let mut prog = vec![libc::sock_filter { code: 0x20, jt: 0, jf: 0, k: 0 }];
        for n in nrs {
            prog.push(libc::sock_filter { code: 0x15, jt: 0, jf: 1, k: *n as u32 });
            prog.push(libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: 0x0005_0000 | e as u32 });
        }
        prog.push(libc::sock_filter { code: 0x06, jt: 0, jf: 0, k: 0x7fff_0000 });
        let p = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
        unsafe {
            if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 || libc::prctl(libc::PR_SET_SECCOMP, 2, &p as *const _) != 0 {
                libc::_exit(253)
            }
        }
        let r = guard(f);
        unsafe { libc::_exit(match r { Ok(Some(x)) => x.clamp(1, 250), Ok(None) => 251, Err(_) => 252 }) }
    }
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    match libc::WIFEXITED(st).then(|| libc::WEXITSTATUS(st)) {
        Some(253) => None,
        Some(251) => Some(Ok(None)),
        Some(252) => Some(Err("panicked".to_string())),
        Some(x) => Some(Ok(Some(x))),
        None => Some(Err(format!("ended with status {st}"))),
    }
}

/// Every wrapper, with the kernel refusing its call with some error.
fn faults(c: &mut Ctx) {
    let dir = std::env::current_dir().unwrap();
    for e in [libc::EINTR, libc::EAGAIN, libc::EIO, libc::ENOMEM, libc::EPERM, libc::EACCES, libc::EINVAL, libc::ENOSPC, libc::EBADF, libc::EBUSY, libc::ENOSYS, libc::ENFILE, libc::EPIPE] {
        if !c.go() {
            return;
        }
        let t = format!("{}/t-XXXXXX", dir.display());
        macro_rules! fault {
            ($name:expr, $nrs:expr, $call:expr) => {
                if let Some(got) = faulted(&$nrs, e, || $call) {
                    want!(c, format!("{} refused with error {}", $name, e), Ok::<_, String>(Some(e)), got);
                }
            };
        }
        fault!("close", [libc::SYS_close], errno(&sys::close(1)));
        fault!("dup2", [libc::SYS_dup2, libc::SYS_dup3], errno(&sys::dup2(1, 77)));
        fault!("dup_above", [libc::SYS_fcntl], errno(&sys::dup_above(1, 77).map(|_| ())));
        fault!("fork", [libc::SYS_fork, libc::SYS_vfork, libc::SYS_clone, libc::SYS_clone3], errno(&sys::fork().map(|_| ())));
        fault!("setsid", [libc::SYS_setsid], errno(&sys::setsid().map(|_| ())));
        fault!("mkstemp", [libc::SYS_open, libc::SYS_openat], errno(&sys::mkstemp(&t).map(|_| ())));
        fault!("open", [libc::SYS_open, libc::SYS_openat], errno(&sys::open(std::path::Path::new("/dev/null"), libc::O_RDONLY, 0).map(|_| ())));
        fault!("pipe", [libc::SYS_pipe, libc::SYS_pipe2], errno(&sys::pipe().map(|_| ())));
        fault!("read", [libc::SYS_read], errno(&sys::read(0, &mut [0u8; 4]).map(|_| ())));
        fault!("write", [libc::SYS_write], errno(&sys::write(1, b"").map(|_| ())));
        fault!("wait4", [libc::SYS_wait4], errno(&sys::wait4(1, false).map(|_| ())));
        fault!("fstat", [libc::SYS_fstat, libc::SYS_newfstatat], errno(&sys::fstat(1).map(|_| ())));
        fault!("get_file_length", [libc::SYS_fstat, libc::SYS_newfstatat], errno(&sys::get_file_length(1).map(|_| ())));
        fault!("fcntl_getfd", [libc::SYS_fcntl], errno(&sys::fcntl_getfd(1).map(|_| ())));
        fault!("fcntl_setfd", [libc::SYS_fcntl], errno(&sys::fcntl_setfd(1, 0).map(|_| ())));
        fault!("set_cloexec", [libc::SYS_fcntl], errno(&sys::set_cloexec(1)));
        fault!("kill", [libc::SYS_kill], errno(&sys::kill(unsafe { libc::getpid() }, 0)));
        fault!("execve", [libc::SYS_execve], errno(&sys::execve("/bin/true".into(), vec!["true".into()], Default::default())));
        fault!("read_from_file", [libc::SYS_fstat, libc::SYS_newfstatat], errno(&sys::read_from_file(1, 0, None).map(|_| ())));
    }
    // one that leads its session already
    let got = faulted(&[], 0, || { unsafe { libc::setsid() }; errno(&sys::setsid().map(|_| ())) });
    if let Some(got) = got {
        want!(c, "setsid() of a leader", Ok::<_, String>(Some(libc::EPERM)), got);
    }
}

fn round(c: &mut Ctx) {
    let bad = 900 + c.below(50) as i32;
    // close
    want!(c, "close(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::close(bad))));
    let fd = open_null();
    want!(c, "close(open fd)", Ok::<_, String>((None::<i32>, false)), guard(|| (errno(&sys::close(fd)), is_open(fd))));
    // dup2
    let fd = open_null();
    let to = 300 + c.below(100) as i32;
    want!(c, "dup2(fd, n)", Ok::<_, String>((None::<i32>, true)), guard(|| (errno(&sys::dup2(fd, to)), is_open(to))));
    want!(c, "dup2(fd, fd)", Ok::<_, String>(None::<i32>), guard(|| errno(&sys::dup2(fd, fd))));
    unsafe { libc::close(to) };
    want!(c, "dup2(bad, n)", Ok::<_, String>((Some(libc::EBADF), false)), guard(|| (errno(&sys::dup2(bad, to)), is_open(to))));
    want!(c, "dup2(fd, -1)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::dup2(fd, -1))));
    // cloexec
    want!(c, "set_cloexec(fd)", Ok::<_, String>((None::<i32>, Some(1))), guard(|| (errno(&sys::set_cloexec(fd)), sys::fcntl_getfd(fd).ok())));
    want!(c, "set_cloexec(fd) again", Ok::<_, String>((None::<i32>, Some(1))), guard(|| (errno(&sys::set_cloexec(fd)), sys::fcntl_getfd(fd).ok())));
    want!(c, "fcntl_setfd(fd, 0)", Ok::<_, String>((None::<i32>, Some(0))), guard(|| (errno(&sys::fcntl_setfd(fd, 0)), sys::fcntl_getfd(fd).ok())));
    want!(c, "fcntl_getfd(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::fcntl_getfd(bad))));
    want!(c, "fcntl_setfd(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::fcntl_setfd(bad, 0))));
    want!(c, "set_cloexec(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::set_cloexec(bad))));
    want!(c, "fstat(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::fstat(bad).map(|_| ()))));
    want!(c, "get_file_length(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::get_file_length(bad))));
    unsafe { libc::close(fd) };
    // files
    let dir = std::env::current_dir().unwrap();
    let p = dir.join(format!("f{}", c.below(1000)));
    let _ = std::fs::remove_file(&p);
    want!(c, "open(missing)", Ok::<_, String>(Some(3)), guard(|| errno(&sys::open(&p, libc::O_RDONLY, 0))));
    want!(c, "open(NUL)", Ok::<_, String>(true), guard(|| sys::open(std::path::Path::new("a\0b"), libc::O_RDONLY, 0).is_err()));
    let mode = *c.pick(&[0o600, 0o640, 0o444]);
    let f = sys::open(&p, libc::O_RDWR | libc::O_CREAT, mode);
    use std::os::unix::fs::PermissionsExt;
    let um = unsafe { let m = libc::umask(0); libc::umask(m); m };
    want!(c, "open(create) mode", Some(mode as u32 & !um), std::fs::metadata(&p).ok().map(|m| m.permissions().mode() & 0o777));
    if let Ok(f) = f {
        let data = vec![b'x'; c.below(5000)];
        want!(c, "write", Ok::<_, String>(Some(data.len() as isize)), guard(|| sys::write(f, &data).ok()));
        want!(c, "get_file_length", Ok::<_, String>(Some(data.len() as i64)), guard(|| sys::get_file_length(f).ok()));
        want!(c, "fstat", Ok::<_, String>(Some(data.len() as i64)), guard(|| sys::fstat(f).ok().map(|s| s.st_size)));
        unsafe { libc::lseek(f, 0, libc::SEEK_SET) };
        let mut buf = vec![0u8; c.below(6000)];
        let n = buf.len().min(data.len());
        want!(c, "read", Ok::<_, String>((Some(n), true)), guard(|| { let r = sys::read(f, &mut buf).ok(); (r, buf[..n] == data[..n]) }));
        unsafe { libc::close(f) };
        want!(c, "read(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::read(bad, &mut [0u8; 4]))));
        want!(c, "write(bad)", Ok::<_, String>(Some(libc::EBADF)), guard(|| errno(&sys::write(bad, b"abc"))));
    }
    let _ = std::fs::remove_file(&p);
    let t = format!("{}/t-XXXXXX", dir.display());
    want!(c, "mkstemp", Ok::<_, String>(true), guard(|| match sys::mkstemp(&t) {
        Ok((p, fd)) => {
            let ok = p.exists() && is_open(fd) && std::fs::read_link(format!("/proc/self/fd/{fd}")).ok() == Some(p.clone());
            let _ = std::fs::remove_file(p);
            unsafe { libc::close(fd) };
            ok
        }
        Err(_) => false,
    }));
    want!(c, "mkstemp(bad template)", Ok::<_, String>(Some(libc::EINVAL)), guard(|| errno(&sys::mkstemp(&format!("{}/nox", dir.display())))));
    // pipe
    want!(c, "pipe", Ok::<_, String>(Some((1, b'z'))), guard(|| sys::pipe().ok().map(|p| {
        let b = [b'z'];
        let mut r = [0u8];
        unsafe {
            let n = libc::write(p.write, b.as_ptr() as *const _, 1);
            libc::read(p.read, r.as_mut_ptr() as *mut _, 1);
            libc::close(p.read);
            libc::close(p.write);
            (n, r[0])
        }
    })));
    // no descriptors left: every call that makes one fails, with EMFILE
    unsafe {
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut old);
        let mut low = old;
        low.rlim_cur = 3;
        libc::setrlimit(libc::RLIMIT_NOFILE, &low);
        let a = guard(|| errno(&sys::pipe().map(|_| ())));
        let b = guard(|| errno(&sys::open(std::path::Path::new("/dev/null"), libc::O_RDONLY, 0)));
        let d = guard(|| errno(&sys::mkstemp(&t).map(|_| ())));
        libc::setrlimit(libc::RLIMIT_NOFILE, &old);
        want!(c, "pipe() without descriptors", Ok::<_, String>(Some(libc::EMFILE)), a);
        want!(c, "open() without descriptors", Ok::<_, String>(Some(libc::EMFILE)), b);
        want!(c, "mkstemp() without descriptors", Ok::<_, String>(Some(libc::EMFILE)), d);
    }
    // processes: fork, kill, wait
    let code = c.below(256) as i32;
    want!(c, "fork and wait", Ok::<_, String>(Some((true, code << 8))), guard(|| match sys::fork() {
        Ok(0) => unsafe { libc::_exit(code) },
        Ok(pid) => sys::wait(pid, true).map(|(p, s, _)| (p == pid, s)),
        Err(_) => None,
    }));
    let sig = *c.pick(&[libc::SIGTERM, libc::SIGKILL, libc::SIGHUP, libc::SIGUSR1]);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        loop {
            unsafe { libc::pause() };
        }
    }
    want!(c, "wait(running, nonblocking)", Ok::<_, String>(true), guard(|| sys::wait(pid, false).is_none()));
    want!(c, "wait4(running, nonblocking)", Ok::<_, String>(Some(true)), guard(|| sys::wait4(pid, false).ok().map(|x| x.is_none())));
    want!(c, "kill", Ok::<_, String>(None::<i32>), guard(|| errno(&sys::kill(pid, sig))));
    want!(c, "kill: bad signal", Ok::<_, String>(Some(libc::EINVAL)), guard(|| errno(&sys::kill(pid, 1000))));
    // make sure it goes away whatever the code under test did
    std::thread::sleep(std::time::Duration::from_millis(3));
    let mut st = 0;
    let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG | libc::WNOWAIT) };
    let _ = r;
    let t0 = std::time::Instant::now();
    let mut got = None;
    while t0.elapsed().as_millis() < 500 && got.is_none() {
        got = guard(|| sys::wait(pid, false)).unwrap_or(None).map(|(p, s, _)| (p == pid, s));
    }
    if got.is_none() {
        unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0) };
    }
    want!(c, "wait(signalled)", Some((true, sig)), got);
    want!(c, "kill: no such process", Ok::<_, String>(Some(3)), guard(|| errno(&sys::kill(pid, sig))));
    want!(c, "wait4(not a child)", Ok::<_, String>(Some(libc::ECHILD)), guard(|| errno(&sys::wait4(pid, false).map(|_| ()))));
    // exec: in a child, reporting through a pipe
    let mut fds = [0i32; 2];
    unsafe { libc::pipe(fds.as_mut_ptr()) };
    let names = ["A", "B_C", "CC"];
    let nargs = c.below(6);
    let args: Vec<String> = std::iter::once("sh".to_string()).chain(["-c".to_string(), "printf '%s|' \"$@\"; env | grep -v '^PWD=\\|^_=\\|^SHLVL=\\|^OLDPWD=' | sort".to_string(), "x".to_string()])
        .chain((0..nargs).map(|i| format!("a {i}\"'"))).collect();
    let env: procstar::environ::Env = names.iter().take(c.below(4)).map(|n| (n.to_string(), format!("v={}", n))).collect();
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        unsafe {
            libc::dup2(fds[1], 1);
            libc::close(fds[0]);
            libc::close(fds[1]);
        }
        let _ = guard(|| sys::execve("/bin/sh".into(), args.clone(), env.clone()));
        unsafe { libc::_exit(99) };
    }
    unsafe { libc::close(fds[1]) };
    let mut out = String::new();
    let mut f: std::fs::File = unsafe { std::os::fd::FromRawFd::from_raw_fd(fds[0]) };
    let _ = std::io::Read::read_to_string(&mut f, &mut out);
    let _ = f.as_raw_fd();
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let mut ev: Vec<String> = env.iter().map(|(k, v)| format!("{k}={v}\n")).collect();
    ev.sort();
    let mut w: Vec<String> = out.lines().enumerate().map(|(i, l)| if i == 0 { l.rsplit_once('|').map(|x| x.1).unwrap_or(l).to_string() } else { l.to_string() })
        .filter(|l| !l.is_empty()).map(|l| format!("{l}\n")).collect();
    w.sort();
    let wa: String = (0..nargs).map(|i| format!("a {i}\"'|")).collect();
    want!(c, "execve: arguments", true, if nargs == 0 { true } else { out.starts_with(&wa) });
    want!(c, "execve: environment", ev, w);
    want!(c, "execve: missing", Some(3), errno(&in_child_exec("/nonexistent/x")));
}

/// Tries an exec that has to fail.
fn in_child_exec(p: &str) -> std::io::Result<()> {
    sys::execve(p.into(), vec!["x".into()], Default::default())
}

pub fn syscalls(c: &mut Ctx) {
    faults(c);
    let mut n = 0;
    while c.go() && n < 40 {
        n += 1;
        round(c);
    }
}
