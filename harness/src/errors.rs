//! Errors of a child before exec, written in a real child and read in the parent.
use crate::util::*;
use procstar::err_pipe::ErrorPipe;
use serde_json::json;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Duration;

// ---- write(2) in the child takes at most CHUNK bytes at once, and ends the child after LEFT bytes
static CHUNK: AtomicI64 = AtomicI64::new(0);
static LEFT: AtomicI64 = AtomicI64::new(-1);

#[no_mangle]
pub extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, n: libc::size_t) -> libc::ssize_t {
    let mut k = n as i64;
    let c = CHUNK.load(Ordering::SeqCst);
    if c > 0 {
        k = k.min(c);
        let left = LEFT.load(Ordering::SeqCst);
        if left >= 0 {
            if left == 0 {
                unsafe { libc::_exit(1) }
            }
            k = k.min(left);
            LEFT.store(left - k, Ordering::SeqCst);
        }
    }
    unsafe { libc::syscall(libc::SYS_write, fd as i64, buf, k) as isize }
}

fn message(c: &mut Ctx) -> String {
    if c.below(6) == 0 && !c.strs.is_empty() {
        let s = c.strs.clone();
        return c.pick(&s).clone();
    }
    let n = match c.below(4) {
        0 => *c.pick(&[0usize, 1, 2, 127, 128, 255, 256, 257, 4095, 4096, 4097, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 131072]),
        1 => c.below(70000),
        _ => c.below(100),
    };
    let unit = *c.pick(&["x", "error: ", "é", "\n", "\0", "漢字"]);
    let mut s = String::new();
    while s.len() + unit.len() <= n {
        s.push_str(unit);
    }
    s
}

pub fn errors(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    while c.go() {
        let msgs: Vec<String> = (0..c.below(5)).map(|_| message(c)).collect();
        let enc: Vec<Vec<u8>> = msgs.iter().map(|m| m.as_bytes()[..m.len().min(65535)].to_vec()).collect();
        let total: usize = enc.iter().map(|e| 2 + e.len()).sum();
        let chunk = if c.below(2) == 0 { 1 << 30 } else { *c.pick(&[1i64, 2, 3, 100, 4096, 50000]) };
        let left = if c.below(3) == 0 && total > 0 { c.below(total) as i64 } else { -1 };
        let exec = left < 0 && c.below(4) == 0;
        if chunk < 100 && total > 20000 { continue }
        let input = json!({"messages (length, start)": msgs.iter().map(|m| json!([m.len(), m.chars().take(8).collect::<String>()])).collect::<Vec<_>>(),
            "bytes per write": if chunk == 1 << 30 { json!("all") } else { json!(chunk) }, "child dies after bytes": if left < 0 { json!(null) } else { json!(left) },
            "then": if exec { "execs" } else { "exits" }});
        c.eval(|| input.clone());
        // what must arrive
        let (mut want, mut damaged, mut pos) = (vec![], Some(false), 0i64);
        for e in &enc {
            let end = pos + 2 + e.len() as i64;
            if left >= 0 && end > left {
                damaged = match left - pos { 0 => Some(false), 1 => None, _ => Some(true) };
                break;
            }
            want.push(String::from_utf8_lossy(e).to_string());
            pos = end;
        }
        let pipe = match guard(ErrorPipe::new) { Ok(Ok(p)) => p, r => return c.fail(input, json!("a pipe"), json!(r.err())) };
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            CHUNK.store(chunk, Ordering::SeqCst);
            LEFT.store(left, Ordering::SeqCst);
            let ok = guard(|| {
                let w = pipe.in_child().unwrap();
                for m in &msgs {
                    w.try_write(m.clone());
                }
            });
            if ok.is_err() { unsafe { libc::_exit(2) } }
            if exec {
                let a = [b"/bin/sleep\0".as_ptr() as *const i8, b"20\0".as_ptr() as *const i8, std::ptr::null()];
                unsafe { libc::execv(a[0], a.as_ptr()) };
            }
            unsafe { libc::_exit(0) }
        }
        let got = guard(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(4), pipe.in_parent()).await.ok() }));
        unsafe {
            libc::syscall(libc::SYS_kill, pid as i64, 9i64);
            libc::waitpid(pid, std::ptr::null_mut(), 0);
        }
        let short = |v: &Vec<String>| json!(v.iter().map(|m| json!([m.len(), m.chars().take(12).collect::<String>()])).collect::<Vec<_>>());
        let ok = match &got {
            Ok(Some(g)) => g.len() >= want.len() && g[..want.len()] == want[..] && match damaged { Some(d) => g.len() == want.len() + d as usize, None => g.len() <= want.len() + 1 },
            _ => false,
        };
        if !ok {
            let g = match &got { Ok(Some(g)) => short(g), Ok(None) => json!("no end within 4 s"), Err(p) => json!({"panic": p}) };
            return c.fail(input, json!({"errors (length, start)": short(&want), "and one for the damaged message": damaged}), g);
        }
    }
}
