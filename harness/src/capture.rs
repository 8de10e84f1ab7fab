//! Captured output: what is written to a captured descriptor against what data requests and results return.
use crate::util::*;
use procstar::fd::{make_fd_handler, Pipes, SharedFdHandler};
use procstar::spec::{CaptureEncoding, CaptureMode, Fd};
use serde_json::{json, Value};

fn open_fds() -> Vec<i32> {
    (0..256).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).collect()
}

fn base64(b: &[u8]) -> String {
    let t: Vec<char> = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/".chars().collect();
    let mut r = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            r.push(if i <= c.len() { t[(n >> (18 - 6 * i) & 63) as usize] } else { '=' });
        }
    }
    r
}

fn check(h: &SharedFdHandler, text: bool, attached: bool, data: &[u8], range: (usize, Option<usize>)) -> Option<(Value, Value, Value)> {
    let (start, stop) = range;
    let end = stop.map_or(data.len(), |s| s.min(data.len()));
    let want = if start < end { data[start..end].to_vec() } else { vec![] };
    match guard(|| h.get_data(start, stop)) {
        Ok(Ok(Some(d))) if d.data == want && d.encoding.is_some() == text => {}
        r => {
            let got = match r {
                Ok(Ok(Some(d))) => json!({"len": d.data.len(), "text": d.encoding.is_some(), "data": d.data[..d.data.len().min(60)]}),
                Ok(Ok(None)) => json!("none"),
                Ok(Err(e)) => json!(e.to_string()),
                Err(p) => json!({"panic": p}),
            };
            return Some((json!({"get_data": [start, stop]}), json!({"len": want.len(), "text": text, "data": want[..want.len().min(60)]}), got));
        }
    }
    let want = match (attached, text) {
        (true, true) => json!({"type": "text", "text": String::from_utf8_lossy(data), "encoding": "utf-8"}),
        (true, false) => json!({"type": "data", "data": base64(data), "encoding": "base64"}),
        (false, _) => json!({"type": "detached", "length": data.len(), "encoding": if text { "utf-8" } else { "base64" }}),
    };
    let got = match guard(|| h.get_result()) {
        Ok(Ok(Some(r))) => serde_json::to_value(&r).unwrap(),
        Ok(Ok(None)) => json!("none"),
        Ok(Err(e)) => json!(e.to_string()),
        Err(p) => json!({"panic": p}),
    };
    if got != want {
        return Some((json!("get_result"), want, got));
    }
    None
}

pub fn capture(c: &mut Ctx) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let mut lens = vec![0usize, 1, 2, 3, 4, 5, 7, 63, 64, 65, 100, 1000, 4095, 4096, 4097, 65535, 65536, 65537, 100000];
    lens.extend(c.ints.iter().filter(|i| **i >= 0 && **i < 30000000).map(|i| *i as usize));
    while c.go() {
        let local = tokio::task::LocalSet::new();
        let temp = c.below(2) == 0;
        let text = c.below(2) == 0;
        let attached = c.below(3) > 0;
        let n = *c.pick(&lens);
        let mut data: Vec<u8> = (0..n).map(|i| if text { b'a' + (i % 23) as u8 } else { ((i * 7 + i / 251) % 256) as u8 }).collect();
        if text && n > 10 && c.below(2) == 0 {
            data[3..5].copy_from_slice("é".as_bytes());
            data[n - 1] = 0xff;
        }
        let mut ranges = vec![];
        for _ in 0..6 {
            let a = match c.below(5) { 0 => 0, 1 => n, 2 => n + c.below(100), 3 => usize::MAX >> c.below(2), _ => c.below(n + 2) };
            let b = match c.below(5) { 0 => None, 1 => Some(n), 2 => Some(n + c.below(1000)), 3 => Some(usize::MAX >> c.below(2)), _ => Some(c.below(n + 2)) };
            if a <= i64::MAX as usize || !temp { ranges.push((a, b)); }
        }
        let piece = *c.pick(&[1usize, 3, 500, 4096, 65536, 70000]);
        let piece = if n > 5000 { piece.max(4096) } else if n > 300 { piece.max(100) } else { piece };
        let piece = if temp { piece } else { piece.min(60000) };
        let desc = json!({"capture": if temp { "tempfile" } else { "memory" }, "text": text, "attached": attached, "bytes": n, "written in pieces of": piece});
        c.eval(|| desc.clone());
        let bad: Option<(Value, Value, Value)> = local.block_on(&rt, async {
            let before = open_fds();
            let mut pipes = Pipes::new();
            let spec = Fd::Capture {
                mode: if temp { CaptureMode::TempFile } else { CaptureMode::Memory },
                encoding: if text { Some(CaptureEncoding::Utf8) } else { None },
                attached,
            };
            let (_, h) = make_fd_handler(&"p".to_owned(), "stdout".to_owned(), spec, &mut pipes);
            let new: Vec<i32> = open_fds().into_iter().filter(|f| !before.contains(f)).collect();
            if new.len() != if temp { 1 } else { 2 } {
                return Some((json!("making the handler"), json!("its descriptors"), json!(new)));
            }
            let w = unsafe { libc::dup(*new.iter().find(|f| libc::fcntl(**f, libc::F_GETFL) & libc::O_ACCMODE != libc::O_RDONLY).unwrap()) };
            let task = match h.in_parent() {
                Ok(t) => t,
                Err(e) => return Some((json!("in_parent"), json!("ok"), json!(e.to_string()))),
            };
            let mut pos = 0;
            while pos < n {
                let k = piece.min(n - pos);
                let m = unsafe { libc::write(w, data[pos..].as_ptr() as *const _, k) };
                if m <= 0 {
                    return Some((json!("writing at the position of the process"), json!(k), json!(m)));
                }
                pos += m as usize;
                if !temp {
                    // let the task drain what was written
                    for _ in 0..200 {
                        tokio::task::yield_now().await;
                        if let Ok(Some(d)) = h.get_data(0, None) {
                            if d.data.len() >= pos { break; }
                        }
                        if tokio::time::timeout(std::time::Duration::from_millis(1), std::future::pending::<()>()).await.is_ok() { break; }
                    }
                }
                if pos < n && (pos / piece) % 7 == 3 {
                    if let Some(b) = check(&h, text, attached, &data[..pos], (pos / 2, None)) { return Some(b); }
                }
            }
            for r in &ranges {
                if let Some(b) = check(&h, text, attached, &data, *r) { return Some(b); }
            }
            if temp {
                let off = unsafe { libc::lseek(w, 0, libc::SEEK_CUR) };
                if off != n as i64 {
                    return Some((json!("position of the process after reading"), json!(n), json!(off)));
                }
            }
            unsafe { libc::close(w) };
            if let Some(t) = task {
                match tokio::time::timeout(std::time::Duration::from_secs(5), t).await {
                    Ok(Ok(Ok(()))) => {}
                    Ok(r) => return Some((json!("draining task"), json!("ok"), json!(format!("{r:?}")))),
                    Err(_) => return Some((json!("draining task at end of file"), json!("ends"), json!("still running"))),
                }
            }
            for r in &ranges {
                if let Some(b) = check(&h, text, attached, &data, *r) { return Some(b); }
            }
            drop(h);
            let left: Vec<i32> = open_fds().into_iter().filter(|f| !before.contains(f)).collect();
            if !left.is_empty() {
                for fd in &left { unsafe { libc::close(*fd) }; }
                return Some((json!("descriptors after the capture is dropped"), json!([]), json!(left)));
            }
            None
        });
        if let Some((what, want, got)) = bad {
            c.fail(json!({"scenario": desc, "call": what}), want, got);
        }
    }
    for other in [Fd::Inherit, Fd::Close, Fd::Dup { fd: 1 }] {
        let (_, h) = make_fd_handler(&"p".to_owned(), "5".to_owned(), other, &mut Pipes::new());
        c.eval(|| json!("not captured"));
        if !matches!(guard(|| h.get_data(0, None)), Ok(Ok(None))) || !matches!(guard(|| h.get_result()), Ok(Ok(None))) {
            c.fail(json!("not captured"), json!("no data, no result"), json!("something"));
        }
    }
}
