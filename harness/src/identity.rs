//! What the agent says about itself: ids, names and host name, for other ids and host names than those of this process.
use crate::util::*;
use procstar::procinfo::ProcessInfo;
use serde_json::{json, Value};

/// Name of an id in a file like /etc/passwd; the first entry counts.
fn name_in(file: &str, id: u32) -> Value {
    let text = String::from_utf8_lossy(&std::fs::read(file).unwrap_or_default()).into_owned();
    for line in text.lines() {
        let f: Vec<&str> = line.split(':').collect();
        if f.len() > 2 && f[2].parse() == Ok(id) {
            return json!(f[0]);
        }
    }
    Value::Null
}

/// Runs f in a child process and returns what it gives; none if it can't tell.
fn in_child(f: impl FnOnce() -> Option<Value>) -> Option<Value> {
    let mut ends = [0; 2];
    assert_eq!(unsafe { libc::pipe(ends.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        let text = f().map_or(String::new(), |v| v.to_string());
        unsafe {
            libc::write(ends[1], text.as_ptr() as *const _, text.len());
            libc::_exit(0);
        }
    }
    unsafe { libc::close(ends[1]) };
    let mut got = vec![];
    use std::os::unix::io::FromRawFd;
    std::io::Read::read_to_end(&mut unsafe { std::fs::File::from_raw_fd(ends[0]) }, &mut got).unwrap();
    unsafe { libc::waitpid(pid, &mut 0, 0) };
    serde_json::from_slice(&got).ok()
}

fn told() -> Value {
    match guard(|| serde_json::to_value(ProcessInfo::new_self()).unwrap()) {
        Ok(v) => v,
        Err(e) => json!({"panic": e}),
    }
}

pub fn identity(c: &mut Ctx) {
    let mut i = 0;
    while c.go() && i < 150 {
        i += 1;
        let (which, want, got) = if i % 2 == 1 {
            // a host name of its own
            let n = match i { 1 => 64, 3 => 63, 5 => 1, _ => 1 + c.below(64) };
            let host: String = (0..n).map(|_| *c.pick(&['a', 'z', '0', '-', '.', 'Q'])).collect();
            let h = host.clone();
            let got = in_child(move || unsafe {
                (libc::unshare(libc::CLONE_NEWUSER | libc::CLONE_NEWUTS) == 0 && libc::sethostname(h.as_ptr() as *const _, h.len()) == 0).then(told)
            });
            (json!({"host name": host}), json!({"hostname": host}), got)
        } else {
            // ids of its own: the effective ones other than the real ones
            let ids: Vec<u32> = (0..4).map(|_| *c.pick(&[0u32, 1, 2, 3, 8, 33, 65534, 77777, 100])).collect();
            let (ru, eu, rg, eg) = (ids[0], ids[1], ids[2], ids[3]);
            let got = in_child(move || unsafe { (libc::setresgid(rg, eg, eg) == 0 && libc::setresuid(ru, eu, eu) == 0).then(told) });
            let want = json!({"uid": ru, "euid": eu, "gid": rg, "egid": eg, "username": name_in("/etc/passwd", eu), "groupname": name_in("/etc/group", eg)});
            (json!({"real uid": ru, "effective uid": eu, "real gid": rg, "effective gid": eg}), want, got)
        };
        let got = match got {
            Some(g) => g,
            None => continue,
        };
        c.eval(|| which.clone());
        if want.as_object().unwrap().iter().any(|(k, v)| got.get(k) != Some(v)) {
            c.fail(which, want, got);
        }
    }
}
