From 8d4219e2eb91e59cf46be67c8187b83d581db8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 01/29] fix: report a path containing NUL as an open error
 instead of panicking

---
 src/sys.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys.rs b/src/sys.rs
index b2a3883..e865cc0 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -164,7 +164,7 @@ pub fn mkstemp(template: &str) -> io::Result<(PathBuf, fd_t)> {
 
 pub fn open(path: &Path, oflag: c_int, mode: c_int) -> io::Result<fd_t> {
     let fd = unsafe {
-        let path = CString::new(path.to_str().unwrap()).unwrap();
+        let path = CString::new(path.to_str().unwrap())?;
         libc::open(path.as_ptr() as *const i8, oflag, mode)
     };
     match fd {
-- 
2.43.0


From 129293cc32bb3ecd5575dbd0b742417d97eb9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:43 +0000
Subject: [PATCH 02/29] fix: keep a proc's fd open when its handler's own fd
 has the same number

---
 src/fd.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index 8abb461..cda6031 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -2,6 +2,7 @@ use libc::c_int;
 use log::*;
 use std::cell::RefCell;
 use std::collections::BTreeMap;
+use std::mem::ManuallyDrop;
 use std::os::fd::RawFd;
 use std::path::PathBuf;
 use std::rc::Rc;
@@ -269,6 +270,18 @@ impl Pipes {
 
 //------------------------------------------------------------------------------
 
+/// Moves an open file from `from_fd` to `fd`, leaving `from_fd` closed, unless
+/// they are the same.
+fn move_fd(from_fd: RawFd, fd: RawFd) -> Result<()> {
+    if from_fd != fd {
+        sys::dup2(from_fd, fd)?;
+        sys::close(from_fd)?;
+    }
+    Ok(())
+}
+
+//------------------------------------------------------------------------------
+
 pub struct SharedFdHandler(Rc<RefCell<FdHandler>>);
 
 /// Implements the handling of a file descriptor for a proc.
@@ -405,7 +418,9 @@ impl SharedFdHandler {
     }
 
     pub fn in_child(self) -> Result<()> {
-        match Rc::into_inner(self.0).unwrap().into_inner() {
+        // Don't drop the handler: its fd may be the one we leave for the proc.
+        let mut handler = ManuallyDrop::new(Rc::into_inner(self.0).unwrap().into_inner());
+        match *handler {
             FdHandler::Inherit => {}
 
             FdHandler::Error { ref mut err } => return Err(std::mem::replace(err, Error::None)),
@@ -427,17 +442,11 @@ impl SharedFdHandler {
                 mode,
             } => {
                 let file_fd = sys::open(&path, oflags, mode)?;
-                if file_fd != fd {
-                    sys::dup2(file_fd, fd)?;
-                    sys::close(file_fd)?;
-                }
+                move_fd(file_fd, fd)?;
             }
 
             FdHandler::UnlinkedFile { fd, file_fd, .. } => {
-                if file_fd != fd {
-                    sys::dup2(file_fd, fd)?;
-                    // Don't close file_fd; we'll close it in FdHandler::drop().
-                }
+                move_fd(file_fd, fd)?;
             }
 
             FdHandler::CaptureMemory {
@@ -449,20 +458,17 @@ impl SharedFdHandler {
                 // In the child, don't read from the pipe.
                 sys::close(read_fd)?;
                 // Attach the write pipe to the target fd.
-                sys::dup2(write_fd, fd)?;
-                sys::close(write_fd)?;
+                move_fd(write_fd, fd)?;
             }
 
             FdHandler::PipeWrite { fd, pipe_write_fd } => {
                 // Attach the write pipe to the target fd.
-                sys::dup2(pipe_write_fd, fd)?;
-                sys::close(pipe_write_fd)?;
+                move_fd(pipe_write_fd, fd)?;
             }
 
             FdHandler::PipeRead { fd, pipe_read_fd } => {
                 // Attach the read pipe to the target fd.
-                sys::dup2(pipe_read_fd, fd)?;
-                sys::close(pipe_read_fd)?;
+                move_fd(pipe_read_fd, fd)?;
             }
         }
 
-- 
2.43.0


From 1d60061033193d0c1370e7071c0be53921c5b6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 03/29] fix: read captured output without closing the fd or
 moving its shared offset

---
 src/sys.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index e865cc0..3beb6a9 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -4,9 +4,9 @@ use libc::{c_int, gid_t, pid_t, rusage, ssize_t, uid_t};
 use std::ffi::CString;
 use std::fs;
 use std::io;
-use std::io::{Read, Seek};
-use std::mem::MaybeUninit;
-use std::os::fd::{FromRawFd, IntoRawFd, RawFd};
+use std::mem::{ManuallyDrop, MaybeUninit};
+use std::os::fd::{FromRawFd, RawFd};
+use std::os::unix::fs::FileExt;
 use std::path::{Path, PathBuf};
 use std::string::String;
 use std::vec::Vec;
@@ -205,24 +205,14 @@ pub fn read(fd: fd_t, buf: &mut [u8]) -> io::Result<usize> {
 /// Reads the contents of a file, starting from position `start`, until position
 /// `stop` or the end.
 pub fn read_from_file(fd: RawFd, start: u64, stop: Option<u64>) -> io::Result<Vec<u8>> {
-    // Wrap the fd in a file object, for convenience.  This takes ownership of the fd.
-    let mut file = unsafe { fs::File::from_raw_fd(fd) };
-    // Seek to front.
-    file.seek(std::io::SeekFrom::Start(start))?;
-    let buf = if let Some(stop) = stop {
-        // Read to indicated stop position.
-        let mut buf = vec![0; if start < stop { stop - start } else { 0 } as usize];
-        file.read_exact(&mut buf)?;
-        buf
-    } else {
-        // Read entire contents.
-        let mut buf = Vec::<u8>::new();
-        file.read_to_end(&mut buf)?;
-        buf
-    };
-
-    // Take back ownership of the fd.
-    assert!(file.into_raw_fd() == fd);
+    // Wrap the fd in a file object, for convenience, but don't take ownership of the fd.
+    let file = ManuallyDrop::new(unsafe { fs::File::from_raw_fd(fd) });
+    // Don't read past the end.
+    let len = get_file_length(fd)? as u64;
+    let stop = stop.map_or(len, |s| s.min(len));
+    // Read at a position, as the file offset may be shared with another process.
+    let mut buf = vec![0; stop.saturating_sub(start) as usize];
+    file.read_exact_at(&mut buf, start)?;
     Ok(buf)
 }
 
-- 
2.43.0


From b7d195127ad17cdef86c52361027a76193597114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 04/29] fix: clamp the requested range of fd data captured in
 memory

---
 src/fd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fd.rs b/src/fd.rs
index cda6031..d5504ce 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -486,9 +486,9 @@ impl SharedFdHandler {
             }),
 
             FdHandler::CaptureMemory { buf, encoding, .. } => {
-                let stop = stop.unwrap_or_else(|| buf.len());
+                let stop = stop.map_or(buf.len(), |s| s.min(buf.len()));
                 Some(FdData {
-                    data: buf[start..stop].to_vec(),
+                    data: buf[start.min(stop)..stop].to_vec(),
                     encoding: *encoding,
                 })
             }
-- 
2.43.0


From feed42f46cf823b3f95b13ec7c9666cb4e3e1252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 05/29] fix: don't panic on the status of a proc killed by an
 unnamed signal

---
 src/res.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/res.rs b/src/res.rs
index ac283a9..08b46c9 100644
--- a/src/res.rs
+++ b/src/res.rs
@@ -183,7 +183,7 @@ impl Status {
                 (None, Some(libc::WTERMSIG(status)), libc::WCOREDUMP(status))
             }
         };
-        let signal = signum.map(|s| sig::get_abbrev(s).unwrap().to_owned());
+        let signal = signum.and_then(|s| sig::get_abbrev(s).map(|a| a.to_owned()));
         Self {
             status,
             exit_code,
-- 
2.43.0


From 2b7aeee8a00c86840dfa219de787f5103b8b414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 06/29] fix: don't signal the pid of a proc that was already
 reaped

---
 src/procs.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/procs.rs b/src/procs.rs
index d8eb0de..eebe41f 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -67,6 +67,10 @@ impl Proc {
     }
 
     pub fn send_signal(&self, signum: Signum) -> Result<(), Error> {
+        if self.wait_info.is_some() {
+            // Already reaped; the pid may belong to another process by now.
+            return Err(Error::NoProc);
+        }
         match kill(self.pid, signum) {
             Ok(()) => Ok(()),
             Err(err) if err.kind() == std::io::ErrorKind::NotFound => Err(Error::NoProc),
-- 
2.43.0


From abfcb1909380d462494fc386c03727ba139ba5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 07/29] fix: don't panic on a spec with neither exe nor argv

---
 src/procs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index eebe41f..b21b6b7 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -518,7 +518,7 @@ pub fn get_restricted_exe() -> Option<String> {
 /// Returns the path to the executable to exec for the process.
 fn get_exe(exe: Option<String>, argv: &Vec<String>) -> String {
     // Use the explicit exe, if given, else argv[0] per convention.
-    exe.unwrap_or(argv[0].clone())
+    exe.or_else(|| argv.first().cloned()).unwrap_or_default()
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From da4ab4b00d21038a687213de940582407790bc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 08/29] fix: report NUL in exe, argv, or env as an exec error
 instead of panicking in the child

---
 src/sys.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 3beb6a9..23d481d 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -38,16 +38,16 @@ impl CStringVec {
     }
 }
 
-impl<T> From<T> for CStringVec
-where
-    T: IntoIterator<Item = String>,
-{
-    fn from(strings: T) -> Self {
+impl CStringVec {
+    fn new<T>(strings: T) -> io::Result<Self>
+    where
+        T: IntoIterator<Item = String>,
+    {
         // Build nul-terminated strings.
         let strs = strings
             .into_iter()
-            .map(|s| CString::new(s).unwrap())
-            .collect::<Vec<_>>();
+            .map(|s| Ok(CString::new(s)?))
+            .collect::<io::Result<Vec<_>>>()?;
 
         // Grab their pointers into an array.
         let mut ptrs = strs
@@ -57,7 +57,7 @@ where
         // NULL-terminate the pointer array.
         ptrs.push(std::ptr::null());
 
-        Self { strs, ptrs }
+        Ok(Self { strs, ptrs })
     }
 }
 
@@ -82,7 +82,8 @@ pub fn dup2(fd: fd_t, fd2: fd_t) -> io::Result<()> {
 }
 
 pub fn execv(exe: String, args: Vec<String>) -> io::Result<()> {
-    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, CStringVec::from(args).as_ptr()) };
+    let exe = CString::new(exe)?;
+    let res = unsafe { libc::execv(exe.as_ptr() as *const i8, CStringVec::new(args)?.as_ptr()) };
     // execv only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
@@ -95,14 +96,10 @@ pub fn execve(exe: String, args: Vec<String>, env: Env) -> io::Result<()> {
         .map(|(n, v)| format!("{}={}", n, v))
         .collect();
 
-    let exe = CString::new(exe).unwrap();
-    let res = unsafe {
-        libc::execve(
-            exe.as_ptr() as *const i8,
-            CStringVec::from(args).as_ptr(),
-            CStringVec::from(env).as_ptr(),
-        )
-    };
+    let exe = CString::new(exe)?;
+    let args = CStringVec::new(args)?;
+    let env = CStringVec::new(env)?;
+    let res = unsafe { libc::execve(exe.as_ptr() as *const i8, args.as_ptr(), env.as_ptr()) };
     // execve only returns on failure, with result -1.
     assert!(res == -1);
     Err(io::Error::last_os_error())
-- 
2.43.0


From f76eb2a02b56b2e9d250a59a5a911fe6b87b97ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 09/29] fix: report a failure to close leftover pipes instead
 of panicking in the child

---
 src/procs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index b21b6b7..fbd4cb8 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -605,7 +605,10 @@ pub fn start_procs(
                     });
                 }
                 // Close remaining pipes, having dup'ed those we connect to.
-                pipes.close().unwrap();
+                if let Err(err) = pipes.close() {
+                    error_writer.try_write(format!("failed to close pipes: {}", err));
+                    ok_to_exec = false;
+                }
 
                 // Put the child process into a new session, to avoid
                 // getting signals from the parent process group.
-- 
2.43.0


From cfd0c8809b27eabc4618302e4c1e9dbc4cabeb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:23 +0000
Subject: [PATCH 10/29] fix: truncate an overlong error message instead of
 panicking in the child

---
 src/err_pipe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 0cdcce9..7a31086 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -37,14 +37,14 @@ pub struct ErrorWriter {
 impl ErrorWriter {
     pub fn write(&self, error: String) -> Result<()> {
         let bytes = error.as_bytes();
-        // Encode the message len, which cannot be more than 64.
-        assert!(bytes.len() <= u16::MAX as usize);
+        // Encode the message len in two bytes; cut off a longer message.
+        let bytes = &bytes[..bytes.len().min(u16::MAX as usize)];
         let mut len = BytesMut::with_capacity(2);
         len.put_u16_le(bytes.len() as u16);
 
         // Write sync through the raw fd.
         fdio::write(self.write_fd, &len)?;
-        fdio::write(self.write_fd, &bytes)
+        fdio::write(self.write_fd, bytes)
     }
 
     /// Like [`write`], but ignores errors.
-- 
2.43.0


From ff45b9df22dc9e0075dc3f522f353888afe60e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 11/29] fix: reject negative fd data positions, and report the
 actual end of fd data sent

---
 src/proto.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proto.rs b/src/proto.rs
index 8e7a107..7b983c6 100644
--- a/src/proto.rs
+++ b/src/proto.rs
@@ -240,6 +240,9 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
             start,
             stop,
         } => match parse_fd(fd_name) {
+            Ok(_) if start < 0 || stop.is_some_and(|s| s < 0) => {
+                Some(incoming_error(msg, "negative fd data position"))
+            }
             Ok(fd) => {
                 if let Some(proc) = procs.get(proc_id) {
                     match proc
@@ -250,7 +253,7 @@ pub async fn handle_incoming(procs: &SharedProcs, msg: IncomingMessage) -> Optio
                             proc_id: proc_id.clone(),
                             fd: fd_name.clone(),
                             start,
-                            stop: stop.unwrap_or_else(|| start + (data.len() as i64)),
+                            stop: start + (data.len() as i64),
                             encoding,
                             data,
                         }),
-- 
2.43.0


From dc920384b51e07b6d6091c418f55729dd9760d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:36 +0000
Subject: [PATCH 12/29] fix: announce the last deletion before completing
 shutdown, so that the server hears of it

---
 src/procs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procs.rs b/src/procs.rs
index fbd4cb8..e75668c 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -312,8 +312,8 @@ impl SharedProcs {
         // OK, we can proceed with removing.
         let proc = procs.procs.remove(proc_id).unwrap();
         drop(procs);
-        self.check_idling();
         self.notify(Notification::Delete(proc_id.clone()));
+        self.check_idling();
         Ok(proc)
     }
 
-- 
2.43.0


From 6f4f08f9019a15c7e345fc82d0abc89b50f26757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:42 +0000
Subject: [PATCH 13/29] fix: write the rest after a short write instead of
 panicking

---
 src/fdio.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fdio.rs b/src/fdio.rs
index a6e0da4..9468a20 100644
--- a/src/fdio.rs
+++ b/src/fdio.rs
@@ -39,14 +39,16 @@ pub fn read_usize(fd: fd_t) -> Result<usize> {
     }
 }
 
-pub fn write(fd: fd_t, data: &[u8]) -> Result<()> {
-    match sys::write(fd, data)? {
-        n if n as usize == data.len() => Ok(()),
-        0 => Err(Error::Eof),
-        // FIXME: Handle short write.
-        // FIXME: Handle EAGAIN.
-        n => panic!("short write: {} {}", data.len(), n),
+pub fn write(fd: fd_t, mut data: &[u8]) -> Result<()> {
+    // FIXME: Handle EAGAIN.
+    while !data.is_empty() {
+        match sys::write(fd, data)? as usize {
+            0 => return Err(Error::Eof),
+            // Continue with the rest after a short write.
+            n => data = &data[n..],
+        }
     }
+    Ok(())
 }
 
 /// Writes a string to `fd`.
-- 
2.43.0


From 3a49368df87650b6858a83daf6360e7e0ef06c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 14/29] fix: exit instead of panicking in the child if its
 error pipe can't be set up

---
 src/err_pipe.rs | 2 +-
 src/procs.rs    | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 7a31086..986d171 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -121,7 +121,7 @@ impl ErrorPipe {
         let ErrorPipe { read_fd, write_fd } = self;
 
         // Close the read pipe.
-        sys::close(read_fd).unwrap();
+        sys::close(read_fd)?;
 
         // Since the pipe is CLOEXEC, so the write pipe will close automatically
         // in the child process when it exec's.
diff --git a/src/procs.rs b/src/procs.rs
index e75668c..3c8281c 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -585,7 +585,11 @@ pub fn start_procs(
                 // In the child process.
 
                 // Set up to write errors, if any, back to the parent.
-                let error_writer = error_pipe.in_child().unwrap();
+                let error_writer = error_pipe.in_child().unwrap_or_else(|err| {
+                    // Don't unwind into the parent's code.
+                    error!("failed to set up error pipe: {}", err);
+                    std::process::exit(63);
+                });
                 // True if we should finally exec.
                 let mut ok_to_exec = true;
 
-- 
2.43.0


From 701125daa700c95539f1d4e73e1daae50f9cf2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:47 +0000
Subject: [PATCH 15/29] fix: keep private fds in the child clear of the fds of
 the proc

---
 src/err_pipe.rs |  7 +++++++
 src/fd.rs       | 33 ++++++++++++++++++++++++++++++++-
 src/procs.rs    | 27 ++++++++++++++++++++-------
 src/sys.rs      |  9 +++++++++
 4 files changed, 68 insertions(+), 8 deletions(-)

diff --git a/src/err_pipe.rs b/src/err_pipe.rs
index 986d171..bfea3dd 100644
--- a/src/err_pipe.rs
+++ b/src/err_pipe.rs
@@ -1,10 +1,12 @@
 use bytes::{BufMut, BytesMut};
+use std::collections::HashSet;
 use std::io;
 use std::os::fd::RawFd;
 use tokio::io::AsyncReadExt;
 use tokio_pipe::PipeRead;
 
 use crate::err::Result;
+use crate::fd::avoid_fds;
 use crate::fdio;
 use crate::sys;
 
@@ -35,6 +37,11 @@ pub struct ErrorWriter {
 }
 
 impl ErrorWriter {
+    /// Keeps the pipe clear of the fds of the proc.
+    pub fn avoid_fds(&mut self, fds: &HashSet<RawFd>) -> Result<()> {
+        avoid_fds(&mut self.write_fd, fds)
+    }
+
     pub fn write(&self, error: String) -> Result<()> {
         let bytes = error.as_bytes();
         // Encode the message len in two bytes; cut off a longer message.
diff --git a/src/fd.rs b/src/fd.rs
index d5504ce..82ffc45 100644
--- a/src/fd.rs
+++ b/src/fd.rs
@@ -1,7 +1,7 @@
 use libc::c_int;
 use log::*;
 use std::cell::RefCell;
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, HashSet};
 use std::mem::ManuallyDrop;
 use std::os::fd::RawFd;
 use std::path::PathBuf;
@@ -282,6 +282,16 @@ fn move_fd(from_fd: RawFd, fd: RawFd) -> Result<()> {
 
 //------------------------------------------------------------------------------
 
+/// Moves an open file to another fd, if its fd is one of `fds`.
+pub fn avoid_fds(fd: &mut RawFd, fds: &HashSet<RawFd>) -> Result<()> {
+    while fds.contains(fd) {
+        let new_fd = sys::dup_above(*fd, *fd + 1)?;
+        let old_fd = std::mem::replace(fd, new_fd);
+        sys::close(old_fd)?;
+    }
+    Ok(())
+}
+
 pub struct SharedFdHandler(Rc<RefCell<FdHandler>>);
 
 /// Implements the handling of a file descriptor for a proc.
@@ -417,6 +427,27 @@ impl SharedFdHandler {
         })
     }
 
+    /// Called in the child process, before `in_child()` of any handler: keeps
+    /// the handler's own fds clear of `fds`, the fds of the proc.
+    pub fn avoid_fds(&self, fds: &HashSet<RawFd>) -> Result<()> {
+        match &mut *self.0.borrow_mut() {
+            FdHandler::UnlinkedFile { file_fd, .. } => avoid_fds(file_fd, fds),
+
+            FdHandler::CaptureMemory {
+                read_fd, write_fd, ..
+            } => {
+                avoid_fds(read_fd, fds)?;
+                avoid_fds(write_fd, fds)
+            }
+
+            FdHandler::PipeWrite { pipe_write_fd, .. } => avoid_fds(pipe_write_fd, fds),
+
+            FdHandler::PipeRead { pipe_read_fd, .. } => avoid_fds(pipe_read_fd, fds),
+
+            _ => Ok(()),
+        }
+    }
+
     pub fn in_child(self) -> Result<()> {
         // Don't drop the handler: its fd may be the one we leave for the proc.
         let mut handler = ManuallyDrop::new(Rc::into_inner(self.0).unwrap().into_inner());
diff --git a/src/procs.rs b/src/procs.rs
index 3c8281c..d9684ae 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -585,7 +585,7 @@ pub fn start_procs(
                 // In the child process.
 
                 // Set up to write errors, if any, back to the parent.
-                let error_writer = error_pipe.in_child().unwrap_or_else(|err| {
+                let mut error_writer = error_pipe.in_child().unwrap_or_else(|err| {
                     // Don't unwind into the parent's code.
                     error!("failed to set up error pipe: {}", err);
                     std::process::exit(63);
@@ -602,18 +602,31 @@ pub fn start_procs(
                     }
                 }
 
+                // Close remaining pipes, which we don't connect to.
+                if let Err(err) = pipes.close() {
+                    error_writer.try_write(format!("failed to close pipes: {}", err));
+                    ok_to_exec = false;
+                }
+
+                // Our own open fds may be ones that we set up for the proc.
+                let fds = fd_handlers.iter().map(|(fd, _)| *fd).collect();
+                if let Err(err) = error_writer.avoid_fds(&fds) {
+                    error_writer.try_write(format!("failed to move error pipe: {}", err));
+                    ok_to_exec = false;
+                }
+                for (fd, fd_handler) in fd_handlers.iter() {
+                    if let Err(err) = fd_handler.avoid_fds(&fds) {
+                        error_writer.try_write(format!("failed to set up fd {}: {}", fd, err));
+                        ok_to_exec = false;
+                    }
+                }
+
                 for (fd, fd_handler) in fd_handlers.into_iter() {
                     fd_handler.in_child().unwrap_or_else(|err| {
                         error_writer.try_write(format!("failed to set up fd {}: {}", fd, err));
                         ok_to_exec = false;
                     });
                 }
-                // Close remaining pipes, having dup'ed those we connect to.
-                if let Err(err) = pipes.close() {
-                    error_writer.try_write(format!("failed to close pipes: {}", err));
-                    ok_to_exec = false;
-                }
-
                 // Put the child process into a new session, to avoid
                 // getting signals from the parent process group.
                 if let Err(err) = setsid() {
diff --git a/src/sys.rs b/src/sys.rs
index 23d481d..240b4ca 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -304,6 +304,15 @@ pub fn fcntl_setfd(fd: RawFd, flags: i32) -> io::Result<()> {
     }
 }
 
+/// Duplicates `fd` to the lowest available fd that is at least `min_fd`, with
+/// close-on-exec set.
+pub fn dup_above(fd: RawFd, min_fd: RawFd) -> io::Result<RawFd> {
+    match unsafe { libc::fcntl(fd, libc::F_DUPFD_CLOEXEC, min_fd) } {
+        -1 => Err(io::Error::last_os_error()),
+        new_fd => Ok(new_fd),
+    }
+}
+
 pub fn set_cloexec(fd: RawFd) -> io::Result<()> {
     let flags = fcntl_getfd(fd)?;
     return if flags & libc::FD_CLOEXEC == 0 {
-- 
2.43.0


From 5966d1bf903a2ad8f4cbf3720f21ffaa1d719501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 16/29] fix: subscribe to notifications before registering, not
 after

Changes between registering and confirmation were not reported, and if
shutdown completed in between, the agent would not end.
---
 src/agent.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index c5c3699..d157a40 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -13,7 +13,7 @@ use url::Url;
 use crate::err::Error;
 use crate::net::{get_access_token, get_tls_connector};
 use crate::procinfo::ProcessInfo;
-use crate::procs::{get_restricted_exe, Notification, SharedProcs};
+use crate::procs::{get_restricted_exe, Notification, NotificationSub, SharedProcs};
 use crate::proto;
 use crate::proto::{ConnectionInfo, IncomingMessage, OutgoingMessage};
 use crate::shutdown;
@@ -96,22 +96,29 @@ async fn send(sender: &mut SocketSender, msg: OutgoingMessage) -> Result<(), Err
     Ok(())
 }
 
+/// Connects and registers.  Also returns a subscription to notifications of all
+/// changes after the state that was registered, and the shutdown state
+/// registered.
 async fn connect(
     connection: &mut Connection,
     procs: &SharedProcs,
-) -> Result<(SocketSender, SocketReceiver), Error> {
+) -> Result<(SocketSender, SocketReceiver, NotificationSub, shutdown::State), Error> {
     let connector = Connector::NativeTls(get_tls_connector()?);
     let (ws_stream, _) =
         connect_async_tls_with_config(&connection.url, None, false, Some(connector)).await?;
     let (mut sender, mut receiver) = ws_stream.split();
 
+    // Subscribe before registering, so that we miss no change in between.
+    let sub = procs.subscribe();
+    let shutdown_state = procs.get_shutdown();
+
     // Send a register message.
     let register = OutgoingMessage::Register {
         conn: connection.conn.clone(),
         proc: connection.proc.clone(),
         proc_ids: procs.get_proc_ids(),
         access_token: get_access_token(),
-        shutdown_state: procs.get_shutdown(),
+        shutdown_state: shutdown_state.clone(),
     };
     send(&mut sender, register).await?;
 
@@ -119,7 +126,7 @@ async fn connect(
     let msg = receiver.next().await;
     match msg {
         Some(Ok(Message::Binary(ref data))) => match deserialize(data)? {
-            IncomingMessage::Registered => Ok((sender, receiver)),
+            IncomingMessage::Registered => Ok((sender, receiver, sub, shutdown_state)),
             _msg => Err(proto::Error::UnexpectedMessage(_msg))?,
         },
         Some(Ok(Message::Close(_))) => Err(proto::Error::WrongMessageType(
@@ -210,11 +217,12 @@ pub async fn run(
 
         // (Re)connect to the service.
         info!("agent connecting: {}", connection.url);
-        let (mut sender, mut receiver) = match connect(&mut connection, &procs).await
+        let (mut sender, mut receiver, mut sub, shutdown_state) =
+            match connect(&mut connection, &procs).await
         {
-            Ok(pair) => {
+            Ok(connected) => {
                 info!("agent connected: {}", connection.url);
-                pair
+                connected
             }
             Err(err) => {
                 warn!("agent connection failed: {}: {}", connection.url, err);
@@ -243,7 +251,8 @@ pub async fn run(
         interval = cfg.interval_start;
         count = 0;
 
-        let mut sub = procs.subscribe();
+        // If we registered as done, no more notification of it will follow.
+        done = matches!(shutdown_state, shutdown::State::Done);
 
         // Simultaneously wait for an incoming websocket message or a
         // notification, dispatching either.  Also watch for shutdown.
-- 
2.43.0


From 1709681dc9927e76eefb3b66d8c63aec95a513dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 17/29] fix: cap the reconnect interval instead of panicking on
 overflow

---
 src/agent.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/agent.rs b/src/agent.rs
index d157a40..51b538d 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -236,7 +236,9 @@ pub async fn run(
                 sleep(interval).await;
 
                 // Exponential backoff in interval.
-                interval = interval.mul_f64(cfg.interval_mult);
+                interval =
+                    Duration::try_from_secs_f64(interval.as_secs_f64() * cfg.interval_mult)
+                        .unwrap_or(cfg.interval_max);
                 if cfg.interval_max < interval {
                     interval = cfg.interval_max;
                 }
-- 
2.43.0


From 956552dcd5957edba625d974f1648480c6cb11dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:25 +0000
Subject: [PATCH 18/29] fix: reconnect after missing notifications instead of
 panicking

A request that started or deleted more processes than the notification
channel holds ended the agent.
---
 src/agent.rs | 6 ++++--
 src/procs.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/agent.rs b/src/agent.rs
index 51b538d..8c136c6 100644
--- a/src/agent.rs
+++ b/src/agent.rs
@@ -319,8 +319,10 @@ pub async fn run(
                             }
                         },
                         None => {
-                            info!("notification subscription closed");
-                            // Do anything else?
+                            // We missed notifications; register the current
+                            // state over a new connection.
+                            warn!("notifications missed");
+                            break;
                         }
                     }
                 },
diff --git a/src/procs.rs b/src/procs.rs
index d9684ae..7410c4d 100644
--- a/src/procs.rs
+++ b/src/procs.rs
@@ -216,11 +216,16 @@ pub struct NotificationSub {
 }
 
 impl NotificationSub {
+    /// Waits for the next notification.  Returns none if there are no more or
+    /// some were missed; the state must be checked again then.
     pub async fn recv(&mut self) -> Option<Notification> {
         match self.receiver.recv().await {
             Ok(noti) => Some(noti),
             Err(RecvError::Closed) => None,
-            Err(RecvError::Lagged(i)) => panic!("notification subscriber lagging: {}", i),
+            Err(RecvError::Lagged(i)) => {
+                warn!("notification subscriber lagging: {}", i);
+                None
+            }
         }
     }
 }
-- 
2.43.0


From a54671eb1651c55a2cc6206394ae1cb397d3b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 19/29] fix: parse the stat of a process whose name contains
 parentheses

---
 src/procinfo.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index c9f66d2..463e84d 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -186,7 +186,8 @@ impl ProcStat {
         let pid = pid.parse::<pid_t>().unwrap();
 
         let (_, text) = text.split_once('(').unwrap();
-        let (comm, text) = text.split_once(')').unwrap();
+        // The name may itself contain parentheses.
+        let (comm, text) = text.rsplit_once(')').unwrap();
         let comm = comm.to_owned();
         let text = text.trim();
 
-- 
2.43.0


From faaf777fb159c2fe0678350df6bd5863e5f1db3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 20/29] fix: read the stat of a process whose name isn't UTF-8

---
 src/procinfo.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 463e84d..8f248f3 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -320,8 +320,9 @@ impl ProcStat {
     /// Loads process status from /proc/{pid}/stat.
     pub fn load(pid: pid_t) -> Result<Self, std::io::Error> {
         let path = format!("/proc/{}/stat", pid);
-        let text = std::fs::read_to_string(path)?;
-        Ok(Self::parse(&text))
+        // The name needn't be UTF-8.
+        let text = std::fs::read(path)?;
+        Ok(Self::parse(&String::from_utf8_lossy(&text)))
     }
 
     pub fn load_or_log(pid: pid_t) -> Option<Self> {
-- 
2.43.0


From bbc0cadf447835d3d94fc85d19969d606f8ac555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 21/29] fix: count the signals of a mask from its lowest bit

---
 src/procinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 8f248f3..fe70211 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -172,7 +172,7 @@ pub struct ProcStat {
 fn expand_sig_bitmap(bits: i32) -> Vec<String> {
     let mut abbrevs = Vec::new();
     for s in 1..sig::NSIG {
-        if bits & (1 << s) != 0 {
+        if bits & (1 << (s - 1)) != 0 {
             abbrevs.push(sig::get_abbrev(s).unwrap_or("???"));
         }
     }
-- 
2.43.0


From caae2ef06967964f5f2e9271f4870ba9f2b13c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 22/29] fix: don't panic on an unnamed exit signal

---
 src/procinfo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index fe70211..7f16b62 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -246,7 +246,7 @@ impl ProcStat {
         let exit_signal = if exit_signal == 0 {
             None
         } else {
-            Some(sig::get_abbrev(exit_signal).unwrap().to_owned())
+            Some(sig::get_abbrev(exit_signal).unwrap_or("???").to_owned())
         };
         let processor = parts.next().unwrap().parse().unwrap();
         let rt_priority = parts.next().unwrap().parse().unwrap();
-- 
2.43.0


From 3d6237754ad6aa966623f4fcd441ff83f02c4874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:22 +0000
Subject: [PATCH 23/29] fix: decode the device number of the controlling
 terminal

---
 src/procinfo.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/procinfo.rs b/src/procinfo.rs
index 7f16b62..2b467ce 100644
--- a/src/procinfo.rs
+++ b/src/procinfo.rs
@@ -91,7 +91,7 @@ pub struct ProcStat {
     /// Session ID.
     pub session: pid_t,
     /// Controlling terminal (major, minor) device number.
-    pub tty_nr: (u16, u16),
+    pub tty_nr: (u16, u32),
     /// Group ID of foreground process group on controlling terminal.
     pub tpgid: Option<gid_t>,
     /// Kernel flags word.
@@ -197,10 +197,10 @@ impl ProcStat {
         let ppid = parts.next().unwrap().parse().unwrap();
         let pgrp = parts.next().unwrap().parse().unwrap();
         let session = parts.next().unwrap().parse().unwrap();
-        let tty_nr = parts.next().unwrap().parse::<u32>().unwrap();
+        let tty_nr = parts.next().unwrap().parse::<i32>().unwrap() as u32;
         let tty_nr = (
-            ((tty_nr >> 8) & 0xff) as u16,
-            ((tty_nr >> 16) | (tty_nr & 0xff)) as u16,
+            ((tty_nr >> 8) & 0xfff) as u16,
+            ((tty_nr >> 12) & 0xfff00) | (tty_nr & 0xff),
         );
         let tpgid = parts.next().unwrap();
         let tpgid = if tpgid == "-1" {
-- 
2.43.0


From 649e9bacfd1b89c599830b38dfb0a07f1ba6639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 24/29] fix: refuse --exit together with --wait

---
 src/argv.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/argv.rs b/src/argv.rs
index 2539c19..d59d594 100644
--- a/src/argv.rs
+++ b/src/argv.rs
@@ -94,6 +94,7 @@ pub fn parse() -> Args {
 
     if args.exit && args.wait {
         eprintln!("Specify only one of --exit or --wait.");
+        std::process::exit(exitcode::DATAERR);
     }
 
     if !(args.exit || args.wait || args.serve || args.agent) {
-- 
2.43.0


From b04109bea1706403305f7522fcfab5a7e28a7aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 25/29] fix: refuse negative and nonfinite reconnection
 settings

---
 src/argv.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/argv.rs b/src/argv.rs
index d59d594..85b421b 100644
--- a/src/argv.rs
+++ b/src/argv.rs
@@ -17,6 +17,13 @@ pub fn parse_log_level(level: &str) -> Result<log::Level, ()> {
     }
 }
 
+/// Parses a value to make or to scale a duration with.
+fn parse_duration_value(arg: &str) -> Result<f64, String> {
+    let val = arg.parse::<f64>().map_err(|err| err.to_string())?;
+    Duration::try_from_secs_f64(val).map_err(|err| err.to_string())?;
+    Ok(val)
+}
+
 /// Run and manage processes.
 #[derive(Parser, Debug)]
 #[command(about)]
@@ -69,13 +76,13 @@ pub struct Args {
     #[arg(long)]
     pub group_id: Option<String>,
     /// Initial interval between agent connection attempts
-    #[arg(long, value_name = "SECS")]
+    #[arg(long, value_name = "SECS", value_parser = parse_duration_value)]
     pub connect_interval_start: Option<f64>,
     /// Exponential backoff between agent connection attempts
-    #[arg(long, value_name = "FAC")]
+    #[arg(long, value_name = "FAC", value_parser = parse_duration_value)]
     pub connect_interval_mult: Option<f64>,
     /// Maximum interval between agent connection attempts
-    #[arg(long, value_name = "SECS")]
+    #[arg(long, value_name = "SECS", value_parser = parse_duration_value)]
     pub connect_interval_max: Option<f64>,
     /// Maximum number of consecutive agent connection attempts
     #[arg(long, value_name = "COUNT")]
-- 
2.43.0


From 2c3d802ba1a13be83ef20bb5633831b049c7e216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 26/29] fix: take the agent server port from the environment if
 not given

---
 src/argv.rs | 7 +++----
 src/main.rs | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/argv.rs b/src/argv.rs
index 85b421b..a1df91f 100644
--- a/src/argv.rs
+++ b/src/argv.rs
@@ -2,7 +2,6 @@ use clap::Parser;
 use std::time::Duration;
 
 use procstar::agent;
-use procstar::proto::DEFAULT_PORT;
 
 //------------------------------------------------------------------------------
 
@@ -66,9 +65,9 @@ pub struct Args {
     /// Connect as agent to HOST
     #[arg(long, value_name = "HOST")]
     pub agent_host: Option<String>,
-    /// Connect as agent to PORT
-    #[arg(long, value_name = "PORT", default_value_t = DEFAULT_PORT)]
-    pub agent_port: u32,
+    /// Connect as agent to PORT [default: $PROCSTAR_AGENT_PORT or 59789]
+    #[arg(long, value_name = "PORT")]
+    pub agent_port: Option<u32>,
     /// Connection ID for agent connection; for debugging only
     #[arg(long, hide = true, value_name = "ID")]
     pub conn_id: Option<String>,
diff --git a/src/main.rs b/src/main.rs
index fdfa3e7..c3cd573 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -32,7 +32,8 @@ async fn maybe_run_agent(args: &argv::Args, procs: &SharedProcs) {
             eprintln!("no agent server hostname; use --agent-host or set PROCSTAR_AGENT_HOST");
             std::process::exit(2);
         });
-        let url = url::Url::parse(&format!("wss://{}:{}", hostname, args.agent_port)).unwrap();
+        let port = proto::expand_port(args.agent_port).unwrap_or(proto::DEFAULT_PORT);
+        let url = url::Url::parse(&format!("wss://{}:{}", hostname, port)).unwrap();
 
         let connection =
             agent::Connection::new(&url, args.conn_id.as_deref(), args.group_id.as_deref());
-- 
2.43.0


From 0f61c99d33c3a2d18801b3b3a7e6cef95ed8c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:10 +0000
Subject: [PATCH 27/29] fix: get an environment variable even if another isn't
 UTF-8

---
 src/sys.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sys.rs b/src/sys.rs
index 240b4ca..19415f9 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -430,8 +430,5 @@ lazy_static! {
 
 /// Returns the value of an environment variable.
 pub fn getenv(name: &str) -> Option<String> {
-    std::env::vars()
-        .filter(|(n, _)| n == name)
-        .next()
-        .map(|(_, v)| v)
+    std::env::var(name).ok()
 }
-- 
2.43.0


From 7b21edc6bdb7cbb58524a66cd463d079c06019b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:31 +0000
Subject: [PATCH 28/29] fix: read the agent's certificate path and token even
 if another variable isn't UTF-8

---
 src/net.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 63a6d12..41f3880 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -7,10 +7,7 @@ use crate::err::Error;
 pub fn get_tls_connector() -> Result<TlsConnector, Error> {
     let mut builder = native_tls::TlsConnector::builder();
 
-    if let Some((_, cert_path)) = std::env::vars()
-        .filter(|(n, _)| n == "PROCSTAR_AGENT_CERT")
-        .next()
-    {
+    if let Ok(cert_path) = std::env::var("PROCSTAR_AGENT_CERT") {
         let cert = std::fs::read_to_string(cert_path)?;
         let cert = native_tls::Certificate::from_pem(&cert.as_bytes())?;
         builder.add_root_certificate(cert);
@@ -20,10 +17,7 @@ pub fn get_tls_connector() -> Result<TlsConnector, Error> {
 }
 
 pub fn get_access_token() -> String {
-    if let Some((_, token)) = std::env::vars()
-        .filter(|(n, _)| n == "PROCSTAR_AGENT_TOKEN")
-        .next()
-    {
+    if let Ok(token) = std::env::var("PROCSTAR_AGENT_TOKEN") {
         token
     } else {
         // No token is equivalent to the empty string.
-- 
2.43.0


From c861818d40290a0276dc071e3c77b2ce2fc76aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:15 +0000
Subject: [PATCH 29/29] fix: read a host name of the greatest length

---
 src/sys.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sys.rs b/src/sys.rs
index 19415f9..c1caa12 100644
--- a/src/sys.rs
+++ b/src/sys.rs
@@ -382,7 +382,7 @@ pub fn get_groupname() -> Option<String> {
 const HOST_NAME_MAX: usize = 64;
 
 pub fn get_hostname() -> String {
-    let mut buffer = vec![0u8; HOST_NAME_MAX];
+    let mut buffer = vec![0u8; HOST_NAME_MAX + 1]; // with the terminating NUL
     let ret = unsafe { libc::gethostname(buffer.as_mut_ptr() as *mut i8, buffer.len()) };
     match ret {
         0 => {
-- 
2.43.0

