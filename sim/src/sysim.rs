//! The simulated operating system. The functions of the C library through which the Rust standard library (and with it
//! node_tree, chrono, ...) obtains time, entropy and files are defined here, in the executable, which takes precedence
//! over those of the shared C library. While a run is active, they are answered from simulated state that depends on
//! nothing but the run's program; otherwise they are passed on to the kernel.

use crate::prng::Rng;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::collections::BTreeMap;

pub const FIRST_FD: c_int = 1_000_000;

/* ---------------------------------------------------------------- raw system calls */

#[inline(always)]
unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: c_int) { *libc::__errno_location() = e; }
unsafe fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 { set_errno(-r as c_int); -1 } else { r }
}

/* ---------------------------------------------------------------- state */

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FaultKind { Err, Short, Eintr, Full, Torn, Crash }
pub const FAULTS: [FaultKind; 6] = [FaultKind::Err, FaultKind::Short, FaultKind::Eintr, FaultKind::Full, FaultKind::Torn, FaultKind::Crash];

#[derive(Clone, Copy, Debug)]
pub struct Fault { pub at: u64, pub kind: FaultKind, pub arg: u64 }

#[derive(Clone, Debug)]
enum DataOp { Write(usize, Vec<u8>), Trunc(usize) }

#[derive(Clone, Debug, Default)]
struct Inode { dir: bool, data: Vec<u8>, durable: Vec<u8>, pending: Vec<DataOp> }

#[derive(Clone, Debug)]
enum DirOp { Set(String, usize), Del(String), Move(String, String, usize) }

#[derive(Clone, Debug)]
struct Open { ino: usize, pos: usize, read: bool, write: bool, append: bool }

#[derive(Clone, Debug, Default)]
pub struct Disk {
    inodes: Vec<Inode>,
    names: BTreeMap<String, usize>,
    durable_names: BTreeMap<String, usize>,
    journal: Vec<DirOp>,
    capacity: usize,
}

pub struct Sys {
    pub active: bool,
    pub mono_ns: i128,
    pub wall_ns: i128,
    pub entropy: Rng,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub disk: Disk,
    open: BTreeMap<c_int, Open>,
    next_fd: c_int,
    pub calls: u64,            // disk calls since the faults were armed
    pub faults: Vec<Fault>,
    pub chop: usize,           // longest single transfer, 0: unlimited
    pub crashed: bool,
    pub fired: [u64; 6],
    pub clock_reads: u64,
    pub unknown: u64,
    pub trace: Vec<String>,
    pub tracing: bool,
}

pub static mut SYS: Sys = Sys {
    active: false, mono_ns: 0, wall_ns: 0, entropy: Rng::zero(), out: Vec::new(), err: Vec::new(),
    disk: Disk { inodes: Vec::new(), names: BTreeMap::new(), durable_names: BTreeMap::new(), journal: Vec::new(), capacity: 0 },
    open: BTreeMap::new(), next_fd: FIRST_FD, calls: 0, faults: Vec::new(), chop: 0, crashed: false, fired: [0; 6],
    clock_reads: 0, unknown: 0, trace: Vec::new(), tracing: false,
};

#[allow(static_mut_refs)]
pub fn sys() -> &'static mut Sys { unsafe { &mut SYS } }

impl Sys {
    pub fn start(&mut self, seed: u64, mono_ns: i128, wall_ns: i128) {
        self.entropy = Rng::new(seed);
        self.mono_ns = mono_ns;
        self.wall_ns = wall_ns;
        self.disk = Disk::default();
        self.disk.capacity = 1 << 30;
        self.disk.mkdir("/sim");
        self.disk.sync_all();
        self.active = true;
    }
    /// Arms the faults for the disk calls that follow.
    pub fn arm(&mut self, faults: Vec<Fault>, chop: usize, room: Option<usize>) {
        self.faults = faults;
        self.calls = 0;
        self.chop = chop;
        self.disk.capacity = room.map(|r| self.disk.used() + r).unwrap_or(1 << 30);
    }
    pub fn disarm(&mut self) {
        self.faults.clear();
        self.chop = 0;
        self.disk.capacity = 1 << 30;
    }
    /// The process ends here: everything that is not durable may be lost, as decided by `rng`.
    pub fn power_cycle(&mut self, rng: &mut Rng) {
        self.disk.crash(rng);
        self.open.clear();
        self.crashed = false;
        self.disarm();
    }
    fn note(&mut self, s: String) { if self.tracing && self.trace.len() < 400 { self.trace.push(s); } }

    /// Counts a call to the disk, and decides on its fate. `Ok(limit)` lets it proceed with at most `limit` bytes.
    fn call(&mut self, name: &str, len: usize, writing: bool) -> Result<usize, c_int> {
        if self.crashed { return Err(libc::EIO); }
        let n = self.calls;
        self.calls += 1;
        let mut limit = if len > 0 && self.chop > 0 { len.min(self.chop) } else { len };
        let hit = self.faults.iter().position(|f| f.at == n);
        if let Some(f) = hit.map(|i| self.faults[i]) {
            let err = match f.kind {
                FaultKind::Err => { self.fired[0] += 1; Some([libc::EIO, libc::EACCES, libc::ENOSPC, libc::EDQUOT, libc::EMFILE][f.arg as usize % if name == "open" { 5 } else if writing { 4 } else { 1 }]) }
                FaultKind::Short if len > 1 => { self.fired[1] += 1; limit = 1 + (f.arg as usize % (len - 1).min(limit)); None }
                FaultKind::Eintr if name == "read" || name == "write" || name == "open" => { self.fired[2] += 1; Some(libc::EINTR) }
                FaultKind::Full if name == "write" => { self.fired[3] += 1; Some(libc::ENOSPC) }
                FaultKind::Torn if name == "write" && len > 1 => {
                    // A part is written, and the next call fails.
                    self.fired[4] += 1;
                    limit = 1 + (f.arg as usize % (len - 1));
                    self.faults.push(Fault { at: n + 1, kind: FaultKind::Err, arg: f.arg >> 8 });
                    None
                }
                FaultKind::Crash => { self.fired[5] += 1; self.crashed = true; self.note(format!("{n}: {name} CRASH")); return Err(libc::EIO) }
                _ => None
            };
            self.note(format!("{n}: {name} {:?} {:?}", f.kind, err));
            if let Some(e) = err { return Err(e); }
        } else {
            self.note(format!("{n}: {name} len={len} limit={limit}"));
        }
        Ok(limit)
    }
}

fn norm(p: &str) -> String {
    let full = if p.starts_with('/') { p.to_string() } else { format!("/sim/{p}") };
    let mut out: Vec<&str> = Vec::new();
    for c in full.split('/') {
        match c { "" | "." => (), ".." => { out.pop(); }, c => out.push(c) }
    }
    format!("/{}", out.join("/"))
}
fn parent(p: &str) -> String {
    match p.rfind('/') { Some(0) | None => "/".into(), Some(i) => p[..i].into() }
}

impl Disk {
    fn used(&self) -> usize { self.inodes.iter().map(|i| i.data.len()).sum() }
    pub fn mkdir(&mut self, p: &str) {
        let ino = self.inodes.len();
        self.inodes.push(Inode { dir: true, ..Default::default() });
        self.set(norm(p), ino);
    }
    fn set(&mut self, p: String, ino: usize) { self.names.insert(p.clone(), ino); self.journal.push(DirOp::Set(p, ino)); }
    fn del(&mut self, p: &str) { self.names.remove(p); self.journal.push(DirOp::Del(p.to_string())); }
    pub fn sync_all(&mut self) {
        self.durable_names = self.names.clone();
        self.journal.clear();
        for i in self.inodes.iter_mut() { i.durable = i.data.clone(); i.pending.clear(); }
    }
    fn lookup(&self, p: &str) -> Option<usize> { self.names.get(&norm(p)).copied() }
    fn dir_ok(&self, p: &str) -> bool { let d = parent(&norm(p)); d == "/" || self.names.get(&d).map(|&i| self.inodes[i].dir).unwrap_or(false) }
    fn settle(&mut self, op: DirOp) {
        match op {
            DirOp::Set(n, i) => { self.durable_names.insert(n, i); }
            DirOp::Del(n) => { self.durable_names.remove(&n); }
            DirOp::Move(a, b, i) => { self.durable_names.remove(&a); self.durable_names.insert(b, i); }
        }
    }
    fn sync_dir(&mut self, p: &str) {
        let mut rest = Vec::new();
        for op in std::mem::take(&mut self.journal) {
            let name = match &op { DirOp::Set(n, _) | DirOp::Del(n) | DirOp::Move(_, n, _) => n };
            if parent(name) == p {
                self.settle(op);
            } else { rest.push(op); }
        }
        self.journal = rest;
    }
    fn write_at(&mut self, ino: usize, off: usize, d: &[u8]) {
        let i = &mut self.inodes[ino];
        if i.data.len() < off + d.len() { i.data.resize(off + d.len(), 0); }
        i.data[off..off + d.len()].copy_from_slice(d);
        i.pending.push(DataOp::Write(off, d.to_vec()));
    }
    fn trunc(&mut self, ino: usize, len: usize) {
        let i = &mut self.inodes[ino];
        if i.data.len() != len { i.data.resize(len, 0); i.pending.push(DataOp::Trunc(len)); }
    }
    fn crash(&mut self, rng: &mut Rng) {
        // Names: the file system journal keeps their order, so that some first part of it has reached the disk.
        let k = rng.below(self.journal.len() as u64 + 1) as usize;
        for op in std::mem::take(&mut self.journal).into_iter().take(k) {
            self.settle(op);
        }
        self.journal.clear();
        self.names = self.durable_names.clone();
        // Data: may have reached the disk in any order, and in part.
        for i in self.inodes.iter_mut() {
            if !i.pending.is_empty() {
                let ops = std::mem::take(&mut i.pending);
                let mut d = std::mem::take(&mut i.durable);
                let mode = rng.below(4);
                let upto = rng.below(ops.len() as u64 + 1) as usize;
                for (n, op) in ops.into_iter().enumerate() {
                    let keep = match mode { 0 => false, 1 => true, 2 => n < upto, _ => rng.chance(1, 2) };
                    let torn = mode >= 2 && rng.chance(1, 4);
                    if !keep && !(torn && mode == 2 && n == upto) { continue; }
                    match op {
                        DataOp::Trunc(l) => d.resize(l, 0),
                        DataOp::Write(off, mut b) => {
                            if torn { let l = rng.below(b.len() as u64 + 1) as usize; b.truncate(l); }
                            if d.len() < off + b.len() { d.resize(off + b.len(), 0); }
                            d[off..off + b.len()].copy_from_slice(&b);
                        }
                    }
                }
                i.durable = d;
            }
            i.data = i.durable.clone();
        }
    }
    /// For the harness: the current content of a file.
    pub fn peek(&self, p: &str) -> Option<Vec<u8>> { self.lookup(p).map(|i| self.inodes[i].data.clone()) }
    /// For the harness: puts a file in place, durably.
    pub fn put(&mut self, p: &str, d: &[u8]) {
        let ino = self.inodes.len();
        self.inodes.push(Inode { data: d.to_vec(), durable: d.to_vec(), ..Default::default() });
        self.names.insert(norm(p), ino);
        self.durable_names.insert(norm(p), ino);
    }
    pub fn list(&self) -> Vec<String> { self.names.keys().cloned().collect() }
}

/* ---------------------------------------------------------------- time and entropy */

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_clock_gettime, id as usize, ts as usize, 0, 0, 0, 0)) as c_int; }
    s.clock_reads += 1;
    let ns = if id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE { s.wall_ns } else { s.mono_ns };
    (*ts).tv_sec = ns.div_euclid(1_000_000_000) as i64;
    (*ts).tv_nsec = ns.rem_euclid(1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    let s = sys();
    if !s.active { let _ = flags; }
    // Never real entropy, not even before a run starts.
    for i in 0..len { *(buf as *mut u8).add(i) = s.entropy.next() as u8; }
    len as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int; }
    let d = (*req).tv_sec as i128 * 1_000_000_000 + (*req).tv_nsec as i128;
    s.mono_ns += d;
    s.wall_ns += d;
    0
}

/// A futex wait without a timeout in the only simulated thread can never end: report it instead of hanging.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let s = sys();
    if s.active && n == libc::SYS_futex {
        let op = b as c_int & 0x7f;
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && d == 0 { crate::sup::die(crate::sup::EXIT_DEADLOCK, a); }
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET { set_errno(libc::ETIMEDOUT); return -1; }
    }
    if s.active && n == libc::SYS_getrandom { return getrandom(a as *mut _, b, 0) as c_long; }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}

/* ---------------------------------------------------------------- files */

unsafe fn cstr(p: *const c_char) -> String { std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned() }
macro_rules! fail { ($e:expr) => {{ set_errno($e); return -1; }} }
macro_rules! called { ($s:expr, $n:expr, $l:expr, $w:expr) => { match $s.call($n, $l, $w) { Ok(l) => l, Err(e) => fail!(e) } } }

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_openat, libc::AT_FDCWD as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int; }
    let p = cstr(path);
    called!(s, "open", 0, flags & libc::O_ACCMODE != libc::O_RDONLY);
    if p.is_empty() { fail!(libc::ENOENT); }
    let np = norm(&p);
    let writing = flags & libc::O_ACCMODE != libc::O_RDONLY;
    let ino = match s.disk.lookup(&p) {
        Some(_) if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 => fail!(libc::EEXIST),
        Some(i) => {
            if s.disk.inodes[i].dir && writing { fail!(libc::EISDIR); }
            if flags & libc::O_TRUNC != 0 && writing { s.disk.trunc(i, 0); }
            i
        }
        None if flags & libc::O_CREAT != 0 => {
            if !s.disk.dir_ok(&p) { fail!(libc::ENOENT); }
            let i = s.disk.inodes.len();
            s.disk.inodes.push(Inode::default());
            s.disk.set(np, i);
            i
        }
        None => fail!(libc::ENOENT)
    };
    let fd = s.next_fd;
    s.next_fd += 1;
    let acc = flags & libc::O_ACCMODE;
    s.open.insert(fd, Open { ino, pos: 0, read: acc != libc::O_WRONLY, write: acc != libc::O_RDONLY, append: flags & libc::O_APPEND != 0 });
    fd
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int { open64(path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn openat64(_d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if !sys().active { return ret(raw(libc::SYS_openat, _d as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int; }
    open64(path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int { openat64(d, path, flags, mode) }
#[no_mangle]
pub unsafe extern "C" fn creat64(path: *const c_char, mode: mode_t) -> c_int { open64(path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode) }

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let s = sys();
    if s.active && fd >= FIRST_FD { s.open.remove(&fd); return 0; }
    ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let s = sys();
    if !(s.active && fd >= FIRST_FD) { return ret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int; }
    let Some(o) = s.open.get(&fd).cloned() else { fail!(libc::EBADF) };
    match cmd {
        libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => { let n = s.next_fd; s.next_fd += 1; s.open.insert(n, o); n }
        libc::F_GETFL => if o.read && o.write { libc::O_RDWR } else if o.write { libc::O_WRONLY } else { libc::O_RDONLY },
        _ => 0
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int { fcntl(fd, cmd, arg) }

unsafe fn do_read(fd: c_int, buf: *mut u8, len: usize, at: Option<usize>) -> ssize_t {
    let s = sys();
    let Some(o) = s.open.get(&fd).cloned() else { fail!(libc::EBADF) };
    let lim = called!(s, "read", len, false);
    if !o.read { fail!(libc::EBADF); }
    if s.disk.inodes[o.ino].dir { fail!(libc::EISDIR); }
    let d = &s.disk.inodes[o.ino].data;
    let pos = at.unwrap_or(o.pos);
    let n = lim.min(d.len().saturating_sub(pos));
    if n > 0 { std::ptr::copy_nonoverlapping(d[pos..].as_ptr(), buf, n); }
    if at.is_none() { s.open.get_mut(&fd).unwrap().pos += n; }
    n as ssize_t
}
unsafe fn do_write(fd: c_int, buf: *const u8, len: usize, at: Option<usize>) -> ssize_t {
    let s = sys();
    let Some(o) = s.open.get(&fd).cloned() else { fail!(libc::EBADF) };
    let mut lim = match s.call("write", len, true) {
        Ok(l) => l,
        Err(e) => {
            // The process may die in the middle of the write.
            if s.crashed && len > 0 && o.write {
                let pos = at.unwrap_or(if o.append { s.disk.inodes[o.ino].data.len() } else { o.pos });
                let part = s.fired[5] as usize * 7919 % (len + 1);
                let d = std::slice::from_raw_parts(buf, part).to_vec();
                if part > 0 { s.disk.write_at(o.ino, pos, &d); }
            }
            fail!(e)
        }
    };
    if !o.write { fail!(libc::EBADF); }
    let room = s.disk.capacity.saturating_sub(s.disk.used());
    let pos = at.unwrap_or(if o.append { s.disk.inodes[o.ino].data.len() } else { o.pos });
    let grows = (pos + lim).saturating_sub(s.disk.inodes[o.ino].data.len());
    if grows > room {
        s.fired[3] += 1;
        let over = grows - room;
        if over >= lim { fail!(libc::ENOSPC); }
        lim -= over;
    }
    let d = std::slice::from_raw_parts(buf, lim).to_vec();
    s.disk.write_at(o.ino, pos, &d);
    if at.is_none() { s.open.get_mut(&fd).unwrap().pos = pos + lim; }
    lim as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, len: size_t) -> ssize_t {
    if sys().active && fd >= FIRST_FD { return do_read(fd, buf as *mut u8, len, None); }
    ret(raw(libc::SYS_read, fd as usize, buf as usize, len, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, len: size_t, off: off64_t) -> ssize_t {
    if sys().active && fd >= FIRST_FD { return do_read(fd, buf as *mut u8, len, Some(off as usize)); }
    ret(raw(libc::SYS_pread64, fd as usize, buf as usize, len, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let s = sys();
    if s.active {
        if fd >= FIRST_FD { return do_write(fd, buf as *const u8, len, None); }
        if fd == 1 || fd == 2 {
            let d = std::slice::from_raw_parts(buf as *const u8, len);
            if fd == 1 { s.out.extend_from_slice(d); } else { s.err.extend_from_slice(d); }
            return len as ssize_t;
        }
    }
    ret(raw(libc::SYS_write, fd as usize, buf as usize, len, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, len: size_t, off: off64_t) -> ssize_t {
    if sys().active && fd >= FIRST_FD { return do_write(fd, buf as *const u8, len, Some(off as usize)); }
    ret(raw(libc::SYS_pwrite64, fd as usize, buf as usize, len, off as usize, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !sys().active { return ret(raw(libc::SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0)); }
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 { return write(fd, x.iov_base, x.iov_len); } // A short write.
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if !sys().active { return ret(raw(libc::SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0)); }
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 { return read(fd, x.iov_base, x.iov_len); }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    let s = sys();
    if !(s.active && fd >= FIRST_FD) { return ret(raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as off64_t; }
    let Some(o) = s.open.get(&fd).cloned() else { fail!(libc::EBADF) };
    let base = match whence { libc::SEEK_SET => 0, libc::SEEK_CUR => o.pos as i64, _ => s.disk.inodes[o.ino].data.len() as i64 };
    let to = base + off;
    if to < 0 { fail!(libc::EINVAL); }
    s.open.get_mut(&fd).unwrap().pos = to as usize;
    to
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t { lseek64(fd, off, whence) }

unsafe fn sync_fd(fd: c_int) -> c_int {
    let s = sys();
    let Some(o) = s.open.get(&fd).cloned() else { fail!(libc::EBADF) };
    match s.call("fsync", 0, true) {
        Ok(_) => (),
        Err(e) => {
            // What failed to be written is not written by a later call either.
            if !s.crashed { s.disk.inodes[o.ino].pending.retain(|op| matches!(op, DataOp::Trunc(_))); }
            fail!(e)
        }
    }
    if s.disk.inodes[o.ino].dir {
        let p = s.disk.names.iter().find(|(_, &i)| i == o.ino).map(|(p, _)| p.clone());
        if let Some(p) = p { s.disk.sync_dir(&p); }
    } else {
        let i = &mut s.disk.inodes[o.ino];
        for op in std::mem::take(&mut i.pending) {
            match op {
                DataOp::Trunc(l) => i.durable.resize(l, 0),
                DataOp::Write(off, b) => {
                    if i.durable.len() < off + b.len() { i.durable.resize(off + b.len(), 0); }
                    i.durable[off..off + b.len()].copy_from_slice(&b);
                }
            }
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if sys().active && fd >= FIRST_FD { return sync_fd(fd); }
    ret(raw(libc::SYS_fsync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    if sys().active && fd >= FIRST_FD { return sync_fd(fd); }
    ret(raw(libc::SYS_fdatasync, fd as usize, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    let s = sys();
    if s.active && !s.crashed { s.disk.sync_all(); }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let s = sys();
    if !(s.active && fd >= FIRST_FD) { return ret(raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int; }
    let Some(o) = s.open.get(&fd).cloned() else { fail!(libc::EBADF) };
    called!(s, "ftruncate", 0, true);
    s.disk.trunc(o.ino, len as usize);
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int { ftruncate64(fd, len) }
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0)) as c_int; }
    let (a, b) = (cstr(a), cstr(b));
    called!(s, "rename", 0, true);
    let Some(i) = s.disk.lookup(&a) else { fail!(libc::ENOENT) };
    if !s.disk.dir_ok(&b) { fail!(libc::ENOENT); }
    if norm(&a) == norm(&b) { return 0; }
    if let Some(j) = s.disk.lookup(&b) { if s.disk.inodes[j].dir != s.disk.inodes[i].dir { fail!(libc::EISDIR); } }
    // A rename is a single entry of the journal: replace, then remove, without a point to crash in between.
    s.disk.names.remove(&norm(&a));
    s.disk.names.insert(norm(&b), i);
    s.disk.journal.push(DirOp::Move(norm(&a), norm(&b), i));
    0
}
#[no_mangle]
pub unsafe extern "C" fn renameat(_x: c_int, a: *const c_char, _y: c_int, b: *const c_char) -> c_int { rename(a, b) }
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0)) as c_int; }
    let a = cstr(a);
    called!(s, "unlink", 0, true);
    match s.disk.lookup(&a) {
        None => fail!(libc::ENOENT),
        Some(i) if s.disk.inodes[i].dir => fail!(libc::EISDIR),
        Some(_) => { s.disk.del(&norm(&a)); 0 }
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, fl: c_int) -> c_int {
    if !sys().active { return ret(raw(libc::SYS_unlinkat, d as usize, a as usize, fl as usize, 0, 0, 0)) as c_int; }
    unlink(a)
}
unsafe fn do_link(a: String, b: String) -> c_int {
    let s = sys();
    called!(s, "link", 0, true);
    let Some(i) = s.disk.lookup(&a) else { fail!(libc::ENOENT) };
    if s.disk.lookup(&b).is_some() { fail!(libc::EEXIST); }
    s.disk.set(norm(&b), i);
    0
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if !sys().active { return ret(raw(libc::SYS_link, a as usize, b as usize, 0, 0, 0, 0)) as c_int; }
    do_link(cstr(a), cstr(b))
}
#[no_mangle]
pub unsafe extern "C" fn linkat(x: c_int, a: *const c_char, y: c_int, b: *const c_char, f: c_int) -> c_int {
    if !sys().active { return ret(raw(libc::SYS_linkat, x as usize, a as usize, y as usize, b as usize, f as usize, 0)) as c_int; }
    do_link(cstr(a), cstr(b))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_mkdir, a as usize, m as usize, 0, 0, 0, 0)) as c_int; }
    let a = cstr(a);
    called!(s, "mkdir", 0, true);
    if s.disk.lookup(&a).is_some() { fail!(libc::EEXIST); }
    if !s.disk.dir_ok(&a) { fail!(libc::ENOENT); }
    s.disk.mkdir(&a);
    0
}
unsafe fn fill(st: *mut libc::stat64, i: &Inode, ino: usize) {
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::stat64>());
    (*st).st_ino = ino as u64 + 1;
    (*st).st_nlink = 1;
    (*st).st_mode = if i.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 };
    (*st).st_size = i.data.len() as i64;
    (*st).st_blksize = 4096;
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, st: *mut libc::stat64) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_stat, p as usize, st as usize, 0, 0, 0, 0)) as c_int; }
    let p = cstr(p);
    called!(s, "stat", 0, false);
    let Some(i) = s.disk.lookup(&p) else { fail!(libc::ENOENT) };
    fill(st, &s.disk.inodes[i], i);
    0
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, st: *mut libc::stat64) -> c_int { stat64(p, st) }
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    let s = sys();
    if !(s.active && fd >= FIRST_FD) { return ret(raw(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0)) as c_int; }
    let Some(o) = s.open.get(&fd).cloned() else { fail!(libc::EBADF) };
    fill(st, &s.disk.inodes[o.ino], o.ino);
    0
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, st: *mut libc::statx) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_statx, d as usize, p as usize, fl as usize, mask as usize, st as usize, 0)) as c_int; }
    let path = if p.is_null() { String::new() } else { cstr(p) };
    let i = if path.is_empty() {
        match s.open.get(&d) { Some(o) => o.ino, None => fail!(libc::EBADF) }
    } else {
        called!(s, "stat", 0, false);
        match s.disk.lookup(&path) { Some(i) => i, None => fail!(libc::ENOENT) }
    };
    let n = &s.disk.inodes[i];
    std::ptr::write_bytes(st as *mut u8, 0, std::mem::size_of::<libc::statx>());
    (*st).stx_mask = libc::STATX_BASIC_STATS;
    (*st).stx_blksize = 4096;
    (*st).stx_nlink = 1;
    (*st).stx_mode = if n.dir { (libc::S_IFDIR | 0o755) as u16 } else { (libc::S_IFREG | 0o644) as u16 };
    (*st).stx_ino = i as u64 + 1;
    (*st).stx_size = n.data.len() as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    let s = sys();
    if !s.active { return ret(raw(libc::SYS_access, p as usize, m as usize, 0, 0, 0, 0)) as c_int; }
    if s.disk.lookup(&cstr(p)).is_some() { 0 } else { fail!(libc::ENOENT) }
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let s = sys();
    let n = if s.active { norm(&cstr(p)) } else { cstr(p) };
    if s.active && s.disk.lookup(&n).is_none() { set_errno(libc::ENOENT); return std::ptr::null_mut(); }
    let dst = if out.is_null() { libc::malloc(n.len() + 1) as *mut c_char } else { out };
    std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, dst, n.len());
    *dst.add(n.len()) = 0;
    dst
}
macro_rules! ignored { ($($n:ident($sys:ident; $($a:ident: $t:ty),*);)*) => { $(
    /// Accepted without an effect on the simulated disk.
    #[no_mangle]
    pub unsafe extern "C" fn $n($($a: $t),*) -> c_int {
        let s = sys();
        let mut _v = [0usize; 6];
        let mut _i = 0;
        $( _v[_i] = $a as usize; _i += 1; )*
        if s.active { return 0; }
        ret(raw(libc::$sys, _v[0], _v[1], _v[2], _v[3], _v[4], _v[5])) as c_int
    }
)* } }
ignored! {
    chmod(SYS_chmod; p: *const c_char, m: mode_t);
    fchmod(SYS_fchmod; fd: c_int, m: mode_t);
    flock(SYS_flock; fd: c_int, op: c_int);
    utimensat(SYS_utimensat; d: c_int, p: *const c_char, t: *const c_void, f: c_int);
    futimens(SYS_utimensat; d: c_int, t: *const c_void);
    posix_fadvise64(SYS_fadvise64; fd: c_int, o: off64_t, l: off64_t, a: c_int);
    sync_file_range(SYS_sync_file_range; fd: c_int, o: off64_t, l: off64_t, a: c_uint);
}
macro_rules! unsupported { ($($n:ident;)*) => { $(
    /// Not simulated: callers fall back to other calls.
    #[no_mangle]
    pub unsafe extern "C" fn $n() -> isize { sys().unknown += 1; set_errno(libc::ENOSYS); -1 }
)* } }
unsupported! { copy_file_range; sendfile64; splice; symlink; fallocate64; rmdir; posix_fallocate64; }
#[no_mangle]
pub unsafe extern "C" fn opendir(_p: *const c_char) -> *mut c_void { sys().unknown += 1; set_errno(libc::ENOSYS); std::ptr::null_mut() }
