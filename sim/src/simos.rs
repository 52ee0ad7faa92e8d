//! The simulated operating system.
//!
//! libc's entry points are interposed: as long as a thread is executing code
//! under test (`code()`), its system calls end up here. There is an in-memory
//! file system, and everything nondeterministic or fallible is decided by a
//! `Plan`. All that happens is logged to memory shared with the parent, so the
//! log survives whatever happens to the process.

#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicU32, Ordering};

use crate::prng::Rng;

// ---------------------------------------------------------------------------
// raw system calls

pub unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall",
        inlateout("rax") n => r,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_CLOSE: i64 = 3;
const SYS_FSTAT: i64 = 5;
const SYS_LSEEK: i64 = 8;
pub const SYS_MMAP: i64 = 9;
const SYS_PREAD: i64 = 17;
const SYS_PWRITE: i64 = 18;
const SYS_READV: i64 = 19;
const SYS_WRITEV: i64 = 20;
const SYS_ACCESS: i64 = 21;
const SYS_SCHED_YIELD: i64 = 24;
const SYS_DUP: i64 = 32;
const SYS_NANOSLEEP: i64 = 35;
pub const SYS_GETPID: i64 = 39;
const SYS_SENDFILE: i64 = 40;
const SYS_FCNTL: i64 = 72;
const SYS_FLOCK: i64 = 73;
const SYS_FSYNC: i64 = 74;
const SYS_FDATASYNC: i64 = 75;
const SYS_FTRUNCATE: i64 = 77;
const SYS_GETCWD: i64 = 79;
pub const SYS_CHDIR: i64 = 80;
const SYS_RENAME: i64 = 82;
const SYS_MKDIR: i64 = 83;
const SYS_RMDIR: i64 = 84;
const SYS_LINK: i64 = 86;
const SYS_LINKAT: i64 = 265;
const SYS_UTIMENSAT: i64 = 280;
const SYS_UNLINK: i64 = 87;
const SYS_UNLINKAT: i64 = 263;
const SYS_SCHED_GETAFFINITY: i64 = 204;
const SYS_SYMLINK: i64 = 88;
const SYS_READLINK: i64 = 89;
const SYS_CHMOD: i64 = 90;
const SYS_FCHMOD: i64 = 91;
const SYS_GETTIMEOFDAY: i64 = 96;
pub const SYS_SETRESUID: i64 = 117;
pub const SYS_SETRESGID: i64 = 119;
pub const SYS_PERSONALITY: i64 = 135;
pub const SYS_PRCTL: i64 = 157;
pub const SYS_SETRLIMIT: i64 = 160;
const SYS_GETTID: i64 = 186;
const SYS_FUTEX: i64 = 202;
const SYS_CLOCK_GETTIME: i64 = 228;
const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
const SYS_OPENAT: i64 = 257;
const SYS_NEWFSTATAT: i64 = 262;
const SYS_FALLOCATE: i64 = 285;
const SYS_GETRANDOM: i64 = 318;
const SYS_COPY_FILE_RANGE: i64 = 326;
const SYS_STATX: i64 = 332;
const SYS_MEMBARRIER: i64 = 324;

pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOMEM: i32 = 12;
pub const EACCES: i32 = 13;
pub const EEXIST: i32 = 17;
pub const ENOTDIR: i32 = 20;
pub const EISDIR: i32 = 21;
pub const EINVAL: i32 = 22;
pub const ENFILE: i32 = 23;
pub const EMFILE: i32 = 24;
pub const EFBIG: i32 = 27;
pub const ENOSPC: i32 = 28;
pub const ESPIPE: i32 = 29;
pub const EROFS: i32 = 30;
pub const EPIPE: i32 = 32;
pub const ENOSYS: i32 = 38;
pub const ENOTEMPTY: i32 = 39;
pub const ELOOP: i32 = 40;
pub const ESTALE: i32 = 116;
pub const EDQUOT: i32 = 122;

pub fn errno_name(e: i32) -> &'static str {
    match e {
        ENOENT => "ENOENT",
        EINTR => "EINTR",
        EIO => "EIO",
        EBADF => "EBADF",
        EAGAIN => "EAGAIN",
        ENOMEM => "ENOMEM",
        EACCES => "EACCES",
        EEXIST => "EEXIST",
        ENOTDIR => "ENOTDIR",
        EISDIR => "EISDIR",
        EINVAL => "EINVAL",
        ENFILE => "ENFILE",
        EMFILE => "EMFILE",
        EFBIG => "EFBIG",
        ENOSPC => "ENOSPC",
        EROFS => "EROFS",
        EPIPE => "EPIPE",
        ELOOP => "ELOOP",
        ESTALE => "ESTALE",
        EDQUOT => "EDQUOT",
        _ => "errno",
    }
}

// ---------------------------------------------------------------------------
// the file system

pub const CWD: &str = "/w";

#[derive(Clone, PartialEq)]
pub enum Node {
    Dir,
    File(Vec<u8>),
    /// a symbolic link, and where it leads
    Link(String),
}

/// Absolute path to node
#[derive(Clone, PartialEq)]
pub struct Fs {
    pub nodes: BTreeMap<String, Node>,
    /// when last changed, by the ticks of the file system's own clock
    pub times: BTreeMap<String, u64>,
    pub tick: u64,
}

impl Fs {
    pub fn new() -> Fs {
        let mut nodes = BTreeMap::new();
        nodes.insert("/".to_string(), Node::Dir);
        nodes.insert(CWD.to_string(), Node::Dir);
        Fs { nodes, times: BTreeMap::new(), tick: 1000 }
    }

    pub fn touch(&mut self, path: &str) {
        self.tick += 1;
        self.times.insert(path.to_string(), self.tick);
    }

    pub fn set_mtime(&mut self, path: &str, t: i64) {
        let k = (t - 1_700_000_000_000_000_000).div_euclid(500_000_000) * 3;
        self.times.insert(path.to_string(), k.max(0) as u64);
    }

    /// Of the last change, in nanoseconds. Some changes have the same one.
    pub fn mtime(&self, path: &str) -> i64 {
        1_700_000_000_000_000_000 + (*self.times.get(path).unwrap_or(&0) as i64 / 3) * 500_000_000
    }

    /// Resolve a path to an absolute one without `.`, `..` and links. All but the last
    /// component have to be existing directories.
    pub fn resolve(&self, cwd: &str, path: &str) -> Result<String, i32> {
        self.walk(cwd, path, true)
    }

    /// The same, but a link in the last place is left as it is
    pub fn resolve_link(&self, cwd: &str, path: &str) -> Result<String, i32> {
        self.walk(cwd, path, path.ends_with('/'))
    }

    fn walk(&self, cwd: &str, path: &str, last: bool) -> Result<String, i32> {
        if path.is_empty() {
            return Err(ENOENT);
        }
        let names = |p: &str| p.split('/').filter(|c| !c.is_empty() && *c != ".").map(|c| c.to_string()).collect::<Vec<_>>();
        let mut cur: Vec<String> = if path.starts_with('/') { vec![] } else { names(cwd) };
        let mut todo = names(path);
        todo.reverse();
        let mut links = 0;
        while let Some(comp) = todo.pop() {
            // what we've got so far has to be a directory
            match self.nodes.get(&abs(&cur)) {
                None => return Err(ENOENT),
                Some(Node::Dir) => {}
                Some(_) => return Err(ENOTDIR),
            }
            if comp == ".." {
                cur.pop();
                continue;
            }
            cur.push(comp);
            if let Some(Node::Link(to)) = self.nodes.get(&abs(&cur)) {
                if todo.is_empty() && !last {
                    break;
                }
                links += 1;
                if links > 40 {
                    return Err(ELOOP);
                }
                if to.starts_with('/') {
                    cur.clear();
                } else {
                    cur.pop();
                }
                let mut t = names(to);
                t.reverse();
                todo.extend(t);
            }
        }
        Ok(abs(&cur))
    }

    /// Where a path without `.` and `..` leads, whether there is anything or not
    pub fn real(&self, path: &str) -> String {
        let mut p = path.to_string();
        for _ in 0..10 {
            let ends = p.match_indices('/').map(|m| m.0).skip(1).chain(std::iter::once(p.len()));
            let mut next = None;
            for e in ends {
                if let Some(Node::Link(to)) = self.nodes.get(&p[..e]) {
                    let dir = &p[..p[..e].rfind('/').unwrap()];
                    let mut t = if to.starts_with('/') { to.clone() } else { format!("{}/{}", dir, to) };
                    while let Some(i) = t.find("/../") {
                        let k = t[..i].rfind('/').unwrap_or(0);
                        t = format!("{}{}", &t[..k], &t[i + 3..]);
                    }
                    next = Some(format!("{}{}", t, &p[e..]));
                    break;
                }
            }
            match next {
                Some(n) => p = n,
                None => break,
            }
        }
        p
    }

    /// Make a link, instead of what there is
    pub fn put_link(&mut self, path: &str, to: &str) {
        let cut = path.rfind('/').unwrap();
        self.put_dir(&path[..cut]);
        let at = format!("{}{}", self.real(&path[..cut]), &path[cut..]);
        self.nodes.insert(at.clone(), Node::Link(to.to_string()));
        self.touch(&at);
    }

    /// Create a directory, and the ones leading up to it
    pub fn put_dir(&mut self, path: &str) {
        let path = self.real(path);
        let ends: Vec<usize> = path.match_indices('/').map(|m| m.0).skip(1).chain(std::iter::once(path.len())).collect();
        for e in ends {
            self.nodes.insert(path[..e].to_string(), Node::Dir);
        }
    }

    pub fn get(&self, path: &str) -> Option<&Node> {
        self.nodes.get(path)
    }

    pub fn file(&self, path: &str) -> Option<&Vec<u8>> {
        match self.nodes.get(path) {
            Some(Node::File(d)) => Some(d),
            _ => None,
        }
    }

    /// Create a file (and the directories leading up to it); path is absolute
    pub fn put(&mut self, path: &str, data: &[u8]) {
        let path = &self.real(path);
        let mut at = 1;
        while let Some(i) = path[at..].find('/') {
            let dir = &path[..at + i];
            self.nodes.insert(dir.to_string(), Node::Dir);
            at += i + 1;
        }
        self.nodes.insert(path.to_string(), Node::File(data.to_vec()));
        self.touch(path);
    }

    pub fn mkdir(&mut self, path: &str) -> Result<(), i32> {
        if self.nodes.contains_key(path) {
            return Err(EEXIST);
        }
        self.nodes.insert(path.to_string(), Node::Dir);
        self.touch(path);
        Ok(())
    }

    pub fn write_at(&mut self, path: &str, off: usize, data: &[u8]) {
        if let Some(Node::File(f)) = self.nodes.get_mut(path) {
            if f.len() < off + data.len() {
                f.resize(off + data.len(), 0);
            }
            f[off..off + data.len()].copy_from_slice(data);
            self.touch(path);
        }
    }

    pub fn truncate(&mut self, path: &str, len: usize) {
        if let Some(Node::File(f)) = self.nodes.get_mut(path) {
            f.resize(len, 0);
            self.touch(path);
        }
    }

    fn has_children(&self, path: &str) -> bool {
        let p = format!("{}/", path);
        self.nodes.range(p.clone()..).next().is_some_and(|(k, _)| k.starts_with(&p))
    }

    pub fn rename(&mut self, from: &str, to: &str) {
        let p = format!("{}/", from);
        let moved: Vec<String> = self
            .nodes
            .keys()
            .filter(|k| *k == from || k.starts_with(&p))
            .cloned()
            .collect();
        for k in moved {
            let n = self.nodes.remove(&k).unwrap();
            let l = format!("{}{}", to, &k[from.len()..]);
            if let Some(t) = self.times.remove(&k) {
                self.times.insert(l.clone(), t);
            }
            self.nodes.insert(l, n);
        }
    }

    /// Apply an effect from the log of a run
    pub fn apply(&mut self, r: &Rec) {
        match r.tag {
            T_OPEN if r.b >= 0 => {
                let flags = r.a;
                if flags & O_CREAT != 0 && !self.nodes.contains_key(&r.path()) {
                    self.nodes.insert(r.path(), Node::File(vec![]));
                    self.touch(&r.path());
                }
                if flags & O_TRUNC != 0 && flags & 3 != 0 && self.file(&r.path()).is_some_and(|d| !d.is_empty()) {
                    self.truncate(&r.path(), 0);
                }
            }
            T_WRITE if r.c > 0 => self.write_at(&r.path(), r.b as usize, &r.d),
            T_MKDIR if r.a == 0 => {
                self.nodes.insert(r.path(), Node::Dir);
                self.touch(&r.path());
            }
            T_TRUNC if r.b == 0 => self.truncate(&r.path(), r.a as usize),
            T_UNLINK | T_RMDIR if r.a == 0 => {
                self.nodes.remove(&r.path());
            }
            T_SYMLINK if r.a == 0 => {
                self.nodes.insert(r.path(), Node::Link(String::from_utf8_lossy(&r.d).to_string()));
                self.touch(&r.path());
            }
            T_UTIME if r.a == 0 => self.set_mtime(&r.path(), r.b),
            T_LINK if r.a == 0 => {
                // as good as a copy
                if let Some(n) = self.nodes.get(&String::from_utf8_lossy(&r.d).to_string()).cloned() {
                    self.nodes.insert(r.path(), n);
                    self.touch(&r.path());
                }
            }
            T_RENAME if r.a == 0 => {
                let to = String::from_utf8_lossy(&r.d).to_string();
                self.rename(&r.path(), &to);
            }
            _ => {}
        }
    }
}

fn abs(comps: &[String]) -> String {
    if comps.is_empty() {
        "/".to_string()
    } else {
        format!("/{}", comps.join("/"))
    }
}

// ---------------------------------------------------------------------------
// plans

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Class {
    OpenR = 0,
    Read = 1,
    OpenW = 2,
    WriteF = 3,
    WriteStd = 4,
    Mkdir = 5,
    Stat = 6,
    Close = 7,
    Other = 8,
    /// any of the above
    Any = 9,
}
pub const N_CLASS: usize = 10;
pub const CLASS_NAMES: [&str; N_CLASS] =
    ["open-read", "read", "open-write", "write-file", "write-stdout", "mkdir", "stat", "close", "other", "any"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Act {
    /// the call fails
    Errno(i32),
    /// the call transfers at most this many bytes
    Short(usize),
    /// the process is gone before the call has any effect
    CrashBefore,
    /// so many bytes are written, then the process is gone
    CrashAfter(usize),
}

/// `nth` call of the class (from 0), and the `count - 1` calls following
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub class: Class,
    pub nth: u64,
    pub count: u64,
    pub act: Act,
}

/// A place that's out of order for good, whoever comes there, and whenever: file contents from an offset on, or
/// calls with a path
#[derive(Clone, Debug)]
pub struct Bad {
    pub class: Class,
    pub path: String,
    pub from: u64,
    pub errno: i32,
}

#[derive(Clone)]
pub struct Plan {
    pub hash_seed: u64,
    pub clock0: i64,
    pub clock_step: i64,
    pub pid: i32,
    pub heap_shift: u64,
    pub stack_shift: u64,
    pub io_seed: u64,
    /// reads give at most 1..=n bytes (0: everything)
    pub read_chunk: u64,
    /// out of 256
    pub read_eintr: u64,
    pub write_chunk: u64,
    pub write_eintr: u64,
    pub stdout_chunk: u64,
    pub stdout_eintr: u64,
    /// bytes that fit on the disk
    pub disk_limit: Option<u64>,
    pub faults: Vec<Fault>,
    pub bad: Vec<Bad>,
    /// the nth allocation fails (from 1; 0: none)
    pub alloc_fail: u64,
    /// (after so many yield points, switch to this thread)
    pub sched: Vec<(u64, u32)>,
    /// (after so many accesses to global data, switch to this thread)
    pub sched_globals: Vec<(u64, u32)>,
    /// threads started by the code under test: switch at random (0: only when one waits)
    pub auto_sched: u64,
    /// environment variables nobody has set (0: aren't there)
    pub env_seed: u64,
    pub cpus: u32,
    pub tty: bool,
    pub max_ops: u64,
    pub max_allocs: u64,
}

impl Plan {
    pub fn quiet() -> Plan {
        Plan {
            hash_seed: 0,
            clock0: 1_700_000_000_000_000_000,
            clock_step: 1_000,
            pid: 4242,
            heap_shift: 0,
            stack_shift: 0,
            io_seed: 0,
            read_chunk: 0,
            read_eintr: 0,
            write_chunk: 0,
            write_eintr: 0,
            stdout_chunk: 0,
            stdout_eintr: 0,
            disk_limit: None,
            faults: vec![],
            bad: vec![],
            alloc_fail: 0,
            sched: vec![],
            sched_globals: vec![],
            auto_sched: 0,
            env_seed: 0,
            cpus: 4,
            tty: false,
            max_ops: 2_000_000,
            max_allocs: 30_000_000,
        }
    }

    pub fn describe(&self) -> String {
        let q = Plan::quiet();
        let mut s = String::new();
        if self.hash_seed != q.hash_seed {
            s += &format!(" random-bytes-seed={}", self.hash_seed);
        }
        if self.clock0 != q.clock0 || self.clock_step != q.clock_step {
            s += &format!(" clock={}ns+{}ns/call", self.clock0, self.clock_step);
        }
        if self.pid != q.pid {
            s += &format!(" pid={}", self.pid);
        }
        if self.heap_shift != 0 {
            s += &format!(" heap-shift={}", self.heap_shift);
        }
        for (n, v) in [
            ("stack-shift", self.stack_shift),
            ("io-seed", self.io_seed),
            ("read-chunk", self.read_chunk),
            ("read-eintr/256", self.read_eintr),
            ("write-chunk", self.write_chunk),
            ("write-eintr/256", self.write_eintr),
            ("stdout-chunk", self.stdout_chunk),
            ("stdout-eintr/256", self.stdout_eintr),
            ("alloc-fails", self.alloc_fail),
            ("switch-seed", self.auto_sched),
            ("environment-seed", self.env_seed),
            ("cpus", if self.cpus == q.cpus { 0 } else { self.cpus as u64 }),
            ("terminal", self.tty as u64),
        ] {
            if v != 0 {
                s += &format!(" {}={}", n, v);
            }
        }
        if let Some(l) = self.disk_limit {
            s += &format!(" disk-limit={}", l);
        }
        for f in &self.faults {
            let act = match f.act {
                Act::Errno(e) => format!("fails with {}", errno_name(e)),
                Act::Short(n) => format!("transfers at most {} bytes", n),
                Act::CrashBefore => "crash before it".to_string(),
                Act::CrashAfter(n) => format!("crash after {} bytes of it", n),
            };
            s += &format!(" [{} #{}{}: {}]", CLASS_NAMES[f.class as usize], f.nth,
                if f.count > 1 { format!("..+{}", f.count - 1) } else { String::new() }, act);
        }
        for b in &self.bad {
            s += &format!(" [{} {} from {} on: fails with {}]", CLASS_NAMES[b.class as usize], b.path, b.from, errno_name(b.errno));
        }
        for (y, t) in &self.sched {
            s += &format!(" [at yield {} switch to thread {}]", y, t);
        }
        for (y, t) in &self.sched_globals {
            s += &format!(" [at access {} to global data switch to thread {}]", y, t);
        }
        if s.is_empty() {
            s = " quiet".to_string();
        }
        s[1..].to_string()
    }
}

// ---------------------------------------------------------------------------
// the log

pub const T_OPEN: u8 = 1; // a: flags, b: fd or -errno
pub const T_CLOSE: u8 = 2; // a: fd
pub const T_READ: u8 = 3; // a: wanted, b: offset, c: result
pub const T_WRITE: u8 = 4; // a: wanted, b: offset, c: result, d: data
pub const T_STD: u8 = 5; // a: fd, b: wanted, c: result, d: data
pub const T_MKDIR: u8 = 6; // a: result
pub const T_STAT: u8 = 7; // a: result
pub const T_TRUNC: u8 = 8; // a: length, b: result
pub const T_UNLINK: u8 = 9; // a: result
pub const T_RMDIR: u8 = 10; // a: result
pub const T_RENAME: u8 = 11; // a: result, d: to
pub const T_SYNC: u8 = 12;
pub const T_RAND: u8 = 13; // a: length
pub const T_CLOCK: u8 = 14; // a: time
pub const T_FAULT: u8 = 15; // path: what
pub const T_NOTE: u8 = 16; // a: tag, path: text, d: data
pub const T_SWITCH: u8 = 17; // a: from, b: to, c: yield count
pub const T_OTHER: u8 = 18; // path: what, a: result
pub const T_CODE: u8 = 19; // a: exit status
pub const T_CHMOD: u8 = 20;
pub const T_UTIME: u8 = 23; // a: result, b: the new time
pub const T_SYMLINK: u8 = 21; // a: result, d: where it leads
pub const T_LINK: u8 = 22; // a: result, d: to what

#[derive(Clone, Debug)]
pub struct Rec {
    pub tag: u8,
    pub thread: u8,
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub s: Vec<u8>,
    pub d: Vec<u8>,
}

impl Rec {
    pub fn path(&self) -> String {
        String::from_utf8_lossy(&self.s).to_string()
    }

    pub fn is_effect(&self) -> bool {
        match self.tag {
            T_OPEN => self.b >= 0 && self.a & (O_CREAT | O_TRUNC) != 0,
            T_WRITE => self.c > 0,
            T_MKDIR | T_UNLINK | T_RMDIR | T_RENAME | T_CHMOD | T_SYMLINK | T_LINK | T_UTIME => self.a == 0,
            T_TRUNC => self.b == 0,
            _ => false,
        }
    }

    pub fn text(&self) -> String {
        let res = |v: i64| {
            if v < 0 { errno_name(-v as i32).to_string() } else { v.to_string() }
        };
        let p = self.path();
        match self.tag {
            T_OPEN => format!("open {} flags=0{:o} -> {}", p, self.a, res(self.b)),
            T_CLOSE => format!("close {} (fd {})", p, self.a),
            T_READ => format!("read {} want {} at {} -> {}", p, self.a, self.b, res(self.c)),
            T_WRITE => format!("write {} want {} at {} -> {}", p, self.a, self.b, res(self.c)),
            T_STD => format!("{} {:?} -> {}", if self.a == 1 { "stdout" } else { "stderr" },
                String::from_utf8_lossy(&self.d), res(self.c)),
            T_MKDIR => format!("mkdir {} -> {}", p, res(self.a)),
            T_STAT => format!("stat {} -> {}", p, res(self.a)),
            T_TRUNC => format!("truncate {} to {} -> {}", p, self.a, res(self.b)),
            T_UNLINK => format!("unlink {} -> {}", p, res(self.a)),
            T_RMDIR => format!("rmdir {} -> {}", p, res(self.a)),
            T_RENAME => format!("rename {} to {} -> {}", p, String::from_utf8_lossy(&self.d), res(self.a)),
            T_SYNC => format!("sync {}", p),
            T_RAND => format!("random {} bytes", self.a),
            T_CLOCK => format!("clock {}", self.a),
            T_FAULT => format!("FAULT {}", p),
            T_NOTE => format!("note {} {} {:?}", self.a, p, String::from_utf8_lossy(&self.d)),
            T_SWITCH => format!("switch from thread {} to {} at yield {}", self.a, self.b, self.c),
            T_CODE => format!("exit status {}", self.a),
            T_SYMLINK => format!("symlink {} to {} -> {}", p, String::from_utf8_lossy(&self.d), res(self.a)),
            T_UTIME => format!("change time of {} to {} -> {}", p, self.b, res(self.a)),
            T_LINK => format!("link {} to {} -> {}", p, String::from_utf8_lossy(&self.d), res(self.a)),
            T_CHMOD => format!("chmod {} -> {}", p, res(self.a)),
            _ => format!("{} -> {}", p, res(self.a)),
        }
    }
}

pub const O_CREAT: i64 = 0o100;
pub const O_EXCL: i64 = 0o200;
pub const O_TRUNC: i64 = 0o1000;
pub const O_NOFOLLOW: i64 = 0o400000;
pub const O_APPEND: i64 = 0o2000;
pub const O_DIRECTORY: i64 = 0o200000;

pub const ST_RUNNING: u64 = 0;
pub const ST_DONE: u64 = 1;
pub const ST_CRASHED: u64 = 2;
pub const ST_BUDGET: u64 = 3;
pub const ST_HARNESS: u64 = 4;
pub const ST_DEADLOCK: u64 = 5;

/// Start of the memory shared with the parent
#[repr(C)]
pub struct Shared {
    pub status: u64,
    pub log_len: u64,
    pub log_lost: u64,
    pub allocs: u64,
    pub ops: u64,
    pub yields: u64,
    pub globals: u64,
    pub steps: u64,
    pub switches: u64,
    pub clock: i64,
    pub clock_calls: u64,
    pub class: [u64; N_CLASS],
}
pub const LOG_AT: usize = 4096;
const LOG_END: usize = 96 << 20;
/// one byte per edge of the code under test: set if it was taken in any run so far
pub const EDGES_AT: usize = LOG_END;
pub const MAX_EDGES: usize = 1 << 16;
pub const SHM_SIZE: usize = LOG_END + MAX_EDGES;

pub unsafe fn decode_log(shm: *const u8) -> Vec<Rec> {
    let sh = &*(shm as *const Shared);
    let mut v = vec![];
    let mut p = LOG_AT;
    let end = LOG_AT + sh.log_len as usize;
    let i64_at = |at: usize| (shm.add(at) as *const i64).read_unaligned();
    let u32_at = |at: usize| (shm.add(at) as *const u32).read_unaligned() as usize;
    while p < end {
        let tag = *shm.add(p);
        let thread = *shm.add(p + 1);
        let (a, b, c) = (i64_at(p + 2), i64_at(p + 10), i64_at(p + 18));
        let (ls, ld) = (u32_at(p + 26), u32_at(p + 30));
        p += 34;
        let s = std::slice::from_raw_parts(shm.add(p), ls).to_vec();
        p += ls;
        let d = std::slice::from_raw_parts(shm.add(p), ld).to_vec();
        p += ld;
        v.push(Rec { tag, thread, a, b, c, s, d });
    }
    v
}

// ---------------------------------------------------------------------------
// the simulator in the child process

/// What's known about a file
struct St {
    mode: u32,
    len: usize,
    ino: u64,
    mtime: i64,
}

struct OpenFile {
    path: String,
    off: usize,
    append: bool,
    readable: bool,
    writable: bool,
    dir: bool,
}

const FD0: i32 = 1000;
pub const MAX_THREADS: usize = 64;

pub struct Sim {
    pub fs: Fs,
    fds: Vec<Option<OpenFile>>,
    cwd: String,
    plan: Plan,
    io: Rng,
    rnd: Rng,
    auto: Rng,
    used: u64,
    shm: *mut u8,
    // threads
    sched_on: bool,
    sched_pos: usize,
    globals_pos: usize,
    cur: u32,
    live: [bool; MAX_THREADS],
    /// handles of the threads started by the code under test
    handles: [u64; MAX_THREADS],
    n_threads: u32,
    futile: u32,
}

static mut SIM: *mut Sim = std::ptr::null_mut();
static TOKEN: AtomicU32 = AtomicU32::new(u32::MAX);

thread_local! {
    static IN_CODE: Cell<bool> = const { Cell::new(false) };
    static THREAD: Cell<u32> = const { Cell::new(0) };
    /// on its way out, and not under the scheduler's control any more
    static GONE: Cell<bool> = const { Cell::new(false) };
}

extern "C" {
    fn __errno_location() -> *mut c_int;
    fn malloc(n: usize) -> *mut c_void;
}

unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

/// Kernel result to libc result
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub fn die(status: u64) -> ! {
    unsafe {
        let sh = shared();
        if sh.status == ST_RUNNING {
            sh.status = status;
        }
        sh.steps = STEPS;
        sys(SYS_EXIT_GROUP, 0, 0, 0, 0, 0, 0);
    }
    loop {}
}

unsafe fn shared() -> &'static mut Shared {
    &mut *((*SIM).shm as *mut Shared)
}

/// Set up the simulator in a fresh child process
pub unsafe fn init(fs: Fs, plan: &Plan, shm: *mut u8) {
    let sim = Sim {
        fs,
        fds: vec![],
        cwd: CWD.to_string(),
        io: Rng::new(plan.io_seed),
        rnd: Rng::new(plan.hash_seed),
        auto: Rng::new(plan.auto_sched),
        plan: plan.clone(),
        used: 0,
        shm,
        sched_on: false,
        sched_pos: 0,
        globals_pos: 0,
        cur: 0,
        live: [false; MAX_THREADS],
        handles: [0; MAX_THREADS],
        n_threads: 0,
        futile: 0,
    };
    SIM = Box::into_raw(Box::new(sim));
    MAP = shm.add(EDGES_AT);
    shared().clock = plan.clock0;
    arena_init(plan.heap_shift);
}

/// Run code under test
pub fn code<R>(f: impl FnOnce() -> R) -> R {
    struct Guard;
    impl Drop for Guard {
        fn drop(&mut self) {
            IN_CODE.with(|c| c.set(false));
        }
    }
    IN_CODE.with(|c| c.set(true));
    let _g = Guard;
    f()
}

/// Run harness code from within code under test (e.g. in a hook)
pub fn harness<R>(f: impl FnOnce() -> R) -> R {
    let was = IN_CODE.with(|c| c.replace(false));
    let r = f();
    IN_CODE.with(|c| c.set(was));
    r
}

pub fn note(tag: i64, text: &str, data: &[u8]) {
    harness(|| unsafe { (*SIM).log(T_NOTE, tag, 0, 0, text.as_bytes(), data) })
}

pub fn log_fault(what: &str) {
    harness(|| unsafe { (*SIM).log(T_FAULT, 0, 0, 0, what.as_bytes(), b"") })
}

pub fn log_exit_code(code: i64) {
    harness(|| unsafe { (*SIM).log(T_CODE, code, 0, 0, b"", b"") })
}

/// The simulated file system (of the child process)
pub fn sim_fs() -> &'static mut Fs {
    unsafe { &mut (*SIM).fs }
}

pub fn done() {
    unsafe {
        shared().steps = STEPS;
        shared().status = ST_DONE
    }
}

/// Descriptors that are still open, by path
pub fn open_files() -> Vec<String> {
    unsafe { (*SIM).fds.iter().flatten().map(|f| f.path.clone()).collect() }
}

impl Sim {
    unsafe fn log(&mut self, tag: u8, a: i64, b: i64, c: i64, s: &[u8], d: &[u8]) {
        let sh = &mut *(self.shm as *mut Shared);
        let n = 34 + s.len() + d.len();
        if LOG_AT + sh.log_len as usize + n > LOG_END {
            sh.log_lost += 1;
            die(ST_BUDGET);
        }
        let p = self.shm.add(LOG_AT + sh.log_len as usize);
        *p = tag;
        *p.add(1) = THREAD.with(|t| t.get()) as u8;
        (p.add(2) as *mut i64).write_unaligned(a);
        (p.add(10) as *mut i64).write_unaligned(b);
        (p.add(18) as *mut i64).write_unaligned(c);
        (p.add(26) as *mut u32).write_unaligned(s.len() as u32);
        (p.add(30) as *mut u32).write_unaligned(d.len() as u32);
        std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(34), s.len());
        std::ptr::copy_nonoverlapping(d.as_ptr(), p.add(34 + s.len()), d.len());
        sh.log_len += n as u64;
    }

    /// Long runs are left alone after a while; there's only so much room for the trace
    unsafe fn while_young(&self, knob: u64) -> u64 {
        let sh = &*(self.shm as *const Shared);
        if sh.ops < 60_000 { knob } else { 0 }
    }

    /// Count a call, and look up if there's a fault for it
    unsafe fn op(&mut self, class: Class) -> Option<Act> {
        let sh = &mut *(self.shm as *mut Shared);
        let any = sh.ops;
        let nth = sh.class[class as usize];
        sh.ops += 1;
        sh.class[class as usize] += 1;
        if sh.ops > self.plan.max_ops {
            die(ST_BUDGET);
        }
        let mut act = None;
        for f in &self.plan.faults {
            let n = if f.class == Class::Any {
                any
            } else if f.class == class {
                nth
            } else {
                continue;
            };
            if n >= f.nth && n - f.nth < f.count {
                act = Some(f.act);
                break;
            }
        }
        match act {
            Some(Act::CrashBefore) => {
                self.log(T_FAULT, 0, 0, 0, b"crash", b"");
                die(ST_CRASHED);
            }
            Some(Act::Errno(e)) => {
                let t = format!("{}:{}", CLASS_NAMES[class as usize], errno_name(e));
                self.log(T_FAULT, 0, 0, 0, t.as_bytes(), b"");
            }
            _ => {}
        }
        act
    }

    /// Is there something wrong with the place? -errno if so, once it's all from there on, and how far it is to it
    unsafe fn bad_at(&mut self, class: Class, path: &str, off: u64) -> Result<u64, i32> {
        let mut room = u64::MAX;
        for b in &self.plan.bad {
            if b.class == class && b.path == path {
                if off >= b.from {
                    let (e, t) = (b.errno, format!("{}:{} (for good)", CLASS_NAMES[class as usize], errno_name(b.errno)));
                    self.fault(&t);
                    return Err(e);
                }
                room = room.min(b.from - off);
            }
        }
        Ok(room)
    }

    unsafe fn fault(&mut self, what: &str) {
        self.log(T_FAULT, 0, 0, 0, what.as_bytes(), b"");
    }

    fn file(&mut self, fd: i32) -> Option<&mut OpenFile> {
        let i = fd - FD0;
        if i < 0 {
            return None;
        }
        self.fds.get_mut(i as usize).and_then(|f| f.as_mut())
    }

    fn new_fd(&mut self, f: OpenFile) -> i32 {
        let i = match self.fds.iter().position(|f| f.is_none()) {
            Some(i) => i,
            None => {
                self.fds.push(None);
                self.fds.len() - 1
            }
        };
        self.fds[i] = Some(f);
        FD0 + i as i32
    }

    unsafe fn do_open(&mut self, path: &str, flags: i64) -> i64 {
        let wr = flags & 3 != 0 || flags & (O_CREAT | O_TRUNC) != 0;
        let class = if wr { Class::OpenW } else { Class::OpenR };
        let act = self.op(class);
        let mut full = if flags & O_NOFOLLOW != 0 || (flags & O_CREAT != 0 && flags & O_EXCL != 0) {
            self.fs.resolve_link(&self.cwd, path)
        } else {
            self.fs.resolve(&self.cwd, path)
        };
        let shown = full.clone().unwrap_or_else(|_| path.to_string());
        if let Err(e) = self.bad_at(class, &shown, 0) {
            full = Err(e);
        }
        let r = match (act, full) {
            (Some(Act::Errno(e)), _) => -e as i64,
            (_, Err(e)) => -e as i64,
            (_, Ok(full)) => {
                let r = match self.fs.get(&full) {
                    Some(Node::Dir) => {
                        if wr { -EISDIR as i64 } else { 1 }
                    }
                    Some(Node::Link(_)) => {
                        if flags & O_NOFOLLOW != 0 { -ELOOP as i64 } else { -EEXIST as i64 }
                    }
                    Some(Node::File(_)) => {
                        if flags & O_CREAT != 0 && flags & O_EXCL != 0 {
                            -EEXIST as i64
                        } else if flags & O_DIRECTORY != 0 || path.ends_with('/') {
                            -ENOTDIR as i64
                        } else {
                            if flags & O_TRUNC != 0 && flags & 3 != 0 && self.fs.file(&full).is_some_and(|d| !d.is_empty()) {
                                self.fs.truncate(&full, 0);
                            }
                            0
                        }
                    }
                    None => {
                        if flags & O_CREAT == 0 {
                            -ENOENT as i64
                        } else if path.ends_with('/') {
                            -EISDIR as i64
                        } else {
                            self.fs.nodes.insert(full.clone(), Node::File(vec![]));
                            self.fs.touch(&full);
                            0
                        }
                    }
                };
                if r < 0 {
                    r
                } else {
                    self.new_fd(OpenFile {
                        path: full,
                        off: 0,
                        append: flags & O_APPEND != 0,
                        readable: flags & 3 != 1,
                        writable: flags & 3 != 0,
                        dir: r == 1,
                    }) as i64
                }
            }
        };
        self.log(T_OPEN, flags, r, 0, shown.as_bytes(), b"");
        r
    }

    unsafe fn do_read(&mut self, fd: i32, buf: *mut u8, n: usize, at: Option<usize>) -> i64 {
        if fd == 0 {
            return 0;
        }
        let act = self.op(Class::Read);
        let mut n = n;
        let chunk = self.while_young(self.plan.read_chunk);
        let eintr = self.while_young(self.plan.read_eintr);
        let mut short = false;
        let r_eintr = eintr > 0 && self.io.below(256) < eintr;
        let r_chunk = if chunk > 0 { 1 + self.io.below(chunk) as usize } else { usize::MAX };
        let (path, off, ok, dir) = match self.file(fd) {
            None => return -EBADF as i64,
            Some(f) => (f.path.clone(), at.unwrap_or(f.off), f.readable, f.dir),
        };
        let r = if let Some(Act::Errno(e)) = act {
            -e as i64
        } else if r_eintr {
            self.fault("read:EINTR");
            -EINTR as i64
        } else if !ok {
            -EBADF as i64
        } else if dir {
            -EISDIR as i64
        } else if let Err(e) = self.bad_at(Class::Read, &path, off as u64) {
            -e as i64
        } else {
            if let Ok(room) = self.bad_at(Class::Read, &path, off as u64) {
                n = n.min(room as usize);
            }
            if let Some(Act::Short(m)) = act {
                if m.max(1) < n {
                    n = m.max(1);
                    short = true;
                }
            }
            if r_chunk < n {
                n = r_chunk;
                short = true;
            }
            let data: &[u8] = match self.fs.nodes.get(&path) {
                Some(Node::File(d)) => d,
                _ => b"",
            };
            let from = off.min(data.len());
            let left = data.len() - from;
            let k = n.min(left);
            std::ptr::copy_nonoverlapping(data[from..].as_ptr(), buf, k);
            if short && k < left {
                self.fault("read:short");
            }
            if at.is_none() {
                self.file(fd).unwrap().off += k;
            }
            k as i64
        };
        self.log(T_READ, n as i64, off as i64, r, path.as_bytes(), b"");
        r
    }

    unsafe fn do_write(&mut self, fd: i32, data: &[u8], at: Option<usize>) -> i64 {
        if fd == 1 || fd == 2 {
            return self.do_write_std(fd, data);
        }
        let act = self.op(Class::WriteF);
        let chunk = self.while_young(self.plan.write_chunk);
        let eintr = self.while_young(self.plan.write_eintr);
        let r_eintr = eintr > 0 && self.io.below(256) < eintr;
        let r_chunk = if chunk > 0 { 1 + self.io.below(chunk) as usize } else { usize::MAX };
        let limit = self.plan.disk_limit;
        let used = self.used;
        let (path, mut off, ok, append) = match self.file(fd) {
            None => return -EBADF as i64,
            Some(f) => (f.path.clone(), at.unwrap_or(f.off), f.writable, f.append),
        };
        if append {
            off = self.fs.file(&path).map_or(0, |d| d.len());
        }
        let want = data.len();
        let mut n = want;
        let mut crash = false;
        let r = if let Some(Act::Errno(e)) = act {
            -e as i64
        } else if r_eintr {
            self.fault("write-file:EINTR");
            -EINTR as i64
        } else if !ok {
            -EBADF as i64
        } else if let Err(e) = self.bad_at(Class::WriteF, &path, off as u64) {
            -e as i64
        } else {
            if let Ok(room) = self.bad_at(Class::WriteF, &path, off as u64) {
                n = n.min(room as usize);
            }
            match act {
                Some(Act::Short(m)) => n = n.min(m.max(1)),
                Some(Act::CrashAfter(m)) => {
                    n = n.min(m);
                    crash = true;
                }
                _ => {}
            }
            n = n.min(r_chunk);
            let mut full = false;
            if let Some(l) = limit {
                let room = l.saturating_sub(used) as usize;
                if n > room {
                    n = room;
                    full = true;
                }
            }
            if full && n == 0 && want > 0 {
                self.fault("write-file:disk-full");
                -ENOSPC as i64
            } else {
                if n < want && !crash {
                    self.fault("write-file:short");
                }
                self.used += n as u64;
                self.fs.write_at(&path, off, &data[..n]);
                if at.is_none() {
                    self.file(fd).unwrap().off = off + n;
                }
                n as i64
            }
        };
        self.log(T_WRITE, want as i64, off as i64, r, path.as_bytes(),
            if r > 0 { &data[..n] } else { b"" });
        if crash {
            self.fault("crash:torn-write");
            die(ST_CRASHED);
        }
        r
    }

    unsafe fn do_write_std(&mut self, fd: i32, data: &[u8]) -> i64 {
        let want = data.len();
        let mut n = want;
        let mut r = 0;
        if fd == 1 {
            let act = self.op(Class::WriteStd);
            let chunk = self.while_young(self.plan.stdout_chunk);
            let eintr = self.while_young(self.plan.stdout_eintr);
            if eintr > 0 && self.io.below(256) < eintr {
                self.fault("write-stdout:EINTR");
                r = -EINTR as i64;
            }
            if chunk > 0 {
                n = n.min(1 + self.io.below(chunk) as usize);
            }
            match act {
                Some(Act::Errno(e)) => r = -e as i64,
                Some(Act::Short(m)) => n = n.min(m.max(1)),
                _ => {}
            }
            if r == 0 && n < want {
                self.fault("write-stdout:short");
            }
        }
        if r == 0 {
            r = n as i64;
        }
        self.log(T_STD, fd as i64, want as i64, r, b"", if r > 0 { &data[..n] } else { b"" });
        r
    }

    unsafe fn do_path(&mut self, path: &str, class: Class) -> Result<String, i32> {
        if let Some(Act::Errno(e)) = self.op(class) {
            return Err(e);
        }
        self.fs.resolve(&self.cwd, path)
    }

    /// A path that's relative to an open directory
    fn at(&mut self, dir: i32, path: &str) -> String {
        match self.file(dir) {
            Some(f) if !path.starts_with('/') => format!("{}/{}", f.path, path),
            _ => path.to_string(),
        }
    }

    unsafe fn do_path_link(&mut self, path: &str, class: Class) -> Result<String, i32> {
        if let Some(Act::Errno(e)) = self.op(class) {
            return Err(e);
        }
        self.fs.resolve_link(&self.cwd, path)
    }

    fn shown_link(&self, path: &str) -> String {
        self.fs.resolve_link(&self.cwd, path).unwrap_or_else(|_| path.to_string())
    }

    fn shown(&self, path: &str) -> String {
        self.fs.resolve(&self.cwd, path).unwrap_or_else(|_| path.to_string())
    }

    unsafe fn do_mkdir(&mut self, path: &str) -> i64 {
        let shown = self.shown_link(path);
        let r = match self.do_path_link(path, Class::Mkdir).and_then(|p| {
            if !self.fs.nodes.contains_key(&p) {
                self.bad_at(Class::Mkdir, &p, 0)?;
            }
            self.fs.mkdir(&p)
        }) {
            Ok(()) => 0,
            Err(e) => -e as i64,
        };
        self.log(T_MKDIR, r, 0, 0, shown.as_bytes(), b"");
        r
    }

    unsafe fn do_unlink(&mut self, path: &str, dir: bool) -> i64 {
        let shown = self.shown_link(path);
        let r = match self.do_path_link(path, Class::Other) {
            Err(e) => -e as i64,
            Ok(p) => match (self.fs.get(&p), dir) {
                (None, _) => -ENOENT as i64,
                (Some(Node::Dir), false) => -EISDIR as i64,
                (Some(Node::File(_)), true) | (Some(Node::Link(_)), true) => -ENOTDIR as i64,
                (Some(Node::Dir), true) if self.fs.has_children(&p) => -ENOTEMPTY as i64,
                _ => {
                    self.fs.nodes.remove(&p);
                    0
                }
            },
        };
        self.log(if dir { T_RMDIR } else { T_UNLINK }, r, 0, 0, shown.as_bytes(), b"");
        r
    }

    unsafe fn do_rename(&mut self, from: &str, to: &str) -> i64 {
        let (sf, st) = (self.shown_link(from), self.shown_link(to));
        let act = self.op(Class::Other);
        let r = match (act, self.fs.resolve_link(&self.cwd, from), self.fs.resolve_link(&self.cwd, to)) {
            (Some(Act::Errno(e)), _, _) => -e as i64,
            (_, Err(e), _) => -e as i64,
            (_, _, Err(e)) => -e as i64,
            (_, Ok(f), Ok(t)) => match (self.fs.get(&f), self.fs.get(&t)) {
                (None, _) => -ENOENT as i64,
                (Some(Node::File(_)) | Some(Node::Link(_)), Some(Node::Dir)) => -EISDIR as i64,
                (Some(Node::Dir), Some(Node::File(_)) | Some(Node::Link(_))) => -ENOTDIR as i64,
                _ => {
                    if f != t {
                        self.fs.rename(&f, &t);
                        for o in self.fds.iter_mut().flatten() {
                            if o.path == f {
                                o.path = t.clone();
                            }
                        }
                    }
                    0
                }
            },
        };
        self.log(T_RENAME, r, 0, 0, sf.as_bytes(), st.as_bytes());
        r
    }

    unsafe fn stat_path(&mut self, path: &str) -> Result<St, i32> {
        let shown = self.shown(path);
        let r = self.do_path(path, Class::Stat).and_then(|p| {
            self.bad_at(Class::Stat, &p, 0)?;
            self.stat_of(&p)
        });
        let v = match r {
            Ok(_) => 0,
            Err(e) => -e as i64,
        };
        self.log(T_STAT, v, 0, 0, shown.as_bytes(), b"");
        r
    }

    unsafe fn lstat_path(&mut self, path: &str) -> Result<St, i32> {
        let shown = self.shown_link(path);
        let r = self.do_path_link(path, Class::Stat).and_then(|p| {
            self.bad_at(Class::Stat, &p, 0)?;
            self.stat_of(&p)
        });
        let v = match r {
            Ok(_) => 0,
            Err(e) => -e as i64,
        };
        self.log(T_STAT, v, 0, 0, shown.as_bytes(), b"");
        r
    }

    unsafe fn do_symlink(&mut self, to: &str, path: &str) -> i64 {
        let shown = self.shown_link(path);
        let r = match self.do_path_link(path, Class::Other) {
            Err(e) => -e as i64,
            Ok(p) if self.fs.get(&p).is_some() => -EEXIST as i64,
            Ok(p) => {
                self.fs.nodes.insert(p.clone(), Node::Link(to.to_string()));
                self.fs.touch(&p);
                0
            }
        };
        self.log(T_SYMLINK, r, 0, 0, shown.as_bytes(), to.as_bytes());
        r
    }

    unsafe fn do_link(&mut self, from: &str, path: &str) -> i64 {
        let (sf, st) = (self.shown_link(from), self.shown_link(path));
        let r = match self.do_path_link(path, Class::Other) {
            Err(e) => -e as i64,
            Ok(p) => match (self.fs.get(&sf).cloned(), self.fs.get(&p)) {
                (None, _) => -ENOENT as i64,
                (Some(Node::Dir), _) => -EPERM as i64,
                (_, Some(_)) => -EEXIST as i64,
                (Some(n), None) => {
                    self.fs.nodes.insert(p.clone(), n);
                    self.fs.touch(&p);
                    0
                }
            },
        };
        self.log(T_LINK, r, 0, 0, st.as_bytes(), sf.as_bytes());
        r
    }

    fn stat_of(&self, p: &str) -> Result<St, i32> {
        let ino = crate::prng::hash_bytes(crate::prng::HASH0 ^ self.plan.hash_seed, p.as_bytes());
        let mtime = self.fs.mtime(p);
        match self.fs.get(p) {
            None => Err(ENOENT),
            Some(Node::Dir) => Ok(St { mode: 0o040755, len: 4096, ino, mtime }),
            Some(Node::File(d)) => Ok(St { mode: 0o100644, len: d.len(), ino, mtime }),
            Some(Node::Link(t)) => Ok(St { mode: 0o120777, len: t.len(), ino, mtime }),
        }
    }

    unsafe fn stat_fd(&mut self, fd: i32) -> Result<St, i32> {
        match self.file(fd) {
            Some(f) => {
                let p = f.path.clone();
                self.stat_of(&p)
            }
            None if (0..=2).contains(&fd) => {
                let mode = if self.plan.tty { 0o020620 } else { 0o010600 };
                Ok(St { mode, len: 0, ino: fd as u64, mtime: self.plan.clock0 })
            }
            None => Err(EBADF),
        }
    }

    unsafe fn random(&mut self, buf: *mut u8, n: usize) {
        for i in 0..n {
            *buf.add(i) = self.rnd.next() as u8;
        }
        self.log(T_RAND, n as i64, 0, 0, b"", b"");
    }

    unsafe fn clock(&mut self) -> i64 {
        let sh = shared();
        sh.clock_calls += 1;
        sh.clock = sh.clock.wrapping_add(self.plan.clock_step);
        let t = sh.clock;
        self.log(T_CLOCK, t, 0, 0, b"", b"");
        t
    }

    // --- threads ---

    /// May switch to another thread. `odds`: if left to chance, one out of so many times
    unsafe fn yield_point(&mut self, odds: u64) {
        if !self.sched_on {
            return;
        }
        let sh = shared();
        sh.yields += 1;
        while self.sched_pos < self.plan.sched.len() {
            let (at, to) = self.plan.sched[self.sched_pos];
            if sh.yields < at {
                break;
            }
            self.sched_pos += 1;
            self.maybe_to(to);
        }
        if self.plan.auto_sched != 0 && self.auto.below(odds) == 0 {
            let to = self.auto.below(self.n_threads as u64) as u32;
            self.maybe_to(to);
        }
    }

    /// An access to global data
    unsafe fn global_access(&mut self) {
        let sh = shared();
        sh.globals += 1;
        while self.globals_pos < self.plan.sched_globals.len() {
            let (at, to) = self.plan.sched_globals[self.globals_pos];
            if sh.globals < at {
                break;
            }
            self.globals_pos += 1;
            self.maybe_to(to);
        }
        self.yield_point(2);
    }

    unsafe fn maybe_to(&mut self, to: u32) {
        let to = to % self.n_threads.max(1);
        if to != self.cur && self.live[to as usize] {
            self.switch_to(to);
        }
    }

    unsafe fn next_live(&self) -> Option<u32> {
        (1..=self.n_threads)
            .map(|k| (self.cur + k) % self.n_threads)
            .find(|t| *t != self.cur && self.live[*t as usize])
    }

    unsafe fn switch_to(&mut self, to: u32) {
        let me = self.cur;
        let sh = shared();
        sh.switches += 1;
        self.log(T_SWITCH, me as i64, to as i64, sh.yields as i64, b"", b"");
        self.cur = to;
        let stays = self.live[me as usize]; // from here on, there may be another one of that number
        TOKEN.store(to, Ordering::SeqCst);
        futex_wake();
        if stays {
            wait_token(me);
        }
    }

    /// The running thread waits for something another one has to do
    unsafe fn blocked(&mut self) {
        self.futile += 1;
        if self.futile > 1000 {
            die(ST_DEADLOCK);
        }
        match self.next_live() {
            Some(t) => self.switch_to(t),
            None => die(ST_DEADLOCK),
        }
    }
}

unsafe fn futex_wake() {
    sys(SYS_FUTEX, &TOKEN as *const _ as i64, 1 | 128, i32::MAX as i64, 0, 0, 0);
}

unsafe fn wait_token(me: u32) {
    loop {
        let t = TOKEN.load(Ordering::SeqCst);
        if t == me {
            return;
        }
        sys(SYS_FUTEX, &TOKEN as *const _ as i64, 128, t as i64, 0, 0, 0);
    }
}

/// Run the bodies as threads of the simulation. Only one of them runs at any
/// time, and the plan decides which.
pub fn run_threads(bodies: Vec<Box<dyn FnOnce() + Send>>) {
    unsafe {
        let sim = &mut *SIM;
        let n = bodies.len();
        assert!(n <= MAX_THREADS);
        sim.n_threads = n as u32;
        for i in 0..n {
            sim.live[i] = true;
        }
        sim.cur = 0;
        LIVELY = true;
        TOKEN.store(u32::MAX, Ordering::SeqCst);
        let handles: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, body)| {
                std::thread::Builder::new()
                    .name(format!("sim-{}", i))
                    .spawn(move || {
                        THREAD.with(|t| t.set(i as u32));
                        wait_token(i as u32);
                        body();
                        GONE.with(|g| g.set(true));
                        let sim = &mut *SIM;
                        sim.live[i] = false;
                        match sim.next_live() {
                            Some(t) => sim.switch_to(t),
                            None => {
                                sim.sched_on = false;
                                TOKEN.store(u32::MAX, Ordering::SeqCst);
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        sim.sched_on = true;
        TOKEN.store(0, Ordering::SeqCst);
        futex_wake();
        for h in handles {
            let _ = h.join();
        }
        sim.sched_on = false;
    }
}

/// Enter the simulator from code under test. None: it isn't code under test.
unsafe fn enter<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    if !IN_CODE.with(|c| c.replace(false)) {
        return None;
    }
    let sim = &mut *SIM;
    sim.futile = 0;
    sim.yield_point(4);
    let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(sim))) {
        Ok(r) => r,
        Err(_) => die(ST_HARNESS),
    };
    IN_CODE.with(|c| c.set(true));
    Some(r)
}

unsafe fn cstr(p: *const c_char) -> String {
    String::from_utf8_lossy(CStr::from_ptr(p).to_bytes()).to_string()
}

// ---------------------------------------------------------------------------
// interposed libc functions

const AT_FDCWD: i64 = -100;

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match enter(|s| s.do_open(&cstr(path), flags as i64)) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_OPENAT, AT_FDCWD, path as i64, flags as i64, mode as i64, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match enter(|s| {
        let p = s.at(dir, &cstr(path));
        s.do_open(&p, flags as i64)
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_OPENAT, dir as i64, path as i64, flags as i64, mode as i64, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    match enter(|s| s.do_read(fd, buf as *mut u8, n, None)) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_READ, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    match enter(|s| s.do_read(fd, buf as *mut u8, n, Some(off as usize))) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_PREAD, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize,
    }
}

#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    match enter(|s| {
        // a short read into the first buffer with any room
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return s.do_read(fd, v.base, v.len, None);
            }
        }
        0
    }) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_READV, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    match enter(|s| s.do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), None)) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_WRITE, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    match enter(|s| s.do_write(fd, std::slice::from_raw_parts(buf as *const u8, n), Some(off as usize))) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_PWRITE, fd as i64, buf as i64, n as i64, off, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const IoVec, cnt: c_int) -> isize {
    match enter(|s| {
        let mut all = vec![];
        for i in 0..cnt as usize {
            let v = &*iov.add(i);
            all.extend_from_slice(std::slice::from_raw_parts(v.base, v.len));
        }
        s.do_write(fd, &all, None)
    }) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_WRITEV, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    match enter(|s| {
        let act = s.op(Class::Close);
        let i = fd - FD0;
        let f = if i >= 0 && (i as usize) < s.fds.len() { s.fds[i as usize].take() } else { None };
        match f {
            None => -EBADF as i64,
            Some(f) => {
                s.log(T_CLOSE, fd as i64, 0, 0, f.path.as_bytes(), b"");
                match act {
                    Some(Act::Errno(e)) => -e as i64,
                    _ => 0,
                }
            }
        }
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_CLOSE, fd as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    match enter(|s| {
        let len = match s.stat_fd(fd) {
            Ok(st) => st.len as i64,
            Err(e) => return -e as i64,
        };
        match s.file(fd) {
            None => -ESPIPE as i64,
            Some(f) => {
                let to = match whence {
                    0 => off,
                    1 => f.off as i64 + off,
                    _ => len + off,
                };
                if to < 0 {
                    -EINVAL as i64
                } else {
                    f.off = to as usize;
                    to
                }
            }
        }
    }) {
        Some(r) => ret(r),
        None => ret(sys(SYS_LSEEK, fd as i64, off, whence as i64, 0, 0, 0)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, whence: c_int) -> i64 {
    lseek64(fd, off, whence)
}

unsafe fn fill_stat(buf: *mut u8, r: Result<St, i32>) -> i64 {
    match r {
        Err(e) => -e as i64,
        Ok(St { mode, len, ino, mtime }) => {
            std::ptr::write_bytes(buf, 0, 144);
            let w64 = |at: usize, v: u64| (buf.add(at) as *mut u64).write_unaligned(v);
            w64(0, 1);
            w64(8, ino);
            w64(16, 1);
            (buf.add(24) as *mut u32).write_unaligned(mode);
            w64(48, len as u64);
            w64(56, 4096);
            w64(64, len.div_ceil(512) as u64);
            for at in [72, 88, 104] {
                w64(at, mtime.div_euclid(1_000_000_000) as u64);
                w64(at + 8, mtime.rem_euclid(1_000_000_000) as u64);
            }
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut u8) -> c_int {
    match enter(|s| fill_stat(buf, s.stat_path(&cstr(path)))) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_NEWFSTATAT, AT_FDCWD, path as i64, buf as i64, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut u8) -> c_int {
    match enter(|s| fill_stat(buf, s.lstat_path(&cstr(path)))) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_NEWFSTATAT, AT_FDCWD, path as i64, buf as i64, 0x100, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut u8) -> c_int {
    match enter(|s| fill_stat(buf, s.stat_fd(fd))) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FSTAT, fd as i64, buf as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fstatat64(dir: c_int, path: *const c_char, buf: *mut u8, flags: c_int) -> c_int {
    match enter(|s| {
        let p = cstr(path);
        let full = s.at(dir, &p);
        if p.is_empty() {
            fill_stat(buf, s.stat_fd(dir))
        } else if flags & 0x100 != 0 {
            fill_stat(buf, s.lstat_path(&full))
        } else {
            fill_stat(buf, s.stat_path(&full))
        }
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_NEWFSTATAT, dir as i64, path as i64, buf as i64, flags as i64, 0, 0)) as c_int,
    }
}

unsafe fn fill_statx(buf: *mut u8, r: Result<St, i32>) -> i64 {
    match r {
        Err(e) => -e as i64,
        Ok(St { mode, len, ino, mtime }) => {
            std::ptr::write_bytes(buf, 0, 256);
            let w32 = |at: usize, v: u32| (buf.add(at) as *mut u32).write_unaligned(v);
            let w64 = |at: usize, v: u64| (buf.add(at) as *mut u64).write_unaligned(v);
            w32(0, 0xfff);
            w32(4, 4096);
            w32(16, 1);
            (buf.add(28) as *mut u16).write_unaligned(mode as u16);
            w64(32, ino);
            w64(40, len as u64);
            w64(48, len.div_ceil(512) as u64);
            for at in [64, 80, 96, 112] {
                w64(at, mtime.div_euclid(1_000_000_000) as u64);
                w32(at + 8, mtime.rem_euclid(1_000_000_000) as u32);
            }
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, path: *const c_char, flags: c_int, mask: c_uint, buf: *mut u8) -> c_int {
    match enter(|s| {
        if path.is_null() || buf.is_null() {
            return -14; // std probes for statx like this
        }
        let p = cstr(path);
        let full = s.at(dir, &p);
        if p.is_empty() {
            fill_statx(buf, s.stat_fd(dir))
        } else if flags & 0x100 != 0 {
            fill_statx(buf, s.lstat_path(&full))
        } else {
            fill_statx(buf, s.stat_path(&full))
        }
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_STATX, dir as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    match enter(|s| s.do_mkdir(&cstr(path))) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_MKDIR, path as i64, mode as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    match enter(|s| s.do_unlink(&cstr(path), false)) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_UNLINK, path as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    match enter(|s| s.do_unlink(&cstr(path), true)) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_RMDIR, path as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    match enter(|s| s.do_rename(&cstr(from), &cstr(to))) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_RENAME, from as i64, to as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    match enter(|s| {
        let act = s.op(Class::Other);
        let path = match s.file(fd) {
            Some(f) if f.writable => f.path.clone(),
            _ => return -EBADF as i64,
        };
        let r = match act {
            Some(Act::Errno(e)) => -e as i64,
            _ => {
                s.fs.truncate(&path, len as usize);
                0
            }
        };
        s.log(T_TRUNC, len, r, 0, path.as_bytes(), b"");
        r
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FTRUNCATE, fd as i64, len, 0, 0, 0, 0)) as c_int,
    }
}

unsafe fn do_sync(fd: c_int) -> Option<i64> {
    enter(|s| {
        let act = s.op(Class::Other);
        let path = match s.file(fd) {
            Some(f) => f.path.clone(),
            None => return -EINVAL as i64,
        };
        s.log(T_SYNC, 0, 0, 0, path.as_bytes(), b"");
        match act {
            Some(Act::Errno(e)) => -e as i64,
            _ => 0,
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match do_sync(fd) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FSYNC, fd as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match do_sync(fd) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FDATASYNC, fd as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

unsafe fn do_dup(s: &mut Sim, fd: c_int) -> i64 {
    match s.file(fd) {
        None => -EBADF as i64,
        Some(f) => {
            let g = OpenFile { path: f.path.clone(), ..*f };
            s.new_fd(g) as i64
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    match enter(|s| match cmd {
        0 | 1030 => do_dup(s, fd), // F_DUPFD, F_DUPFD_CLOEXEC
        _ => 0,
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FCNTL, fd as i64, cmd as i64, arg, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    match enter(|s| do_dup(s, fd)) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_DUP, fd as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    match enter(|s| match s.stat_path(&cstr(path)) {
        Ok(_) => 0,
        Err(e) => -e as i64,
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_ACCESS, path as i64, mode as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: usize) -> *mut c_char {
    match enter(|s| {
        let c = s.cwd.clone();
        if buf.is_null() || n <= c.len() {
            return -34;
        }
        std::ptr::copy_nonoverlapping(c.as_ptr(), buf as *mut u8, c.len());
        *buf.add(c.len()) = 0;
        0
    }) {
        Some(0) => buf,
        Some(e) => {
            ret(e);
            std::ptr::null_mut()
        }
        None => {
            if ret(sys(SYS_GETCWD, buf as i64, n as i64, 0, 0, 0, 0)) < 0 {
                std::ptr::null_mut()
            } else {
                buf
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    match enter(|s| {
        let p = cstr(path);
        match s.do_path(&p, Class::Other) {
            Err(e) => -e as i64,
            Ok(f) => match s.fs.get(&f) {
                Some(Node::Dir) => {
                    s.log(T_OTHER, 0, 0, 0, format!("chdir {}", f).as_bytes(), b"");
                    s.cwd = f;
                    0
                }
                Some(_) => -ENOTDIR as i64,
                None => -ENOENT as i64,
            },
        }
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_CHDIR, path as i64, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    match enter(|s| {
        let p = cstr(path);
        match s.do_path(&p, Class::Stat) {
            Err(e) => Err(e),
            Ok(f) if s.fs.get(&f).is_some() => Ok(f),
            Ok(_) => Err(ENOENT),
        }
    }) {
        Some(Ok(f)) => {
            let to = if out.is_null() { malloc(f.len() + 1) as *mut c_char } else { out };
            std::ptr::copy_nonoverlapping(f.as_ptr(), to as *mut u8, f.len());
            *to.add(f.len()) = 0;
            to
        }
        Some(Err(e)) => {
            set_errno(e);
            std::ptr::null_mut()
        }
        None => {
            set_errno(ENOSYS);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: usize) -> isize {
    match enter(|s| {
        if let Err(e) = s.lstat_path(&cstr(path)) {
            return -e as i64;
        }
        let p = s.shown_link(&cstr(path));
        match s.fs.get(&p) {
            Some(Node::Link(t)) => {
                let k = t.len().min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, k);
                k as i64
            }
            _ => -EINVAL as i64,
        }
    }) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_READLINK, path as i64, buf as i64, n as i64, 0, 0, 0)) as isize,
    }
}

unsafe fn refuse(what: &str, path: *const c_char) -> Option<i64> {
    enter(|s| {
        s.op(Class::Other);
        let t = format!("{} {}", what, cstr(path));
        s.log(T_OTHER, -EROFS as i64, 0, 0, t.as_bytes(), b"");
        -EROFS as i64
    })
}

/// Values for variables that nobody has set
const ODD_VALUES: [&str; 14] = ["1", "0", "", "yes", "on", "/w/sub", "/tmp", "/w/waves", "1e-3", "100", "3", "de_DE.UTF-8", "debug", "-1"];

extern "C" {
    static environ: *const *const c_char;
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let n = CStr::from_ptr(name).to_bytes();
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        let v = CStr::from_ptr(*p).to_bytes();
        if v.len() > n.len() && &v[..n.len()] == n && v[n.len()] == b'=' {
            return (*p).add(n.len() + 1);
        }
        p = p.add(1);
    }
    let odd = enter(|s| {
        // those are std's
        if s.plan.env_seed == 0 || n.starts_with(b"RUST_") {
            return std::ptr::null();
        }
        let h = crate::prng::hash_bytes(crate::prng::HASH0 ^ s.plan.env_seed, n);
        let v = ODD_VALUES[(crate::prng::mix(h) % ODD_VALUES.len() as u64) as usize];
        let t = format!("environment variable {} is read: {:?}", String::from_utf8_lossy(n), v);
        s.log(T_OTHER, 0, 0, 0, t.as_bytes(), b"");
        let m = malloc(v.len() + 1) as *mut u8;
        std::ptr::copy_nonoverlapping(v.as_ptr(), m, v.len());
        *m.add(v.len()) = 0;
        m as *const c_char
    });
    odd.unwrap_or(std::ptr::null())
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: usize, mask: *mut u8) -> c_int {
    match enter(|s| {
        std::ptr::write_bytes(mask, 0, n);
        for k in 0..(s.plan.cpus as usize).min(n * 8) {
            *mask.add(k / 8) |= 1 << (k % 8);
        }
    }) {
        Some(()) => 0,
        None => {
            std::ptr::write_bytes(mask, 0, n);
            if ret(sys(SYS_SCHED_GETAFFINITY, pid as i64, n as i64, mask as i64, 0, 0, 0)) < 0 { -1 } else { 0 }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn symlink(from: *const c_char, to: *const c_char) -> c_int {
    match enter(|s| s.do_symlink(&cstr(from), &cstr(to))) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_SYMLINK, from as i64, to as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn link(from: *const c_char, to: *const c_char) -> c_int {
    match enter(|s| s.do_link(&cstr(from), &cstr(to))) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_LINK, from as i64, to as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, from: *const c_char, e: c_int, to: *const c_char, flags: c_int) -> c_int {
    match enter(|s| {
        let (f, t) = (s.at(d, &cstr(from)), s.at(e, &cstr(to)));
        s.do_link(&f, &t)
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_LINKAT, d as i64, from as i64, e as i64, to as i64, flags as i64, 0)) as c_int,
    }
}

unsafe fn do_utime(s: &mut Sim, path: String, times: *const i64) -> i64 {
    let act = s.op(Class::Other);
    let now = s.clock();
    let t = if times.is_null() {
        now
    } else {
        match *times.add(3) {
            0x3fff_ffff => now,
            0x3fff_fffe => return 0,
            ns => *times.add(2) * 1_000_000_000 + ns,
        }
    };
    let r = match (act, s.fs.get(&path)) {
        (Some(Act::Errno(e)), _) => -e as i64,
        (_, None) => -ENOENT as i64,
        _ => {
            s.fs.set_mtime(&path, t);
            0
        }
    };
    s.log(T_UTIME, r, t, 0, path.as_bytes(), b"");
    r
}

#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, times: *const i64) -> c_int {
    match enter(|s| match s.file(fd).map(|f| f.path.clone()) {
        Some(p) => do_utime(s, p, times),
        None => -EBADF as i64,
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_UTIMENSAT, fd as i64, 0, times as i64, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, path: *const c_char, times: *const i64, flags: c_int) -> c_int {
    match enter(|s| {
        let p = s.at(d, &cstr(path));
        let p = if flags & 0x100 != 0 { s.shown_link(&p) } else { s.shown(&p) };
        do_utime(s, p, times)
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_UTIMENSAT, d as i64, path as i64, times as i64, flags as i64, 0, 0)) as c_int,
    }
}

/// A directory that's being listed
struct Listing {
    fd: i32,
    /// name, and the type as in dirent64
    names: Vec<(String, u8)>,
    pos: usize,
    /// struct dirent64
    ent: [u64; 36],
}

unsafe fn listing(s: &mut Sim, fd: i32) -> i64 {
    let dir = match s.file(fd) {
        Some(f) if f.dir => f.path.clone(),
        Some(_) => return -ENOTDIR as i64,
        None => return -EBADF as i64,
    };
    let lead = if dir == "/" { dir.clone() } else { format!("{}/", dir) };
    let mut names: Vec<(String, u8)> = s.fs.nodes.iter()
        .filter(|(p, _)| p.starts_with(&lead) && p.len() > lead.len() && !p[lead.len()..].contains('/'))
        .map(|(p, n)| (p[lead.len()..].to_string(), match n {
            Node::Dir => 4,
            Node::File(_) => 8,
            Node::Link(_) => 10,
        })).collect();
    names.push((".".to_string(), 4));
    names.push(("..".to_string(), 4));
    // in no particular order
    let seed = s.plan.hash_seed;
    names.sort_by_key(|n| crate::prng::hash_bytes(crate::prng::HASH0 ^ seed, n.0.as_bytes()));
    Box::into_raw(Box::new(Listing { fd, names, pos: 0, ent: [0; 36] })) as i64
}

#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    match enter(|s| match s.do_open(&cstr(path), O_DIRECTORY) {
        e if e < 0 => e,
        fd => listing(s, fd as i32),
    }) {
        Some(r) if r > 0 => r as *mut c_void,
        Some(e) => {
            ret(e);
            std::ptr::null_mut()
        }
        None => {
            set_errno(EACCES);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    match enter(|s| listing(s, fd)) {
        Some(r) if r > 0 => r as *mut c_void,
        Some(e) => {
            ret(e);
            std::ptr::null_mut()
        }
        None => {
            set_errno(EACCES);
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    enter(|_| {
        let l = &mut *(d as *mut Listing);
        if l.pos >= l.names.len() {
            return std::ptr::null_mut();
        }
        let (name, kind) = &l.names[l.pos];
        l.pos += 1;
        let b = l.ent.as_mut_ptr() as *mut u8;
        std::ptr::write_bytes(b, 0, 288);
        l.ent[0] = 1 + l.pos as u64;
        l.ent[1] = l.pos as u64;
        (b.add(16) as *mut u16).write(280);
        *b.add(18) = *kind;
        let n = name.len().min(255);
        std::ptr::copy_nonoverlapping(name.as_ptr(), b.add(19), n);
        b as *mut c_void
    }).unwrap_or(std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn dirfd(d: *mut c_void) -> c_int {
    (*(d as *mut Listing)).fd
}

#[no_mangle]
pub unsafe extern "C" fn closedir(d: *mut c_void) -> c_int {
    let fd = (*(d as *mut Listing)).fd;
    enter(|_| drop(Box::from_raw(d as *mut Listing)));
    close(fd)
}

#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
    match enter(|s| {
        let p = s.at(dir, &cstr(path));
        s.do_unlink(&p, flags & 0x200 != 0)
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_UNLINKAT, dir as i64, path as i64, flags as i64, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: c_uint) -> c_int {
    match enter(|s| {
        let shown = s.shown(&cstr(path));
        let r = match s.do_path(&cstr(path), Class::Other) {
            Err(e) => -e as i64,
            Ok(p) if s.fs.get(&p).is_some() => 0,
            Ok(_) => -ENOENT as i64,
        };
        s.log(T_CHMOD, r, mode as i64, 0, shown.as_bytes(), b"");
        r
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_CHMOD, path as i64, mode as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: c_uint) -> c_int {
    match enter(|s| {
        let p = match s.file(fd) {
            Some(f) => f.path.clone(),
            None => return -EBADF as i64,
        };
        s.log(T_CHMOD, 0, mode as i64, 0, p.as_bytes(), b"");
        0
    }) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FCHMOD, fd as i64, mode as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: c_int, b: *mut i64, c: c_int, d: *mut i64, n: usize, f: c_uint) -> isize {
    match enter(|_| -ENOSYS as i64) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_COPY_FILE_RANGE, a as i64, b as i64, c as i64, d as i64, n as i64, f as i64)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, c: *mut i64, n: usize) -> isize {
    match enter(|_| -EINVAL as i64) {
        Some(r) => ret(r) as isize,
        None => ret(sys(SYS_SENDFILE, a as i64, b as i64, c as i64, n as i64, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: i64, len: i64) -> c_int {
    match enter(|_| -95i64) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FALLOCATE, fd as i64, mode as i64, off, len, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    match enter(|_| 0i64) {
        Some(r) => ret(r) as c_int,
        None => ret(sys(SYS_FLOCK, fd as i64, how as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    match enter(|s| (0..=2).contains(&fd) && s.plan.tty) {
        Some(true) => 1,
        _ => {
            set_errno(25);
            0
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    match enter(|s| {
        s.random(buf as *mut u8, n);
        n as i64
    }) {
        Some(r) => r as isize,
        None => ret(sys(SYS_GETRANDOM, buf as i64, n as i64, flags as i64, 0, 0, 0)) as isize,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: usize) -> c_int {
    if getrandom(buf, n, 0) == n as isize { 0 } else { -1 }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    match enter(|s| s.clock()) {
        Some(t) => {
            *ts = [t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000)];
            0
        }
        None => ret(sys(SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut [i64; 2], tz: *mut c_void) -> c_int {
    match enter(|s| s.clock()) {
        Some(t) => {
            *tv = [t.div_euclid(1_000_000_000), t.rem_euclid(1_000_000_000) / 1000];
            0
        }
        None => ret(sys(SYS_GETTIMEOFDAY, tv as i64, tz as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, &mut ts);
    if !out.is_null() {
        *out = ts[0];
    }
    ts[0]
}

unsafe fn do_sleep(req: *const [i64; 2]) -> Option<i64> {
    enter(|s| {
        s.op(Class::Other);
        if s.sched_on {
            if let Some(t) = s.next_live() {
                s.switch_to(t);
            }
        }
        let sh = shared();
        sh.clock = sh.clock.wrapping_add((*req)[0].wrapping_mul(1_000_000_000)).wrapping_add((*req)[1]);
        0
    })
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    match do_sleep(req) {
        Some(_) => 0,
        None => ret(sys(SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: c_int, flags: c_int, req: *const [i64; 2], rem: *mut [i64; 2]) -> c_int {
    match do_sleep(req) {
        Some(_) => 0,
        None => -sys(SYS_CLOCK_NANOSLEEP, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match enter(|s| s.plan.pid) {
        Some(p) => p,
        None => sys(SYS_GETPID, 0, 0, 0, 0, 0, 0) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn gettid() -> c_int {
    match enter(|s| s.plan.pid + THREAD.with(|t| t.get()) as i32) {
        Some(p) => p,
        None => sys(SYS_GETTID, 0, 0, 0, 0, 0, 0) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match enter(|s| {
        if s.sched_on && s.next_live().is_some() {
            s.blocked();
        }
    }) {
        Some(()) => 0,
        None => ret(sys(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> c_long {
    match n {
        SYS_FUTEX => {
            // wait, wait_bitset
            let cmd = b & 127;
            match enter(|s| {
                if cmd == 0 || cmd == 9 {
                    if *(a as *const u32) != c as u32 {
                        return -EAGAIN as i64;
                    }
                    if d != 0 {
                        // with a timeout: time passes
                        let ts = &*(d as *const [i64; 2]);
                        let sh = shared();
                        sh.clock = sh.clock.wrapping_add(ts[0].wrapping_mul(1_000_000_000)).wrapping_add(ts[1]);
                        if s.sched_on && s.next_live().is_some() {
                            s.blocked();
                        }
                        return -110;
                    }
                    if !s.sched_on {
                        die(ST_DEADLOCK);
                    }
                    s.blocked();
                    0
                } else {
                    1
                }
            }) {
                Some(r) => ret(r),
                None => ret(sys(n, a, b, c, d, e, f)),
            }
        }
        SYS_GETRANDOM => getrandom(a as *mut c_void, b as usize, c as c_uint) as c_long,
        SYS_STATX => statx(a as c_int, b as *const c_char, c as c_int, d as c_uint, e as *mut u8) as c_long,
        SYS_CLOCK_GETTIME => clock_gettime(a as c_int, b as *mut [i64; 2]) as c_long,
        SYS_GETTID => gettid() as c_long,
        SYS_COPY_FILE_RANGE =>
            copy_file_range(a as c_int, b as *mut i64, c as c_int, d as *mut i64, e as usize, f as c_uint) as c_long,
        SYS_MEMBARRIER => ret(sys(n, a, b, c, d, e, f)),
        _ => ret(sys(n, a, b, c, d, e, f)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if let Some(()) = enter(|s| s.log(T_CODE, code as i64, 0, 0, b"", b"")) {
        die(ST_DONE);
    }
    sys(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
    loop {}
}

#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    exit(code)
}

// ---------------------------------------------------------------------------
// threads started by the code under test

extern "C" {
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    fn __cxa_thread_atexit_impl(f: extern "C" fn(*mut c_void), arg: *mut c_void, dso: *mut c_void) -> c_int;
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;

struct NewThread {
    start: Start,
    arg: *mut c_void,
    id: u32,
}

unsafe fn real(name: &CStr) -> *mut c_void {
    let f = dlsym(-1isize as *mut c_void, name.as_ptr()); // RTLD_NEXT
    if f.is_null() {
        die(ST_HARNESS);
    }
    f
}

extern "C" fn simulated_thread(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = Box::from_raw(p as *mut NewThread);
        let (start, arg, id) = (t.start, t.arg, t.id);
        drop(t);
        THREAD.with(|x| x.set(id));
        wait_token(id);
        // first in, so last out: after the destructors of its thread locals
        __cxa_thread_atexit_impl(thread_is_done, std::ptr::null_mut(), &raw mut EDGES as *mut c_void);
        IN_CODE.with(|c| c.set(true));
        start(arg)
    }
}

extern "C" fn thread_is_done(_: *mut c_void) {
    unsafe {
        IN_CODE.with(|c| c.set(false));
        GONE.with(|g| g.set(true));
        let sim = &mut *SIM;
        let me = THREAD.with(|x| x.get());
        sim.live[me as usize] = false;
        sim.futile = 0;
        match sim.next_live() {
            Some(t) => sim.switch_to(t),
            None => die(ST_DEADLOCK),
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut u64, attr: *const c_void, start: Start, arg: *mut c_void) -> c_int {
    let f: extern "C" fn(*mut u64, *const c_void, Start, *mut c_void) -> c_int =
        std::mem::transmute(real(c"pthread_create"));
    match enter(|s| {
        if let Some(Act::Errno(e)) = s.op(Class::Other) {
            return e;
        }
        if !s.sched_on {
            // so far, there was only one
            s.sched_on = true;
            s.cur = 0;
            s.n_threads = 1;
            s.live = [false; MAX_THREADS];
            s.live[0] = true;
            THREAD.with(|x| x.set(0));
            TOKEN.store(0, Ordering::SeqCst);
            LIVELY = true;
        }
        let id = (1..s.n_threads).find(|k| !s.live[*k as usize]).unwrap_or(s.n_threads);
        if id as usize >= MAX_THREADS {
            return EAGAIN;
        }
        let b = Box::into_raw(Box::new(NewThread { start, arg, id }));
        let r = f(t, attr, simulated_thread, b as *mut c_void);
        if r == 0 {
            s.n_threads = s.n_threads.max(id + 1);
            s.live[id as usize] = true;
            s.handles[id as usize] = *t;
            s.log(T_OTHER, 0, 0, 0, format!("start of thread {}", id).as_bytes(), b"");
        }
        r
    }) {
        Some(r) => r,
        None => f(t, attr, start, arg),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, out: *mut *mut c_void) -> c_int {
    let f: extern "C" fn(u64, *mut *mut c_void) -> c_int = std::mem::transmute(real(c"pthread_join"));
    enter(|s| {
        if let Some(id) = (0..s.n_threads as usize).rev().find(|k| s.handles[*k] == t && t != 0) {
            while s.live[id] {
                s.blocked();
            }
            s.handles[id] = 0;
        }
    });
    f(t, out)
}

// no other programs, and no network

#[no_mangle]
pub unsafe extern "C" fn posix_spawnp(_: *mut c_int, p: *const c_char, _: *const c_void, _: *const c_void,
    _: *const c_void, _: *const c_void) -> c_int {
    refuse("posix_spawn", p);
    EAGAIN
}

#[no_mangle]
pub unsafe extern "C" fn socket(_: c_int, _: c_int, _: c_int) -> c_int {
    refuse("socket", c"".as_ptr());
    set_errno(EACCES);
    -1
}

// ---------------------------------------------------------------------------
// the heap: an arena at a fixed place for code under test

const ARENA_AT: usize = 0x6100_0000_0000;
const ARENA_SIZE: usize = 1 << 30;

struct Arena {
    next: usize,
    free: [usize; 48],
}

static mut ARENA: Arena = Arena { next: 0, free: [0; 48] };

unsafe fn arena_init(shift: u64) {
    let prot = 3; // read, write
    let flags = 0x2 | 0x20 | 0x4000 | 0x100000; // private, anonymous, noreserve, fixed_noreplace
    let r = sys(SYS_MMAP, ARENA_AT as i64, ARENA_SIZE as i64, prot, flags, -1, 0);
    assert!(r == ARENA_AT as i64, "no room for the arena: {}", r);
    ARENA.next = ARENA_AT + (shift as usize) * 16;
}

fn in_arena(p: *const u8) -> bool {
    (ARENA_AT..ARENA_AT + ARENA_SIZE).contains(&(p as usize))
}

fn size_class(l: Layout) -> u32 {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros()
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let k = size_class(l) as usize;
    if k >= 48 {
        return std::ptr::null_mut();
    }
    let f = ARENA.free[k];
    if f != 0 {
        ARENA.free[k] = *(f as *const usize);
        return f as *mut u8;
    }
    let size = 1usize << k;
    let align = l.align().max(16);
    let at = (ARENA.next + align - 1) & !(align - 1);
    if at + size > ARENA_AT + ARENA_SIZE {
        return std::ptr::null_mut();
    }
    ARENA.next = at + size;
    at as *mut u8
}

pub struct SimAlloc;

/// None: not for the arena; Some(null): fails
unsafe fn sim_alloc(l: Layout) -> Option<*mut u8> {
    if !IN_CODE.with(|c| c.replace(false)) {
        return None;
    }
    let sim = &mut *SIM;
    let sh = &mut *(sim.shm as *mut Shared);
    sim.yield_point(64);
    sh.allocs += 1;
    let p = if sh.allocs == sim.plan.alloc_fail {
        sim.log(T_FAULT, 0, 0, 0, b"alloc:fail", b"");
        std::ptr::null_mut()
    } else {
        if sh.allocs > sim.plan.max_allocs {
            die(ST_BUDGET);
        }
        arena_alloc(l)
    };
    IN_CODE.with(|c| c.set(true));
    Some(p)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match sim_alloc(l) {
            Some(p) => p,
            None => System.alloc(l),
        }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        match sim_alloc(l) {
            Some(p) => {
                if !p.is_null() {
                    std::ptr::write_bytes(p, 0, l.size());
                }
                p
            }
            None => System.alloc_zeroed(l),
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p) {
            if GONE.with(|g| g.get()) {
                return;
            }
            let k = size_class(l) as usize;
            *(p as *mut usize) = ARENA.free[k];
            ARENA.free[k] = p as usize;
        } else {
            System.dealloc(p, l);
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let code = IN_CODE.with(|c| c.get());
        if !code && !in_arena(p) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

// ---------------------------------------------------------------------------
// calls from code under test, put there by the compiler: see sim/rustc.sh

/// How many edges there are in the control flow of the code under test
pub static mut EDGES: u32 = 0;
static mut MAP: *mut u8 = std::ptr::null_mut();
/// There's more than one thread
static mut LIVELY: bool = false;
/// So that everything ends, and at the same point each time
pub const MAX_STEPS: u64 = 6_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(from: *mut u32, to: *mut u32) {
    if from == to || *from != 0 {
        return;
    }
    let mut p = from;
    while p < to {
        if (EDGES as usize) < MAX_EDGES - 1 {
            EDGES += 1;
        }
        *p = EDGES;
        p = p.add(1);
    }
}

static mut STEPS: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if MAP.is_null() {
        return;
    }
    *MAP.add(*guard as usize) = 1;
    STEPS += 1;
    if STEPS & 0xffff == 0 {
        shared().steps = STEPS;
        if STEPS > MAX_STEPS {
            die(ST_BUDGET);
        }
    }
    if LIVELY && IN_CODE.with(|c| c.replace(false)) {
        (*SIM).yield_point(2000);
        IN_CODE.with(|c| c.set(true));
    }
}

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

#[inline(always)]
unsafe fn touched(a: *const u8) {
    if a >= &raw const __data_start && a < &raw const _end && LIVELY && IN_CODE.with(|c| c.replace(false)) {
        (*SIM).global_access();
        IN_CODE.with(|c| c.set(true));
    }
}

macro_rules! accesses {
    ($($n:ident)*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(a: *const u8) {
            touched(a)
        }
    )* }
}

accesses!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);
