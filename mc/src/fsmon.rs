//! Records the file operations of the current thread below a directory: the executable defines the C
//! entry points the standard library calls, and forwards them to the kernel.
use std::cell::RefCell;
use std::collections::HashMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_uint, c_void};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    /// opened for writing: path, truncated, created, append
    Open { path: String, trunc: bool, creat: bool, append: bool, id: u64 },
    /// bytes written at an offset (None: at the current position)
    Write { id: u64, at: Option<u64>, data: Vec<u8> },
    Sync { id: u64 },
    Rename { from: String, to: String },
    Unlink { path: String },
    Truncate { id: u64, len: u64 },
    /// set by the environment
    Mark(usize),
    /// an operation the model does not know
    Unknown { what: String },
}

#[derive(Default)]
struct Log {
    root: String,
    fds: HashMap<c_int, u64>,
    next: u64,
    ops: Vec<Op>,
}
thread_local! {
    static LOG: RefCell<Option<Log>> = const { RefCell::new(None) };
}

/// runs f and returns the write operations done below root by this thread
pub fn record<T>(root: &str, f: impl FnOnce() -> T) -> (T, Vec<Op>) {
    LOG.with(|l| *l.borrow_mut() = Some(Log { root: root.to_string(), ..Default::default() }));
    let r = f();
    let l = LOG.with(|l| l.borrow_mut().take()).unwrap();
    (r, l.ops)
}

/// puts a mark in the log
pub fn mark(k: usize) {
    with(|l| l.ops.push(Op::Mark(k)));
}

fn with<T>(f: impl FnOnce(&mut Log) -> T) -> Option<T> {
    LOG.try_with(|l| l.try_borrow_mut().ok().and_then(|mut g| g.as_mut().map(f))).ok().flatten()
}
unsafe fn path(p: *const c_char) -> String {
    unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned()
}

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    let fd = unsafe { libc::syscall(libc::SYS_openat, dir, p, flags, mode) } as c_int;
    if fd >= 0 && flags & (libc::O_WRONLY | libc::O_RDWR) != 0 {
        let s = unsafe { path(p) };
        with(|l| {
            if s.starts_with(&l.root) {
                l.next += 1;
                let id = l.next;
                l.fds.insert(fd, id);
                l.ops.push(Op::Open {
                    path: s,
                    trunc: flags & libc::O_TRUNC != 0,
                    creat: flags & libc::O_CREAT != 0,
                    append: flags & libc::O_APPEND != 0,
                    id,
                });
            }
        });
    }
    fd
}
fn on_fd(fd: c_int, f: impl FnOnce(u64) -> Op) {
    with(|l| {
        if let Some(id) = l.fds.get(&fd) {
            let op = f(*id);
            l.ops.push(op);
        }
    });
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, p, flags, mode) }
}
#[unsafe(no_mangle)]
#[allow(invalid_runtime_symbol_definitions)]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(libc::AT_FDCWD, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(d, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    unsafe { do_open(d, p, flags, mode) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    with(|l| l.fds.remove(&fd));
    unsafe { libc::syscall(libc::SYS_close, fd) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    let r = unsafe { libc::syscall(libc::SYS_write, fd, buf, n) } as isize;
    if r > 0 {
        on_fd(fd, |id| Op::Write { id, at: None, data: unsafe { std::slice::from_raw_parts(buf as *const u8, r as usize) }.to_vec() });
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    let r = unsafe { libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) } as isize;
    if r > 0 {
        on_fd(fd, |id| Op::Write {
            id,
            at: Some(off as u64),
            data: unsafe { std::slice::from_raw_parts(buf as *const u8, r as usize) }.to_vec(),
        });
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    let r = unsafe { libc::syscall(libc::SYS_writev, fd, iov, n) } as isize;
    if r > 0 {
        on_fd(fd, |id| {
            let mut data = vec![];
            for k in 0..n as usize {
                let v = unsafe { &*iov.add(k) };
                data.extend_from_slice(unsafe { std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len) });
            }
            data.truncate(r as usize);
            Op::Write { id, at: None, data }
        });
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    if off != 0 || wh != libc::SEEK_CUR {
        on_fd(fd, |_| Op::Unknown { what: format!("lseek {off} {wh}") });
    }
    unsafe { libc::syscall(libc::SYS_lseek, fd, off, wh) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    on_fd(fd, |id| Op::Sync { id });
    unsafe { libc::syscall(libc::SYS_fsync, fd) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    on_fd(fd, |id| Op::Sync { id });
    unsafe { libc::syscall(libc::SYS_fdatasync, fd) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    on_fd(fd, |id| Op::Truncate { id, len: len as u64 });
    unsafe { libc::syscall(libc::SYS_ftruncate, fd, len) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let (from, to) = unsafe { (path(a), path(b)) };
    let r = unsafe { libc::syscall(libc::SYS_renameat, libc::AT_FDCWD, a, libc::AT_FDCWD, b) } as c_int;
    if r == 0 {
        with(|l| {
            if from.starts_with(&l.root) || to.starts_with(&l.root) {
                l.ops.push(Op::Rename { from, to });
            }
        });
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    let s = unsafe { path(p) };
    let r = unsafe { libc::syscall(libc::SYS_unlink, p) } as c_int;
    if r == 0 {
        with(|l| {
            if s.starts_with(&l.root) {
                l.ops.push(Op::Unlink { path: s });
            }
        });
    }
    r
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, fl: c_int) -> c_int {
    let s = unsafe { path(b) };
    with(|l| {
        if s.starts_with(&l.root) {
            l.ops.push(Op::Unknown { what: format!("link {s}") });
        }
    });
    unsafe { libc::syscall(libc::SYS_linkat, d1, a, d2, b, fl) as c_int }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: usize, fl: c_uint) -> isize {
    // the standard library falls back to read and write
    let known = with(|l| l.fds.contains_key(&b)).unwrap_or(false);
    if known {
        unsafe { *libc::__errno_location() = libc::ENOSYS };
        return -1;
    }
    unsafe { libc::syscall(libc::SYS_copy_file_range, a, oa, b, ob, n, fl) as isize }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    let known = with(|l| l.fds.contains_key(&o)).unwrap_or(false);
    if known {
        unsafe { *libc::__errno_location() = libc::ENOSYS };
        return -1;
    }
    unsafe { libc::syscall(libc::SYS_sendfile, o, i, off, n) as isize }
}

/// Contents of the files below a directory
pub type Disk = std::collections::BTreeMap<String, Vec<u8>>;

/// A file system model: every open file designates an inode; names map to inodes.
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub names: std::collections::BTreeMap<String, u64>,
    /// inode: content in cache, content known durable
    pub inodes: std::collections::BTreeMap<u64, (Vec<u8>, Vec<u8>)>,
    handles: HashMap<u64, (u64, u64, bool)>,
    next: u64,
}

impl Model {
    pub fn from_disk(d: &Disk) -> Model {
        let mut m = Model::default();
        for (k, v) in d {
            m.next += 1;
            m.names.insert(k.clone(), m.next);
            m.inodes.insert(m.next, (v.clone(), v.clone()));
        }
        m
    }
    /// applies an operation, of a write only the first n bytes
    pub fn apply(&mut self, op: &Op, n: usize) -> Result<(), String> {
        match op {
            Op::Open { path, trunc, append, id, .. } => {
                let ino = match self.names.get(path) {
                    Some(i) => *i,
                    None => {
                        self.next += 1;
                        self.names.insert(path.clone(), self.next);
                        self.inodes.insert(self.next, (vec![], vec![]));
                        self.next
                    }
                };
                if *trunc {
                    self.inodes.get_mut(&ino).unwrap().0.clear();
                }
                self.handles.insert(*id, (ino, 0, *append));
            }
            Op::Write { id, at, data } => {
                let (ino, pos, append) = self.handles[id];
                let c = &mut self.inodes.get_mut(&ino).unwrap().0;
                let p = if append { c.len() } else { at.unwrap_or(pos) as usize };
                let d = &data[..n.min(data.len())];
                if c.len() < p + d.len() {
                    c.resize(p + d.len(), 0);
                }
                c[p..p + d.len()].copy_from_slice(d);
                if at.is_none() {
                    self.handles.insert(*id, (ino, (p + d.len()) as u64, append));
                }
            }
            Op::Sync { id } => {
                let ino = self.handles[id].0;
                let f = self.inodes.get_mut(&ino).unwrap();
                f.1 = f.0.clone();
            }
            Op::Rename { from, to } => {
                let i = self.names.remove(from).ok_or(format!("rename of unknown {from}"))?;
                self.names.insert(to.clone(), i);
            }
            Op::Unlink { path } => {
                self.names.remove(path);
            }
            Op::Truncate { id, len } => {
                let ino = self.handles[id].0;
                self.inodes.get_mut(&ino).unwrap().0.resize(*len as usize, 0);
            }
            Op::Mark(_) => {}
            Op::Unknown { what } => return Err(what.clone()),
        }
        Ok(())
    }
    /// what a reader sees after the process died
    pub fn disk(&self) -> Disk {
        self.names.iter().map(|(k, i)| (k.clone(), self.inodes[i].0.clone())).collect()
    }
    /// names of files whose content is not durable
    pub fn dirty(&self) -> Vec<String> {
        self.names.iter().filter(|(_, i)| self.inodes[i].0 != self.inodes[i].1).map(|(k, _)| k.clone()).collect()
    }
    pub fn durable(&self, name: &str) -> Vec<u8> {
        self.inodes[&self.names[name]].1.clone()
    }
}

pub fn read_disk(dir: &str) -> Disk {
    let mut d = Disk::new();
    if let Ok(it) = std::fs::read_dir(dir) {
        for e in it.flatten() {
            let p = e.path();
            if p.is_file() {
                d.insert(p.to_string_lossy().into_owned(), std::fs::read(&p).unwrap());
            }
        }
    }
    d
}
