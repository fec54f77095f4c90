//! Records the file-system operations the process performs below one folder, in order, and
//! rebuilds the folder as it was after any number of them.
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, off_t, size_t, ssize_t};

#[derive(Debug, Clone)]
pub enum FsOp {
    Mkdir(PathBuf),
    /// created when absent; true: emptied
    Open(PathBuf, bool),
    Write(PathBuf, u64, Vec<u8>),
    Trunc(PathBuf, u64),
    Rename(PathBuf, PathBuf),
    Unlink(PathBuf),
    Rmdir(PathBuf),
    Sync(PathBuf),
}

pub struct Rec {
    pub root: PathBuf,
    pub ops: Vec<FsOp>,
}

static ON: AtomicBool = AtomicBool::new(false);
static REC: Mutex<Option<Rec>> = Mutex::new(None);

pub fn start(root: &Path) {
    *REC.lock().unwrap() = Some(Rec { root: root.to_path_buf(), ops: Vec::new() });
    ON.store(true, Ordering::SeqCst);
}
pub fn position() -> usize {
    REC.lock().unwrap().as_ref().map_or(0, |r| r.ops.len())
}
pub fn snapshot() -> Vec<FsOp> {
    REC.lock().unwrap().as_ref().map(|r| r.ops.clone()).unwrap_or_default()
}
/// Stops recording when what was recorded explains what is in the folder (jobs may still be finishing).
pub fn settled(root: &Path) -> anyhow::Result<Vec<FsOp>> {
    for _ in 0..100 {
        let ops = snapshot();
        let mut all = Image::default();
        for op in &ops {
            all.apply(op);
        }
        if all.differs(root).is_none() {
            stop();
            return Ok(ops);
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    let mut all = Image::default();
    for op in &snapshot() {
        all.apply(op);
    }
    anyhow::bail!("the recorded operations do not explain {:?}", all.differs(root))
}
pub fn stop() -> Vec<FsOp> {
    ON.store(false, Ordering::SeqCst);
    REC.lock().unwrap().take().map(|r| r.ops).unwrap_or_default()
}

unsafe fn sys(num: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") num as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

fn fd_path(fd: c_int) -> Option<PathBuf> {
    let mut buf = [0u8; 4096];
    let name = format!("/proc/self/fd/{fd}\0");
    let n = unsafe { sys(libc::SYS_readlink, name.as_ptr() as usize, buf.as_mut_ptr() as usize, buf.len(), 0, 0, 0) };
    if n <= 0 {
        return None;
    }
    let s = std::str::from_utf8(&buf[..n as usize]).ok()?;
    Some(PathBuf::from(s))
}

unsafe fn at(dirfd: c_int, path: *const c_char) -> Option<PathBuf> {
    let p = Path::new(CStr::from_ptr(path).to_str().ok()?);
    if p.is_absolute() {
        Some(p.to_path_buf())
    } else if dirfd == libc::AT_FDCWD {
        std::env::current_dir().ok().map(|d| d.join(p))
    } else {
        fd_path(dirfd).map(|d| d.join(p))
    }
}

/// Performs `f` and, when it succeeds and concerns a path below the root, records what `g` makes of it.
fn around(paths: &[Option<PathBuf>], f: impl FnOnce() -> isize, g: impl FnOnce(isize) -> FsOp) -> isize {
    let mut rec = match REC.lock() {
        Ok(r) => r,
        Err(e) => e.into_inner(),
    };
    let inside = rec.as_ref().map_or(false, |r| paths.iter().all(|p| p.as_ref().map_or(false, |p| p.starts_with(&r.root))));
    let r = f();
    let e = unsafe { *libc::__errno_location() };
    if inside && r >= 0 {
        rec.as_mut().unwrap().ops.push(g(r));
    }
    drop(rec);
    unsafe { *libc::__errno_location() = e };
    r
}
fn on() -> bool {
    ON.load(Ordering::Relaxed)
}

unsafe fn openx(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let real = || sys(libc::SYS_openat, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0);
    if !on() || flags & (libc::O_CREAT | libc::O_TRUNC) == 0 {
        return real() as c_int;
    }
    let p = at(dirfd, path);
    let trunc = flags & libc::O_TRUNC != 0;
    around(&[p.clone()], real, |_| FsOp::Open(p.unwrap(), trunc)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openx(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openx(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openx(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    openx(d, path, flags, mode)
}

unsafe fn writex(fd: c_int, iov: &[libc::iovec], off: Option<u64>) -> ssize_t {
    let real = || match off {
        None if iov.len() == 1 => sys(libc::SYS_write, fd as usize, iov[0].iov_base as usize, iov[0].iov_len, 0, 0, 0),
        None => sys(libc::SYS_writev, fd as usize, iov.as_ptr() as usize, iov.len(), 0, 0, 0),
        Some(o) => sys(libc::SYS_pwrite64, fd as usize, iov[0].iov_base as usize, iov[0].iov_len, o as usize, 0, 0),
    };
    if !on() || fd < 3 {
        return real();
    }
    let p = fd_path(fd);
    if !p.as_ref().map_or(false, |p| p.is_absolute()) {
        return real();
    }
    let mut data = Vec::new();
    for v in iov {
        data.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    let pos = std::cell::Cell::new(0u64);
    around(
        &[p.clone()],
        || {
            pos.set(off.unwrap_or_else(|| {
                if libc::fcntl(fd, libc::F_GETFL) & libc::O_APPEND != 0 {
                    let mut st: libc::stat64 = std::mem::zeroed();
                    libc::fstat64(fd, &mut st);
                    st.st_size as u64
                } else {
                    libc::lseek64(fd, 0, libc::SEEK_CUR).max(0) as u64
                }
            }));
            real()
        },
        |n| {
            data.truncate(n as usize);
            FsOp::Write(p.unwrap(), pos.get(), data)
        },
    )
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    writex(fd, &[libc::iovec { iov_base: buf as *mut c_void, iov_len: n }], None)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    writex(fd, std::slice::from_raw_parts(iov, n as usize), None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    writex(fd, &[libc::iovec { iov_base: buf as *mut c_void, iov_len: n }], Some(off as u64))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    let real = || sys(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0);
    if !on() {
        return real() as c_int;
    }
    let p = fd_path(fd);
    around(&[p.clone()], real, |_| FsOp::Trunc(p.unwrap(), len as u64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    let real = || sys(libc::SYS_rename, a as usize, b as usize, 0, 0, 0, 0);
    if !on() {
        return real() as c_int;
    }
    let (pa, pb) = (at(libc::AT_FDCWD, a), at(libc::AT_FDCWD, b));
    around(&[pa.clone(), pb.clone()], real, |_| FsOp::Rename(pa.unwrap(), pb.unwrap())) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    let real = || sys(libc::SYS_unlink, a as usize, 0, 0, 0, 0, 0);
    if !on() {
        return real() as c_int;
    }
    let p = at(libc::AT_FDCWD, a);
    around(&[p.clone()], real, |_| FsOp::Unlink(p.unwrap())) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(a: *const c_char) -> c_int {
    let real = || sys(libc::SYS_rmdir, a as usize, 0, 0, 0, 0, 0);
    if !on() {
        return real() as c_int;
    }
    let p = at(libc::AT_FDCWD, a);
    around(&[p.clone()], real, |_| FsOp::Rmdir(p.unwrap())) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, a: *const c_char, flags: c_int) -> c_int {
    let real = || sys(libc::SYS_unlinkat, d as usize, a as usize, flags as usize, 0, 0, 0);
    if !on() {
        return real() as c_int;
    }
    let p = at(d, a);
    around(&[p.clone()], real, |_| if flags & libc::AT_REMOVEDIR != 0 { FsOp::Rmdir(p.unwrap()) } else { FsOp::Unlink(p.unwrap()) }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, mode: mode_t) -> c_int {
    let real = || sys(libc::SYS_mkdir, a as usize, mode as usize, 0, 0, 0, 0);
    if !on() {
        return real() as c_int;
    }
    let p = at(libc::AT_FDCWD, a);
    around(&[p.clone()], real, |_| FsOp::Mkdir(p.unwrap())) as c_int
}
unsafe fn syncx(fd: c_int, num: i64) -> c_int {
    // (what is on the scratch disk need not survive the machine)
    let real = || if num == 0 { 0 } else { sys(num, fd as usize, 0, 0, 0, 0, 0) };
    if !on() {
        return real() as c_int;
    }
    let p = fd_path(fd);
    around(&[p.clone()], real, |_| FsOp::Sync(p.unwrap())) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    syncx(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    syncx(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_: c_int, _: *mut off64_t, _: c_int, _: *mut off64_t, _: size_t, _: c_uint) -> ssize_t {
    // std falls back to reading and writing
    *libc::__errno_location() = libc::ENOSYS;
    -1
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(_: c_int, _: c_int, _: *mut off64_t, _: size_t) -> ssize_t {
    *libc::__errno_location() = libc::ENOSYS;
    -1
}

/// The folder's contents, rebuilt operation by operation.
#[derive(Default, Clone)]
pub struct Image {
    pub dirs: std::collections::BTreeSet<PathBuf>,
    pub files: BTreeMap<PathBuf, Vec<u8>>,
}
impl Image {
    pub fn apply(&mut self, op: &FsOp) {
        match op {
            FsOp::Mkdir(p) => {
                self.dirs.insert(p.clone());
            }
            FsOp::Open(p, trunc) => {
                let f = self.files.entry(p.clone()).or_default();
                if *trunc {
                    f.clear();
                }
            }
            FsOp::Write(p, off, data) => self.write(p, *off, data),
            FsOp::Trunc(p, n) => {
                if let Some(f) = self.files.get_mut(p) {
                    f.resize(*n as usize, 0);
                }
            }
            FsOp::Rename(a, b) => {
                if let Some(f) = self.files.remove(a) {
                    self.files.insert(b.clone(), f);
                } else if self.dirs.remove(a) {
                    self.dirs.insert(b.clone());
                    let moved: Vec<_> = self.files.keys().filter(|p| p.starts_with(a)).cloned().collect();
                    for p in moved {
                        let f = self.files.remove(&p).unwrap();
                        self.files.insert(b.join(p.strip_prefix(a).unwrap()), f);
                    }
                }
            }
            FsOp::Unlink(p) => {
                self.files.remove(p);
            }
            FsOp::Rmdir(p) => {
                self.dirs.remove(p);
            }
            FsOp::Sync(_) => {}
        }
    }
    pub fn write(&mut self, p: &Path, off: u64, data: &[u8]) {
        // (a file deleted while it is open isn't found any more)
        if let Some(f) = self.files.get_mut(p) {
            let end = off as usize + data.len();
            if f.len() < end {
                f.resize(end, 0);
            }
            f[off as usize..end].copy_from_slice(data);
        }
    }
    pub fn materialize(&self, root: &Path, to: &Path) -> std::io::Result<()> {
        std::fs::create_dir_all(to)?;
        for d in &self.dirs {
            std::fs::create_dir_all(to.join(d.strip_prefix(root).unwrap()))?;
        }
        for (p, f) in &self.files {
            let t = to.join(p.strip_prefix(root).unwrap());
            std::fs::create_dir_all(t.parent().unwrap())?;
            std::fs::write(t, f)?;
        }
        Ok(())
    }
    /// The same as what is really there?
    pub fn differs(&self, root: &Path) -> Option<PathBuf> {
        for (p, f) in &self.files {
            if std::fs::read(p).map_or(true, |x| &x != f) {
                return Some(p.clone());
            }
        }
        fn walk(d: &Path, out: &mut Vec<PathBuf>) {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                if e.path().is_dir() {
                    walk(&e.path(), out);
                } else {
                    out.push(e.path());
                }
            }
        }
        let mut v = Vec::new();
        walk(root, &mut v);
        v.into_iter().find(|p| !self.files.contains_key(p))
    }
}
