//! A small file system for symbolic runs: the engine redirects a call of an external
//! function `X` to `__model_X`. Native replays use real files in a scratch directory.
use std::ffi::{CStr, c_char, c_int, c_long, c_void};
use std::ptr::addr_of_mut;

struct File {
    name: Vec<u8>,
    data: Vec<u8>,
    gone: bool,
}
struct Fd {
    file: usize,
    at: usize,
    write: bool,
    open: bool,
}
struct Fs {
    errno: c_int,
    files: Vec<File>,
    fds: Vec<Fd>,
}
static mut FS: Fs = Fs { errno: 0, files: vec![], fds: vec![] };
fn fs() -> &'static mut Fs {
    unsafe { &mut *addr_of_mut!(FS) }
}
const ENOENT: c_int = 2;
const EBADF: c_int = 9;
const ENOSYS: c_int = 38;
const FIRST: usize = 10;
fn bad(e: c_int) -> c_int {
    fs().errno = e;
    -1
}
fn fd(n: c_int) -> Option<&'static mut Fd> {
    if (n as usize) < FIRST {
        return None;
    }
    fs().fds.get_mut(n as usize - FIRST).filter(|f| f.open)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model___errno_location() -> *mut c_int {
    &mut fs().errno
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_open64(p: *const c_char, flags: c_int, _mode: c_int) -> c_int {
    let name = unsafe { CStr::from_ptr(p) }.to_bytes().to_vec();
    let f = fs();
    let (creat, trunc, append, excl, acc) = (flags & 0o100 != 0, flags & 0o1000 != 0, flags & 0o2000 != 0, flags & 0o200 != 0, flags & 3);
    let i = match f.files.iter().position(|x| x.name == name && !x.gone) {
        Some(_) if creat && excl => return bad(17),
        Some(i) => i,
        // there are no directories
        None if !creat || name.contains(&b'/') || name.is_empty() => return bad(ENOENT),
        None => {
            f.files.push(File { name, data: vec![], gone: false });
            f.files.len() - 1
        }
    };
    if trunc {
        f.files[i].data.clear();
    }
    let at = if append { f.files[i].data.len() } else { 0 };
    f.fds.push(Fd { file: i, at, write: acc != 0, open: true });
    (FIRST + f.fds.len() - 1) as c_int
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_read(n: c_int, b: *mut u8, len: usize) -> isize {
    let Some(d) = fd(n) else { return bad(EBADF) as isize };
    let s = &fs().files[d.file].data;
    let k = len.min(s.len().saturating_sub(d.at));
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr().add(d.at), b, k) };
    d.at += k;
    k as isize
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_write(n: c_int, b: *const u8, len: usize) -> isize {
    if n == 1 || n == 2 {
        return len as isize;
    }
    let Some(d) = fd(n).filter(|d| d.write) else { return bad(EBADF) as isize };
    let s = &mut fs().files[d.file].data;
    let w = unsafe { std::slice::from_raw_parts(b, len) };
    for (i, c) in w.iter().enumerate() {
        if d.at + i < s.len() {
            s[d.at + i] = *c;
        } else {
            s.push(*c);
        }
    }
    d.at += len;
    len as isize
}
#[repr(C)]
struct Iov {
    p: *const u8,
    n: usize,
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_writev(n: c_int, v: *const Iov, k: c_int) -> isize {
    let mut t = 0;
    for i in 0..k as usize {
        let v = unsafe { &*v.add(i) };
        let r = unsafe { __model_write(n, v.p, v.n) };
        if r < 0 {
            return r;
        }
        t += r;
    }
    t
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_close(n: c_int) -> c_int {
    match fd(n) {
        Some(d) => {
            d.open = false;
            0
        }
        None => bad(EBADF),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_fcntl(_: c_int, _: c_int, _: c_int) -> c_int {
    0
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_statx(_: c_int, _: *const c_char, _: c_int, _: u32, _: *mut c_void) -> c_int {
    bad(ENOSYS)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_syscall(_: c_long) -> c_long {
    bad(ENOSYS) as c_long
}
/// `struct stat64` on x86-64: 144 bytes, the size at offset 48.
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_fstat64(n: c_int, b: *mut u8) -> c_int {
    let Some(d) = fd(n) else { return bad(EBADF) };
    unsafe {
        std::ptr::write_bytes(b, 0, 144);
        (b.add(24) as *mut u32).write_unaligned(0o100644);
        (b.add(48) as *mut i64).write_unaligned(fs().files[d.file].data.len() as i64);
    }
    0
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_lseek64(n: c_int, o: i64, how: c_int) -> i64 {
    let Some(d) = fd(n) else { return bad(EBADF) as i64 };
    let base = match how {
        0 => 0,
        1 => d.at as i64,
        _ => fs().files[d.file].data.len() as i64,
    };
    d.at = (base + o) as usize;
    d.at as i64
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model_unlink(p: *const c_char) -> c_int {
    let name = unsafe { CStr::from_ptr(p) }.to_bytes();
    match fs().files.iter_mut().find(|x| x.name == name && !x.gone) {
        Some(x) => {
            x.gone = true;
            0
        }
        None => bad(ENOENT),
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __model___xpg_strerror_r(_: c_int, b: *mut u8, n: usize) -> c_int {
    if n > 0 {
        unsafe { *b = 0 };
    }
    0
}
