//! The seams: the libc entry points through which the macro library reaches its environment.
//!
//! The executable defines them, so the dynamic linker binds the library's references here.  On a simulated
//! thread they are answered by the simulator; anywhere else they pass through.
use crate::sim;
use std::ffi::{c_char, c_int, c_long, c_void, CStr};

macro_rules! real {
    ($n:ident, $t:ty) => {{
        static P: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let mut p = P.load(std::sync::atomic::Ordering::Relaxed);
        if p == 0 {
            p = unsafe { libc::dlsym(libc::RTLD_NEXT, concat!(stringify!($n), "\0").as_ptr() as *const c_char) as usize };
            P.store(p, std::sync::atomic::Ordering::Relaxed);
        }
        unsafe { std::mem::transmute::<usize, $t>(p) }
    }};
}

fn fail<T: From<i8>>(e: c_int) -> T {
    unsafe { *libc::__errno_location() = e };
    T::from(-1)
}

fn name(p: *const c_char) -> String {
    String::from_utf8_lossy(unsafe { CStr::from_ptr(p) }.to_bytes()).into_owned()
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(n: *const c_char) -> *mut c_char {
    if let Some(g) = sim::enter() {
        return g.env(&name(n));
    }
    real!(getenv, extern "C" fn(*const c_char) -> *mut c_char)(n)
}

fn open_(p: *const c_char, flags: c_int, mode: c_int) -> c_int {
    if let Some(mut g) = sim::enter() {
        return match g.open(&name(p), flags) {
            Ok(fd) => fd,
            Err(e) => fail::<c_int>(e),
        };
    }
    real!(open64, extern "C" fn(*const c_char, c_int, c_int) -> c_int)(p, flags, mode)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: c_int) -> c_int {
    open_(p, f, m)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: c_int) -> c_int {
    open_(p, f, m)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: c_int) -> c_int {
    if sim::inside() { open_(p, f, m) } else { real!(openat, extern "C" fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, p, f, m) }
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: c_int) -> c_int {
    if sim::inside() { open_(p, f, m) } else { real!(openat64, extern "C" fn(c_int, *const c_char, c_int, c_int) -> c_int)(d, p, f, m) }
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: usize) -> isize {
    if let Some(mut g) = sim::enter() {
        return match g.read(fd, n, None) {
            Ok(v) => {
                unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, v.len()) };
                v.len() as isize
            }
            Err(e) => fail::<isize>(e),
        };
    }
    real!(read, extern "C" fn(c_int, *mut c_void, usize) -> isize)(fd, b, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: usize, o: i64) -> isize {
    if let Some(mut g) = sim::enter() {
        return match g.read(fd, n, Some(o as usize)) {
            Ok(v) => {
                unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), b as *mut u8, v.len()) };
                v.len() as isize
            }
            Err(e) => fail::<isize>(e),
        };
    }
    real!(pread64, extern "C" fn(c_int, *mut c_void, usize, i64) -> isize)(fd, b, n, o)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(mut g) = sim::enter() {
        return g.close(fd);
    }
    real!(close, extern "C" fn(c_int) -> c_int)(fd)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lseek64(fd: c_int, o: i64, w: c_int) -> i64 {
    if let Some(mut g) = sim::enter() {
        return match g.seek(fd, o, w) {
            Ok(x) => x,
            Err(e) => fail::<i64>(e),
        };
    }
    real!(lseek64, extern "C" fn(c_int, i64, c_int) -> i64)(fd, o, w)
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if let Some(mut g) = sim::enter() {
        let s = if p.is_null() || unsafe { *p } == 0 { g.fstat(d) } else { g.stat(&name(p)) };
        return match s {
            Ok(m) => unsafe {
                std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::statx>());
                let o = &mut *out;
                o.stx_mask = 0x7ff;
                o.stx_blksize = 4096;
                o.stx_nlink = 1;
                o.stx_mode = m.mode as u16;
                o.stx_ino = m.ino;
                o.stx_size = m.size;
                o.stx_mtime.tv_sec = m.mtime / 1_000_000_000;
                o.stx_mtime.tv_nsec = (m.mtime % 1_000_000_000) as u32;
                o.stx_ctime = o.stx_mtime;
                o.stx_atime = o.stx_mtime;
                0
            },
            Err(e) => fail::<c_int>(e),
        };
    }
    real!(statx, extern "C" fn(c_int, *const c_char, c_int, u32, *mut libc::statx) -> c_int)(d, p, flags, mask, out)
}
fn fill(m: sim::Meta, out: *mut libc::stat64) -> c_int {
    unsafe {
        std::ptr::write_bytes(out as *mut u8, 0, std::mem::size_of::<libc::stat64>());
        let o = &mut *out;
        o.st_mode = m.mode;
        o.st_ino = m.ino;
        o.st_size = m.size as i64;
        o.st_nlink = 1;
        o.st_blksize = 4096;
        o.st_mtime = m.mtime / 1_000_000_000;
        o.st_mtime_nsec = m.mtime % 1_000_000_000;
    }
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    if let Some(mut g) = sim::enter() {
        return match g.stat(&name(p)) {
            Ok(m) => fill(m, out),
            Err(e) => fail::<c_int>(e),
        };
    }
    real!(stat64, extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(p, out)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn lstat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    if let Some(mut g) = sim::enter() {
        return match g.stat(&name(p)) {
            Ok(m) => fill(m, out),
            Err(e) => fail::<c_int>(e),
        };
    }
    real!(lstat64, extern "C" fn(*const c_char, *mut libc::stat64) -> c_int)(p, out)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    if let Some(mut g) = sim::enter() {
        return match g.fstat(fd) {
            Ok(m) => fill(m, out),
            Err(e) => fail::<c_int>(e),
        };
    }
    real!(fstat64, extern "C" fn(c_int, *mut libc::stat64) -> c_int)(fd, out)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if let Some(mut g) = sim::enter() {
        return match g.stat(&name(p)) {
            Ok(_) => 0,
            Err(e) => fail::<c_int>(e),
        };
    }
    real!(access, extern "C" fn(*const c_char, c_int) -> c_int)(p, m)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let Some(mut g) = sim::enter() {
        let n = g.norm(&name(p));
        return match g.stat(&n) {
            Ok(_) => unsafe {
                let o = if out.is_null() { libc::malloc(n.len() + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(n.as_ptr() as *const c_char, o, n.len());
                *o.add(n.len()) = 0;
                o
            },
            Err(e) => {
                fail::<c_int>(e);
                std::ptr::null_mut()
            }
        };
    }
    real!(realpath, extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(p, out)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: usize) -> *mut c_char {
    if let Some(g) = sim::enter() {
        let c = g.cwd();
        if c.len() + 1 > n {
            fail::<c_int>(libc::ERANGE);
            return std::ptr::null_mut();
        }
        unsafe {
            std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, b, c.len());
            *b.add(c.len()) = 0;
        }
        return b;
    }
    real!(getcwd, extern "C" fn(*mut c_char, usize) -> *mut c_char)(b, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: usize) -> isize {
    if sim::inside() {
        return fail::<isize>(libc::EINVAL);
    }
    real!(readlink, extern "C" fn(*const c_char, *mut c_char, usize) -> isize)(p, b, n)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn fcntl(fd: c_int, c: c_int, a: c_long) -> c_int {
    if sim::inside() {
        return 0;
    }
    real!(fcntl, extern "C" fn(c_int, c_int, c_long) -> c_int)(fd, c, a)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: usize, f: u32) -> isize {
    if let Some(mut g) = sim::enter() {
        g.random(unsafe { std::slice::from_raw_parts_mut(b as *mut u8, n) });
        return n as isize;
    }
    real!(getrandom, extern "C" fn(*mut c_void, usize, u32) -> isize)(b, n, f)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut libc::timespec) -> c_int {
    if let Some(mut g) = sim::enter() {
        let now = g.now(c == libc::CLOCK_REALTIME);
        unsafe {
            (*t).tv_sec = now / 1_000_000_000;
            (*t).tv_nsec = now % 1_000_000_000;
        }
        return 0;
    }
    real!(clock_gettime, extern "C" fn(c_int, *mut libc::timespec) -> c_int)(c, t)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, r: *mut libc::timespec) -> c_int {
    if let Some(mut g) = sim::enter() {
        let d = unsafe { (*t).tv_sec * 1_000_000_000 + (*t).tv_nsec };
        g.sleep(d);
        return 0;
    }
    real!(nanosleep, extern "C" fn(*const libc::timespec, *mut libc::timespec) -> c_int)(t, r)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, t: *const libc::timespec, r: *mut libc::timespec) -> c_int {
    if let Some(mut g) = sim::enter() {
        let mut d = unsafe { (*t).tv_sec * 1_000_000_000 + (*t).tv_nsec };
        if f & libc::TIMER_ABSTIME != 0 {
            d -= g.now(c == libc::CLOCK_REALTIME);
        }
        g.sleep(d);
        return 0;
    }
    real!(clock_nanosleep, extern "C" fn(c_int, c_int, *const libc::timespec, *mut libc::timespec) -> c_int)(c, f, t, r)
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if let Some(mut g) = sim::enter() {
        g.yield_now();
        return 0;
    }
    real!(sched_yield, extern "C" fn() -> c_int)()
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn posix_spawnp(_: *mut c_int, _: *const c_char, _: *const c_void, _: *const c_void, _: *const c_void, _: *const c_void) -> c_int {
    libc::ENOENT // no command exists in the simulated world
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if sim::inside() {
        if n == libc::SYS_futex {
            let mut g = sim::enter().unwrap();
            return match g.futex(a, b as c_int, c as u32, d) {
                Ok(x) => x,
                Err(e) => fail::<c_long>(e),
            };
        }
        if n == libc::SYS_getrandom {
            return unsafe { getrandom(a as *mut c_void, b, c as u32) as c_long };
        }
        if n == libc::SYS_statx {
            return unsafe { statx(a as c_int, b as *const c_char, c as c_int, d as u32, e as *mut libc::statx) as c_long };
        }
    }
    raw(n, a, b, c, d, e, f)
}

pub fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as i64 => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _);
    }
    if r < 0 && r > -4096 { fail::<c_long>(-r as c_int) } else { r }
}

// malloc: a preemption point when the library itself is the caller
#[unsafe(no_mangle)]
pub static mut SO_LO: usize = 0;
#[unsafe(no_mangle)]
pub static mut SO_LEN: usize = 0;
#[unsafe(no_mangle)]
extern "C" fn hosthost_malloc_point() {
    if let Some(mut g) = sim::enter() {
        g.malloc_point();
    }
}
std::arch::global_asm!(
    ".globl malloc",
    ".type malloc,@function",
    "malloc:",
    "mov rax, [rsp]",
    "sub rax, [rip + SO_LO]",
    "cmp rax, [rip + SO_LEN]",
    "jae 1f",
    "push rdi",
    "call hosthost_malloc_point",
    "pop rdi",
    "1:",
    "jmp __libc_malloc@PLT",
);
