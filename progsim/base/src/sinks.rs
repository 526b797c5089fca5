//! Simulated standard error, logger and tracing subscriber: their records become trace events.
use crate::*;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering};

static FD: AtomicI32 = AtomicI32::new(-1);
static POS: AtomicU64 = AtomicU64::new(0);
static ON: AtomicBool = AtomicBool::new(false);

/// route file descriptor 2 into memory, read back between events
pub fn install_stderr() {
    unsafe {
        let fd = libc::memfd_create(b"simerr\0".as_ptr() as *const _, 0);
        assert!(fd >= 0);
        libc::dup2(fd, 2);
        FD.store(fd, Ordering::SeqCst);
    }
}
pub fn enable(on: bool) {
    ON.store(on, Ordering::SeqCst);
}
pub fn drain() {
    if !ON.load(Ordering::Relaxed) || FD.load(Ordering::Relaxed) < 0 {
        return;
    }
    let fd = FD.load(Ordering::SeqCst);
    let mut out = Vec::new();
    let mut buf = [0u8; 4096];
    loop {
        let p = POS.load(Ordering::SeqCst);
        let n = unsafe { libc::pread(fd, buf.as_mut_ptr() as *mut _, buf.len(), p as i64) };
        if n <= 0 {
            break;
        }
        POS.store(p + n as u64, Ordering::SeqCst);
        out.extend_from_slice(&buf[..n as usize]);
    }
    if !out.is_empty() {
        let s = String::from_utf8_lossy(&out).to_string();
        with(|w| {
            if !w.quiet {
                w.trace.push(format!("H stderr {}", nows(&s)));
            }
        });
    }
}
pub fn reset() {
    let fd = FD.load(Ordering::SeqCst);
    if fd >= 0 {
        unsafe {
            libc::ftruncate(fd, 0);
            libc::lseek(fd, 0, libc::SEEK_SET);
        }
        POS.store(0, Ordering::SeqCst);
    }
}

struct L;
impl log::Log for L {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        crate::log(format!("H log {} {}", r.level(), nows(&r.args().to_string())));
    }
    fn flush(&self) {}
}
static LOGGER: L = L;

struct Sub;
struct V(Vec<(String, String)>);
impl tracing::field::Visit for V {
    fn record_debug(&mut self, f: &tracing::field::Field, v: &dyn fmt::Debug) {
        self.0.push((f.name().to_string(), format!("{v:?}")));
    }
    fn record_str(&mut self, f: &tracing::field::Field, v: &str) {
        self.0.push((f.name().to_string(), v.to_string()));
    }
}
impl tracing::Subscriber for Sub {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        let mut v = V(vec![]);
        e.record(&mut v);
        v.0.sort();
        let f: Vec<String> = v.0.iter().map(|(k, x)| format!("{k}={}", nows(x))).collect();
        crate::log(format!("H trace {} {}", e.metadata().level(), f.join(" ")));
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}

pub fn install() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Trace);
    let _ = tracing::subscriber::set_global_default(Sub);
}
