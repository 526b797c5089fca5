//! The simulator: one thread runs at a time, and the seed decides every switch, edit and fault.
use crate::server::{self, Srv, TS};
use crate::shim::raw;
use proc_macro::bridge::client::Client;
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{c_int, CString};
use std::sync::atomic::{AtomicU32, Ordering};

pub const EDITOR: usize = 999;

thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }

struct Shared(std::cell::UnsafeCell<Option<Sim>>);
unsafe impl Sync for Shared {}
static SIM: Shared = Shared(std::cell::UnsafeCell::new(None));
static BATON: [AtomicU32; 34] = [const { AtomicU32::new(0) }; 34];

fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().unwrap() }
}

/// a simulated thread inside the host; dropping it goes back to the library
pub struct In(usize);
impl Drop for In {
    fn drop(&mut self) {
        ME.with(|m| m.set(self.0));
    }
}
impl std::ops::Deref for In {
    type Target = Sim;
    fn deref(&self) -> &Sim {
        sim()
    }
}
impl std::ops::DerefMut for In {
    fn deref_mut(&mut self) -> &mut Sim {
        sim()
    }
}
pub fn inside() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}
pub fn enter() -> Option<In> {
    let t = ME.with(|m| m.replace(usize::MAX));
    (t != usize::MAX).then_some(In(t))
}
/// a call of the library into the compiler
pub fn bridge() -> Option<In> {
    let mut g = enter();
    if let Some(g) = &mut g {
        g.point(1);
    }
    g
}

pub struct Meta {
    pub mode: u32,
    pub ino: u64,
    pub size: u64,
    pub mtime: i64,
}

#[derive(Clone)]
struct Inode {
    data: Vec<u8>,
    dir: bool,
    mtime: i64,
    perm: bool,
}
struct Fd {
    ino: usize,
    pos: usize,
    path: String,
    log: usize,
}
struct Fault {
    path: String,
    op: String,
    nth: u64,
    times: u64,
    kind: String,
    n: u64,
    seen: u64,
    fired: u64,
}
#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked { addr: usize, timed: bool },
    Sleeping(i64),
    Done,
}
struct Th {
    st: St,
    timeout: bool,
    env: Vec<(String, CString)>,
    hash: u64,
    req: usize,
}

pub struct Sim {
    rng: u64,
    seed: u64,
    p: [u64; 4],
    p_editor: [u64; 4],
    p_spurious: u64,
    step: u64,
    limit: u64,
    cur: usize,
    th: Vec<Th>,
    editor: Vec<Value>,
    edited: usize,
    explicit: Option<HashMap<u64, Vec<usize>>>,
    switches: Vec<(u64, usize)>,
    names: BTreeMap<String, usize>,
    inodes: Vec<Inode>,
    fds: Vec<Option<Fd>>,
    faults: Vec<Fault>,
    max_read: usize,
    clock: i64,
    real_off: i64,
    cwd: String,
    files: Vec<Value>,
    opens: Vec<(usize, usize, u64, String, Option<Vec<u8>>, Option<c_int>, bool)>,
    fired: Vec<Value>,
    end: Option<String>,
    futex: [u64; 3],
    points: [u64; 4],
    digest: u64,
}

fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn futex_wait(a: &AtomicU32, v: u32) {
    raw(libc::SYS_futex, a as *const _ as usize, libc::FUTEX_WAIT as usize, v as usize, 0, 0, 0);
}
fn wait_turn(t: usize) {
    while BATON[t].load(Ordering::Acquire) == 0 {
        futex_wait(&BATON[t], 0);
    }
    BATON[t].store(0, Ordering::Release);
}
fn give(t: usize) {
    BATON[t].store(1, Ordering::Release);
    raw(libc::SYS_futex, &BATON[t] as *const _ as usize, libc::FUTEX_WAKE as usize, 1, 0, 0, 0);
}

fn bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}
fn latin(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}

impl Sim {
    fn rnd(&mut self, n: u64) -> u64 {
        mix(&mut self.rng) % n.max(1)
    }

    /// a choice that depends on the seed and the step only, so that a replay makes it again
    fn coin(&self, n: u64) -> u64 {
        let mut x = self.seed ^ (self.step << 20);
        mix(&mut x) % n.max(1)
    }

    fn note(&mut self, x: u64) {
        self.digest = (self.digest ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
    }

    pub fn norm(&self, p: &str) -> String {
        let full = if p.starts_with('/') { p.to_string() } else { format!("{}/{}", self.cwd, p) };
        let mut out: Vec<&str> = vec![];
        for c in full.split('/') {
            match c {
                "" | "." => {}
                ".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        format!("/{}", out.join("/"))
    }

    fn lookup(&self, p: &str) -> Result<usize, c_int> {
        let p = self.norm(p);
        if let Some(i) = self.names.get(&p) {
            return Ok(*i);
        }
        let pre = format!("{}/", p.trim_end_matches('/'));
        if p == "/" || self.cwd == p || self.cwd.starts_with(&pre) || self.names.keys().any(|k| k.starts_with(&pre)) {
            return Ok(0);
        }
        // a file used as a directory
        let mut q = p.as_str();
        while let Some(i) = q.rfind('/') {
            q = &q[..i];
            if let Some(i) = self.names.get(q) {
                return Err(if self.inodes[*i].dir { libc::ENOENT } else { libc::ENOTDIR });
            }
        }
        Err(libc::ENOENT)
    }

    /// the fault planned for this operation, if any
    fn fault(&mut self, path: &str, op: &str) -> Option<(String, u64)> {
        let step = self.step;
        let mut hit = None;
        for f in self.faults.iter_mut().filter(|f| f.path == path && f.op == op) {
            f.seen += 1;
            if hit.is_none() && f.seen > f.nth && f.seen <= f.nth + f.times {
                f.fired += 1;
                hit = Some((f.kind.clone(), f.n));
            }
        }
        if let Some((k, _)) = &hit {
            self.fired.push(json!([step, path, op, k, self.cur, self.th[self.cur].req]));
        }
        hit
    }

    fn errno(k: &str) -> Option<c_int> {
        Some(match k {
            "EIO" => libc::EIO,
            "EACCES" => libc::EACCES,
            "EMFILE" => libc::EMFILE,
            "ENFILE" => libc::ENFILE,
            "ENOMEM" => libc::ENOMEM,
            "ELOOP" => libc::ELOOP,
            "ESTALE" => libc::ESTALE,
            "ENOTDIR" => libc::ENOTDIR,
            "ETIMEDOUT" => libc::ETIMEDOUT,
            "EINTR" => libc::EINTR,
            "EOVERFLOW" => libc::EOVERFLOW,
            _ => return None,
        })
    }

    pub fn env(&self, n: &str) -> *mut std::ffi::c_char {
        match self.th[self.cur].env.iter().find(|e| e.0 == n) {
            Some(e) => e.1.as_ptr() as *mut _,
            None => std::ptr::null_mut(),
        }
    }

    pub fn cwd(&self) -> String {
        self.cwd.clone()
    }

    pub fn open(&mut self, p: &str, flags: c_int) -> Result<c_int, c_int> {
        self.point(0);
        let path = self.norm(p);
        if let Some((k, _)) = self.fault(&path, "open") {
            if let Some(e) = Self::errno(&k) {
                if e != libc::EINTR {
                    self.opens.push((self.cur, self.th[self.cur].req, self.step, path, None, Some(e), true));
                }
                return Err(e);
            }
        }
        if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0 {
            return Err(libc::EROFS);
        }
        let (t, r, s) = (self.cur, self.th[self.cur].req, self.step);
        let r = match self.lookup(&path) {
            Err(e) => {
                self.opens.push((t, r, s, path, None, Some(e), true));
                Err(e)
            }
            Ok(i) if !self.inodes[i].perm => {
                self.opens.push((t, r, s, path, None, Some(libc::EACCES), true));
                Err(libc::EACCES)
            }
            Ok(i) => {
                self.opens.push((t, r, s, path.clone(), Some(vec![]), None, false));
                self.fds.push(Some(Fd { ino: i, pos: 0, path, log: self.opens.len() - 1 }));
                Ok(100_000 + self.fds.len() as c_int - 1)
            }
        };
        self.note(r.unwrap_or(-1) as u64);
        r
    }

    fn fd(&mut self, fd: c_int) -> Result<usize, c_int> {
        let i = (fd as i64 - 100_000) as usize;
        if fd >= 100_000 && self.fds.get(i).is_some_and(|f| f.is_some()) { Ok(i) } else { Err(libc::EBADF) }
    }

    pub fn read(&mut self, fd: c_int, n: usize, at: Option<usize>) -> Result<Vec<u8>, c_int> {
        self.point(0);
        let i = self.fd(fd)?;
        let path = self.fds[i].as_ref().unwrap().path.clone();
        let mut n = n.min(self.max_read);
        if n > 0 && let Some((k, m)) = self.fault(&path, "read") {
            if k == "SHORT" {
                n = n.min(m.max(1) as usize);
            } else if let Some(e) = Self::errno(&k) {
                let l = self.fds[i].as_ref().unwrap().log;
                if e != libc::EINTR {
                    self.opens[l].5 = Some(e);
                }
                return Err(e);
            }
        }
        let f = self.fds[i].as_mut().unwrap();
        let ino = &self.inodes[f.ino];
        if ino.dir {
            self.opens[f.log].5 = Some(libc::EISDIR);
            return Err(libc::EISDIR);
        }
        let pos = at.unwrap_or(f.pos);
        let d = if pos >= ino.data.len() { vec![] } else { ino.data[pos..(pos + n).min(ino.data.len())].to_vec() };
        if at.is_none() {
            f.pos += d.len();
        }
        let l = f.log;
        if n > 0 {
            if d.is_empty() {
                self.opens[l].6 = true;
            } else if let Some(b) = &mut self.opens[l].4 {
                b.extend_from_slice(&d);
            }
        }
        self.note(d.len() as u64);
        Ok(d)
    }

    pub fn close(&mut self, fd: c_int) -> c_int {
        self.point(0);
        match self.fd(fd) {
            Ok(i) => {
                self.fds[i] = None;
                0
            }
            Err(_) => 0,
        }
    }

    pub fn seek(&mut self, fd: c_int, o: i64, w: c_int) -> Result<i64, c_int> {
        let i = self.fd(fd)?;
        let f = self.fds[i].as_mut().unwrap();
        let base = match w {
            libc::SEEK_SET => 0,
            libc::SEEK_CUR => f.pos as i64,
            _ => self.inodes[f.ino].data.len() as i64,
        };
        f.pos = (base + o).max(0) as usize;
        Ok(f.pos as i64)
    }

    fn meta(&self, i: usize) -> Meta {
        let n = &self.inodes[i];
        Meta { mode: if n.dir { libc::S_IFDIR | 0o755 } else { libc::S_IFREG | 0o644 }, ino: i as u64 + 1, size: n.data.len() as u64, mtime: n.mtime }
    }
    pub fn stat(&mut self, p: &str) -> Result<Meta, c_int> {
        self.point(0);
        let path = self.norm(p);
        if let Some((k, _)) = self.fault(&path, "stat") {
            if let Some(e) = Self::errno(&k) {
                return Err(e);
            }
        }
        let r = self.lookup(&path).map(|i| self.meta(i));
        self.note(r.as_ref().map(|m| m.size + 7).unwrap_or(3));
        r
    }
    pub fn fstat(&mut self, fd: c_int) -> Result<Meta, c_int> {
        self.point(0);
        let i = self.fd(fd)?;
        let f = self.fds[i].as_ref().unwrap();
        let (ino, path) = (f.ino, f.path.clone());
        if let Some((k, _)) = self.fault(&path, "fstat") {
            if let Some(e) = Self::errno(&k) {
                return Err(e);
            }
        }
        Ok(self.meta(ino))
    }

    pub fn random(&mut self, b: &mut [u8]) {
        let t = self.cur;
        for x in b {
            *x = (mix(&mut self.th[t].hash) >> 24) as u8;
        }
    }

    pub fn now(&mut self, real: bool) -> i64 {
        self.point(1);
        self.clock + if real { self.real_off } else { 0 }
    }

    pub fn sleep(&mut self, d: i64) {
        let t = self.cur;
        self.th[t].st = St::Sleeping(self.clock + d.max(0));
        self.sched(t);
    }

    pub fn yield_now(&mut self) {
        self.point(0);
    }

    pub fn malloc_point(&mut self) {
        if self.p[2] > 0 {
            self.point(2);
        }
    }

    pub fn futex(&mut self, addr: usize, op: c_int, val: u32, timeout: usize) -> Result<i64, c_int> {
        let cmd = op & 0x7f;
        let t = self.cur;
        if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
            self.point(0);
            self.futex[0] += 1;
            if unsafe { &*(addr as *const AtomicU32) }.load(Ordering::SeqCst) != val {
                return Err(libc::EAGAIN);
            }
            if self.coin(1000) < self.p_spurious {
                self.futex[2] += 1;
                self.point(0);
                return if self.coin(2) == 0 { Ok(0) } else { Err(libc::EINTR) };
            }
            self.note(17);
            self.th[t].st = St::Blocked { addr, timed: timeout != 0 };
            self.th[t].timeout = false;
            self.sched(t);
            return if self.th[t].timeout { Err(libc::ETIMEDOUT) } else { Ok(0) };
        }
        if cmd == libc::FUTEX_WAKE || cmd == libc::FUTEX_WAKE_BITSET {
            self.futex[1] += 1;
            let mut n = 0;
            let mut who: Vec<usize> = (0..self.th.len()).filter(|i| matches!(self.th[*i].st, St::Blocked { addr: a, .. } if a == addr)).collect();
            while n < val as i64 && !who.is_empty() {
                let k = self.coin(who.len() as u64) as usize;
                self.th[who.remove(k)].st = St::Ready;
                n += 1;
            }
            self.point(0);
            return Ok(n);
        }
        Err(libc::ENOSYS)
    }

    // ---- scheduling

    /// a point where another thread, or the editor, may run
    pub fn point(&mut self, class: usize) {
        self.points[class] += 1;
        let me = self.cur;
        self.step += 1;
        self.clock += 1_000;
        if self.step > self.limit {
            self.finish("limit");
        }
        self.wake_sleepers();
        if self.explicit.is_some() {
            let l = self.explicit.as_mut().unwrap().remove(&self.step).unwrap_or_default();
            for t in l {
                if t == EDITOR {
                    self.edit();
                } else if t != me && t < self.th.len() && self.th[t].st == St::Ready {
                    self.switch(me, t);
                    return;
                }
            }
            return;
        }
        if self.edited < self.editor.len() && self.p_editor[class] > 0 && self.rnd(1000) < self.p_editor[class] {
            self.edit();
        }
        if self.p[class] > 0 && self.rnd(1000) < self.p[class] {
            let c: Vec<usize> = (0..self.th.len()).filter(|t| *t != me && self.th[*t].st == St::Ready).collect();
            if !c.is_empty() {
                let t = c[self.rnd(c.len() as u64) as usize];
                self.switch(me, t);
            }
        }
    }

    fn wake_sleepers(&mut self) {
        for t in &mut self.th {
            if matches!(t.st, St::Sleeping(u) if u <= self.clock) {
                t.st = St::Ready;
            }
        }
    }

    /// the current thread cannot go on: somebody else has to
    fn sched(&mut self, me: usize) {
        self.step += 1;
        let mut l = match &mut self.explicit {
            Some(e) => e.remove(&self.step).unwrap_or_default(),
            None => vec![],
        };
        loop {
            self.wake_sleepers();
            let c: Vec<usize> = (0..self.th.len()).filter(|t| self.th[*t].st == St::Ready).collect();
            if self.explicit.is_some() {
                while let Some(t) = (!l.is_empty()).then(|| l.remove(0)) {
                    if t == EDITOR {
                        self.edit();
                    } else if t < self.th.len() && self.th[t].st == St::Ready {
                        self.switch(me, t);
                        return;
                    }
                }
            }
            if !c.is_empty() {
                let t = if self.explicit.is_some() { c[0] } else { c[self.rnd(c.len() as u64) as usize] };
                self.switch(me, t);
                return;
            }
            if let Some(u) = self.th.iter().filter_map(|t| if let St::Sleeping(u) = t.st { Some(u) } else { None }).min() {
                self.clock = self.clock.max(u);
                continue;
            }
            if let Some(t) = self.th.iter_mut().find(|t| matches!(t.st, St::Blocked { timed: true, .. })) {
                t.st = St::Ready;
                t.timeout = true;
                continue;
            }
            let how = if self.th.iter().all(|t| t.st == St::Done) { "done" } else { "deadlock" };
            self.finish(how);
        }
    }

    fn switch(&mut self, me: usize, t: usize) {
        self.switches.push((self.step, t));
        let n = (self.step << 8) ^ t as u64;
        self.note(n);
        self.cur = t;
        if t != me {
            give(t);
            if self.th[me].st == St::Done {
                park();
            }
            wait_turn(me);
        }
    }

    fn finish(&mut self, how: &str) -> ! {
        self.end = Some(how.to_string());
        give(33);
        park()
    }

    fn put(&mut self, path: &str, data: Vec<u8>) {
        self.inodes.push(Inode { data, dir: false, mtime: self.clock + self.real_off, perm: true });
        self.names.insert(path.to_string(), self.inodes.len() - 1);
    }

    fn edit(&mut self) {
        if self.edited >= self.editor.len() {
            return;
        }
        let e = self.editor[self.edited].clone();
        self.edited += 1;
        self.switches.push((self.step, EDITOR));
        let n = self.step;
        self.note(n);
        let path = e["path"].as_str().map(|p| self.norm(p)).unwrap_or_default();
        match e["op"].as_str().unwrap() {
            "put" => self.put(&path, bytes(e["data"].as_str().unwrap())),
            "rm" => {
                self.names.remove(&path);
            }
            "dir" => {
                self.inodes.push(Inode { data: vec![], dir: true, mtime: self.clock + self.real_off, perm: true });
                self.names.insert(path.clone(), self.inodes.len() - 1);
            }
            "trunc" => match self.names.get(&path) {
                Some(i) => {
                    let now = self.clock + self.real_off;
                    let n = &mut self.inodes[*i];
                    n.data.clear();
                    n.mtime = now;
                }
                None => self.put(&path, vec![]),
            },
            "append" => {
                if let Some(i) = self.names.get(&path) {
                    let now = self.clock + self.real_off;
                    let n = &mut self.inodes[*i];
                    n.data.extend(bytes(e["data"].as_str().unwrap()));
                    n.mtime = now;
                }
            }
            "deny" | "allow" => {
                if let Some(i) = self.names.get(&path) {
                    self.inodes[*i].perm = e["op"] == "allow";
                }
            }
            "clock" => self.real_off += e["d"].as_i64().unwrap(),
            _ => {}
        }
        self.log_file(&path);
    }

    fn log_file(&mut self, path: &str) {
        let now = match self.names.get(path) {
            None => Value::Null,
            Some(i) if self.inodes[*i].dir => json!(1),
            Some(i) if !self.inodes[*i].perm => json!(2),
            Some(i) => json!(latin(&self.inodes[*i].data)),
        };
        self.files.push(json!([self.step, path, now]));
    }
}

fn park() -> ! {
    let never = AtomicU32::new(0);
    loop {
        futex_wait(&never, 0);
    }
}

fn u(v: &Value, k: &str, d: u64) -> u64 {
    v[k].as_u64().unwrap_or(d)
}

fn so_range(clients: &'static [Client]) {
    let a = clients.as_ptr() as usize;
    let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
    let mut lib = String::new();
    let rows: Vec<(usize, usize, &str)> = maps
        .lines()
        .filter_map(|l| {
            let (r, rest) = l.split_once(' ')?;
            let (x, y) = r.split_once('-')?;
            Some((usize::from_str_radix(x, 16).ok()?, usize::from_str_radix(y, 16).ok()?, rest.rsplit(' ').next()?))
        })
        .collect();
    for (x, y, n) in &rows {
        if *x <= a && a < *y {
            lib = n.to_string();
        }
    }
    let l: Vec<_> = rows.iter().filter(|r| r.2 == lib && !lib.is_empty()).collect();
    if let (Some(f), Some(z)) = (l.first(), l.last()) {
        unsafe {
            crate::shim::SO_LO = f.0;
            crate::shim::SO_LEN = z.1 - f.0;
        }
    }
}

struct Ptr(*const Client);
unsafe impl Send for Ptr {}

/// which of the library's macros is the attribute: the one that gives a plain function back
pub fn find_attr(clients: &'static [Client]) -> usize {
    for (i, c) in clients.iter().enumerate() {
        let item = server::parse("fn probe() {}").unwrap();
        let call = server::Span { sl: 1, sc: 1, el: 1, ec: 2 };
        let r = c.run2(&proc_macro::bridge::server::SAME_THREAD, Srv { file: "probe".into(), call, env: vec![] }, TS::default(), item, false);
        if let Ok(t) = r {
            let mut o = String::new();
            server::show(&t, &mut o, &mut 0);
            if o.contains("fn probe") && !o.contains("compile_error") {
                return i;
            }
        }
    }
    usize::MAX
}

pub fn run(clients: &'static [Client], attr: usize, v: &Value) -> String {
    so_range(clients);
    let seed = u(v, "seed", 1);
    let mut rng = seed;
    mix(&mut rng);
    let p = |i: usize| v["p"][i].as_u64().unwrap_or(0);
    let pe = |i: usize| v["p_editor"][i].as_u64().unwrap_or(0);
    let threads = v["threads"].as_array().unwrap();
    let hash = u(v, "hash", seed);
    let mut s = Sim {
        rng,
        seed,
        p: [p(0), p(1), p(2), p(3)],
        p_editor: [pe(0), pe(1), 0, pe(2)],
        p_spurious: u(v, "p_spurious", 0),
        step: 0,
        limit: u(v, "limit", 4_000_000),
        cur: 0,
        th: (0..threads.len()).map(|t| Th { st: St::Ready, timeout: false, env: vec![], hash: hash ^ ((t as u64) << 40), req: 0 }).collect(),
        editor: v["editor"].as_array().cloned().unwrap_or_default(),
        edited: 0,
        explicit: v["switches"].as_array().map(|l| {
            let mut m: HashMap<u64, Vec<usize>> = HashMap::new();
            for x in l {
                m.entry(x[0].as_u64().unwrap()).or_default().push(x[1].as_u64().unwrap() as usize);
            }
            m
        }),
        switches: vec![],
        names: BTreeMap::new(),
        inodes: vec![Inode { data: vec![], dir: true, mtime: 0, perm: true }],
        fds: vec![],
        faults: v["faults"]
            .as_array()
            .map(|l| {
                l.iter()
                    .map(|f| Fault {
                        path: f["path"].as_str().unwrap().into(),
                        op: f["op"].as_str().unwrap().into(),
                        nth: u(f, "nth", 0),
                        times: u(f, "times", 1),
                        kind: f["kind"].as_str().unwrap().into(),
                        n: u(f, "n", 1),
                        seen: 0,
                        fired: 0,
                    })
                    .collect()
            })
            .unwrap_or_default(),
        max_read: u(v, "max_read", 1 << 40) as usize,
        clock: 1_000_000_000,
        real_off: 1_700_000_000_000_000_000,
        cwd: v["cwd"].as_str().unwrap_or("/sim/cwd").into(),
        files: vec![],
        opens: vec![],
        fired: vec![],
        end: None,
        futex: [0; 3],
        points: [0; 4],
        digest: 0,
    };
    for f in v["files"].as_array().unwrap() {
        let path = s.norm(f[0].as_str().unwrap());
        match &f[1] {
            Value::String(d) => s.put(&path, bytes(d)),
            Value::Number(_) => {
                s.inodes.push(Inode { data: vec![], dir: true, mtime: 0, perm: true });
                s.names.insert(path.clone(), s.inodes.len() - 1);
            }
            _ => {}
        }
        s.log_file(&path);
    }
    // the first thread is part of the schedule
    let first = match &mut s.explicit {
        Some(e) => e.remove(&0).and_then(|l| l.into_iter().find(|t| *t < threads.len())).unwrap_or(0),
        None => s.rnd(threads.len() as u64) as usize,
    };
    s.cur = first;
    s.switches.push((0, first));
    unsafe { *SIM.0.get() = Some(s) };
    let results: &'static std::sync::Mutex<Vec<Value>> = Box::leak(Box::new(std::sync::Mutex::new(vec![])));
    for (t, reqs) in threads.iter().enumerate() {
        let reqs = reqs.as_array().unwrap().clone();
        let c = Ptr(&clients[attr]);
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let c = c;
                wait_turn(t);
                for (i, r) in reqs.iter().enumerate() {
                    let s = sim();
                    s.th[t].req = i;
                    s.th[t].env = r["env"]
                        .as_object()
                        .map(|m| m.iter().map(|(k, v)| (k.clone(), CString::new(v.as_str().unwrap()).unwrap())).collect())
                        .unwrap_or_default();
                    let start = s.step;
                    let Some(todo) = server::requests(r) else {
                        results.lock().unwrap().push(json!({"t": t, "i": i, "start": start, "end": start, "bad": true}));
                        continue;
                    };
                    let mut o = String::new();
                    let mut d = 0u64;
                    let mut e = None;
                    let mut errs = vec![];
                    for (a, b) in todo {
                        let call = server::Span { sl: 1, sc: 1, el: 1, ec: 8 };
                        let srv = Srv { file: r["file"].as_str().unwrap_or("src/main.rs").into(), call, env: vec![] };
                        ME.with(|m| m.set(t));
                        let out = unsafe { &*c.0 }.run2(&proc_macro::bridge::server::SAME_THREAD, srv, a, b, false);
                        ME.with(|m| m.set(usize::MAX));
                        match out {
                            Ok(ts) => {
                                server::shows(&ts, &mut o, &mut d, &mut errs);
                                o.push('\n');
                            }
                            Err(p) => e = Some(p.as_str().unwrap_or("?").to_string()),
                        }
                    }
                    let parsed = r["parse"].as_bool().map(|_| syn::parse_file(&o).is_ok());
                    let s = sim();
                    results.lock().unwrap().push(json!({"t": t, "i": i, "start": start, "end": s.step, "out": o, "spans": format!("{d:016x}"), "errs": errs, "panic": e, "parsed": parsed}));
                    sim().point(3);
                }
                let s = sim();
                s.th[t].st = St::Done;
                s.sched(t);
                park();
            })
            .unwrap();
    }
    give(first);
    wait_turn(33);
    let s = sim();
    let opens: Vec<Value> = s
        .opens
        .iter()
        .map(|o| json!([o.0, o.1, o.2, o.3, o.4.as_ref().map(|b| latin(b)), o.5, o.6]))
        .collect();
    let never: Vec<u64> = s.faults.iter().map(|f| f.fired).collect();
    let r = results.lock().unwrap();
    json!({"id": v["id"], "end": s.end, "steps": s.step, "switches": s.switches, "files": s.files, "opens": opens, "fired": s.fired, "fault_hits": never,
           "edited": s.edited, "futex": s.futex, "points": s.points, "digest": format!("{:016x}", s.digest), "clock": s.clock, "results": *r})
    .to_string()
}

