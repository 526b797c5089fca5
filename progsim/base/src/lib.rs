//! Runtime of the hooked-program simulator: the world every generated program lives in.
#![allow(non_snake_case, clippy::all)]
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub mod exec;
pub mod runner;
pub mod sinks;

pub use exec::*;

// ------------------------------------------------------------------ world

/// What the simulated world does to the n-th fallible operation of a run.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    Err,
    Panic,
    /// pending that many polls (async operations only)
    Pend(u8),
    /// pending that many polls and then fail
    PendErr(u8),
}

/// One complete description of a run: everything that is not fixed by the program.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Plan {
    pub vseed: u64,
    /// dynamic operation index -> fault
    pub faults: BTreeMap<u32, Fault>,
    /// scheduler choices, consumed one per decision with more than one option; 0 afterwards
    pub sched: Vec<u8>,
    /// (task, number of polls it has had) -> dropped instead of polled again
    pub cancel: Vec<(u8, u8)>,
}

#[derive(Default)]
pub struct World {
    pub plan: Plan,
    pub idx: u32,
    pub uid: u64,
    pub trace: Vec<String>,
    pub steps: u32,
    pub quiet: bool,
    pub fired: [u64; 6], // err, panic, pend, penderr, cancel, steps
    pub sched_pos: usize,
    pub now: u64,
    pub timers: Vec<(u64, u64, std::task::Waker)>,
    pub timer_seq: u64,
    pub ctx_built: u64,
    pub ticks: BTreeMap<i32, u32>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}

pub const MAX_STEPS: u32 = 4000;

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

pub fn log(s: String) {
    sinks::drain();
    with(|w| {
        if w.quiet {
            return;
        }
        if !s.starts_with('H') {
            w.steps += 1;
        }
        if w.steps <= MAX_STEPS && w.trace.len() < 30000 {
            w.trace.push(s);
        }
    });
}
/// runs are bounded: past the cap the next operation unwinds
fn cap() {
    if with(|w| w.steps > MAX_STEPS) && !std::thread::panicking() {
        std::panic::panic_any(SimPanic(-1));
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn next_op() -> (u32, Option<Fault>, u64) {
    cap();
    with(|w| {
        let i = w.idx;
        w.idx += 1;
        let f = w.plan.faults.get(&i).copied();
        let v = mix(w.plan.vseed ^ ((i as u64) << 20));
        (i, f, v)
    })
}

fn new_uid() -> u64 {
    with(|w| {
        w.uid += 1;
        w.uid
    })
}

fn fire(k: usize) {
    with(|w| w.fired[k] += 1)
}

// ------------------------------------------------------------------ errors

/// Primary error: not Clone, logs when it dies, so duplicated, lost or reordered errors show up.
pub struct E {
    pub uid: u64,
    pub id: i32,
}
/// Secondary error; `?` converts E into it, and the conversion is an event.
pub struct F {
    pub uid: u64,
    pub id: i32,
}
impl E {
    pub fn new(id: i32) -> E {
        let uid = new_uid();
        E { uid, id }
    }
}
impl Drop for E {
    fn drop(&mut self) {
        log(format!("x E{}", self.uid));
    }
}
impl Drop for F {
    fn drop(&mut self) {
        log(format!("x F{}", self.uid));
    }
}
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "E({}#{})", self.id, self.uid)
    }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "e{}#{}", self.id, self.uid)
    }
}
impl fmt::Debug for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "F({}#{})", self.id, self.uid)
    }
}
impl fmt::Display for F {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "f{}#{}", self.id, self.uid)
    }
}
impl std::error::Error for E {}
impl std::error::Error for F {}
impl From<E> for F {
    fn from(e: E) -> F {
        let (uid, id) = (e.uid, e.id);
        std::mem::forget(e);
        log(format!("conv {uid}"));
        F { uid, id }
    }
}

pub type MyRes<T> = std::result::Result<T, E>;
pub type Outcome<T> = std::result::Result<T, E>;
pub type Maybe<T> = std::option::Option<T>;
pub mod alias {
    pub type Result<T> = std::result::Result<T, super::E>;
}

// ------------------------------------------------------------------ operations

fn base(kind: &str, id: i32) -> (Option<Fault>, u64) {
    let (_i, f, v) = next_op();
    match f {
        Some(Fault::Err) | Some(Fault::PendErr(_)) => {
            fire(0);
            log(format!("{kind}{id} ERR"));
        }
        Some(Fault::Panic) => {
            fire(1);
            log(format!("{kind}{id} PANIC"));
            std::panic::panic_any(SimPanic(id));
        }
        _ => {
            log(format!("{kind}{id} {}", v % 5));
        }
    }
    (f, v)
}
fn is_err(f: Option<Fault>) -> bool {
    matches!(f, Some(Fault::Err) | Some(Fault::PendErr(_)))
}

pub struct SimPanic(pub i32);

pub fn op(id: i32) -> Result<i64, E> {
    let (f, v) = base("op", id);
    if is_err(f) { Err(E::new(id)) } else { Ok((v % 5) as i64) }
}
/// never fails and leaves no trace
pub fn quiet() -> Result<i64, E> {
    Ok(0)
}
/// fallible with an argument
pub fn opx(id: i32, x: i64) -> Result<i64, E> {
    log(format!("arg {x}"));
    let (f, v) = base("opx", id);
    if is_err(f) { Err(E::new(id)) } else { Ok(x.wrapping_add((v % 3) as i64) % 1000) }
}
pub fn op2(id: i32, x: i64, y: i64) -> Result<i64, E> {
    log(format!("args {x} {y}"));
    let (f, v) = base("op2_", id);
    if is_err(f) { Err(E::new(id)) } else { Ok(x.wrapping_sub(y).wrapping_add((v % 3) as i64) % 1000) }
}
pub fn opu(id: i32) -> Result<(), E> {
    let (f, _) = base("opu", id);
    if is_err(f) { Err(E::new(id)) } else { Ok(()) }
}
pub fn opb(id: i32) -> Result<bool, E> {
    let (f, v) = base("opb", id);
    if is_err(f) { Err(E::new(id)) } else { Ok(v % 5 < 3) }
}
/// small index
pub fn ix(id: i32) -> Result<usize, E> {
    let (f, v) = base("ix", id);
    if is_err(f) { Err(E::new(id)) } else { Ok((v % 2) as usize) }
}
pub fn pick(id: i32) -> Result<fn(i64) -> i64, E> {
    let (f, v) = base("pick", id);
    if is_err(f) {
        Err(E::new(id))
    } else if v % 2 == 0 {
        Ok(inc)
    } else {
        Ok(dbl)
    }
}
fn inc(x: i64) -> i64 {
    log(format!("inc {x}"));
    x.wrapping_add(1)
}
fn dbl(x: i64) -> i64 {
    log(format!("dbl {x}"));
    x.wrapping_mul(2) % 1000
}
pub fn opt(id: i32) -> Option<i64> {
    let (f, v) = base("opt", id);
    if is_err(f) { None } else { Some((v % 5) as i64) }
}
pub fn optx(id: i32, x: i64) -> Option<i64> {
    log(format!("arg {x}"));
    let (f, v) = base("optx", id);
    if is_err(f) { None } else { Some(x.wrapping_add((v % 3) as i64) % 1000) }
}
pub fn oix(id: i32) -> Option<usize> {
    let (f, v) = base("oix", id);
    if is_err(f) { None } else { Some((v % 2) as usize) }
}
pub fn optb(id: i32) -> Option<bool> {
    let (f, v) = base("optb", id);
    if is_err(f) { None } else { Some(v % 5 < 3) }
}
/// nested result: Ok(Ok), Ok(Err) or Err
pub fn opn(id: i32) -> Result<Result<i64, E>, E> {
    let (f, v) = base("opn", id);
    if is_err(f) {
        Err(E::new(id))
    } else if v % 7 == 0 {
        Ok(Err(E::new(id)))
    } else {
        Ok(Ok((v % 5) as i64))
    }
}
pub fn val(id: i32) -> i64 {
    let v = with(|w| mix(w.plan.vseed ^ 0x55 ^ ((id as u64) << 32))) % 5;
    log(format!("val{id} {v}"));
    v as i64
}
pub fn flag(id: i32) -> bool {
    let (_, _, v) = next_op();
    let b = v % 2 == 0;
    log(format!("flag{id} {b}"));
    b
}
/// true at most `n` times per run: bounds loops
pub fn tick(id: i32, n: u32) -> Result<bool, E> {
    let (f, _) = base("tick", id);
    if is_err(f) {
        return Err(E::new(id));
    }
    let k = with(|w| {
        let c = w.ticks.entry(id).or_insert(0);
        *c += 1;
        *c
    });
    Ok(k % (n + 1) != 0)
}
pub fn otick(id: i32, n: u32) -> Option<bool> {
    let (f, _) = base("otick", id);
    if is_err(f) {
        return None;
    }
    let k = with(|w| {
        let c = w.ticks.entry(id).or_insert(0);
        *c += 1;
        *c
    });
    Some(k % (n + 1) != 0)
}
/// constructor functions for the "call to an ident" rules
pub fn Fail<T>(id: i32) -> Result<T, E> {
    log(format!("Fail{id}"));
    Err(E::new(id))
}
pub fn Bad<T>(id: i32) -> Result<T, E> {
    log(format!("Bad{id}"));
    Err(E::new(id))
}
pub fn Done<T>(x: T) -> Result<T, E> {
    log("Done".to_string());
    Ok(x)
}
pub fn Fine<T>(x: T) -> Result<T, E> {
    log("Fine".to_string());
    Ok(x)
}
pub mod ctor {
    pub use super::{Bad, Done, Fail, Fine};
}
/// the raw error value, fallible creation site
pub fn er(id: i32) -> E {
    log(format!("er{id}"));
    E::new(id)
}
pub fn show<T: fmt::Debug>(id: i32, x: T) {
    log(format!("show{id} {x:?}"));
}
pub fn tagged<T>(_t: &str, x: T) -> T {
    x
}
pub fn id<T>(x: T) -> T {
    x
}
pub fn pm<'a>(x: &'a mut i64, id: i32) -> Result<&'a mut i64, E> {
    let (f, _) = base("pm", id);
    if is_err(f) { Err(E::new(id)) } else { Ok(x) }
}
pub fn items(id: i32) -> Result<Vec<i64>, E> {
    let (f, v) = base("items", id);
    if is_err(f) { Err(E::new(id)) } else { Ok((0..(v % 3) as i64).collect()) }
}
pub fn oitems(id: i32) -> Option<Vec<i64>> {
    let (f, v) = base("oitems", id);
    if is_err(f) { None } else { Some((0..(v % 3) as i64).collect()) }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Pt {
    pub x: i64,
    pub y: i64,
}
impl Pt {
    pub fn go(self, id: i32) -> Result<Pt, E> {
        let (f, v) = base("go", id);
        if is_err(f) { Err(E::new(id)) } else { Ok(Pt { x: self.x, y: (v % 4) as i64 }) }
    }
    pub fn sum(&self) -> i64 {
        self.x.wrapping_add(self.y)
    }
}
pub fn pt(id: i32) -> Result<Pt, E> {
    let (f, v) = base("pt", id);
    if is_err(f) { Err(E::new(id)) } else { Ok(Pt { x: (v % 4) as i64, y: 1 }) }
}
pub fn opt_pt(id: i32) -> Option<Pt> {
    let (f, v) = base("opt_pt", id);
    if is_err(f) { None } else { Some(Pt { x: (v % 4) as i64, y: 1 }) }
}

/// RAII guard: drop order is part of the observable behaviour.
#[derive(Debug)]
pub struct G(i32);
pub fn guard(id: i32) -> G {
    log(format!("guard{id}"));
    G(id)
}
impl G {
    pub fn opg(&self, id: i32) -> Result<i64, E> {
        op(id)
    }
    pub fn optg(&self, id: i32) -> Option<i64> {
        opt(id)
    }
}
impl Drop for G {
    fn drop(&mut self) {
        log(format!("drop{}", self.0));
    }
}

// ------------------------------------------------------------------ macros with Rust arguments

#[macro_export]
macro_rules! sum { ($($e:expr),* $(,)?) => {{ let mut t = 0i64; $( t = t.wrapping_add($e); )* t }}; }
#[macro_export]
macro_rules! blk { ($($t:tt)*) => { { $($t)* } }; }
#[macro_export]
macro_rules! ident { ($e:expr) => { $e }; }
#[macro_export]
macro_rules! items_mac { ($($t:tt)*) => { $($t)* }; }

// ------------------------------------------------------------------ observing hooks

pub trait Uid {
    fn uid(&self) -> String;
}
impl Uid for E {
    fn uid(&self) -> String {
        format!("E{}", self.uid)
    }
}
impl Uid for F {
    fn uid(&self) -> String {
        format!("F{}", self.uid)
    }
}
impl Uid for anyhow::Error {
    fn uid(&self) -> String {
        "any".into()
    }
}
impl Uid for eyre::Report {
    fn uid(&self) -> String {
        "eyre".into()
    }
}

/// What a hook can be applied to.
pub trait Seen {
    fn seen(&self) -> String;
}
impl<T, X: Uid> Seen for Result<T, X> {
    fn seen(&self) -> String {
        match self {
            Ok(_) => "ok".into(),
            Err(e) => e.uid(),
        }
    }
}
impl<T> Seen for Option<T> {
    fn seen(&self) -> String {
        match self {
            Some(_) => "some".into(),
            None => "none".into(),
        }
    }
}

pub fn nows(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

/// binding values printable in the trace
pub trait Show {
    fn show(&self) -> String;
}
impl<T: fmt::Debug> Show for T {
    fn show(&self) -> String {
        format!("{self:?}")
    }
}

pub trait Hk: Sized + Seen {
    /// everything a hook can be told about its site
    fn hk(self, line: usize, col: usize, path: &str, file: &str, count: &str, fname: &str, sig: &str, src: &str) -> Self {
        log(format!(
            "H {line}:{col} {path} {file} [{count}] {fname} {{{}}} {{{}}} {}",
            nows(sig),
            nows(src),
            self.seen()
        ));
        self
    }
    /// position only
    fn hp(self, line: usize, col: usize) -> Self {
        log(format!("H {line}:{col} {}", self.seen()));
        self
    }
    /// a tag
    fn ht(self, tag: impl fmt::Debug) -> Self {
        log(format!("H tag {tag:?} {}", self.seen()));
        self
    }
    /// a tag and a position
    fn htp(self, tag: impl fmt::Debug, line: usize, col: usize) -> Self {
        log(format!("H tag {tag:?} {line}:{col} {}", self.seen()));
        self
    }
    /// an excerpt, line by line
    fn hx(self, line: usize, src: &str) -> Self {
        let ls: Vec<String> = src.split('\n').map(nows).collect();
        log(format!("H {line} {{{}}} {}", ls.join("~"), self.seen()));
        self
    }
    fn hsrc(self, line: usize, src: &str) -> Self {
        log(format!("H {line} {{{}}} {}", nows(src), self.seen()));
        self
    }
}
impl<S: Seen> Hk for S {}

/// consuming hook: takes the place of the `?`
pub trait Dflt {
    fn dflt() -> Self;
}
impl Dflt for i64 {
    fn dflt() -> i64 {
        -7
    }
}
impl Dflt for &mut i64 {
    fn dflt() -> Self {
        Box::leak(Box::new(-7))
    }
}
impl Dflt for i32 {
    fn dflt() -> i32 {
        -7
    }
}
impl Dflt for usize {
    fn dflt() -> usize {
        0
    }
}
impl Dflt for bool {
    fn dflt() -> bool {
        false
    }
}
impl Dflt for () {
    fn dflt() {}
}
impl Dflt for Pt {
    fn dflt() -> Pt {
        Pt { x: -1, y: -1 }
    }
}
impl Dflt for Vec<i64> {
    fn dflt() -> Vec<i64> {
        vec![]
    }
}
impl Dflt for fn(i64) -> i64 {
    fn dflt() -> fn(i64) -> i64 {
        inc
    }
}
impl Dflt for Result<i64, E> {
    fn dflt() -> Result<i64, E> {
        Ok(-8)
    }
}
pub trait Eat: Seen + Sized {
    type T: Dflt;
    fn val_of(self) -> Option<Self::T>;
    fn eat(self, line: usize, col: usize) -> Self::T {
        log(format!("H eat {line}:{col} {}", self.seen()));
        match self.val_of() {
            Some(v) => v,
            None => {
                log("eaten".to_string());
                <Self::T>::dflt()
            }
        }
    }
}
impl<T: Dflt, X: Uid> Eat for Result<T, X> {
    type T = T;
    fn val_of(self) -> Option<T> {
        self.ok()
    }
}
impl<T: Dflt> Eat for Option<T> {
    type T = T;
    fn val_of(self) -> Option<T> {
        self
    }
}
pub fn eatf<R: Eat>(r: R, line: usize, col: usize) -> R::T {
    r.eat(line, col)
}

/// function form, for replacing hooks
pub fn hkf<S: Seen>(s: S, line: usize, col: usize) -> S {
    log(format!("H f {line}:{col} {}", s.seen()));
    s
}
pub fn hkt<S: Seen>(tag: impl fmt::Debug, s: S) -> S {
    log(format!("H ft {tag:?} {}", s.seen()));
    s
}
/// a hook whose arguments are evaluated around the operand: order is visible
pub fn mark(tag: impl fmt::Debug) -> String {
    log(format!("H mark {tag:?}"));
    String::new()
}
pub fn hk3<S: Seen>(_a: String, s: S, _b: String) -> S {
    log(format!("H 3 {}", s.seen()));
    s
}

/// The documented `hook` flavor: a user trait receiving the bundled metadata.
pub mod full {
    use super::*;
    pub trait Hook: Sized + Seen {
        fn hook(self, f: impl FnOnce() -> hooq::HooqMeta) -> Self {
            let m = f();
            log(format!("H meta {} {}", meta_str(&m, true), self.seen()));
            self
        }
    }
    impl<S: Seen> Hook for S {}
}
pub mod nc {
    use super::*;
    /// same, ordinals not recorded
    pub trait Hook: Sized + Seen {
        fn hook(self, f: impl FnOnce() -> hooq::HooqMeta) -> Self {
            let m = f();
            log(format!("H meta {} {}", meta_str(&m, false), self.seen()));
            self
        }
    }
    impl<S: Seen> Hook for S {}
}
pub mod lazy {
    use super::*;
    /// metadata only on failure
    pub trait Hook: Sized + Seen {
        fn hook(self, f: impl FnOnce() -> hooq::HooqMeta) -> Self {
            let s = self.seen();
            if s != "ok" && s != "some" {
                let m = f();
                log(format!("H meta {} {}", meta_str(&m, false), s));
            }
            self
        }
    }
    impl<S: Seen> Hook for S {}
}
/// log a bindings table only
pub trait HookB: Sized + Seen {
    fn hookb(self, b: std::collections::HashMap<String, hooq::BindingPayload>) -> Self {
        log(format!("H b {} {}", bindings_str(&b), self.seen()));
        self
    }
}
impl<S: Seen> HookB for S {}

pub fn bindings_str(b: &std::collections::HashMap<String, hooq::BindingPayload>) -> String {
    let mut ks: Vec<_> = b.keys().cloned().collect();
    ks.sort();
    ks.iter().map(|k| format!("{k}:{}={}", nows(&b[k].expr), payload(&b[k].value))).collect::<Vec<_>>().join(",")
}
fn payload(v: &Rc<dyn std::any::Any>) -> String {
    if let Some(x) = v.downcast_ref::<i64>() {
        format!("i64 {x}")
    } else if let Some(x) = v.downcast_ref::<i32>() {
        format!("i32 {x}")
    } else if let Some(x) = v.downcast_ref::<&'static str>() {
        format!("str {x}")
    } else if let Some(x) = v.downcast_ref::<bool>() {
        format!("bool {x}")
    } else if let Some(x) = v.downcast_ref::<String>() {
        format!("String {x}")
    } else if let Some(x) = v.downcast_ref::<(i32, i32)>() {
        format!("tup {x:?}")
    } else {
        "?".into()
    }
}
pub fn meta_str(m: &hooq::HooqMeta, count: bool) -> String {
    // every binding is also asked for through the accessor: right type yes, wrong type no
    let mut acc = String::new();
    let mut ks: Vec<_> = m.bindings.keys().cloned().collect();
    ks.sort();
    for k in &ks {
        let hits = [
            m.get_binding::<i64>(k).map(|v| v.show()),
            m.get_binding::<i32>(k).map(|v| v.show()),
            m.get_binding::<&'static str>(k).map(|v| v.show()),
            m.get_binding::<bool>(k).map(|v| v.show()),
        ];
        acc.push_str(&format!("{k}>{:?};", hits.iter().flatten().collect::<Vec<_>>()));
    }
    let miss = m.get_binding::<i32>("no_such_binding").is_none();
    format!(
        "{}:{} {} {} [{}] {{{}}} b[{}] a[{acc}] {miss}",
        m.line,
        m.column,
        m.path,
        m.file,
        if count { m.count } else { "" },
        nows(m.source_str),
        bindings_str(&m.bindings)
    )
}
/// reference construction of the bundled metadata
pub fn meta(
    line: usize,
    column: usize,
    path: &'static str,
    file: &'static str,
    source_str: &'static str,
    count: &'static str,
    b: Vec<(&'static str, &'static str, Rc<dyn std::any::Any>)>,
) -> hooq::HooqMeta {
    hooq::HooqMeta { line, column, path, file, source_str, count, bindings: binds(b) }
}
pub fn binds(
    b: Vec<(&'static str, &'static str, Rc<dyn std::any::Any>)>,
) -> std::collections::HashMap<String, hooq::BindingPayload> {
    b.into_iter()
        .map(|(k, e, value)| (k.to_string(), hooq::BindingPayload { expr: e.to_string(), value }))
        .collect()
}

// a context message of the reference programs; building it is counted
pub fn ctx(path: &str, line: usize, col: usize, excerpt: &str) -> String {
    format!("[{path}:{line}:{col}]\n{excerpt}")
}

// ------------------------------------------------------------------ results of entry points

pub fn fin<T: fmt::Debug, X: Uid>(r: Result<T, X>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => format!("Err({})", e.uid()),
    }
}
pub fn i2s(v: i64) -> String {
    format!("I({v})")
}
pub fn mark_call(n: &str) {
    log(format!("after {n}"));
}
pub fn fino<T: fmt::Debug>(r: Option<T>) -> String {
    format!("{r:?}")
}
/// error chain without layout; `[path:line:col] excerpt` of each context
pub fn fin_any<T: fmt::Debug>(r: Result<T, anyhow::Error>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => {
            let c: Vec<String> = e.chain().map(|x| nows(&x.to_string())).collect();
            log(format!("H chain {}", c.join(" <- ")));
            format!("Err({})", nows(&e.root_cause().to_string()))
        }
    }
}
pub fn fin_eyre<T: fmt::Debug>(r: Result<T, eyre::Report>) -> String {
    match r {
        Ok(v) => format!("Ok({v:?})"),
        Err(e) => {
            let c: Vec<String> = e.chain().map(|x| nows(&x.to_string())).collect();
            log(format!("H chain {}", c.join(" <- ")));
            format!("Err({})", nows(&e.root_cause().to_string()))
        }
    }
}

pub type Fut<T> = Pin<Box<dyn Future<Output = T>>>;
/// silence
pub fn _unused(_: &mut Context<'_>) -> Poll<()> {
    Poll::Ready(())
}
