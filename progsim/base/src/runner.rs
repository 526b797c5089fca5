//! Seeded search over fault plans and schedules for the programs of one batch, with comparison of the three forms.
use crate::*;
use std::collections::HashSet;

pub struct Prog {
    pub id: u32,
    /// the program without hooq
    pub a: fn() -> String,
    /// the attributed program: the system under test
    pub b: fn() -> String,
    /// the reference: hooks written out by the generator's own rules
    pub c: fn() -> String,
    pub is_async: bool,
    /// attributed and plain must agree apart from hook events
    pub observing: bool,
}

#[derive(Default, Clone)]
pub struct Out {
    pub trace: Vec<String>,
    pub ops: u32,
    pub fired: [u64; 6],
    pub sched: usize,
    pub now: u64,
    pub tasks_polls: Vec<(u8, u8)>,
}

pub fn once(f: fn() -> String, plan: &Plan) -> Out {
    sinks::reset();
    with(|w| *w = World { plan: plan.clone(), ..World::default() });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    sinks::drain();
    let end = match r {
        Ok(s) => format!("RESULT {s}"),
        Err(p) => {
            if let Some(p) = p.downcast_ref::<SimPanic>() {
                format!("PANIC sim {}", p.0)
            } else if let Some(s) = p.downcast_ref::<&str>() {
                format!("PANIC {s}")
            } else if let Some(s) = p.downcast_ref::<String>() {
                format!("PANIC {s}")
            } else {
                "PANIC ?".into()
            }
        }
    };
    let mut w = with(|w| std::mem::take(w));
    w.trace.push(end);
    with(|w| w.quiet = true);
    let mut polls: BTreeMap<u8, u8> = BTreeMap::new();
    for t in &w.trace {
        if let Some(n) = t.strip_prefix("poll t") {
            *polls.entry(n.parse().unwrap_or(0)).or_insert(0) += 1;
        }
    }
    let o = Out {
        trace: std::mem::take(&mut w.trace),
        ops: w.idx,
        fired: w.fired,
        sched: w.sched_pos,
        now: w.now,
        tasks_polls: polls.into_iter().collect(),
    };
    let timers = std::mem::take(&mut w.timers);
    drop(timers);
    drop(w);
    with(|w| w.quiet = false);
    o
}

fn strip(t: &[String]) -> Vec<&str> {
    t.iter().filter(|s| !s.starts_with('H')).map(|s| s.as_str()).collect()
}

/// where a crash would be: written before every execution
fn progress(id: u32, form: &str, plan: &Plan) {
    use std::os::unix::fs::FileExt;
    thread_local! { static F: Option<std::fs::File> =
        std::env::var_os("SIM_PROGRESS").and_then(|p| std::fs::File::create(p).ok()); }
    F.with(|f| {
        if let Some(f) = f {
            let _ = f.write_at(format!("{id} {form} {}\n", enc(plan)).as_bytes(), 0);
        }
    });
}

/// None if the plan shows no disagreement
pub fn judge(p: &Prog, plan: &Plan) -> (Option<(&'static str, Out, Out)>, Out) {
    progress(p.id, "c", plan);
    let c = once(p.c, plan);
    progress(p.id, "b", plan);
    let b = once(p.b, plan);
    progress(p.id, "a", plan);
    if b.trace != c.trace {
        let s1 = strip(&b.trace);
        let s2 = strip(&c.trace);
        let class = if s1 != s2 { "behaviour" } else { "hooks" };
        return (Some((class, c.clone(), b)), c);
    }
    if p.observing {
        let a = once(p.a, plan);
        if strip(&a.trace) != strip(&b.trace) {
            return (Some(("transparency", a, b)), c);
        }
    }
    (None, c)
}

pub fn enc(p: &Plan) -> String {
    let f: Vec<String> = p
        .faults
        .iter()
        .map(|(i, f)| match f {
            Fault::Err => format!("{i}e"),
            Fault::Panic => format!("{i}p"),
            Fault::Pend(k) => format!("{i}w{k}"),
            Fault::PendErr(k) => format!("{i}x{k}"),
        })
        .collect();
    let s: Vec<String> = p.sched.iter().map(|c| c.to_string()).collect();
    let c: Vec<String> = p.cancel.iter().map(|(a, b)| format!("{a}@{b}")).collect();
    format!("{}|{}|{}|{}", p.vseed, f.join(","), s.join(","), c.join(","))
}
pub fn dec(s: &str) -> Plan {
    let v: Vec<&str> = s.split('|').collect();
    let mut p = Plan { vseed: v[0].parse().unwrap(), ..Plan::default() };
    for x in v[1].split(',').filter(|x| !x.is_empty()) {
        let at = x.find(|c: char| c.is_alphabetic()).unwrap();
        let i: u32 = x[..at].parse().unwrap();
        let k = x[at + 1..].parse().unwrap_or(0);
        p.faults.insert(
            i,
            match &x[at..at + 1] {
                "e" => Fault::Err,
                "p" => Fault::Panic,
                "w" => Fault::Pend(k),
                _ => Fault::PendErr(k),
            },
        );
    }
    for x in v[2].split(',').filter(|x| !x.is_empty()) {
        p.sched.push(x.parse().unwrap());
    }
    for x in v[3].split(',').filter(|x| !x.is_empty()) {
        let (a, b) = x.split_once('@').unwrap();
        p.cancel.push((a.parse().unwrap(), b.parse().unwrap()));
    }
    p
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
}

fn minimise(p: &Prog, plan: &Plan, class: &str) -> Plan {
    let fails = |q: &Plan| judge(p, q).0.map(|v| v.0 == class).unwrap_or(false);
    let mut cur = plan.clone();
    let mut again = true;
    while again {
        again = false;
        let ks: Vec<u32> = cur.faults.keys().copied().collect();
        for k in ks {
            let mut q = cur.clone();
            q.faults.remove(&k);
            if fails(&q) {
                cur = q;
                again = true;
            }
        }
        for i in 0..cur.cancel.len() {
            let mut q = cur.clone();
            if i < q.cancel.len() {
                q.cancel.remove(i);
                if fails(&q) {
                    cur = q;
                    again = true;
                }
            }
        }
        if !cur.sched.is_empty() {
            let mut q = cur.clone();
            q.sched.pop();
            if fails(&q) {
                cur = q;
                again = true;
            }
        }
        for i in 0..cur.sched.len() {
            if i < cur.sched.len() && cur.sched[i] != 0 {
                let mut q = cur.clone();
                q.sched[i] = 0;
                if fails(&q) {
                    cur = q;
                    again = true;
                }
            }
        }
    }
    for v in 0..6u64 {
        let mut q = cur.clone();
        q.vseed = v;
        if v < cur.vseed && fails(&q) {
            cur = q;
            break;
        }
    }
    cur
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn plans(p: &Prog, seed: u64, budget: u32, panics: bool) -> Vec<Plan> {
    let mut r = Rng(mix(seed ^ ((p.id as u64) << 17)));
    let mut out: Vec<Plan> = vec![];
    let rounds = 1 + budget / 24;
    for round in 0..rounds {
        let base = Plan { vseed: if round == 0 { 0 } else { r.below(1 << 30) }, ..Plan::default() };
        progress(p.id, "c", &base);
        let o = once(p.c, &base);
        out.push(base.clone());
        let n = o.ops.max(1) as u64;
        // every single failure of this path, capped
        let mut idxs: Vec<u32> = (0..o.ops.min(64)).collect();
        while idxs.len() > (budget / 2) as usize {
            let k = r.below(idxs.len() as u64) as usize;
            idxs.remove(k);
        }
        for i in idxs {
            let mut q = base.clone();
            q.faults.insert(i, Fault::Err);
            if p.is_async {
                for _ in 0..6 {
                    q.sched.push(r.below(3) as u8);
                }
                for _ in 0..r.below(3) {
                    let j = r.below(n) as u32;
                    q.faults.entry(j).or_insert(Fault::Pend(1 + r.below(3) as u8));
                }
            }
            out.push(q);
        }
        for _ in 0..budget / 6 {
            let mut q = base.clone();
            q.vseed = r.below(1 << 30);
            let k = 1 + r.below(3);
            for _ in 0..k {
                let i = r.below(n + 1) as u32;
                let f = match r.below(if p.is_async { 6 } else { 4 }) {
                    0 if panics => Fault::Panic,
                    0 | 1 | 2 | 3 => Fault::Err,
                    4 => Fault::Pend(1 + r.below(3) as u8),
                    _ => Fault::PendErr(1 + r.below(2) as u8),
                };
                q.faults.insert(i, f);
            }
            if p.is_async {
                for _ in 0..r.below(14) {
                    q.sched.push(r.below(4) as u8);
                }
                if r.below(2) == 0 && !o.tasks_polls.is_empty() {
                    for _ in 0..1 + r.below(2) {
                        let t = o.tasks_polls[r.below(o.tasks_polls.len() as u64) as usize];
                        q.cancel.push((t.0, r.below(t.1 as u64 + 2) as u8));
                    }
                    for _ in 0..2 {
                        let i = r.below(n) as u32;
                        q.faults.entry(i).or_insert(Fault::Pend(1 + r.below(3) as u8));
                    }
                }
            }
            out.push(q);
        }
    }
    out
}

/// args: run SEED BUDGET PANICS STDERR | replay ID PLAN STDERR | ids
pub fn main(progs: &[Prog]) {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    sinks::install();
    let mode = args.get(1).map(|s| s.as_str()).unwrap_or("run");
    let stderr_on = args.last().map(|s| s == "stderr").unwrap_or(false);
    if stderr_on {
        sinks::install_stderr();
        sinks::enable(true);
    }
    if mode == "replay" {
        let id: u32 = args[2].parse().unwrap();
        let plan = dec(&args[3]);
        let p = progs.iter().find(|p| p.id == id).unwrap();
        let (v, c) = judge(p, &plan);
        match v {
            Some((class, want, got)) => println!(
                "{{\"t\":\"viol\",\"id\":{id},\"class\":{},\"plan\":{},\"want\":{},\"got\":{}}}",
                esc(class),
                esc(&enc(&plan)),
                arr(&want.trace),
                arr(&got.trace)
            ),
            None => println!("{{\"t\":\"ok\",\"id\":{id},\"trace\":{}}}", arr(&c.trace)),
        }
        return;
    }
    let seed: u64 = args[2].parse().unwrap();
    let budget: u32 = args[3].parse().unwrap();
    let panics = args[4] == "1";
    for p in progs {
        let mut runs = 0u64;
        let mut fired = [0u64; 6];
        let mut hooks = 0u64;
        let mut max_now = 0u64;
        let mut events = 0u64;
        let mut reads = 0u64; // distinct hook lines reached
        let mut kinds: HashSet<u64> = HashSet::new();
        let mut lines: HashSet<String> = HashSet::new();
        let mut digest = 0u64;
        let mut bad: BTreeMap<&'static str, Plan> = BTreeMap::new();
        let mut gen_bug = None;
        let mut sim = 0u64;
        for plan in plans(p, seed, budget, panics) {
            let (v, c) = judge(p, &plan);
            runs += 1;
            for i in 0..6 {
                fired[i] += c.fired[i];
            }
            max_now = max_now.max(c.now);
            sim += c.now;
            events += c.trace.len() as u64;
            let mut h = 0u64;
            for t in &c.trace {
                if t.starts_with('H') {
                    hooks += 1;
                    if lines.len() < 400 {
                        let k: String = t.split(' ').take(3).collect::<Vec<_>>().join(" ");
                        if lines.insert(k) {
                            reads += 1;
                        }
                    }
                }
                for b in t.as_bytes() {
                    h = mix(h ^ *b as u64);
                }
            }
            kinds.insert(h);
            digest = mix(digest ^ h);
            if p.observing {
                let a = once(p.a, &plan);
                if strip(&a.trace) != strip(&c.trace) {
                    gen_bug = Some((plan.clone(), a, c.clone()));
                }
            }
            if let Some((class, _, _)) = v {
                bad.entry(class).or_insert(plan);
            }
        }
        if let Some((plan, a, c)) = gen_bug {
            println!(
                "{{\"t\":\"genbug\",\"id\":{},\"plan\":{},\"a\":{},\"c\":{}}}",
                p.id,
                esc(&enc(&plan)),
                arr(&a.trace),
                arr(&c.trace)
            );
        }
        for (class, plan) in &bad {
            let m = minimise(p, plan, class);
            if let (Some((cl, want, got)), _) = judge(p, &m) {
                println!(
                    "{{\"t\":\"viol\",\"id\":{},\"class\":{},\"plan\":{},\"orig\":{},\"want\":{},\"got\":{}}}",
                    p.id,
                    esc(cl),
                    esc(&enc(&m)),
                    esc(&enc(plan)),
                    arr(&want.trace),
                    arr(&got.trace)
                );
            }
        }
        println!(
            "{{\"t\":\"stat\",\"id\":{},\"runs\":{runs},\"fired\":{fired:?},\"hooks\":{hooks},\"sites\":{reads},\"distinct\":{},\"events\":{events},\"digest\":\"{digest:016x}\",\"simtime\":{sim},\"maxtime\":{max_now}}}",
            p.id,
            kinds.len()
        );
    }
}
