//! Simulated executor: one decision list chooses which ready task is polled, simulated timers wake
//! pending operations, and the plan may drop a task instead of polling it again.
use crate::*;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

/// asynchronous fallible operation: pending as long as the plan says, then Ok or Err
pub struct Aop {
    id: i32,
    st: Option<(Option<Fault>, u64, u8)>,
    done: bool,
}
pub fn aop(id: i32) -> Aop {
    Aop { id, st: None, done: false }
}
impl Drop for Aop {
    fn drop(&mut self) {
        if !self.done {
            log(format!("aop{} dropped {}", self.id, self.st.is_some()));
        }
    }
}
impl Future for Aop {
    type Output = Result<i64, E>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.done {
            log(format!("aop{} POLLED AFTER READY", self.id));
        }
        if self.st.is_none() {
            let (_, f, v) = next_op();
            let k = match f {
                Some(Fault::Pend(k)) | Some(Fault::PendErr(k)) => k,
                _ => 0,
            };
            if k > 0 {
                fire(if matches!(f, Some(Fault::Pend(_))) { 2 } else { 3 });
            }
            self.st = Some((f, v, k));
        }
        let (f, v, k) = self.st.unwrap();
        if k > 0 {
            self.st = Some((f, v, k - 1));
            log(format!("aop{} pend", self.id));
            with(|w| {
                w.timer_seq += 1;
                let at = w.now + 1 + v % 3;
                let s = w.timer_seq;
                w.timers.push((at, s, cx.waker().clone()));
            });
            return Poll::Pending;
        }
        self.done = true;
        match f {
            Some(Fault::Panic) => {
                fire(1);
                log(format!("aop{} PANIC", self.id));
                std::panic::panic_any(SimPanic(self.id));
            }
            Some(Fault::Err) | Some(Fault::PendErr(_)) => {
                fire(0);
                log(format!("aop{} ERR", self.id));
                Poll::Ready(Err(E::new(self.id)))
            }
            _ => {
                log(format!("aop{} {}", self.id, v % 5));
                Poll::Ready(Ok((v % 5) as i64))
            }
        }
    }
}

/// both, polled left then right; finishes when both have
pub async fn join2<A, B>(a: impl Future<Output = A>, b: impl Future<Output = B>) -> (A, B) {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    let (mut ra, mut rb) = (None, None);
    std::future::poll_fn(move |cx| {
        if ra.is_none() {
            if let Poll::Ready(v) = a.as_mut().poll(cx) {
                ra = Some(v);
            }
        }
        if rb.is_none() {
            if let Poll::Ready(v) = b.as_mut().poll(cx) {
                rb = Some(v);
            }
        }
        if ra.is_some() && rb.is_some() {
            return Poll::Ready((ra.take().unwrap(), rb.take().unwrap()));
        }
        Poll::Pending
    })
    .await
}
/// first to finish wins, the other is dropped: cancellation inside a task
pub async fn race<T>(a: impl Future<Output = T>, b: impl Future<Output = T>) -> T {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    std::future::poll_fn(move |cx| {
        if let Poll::Ready(v) = a.as_mut().poll(cx) {
            return Poll::Ready(v);
        }
        b.as_mut().poll(cx)
    })
    .await
}

fn choose(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|w| {
        let c = w.plan.sched.get(w.sched_pos).copied().unwrap_or(0) as usize;
        w.sched_pos += 1;
        c % n
    })
}

pub fn run(tasks: Vec<Fut<String>>) -> String {
    let mut slots: Vec<Option<Fut<String>>> = tasks.into_iter().map(Some).collect();
    let flags: Vec<Arc<Flag>> = slots.iter().map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let mut polls = vec![0u8; slots.len()];
    let mut res = vec![String::from("-"); slots.len()];
    loop {
        let ready: Vec<usize> =
            (0..slots.len()).filter(|&i| slots[i].is_some() && flags[i].0.load(Ordering::SeqCst)).collect();
        if ready.is_empty() {
            if slots.iter().all(|s| s.is_none()) {
                break;
            }
            // nothing runnable: jump the clock
            let t = with(|w| {
                let m = w.timers.iter().map(|t| (t.0, t.1)).min()?;
                let i = w.timers.iter().position(|t| (t.0, t.1) == m).unwrap();
                w.now = m.0;
                Some(w.timers.remove(i).2)
            });
            match t {
                Some(wk) => wk.wake(),
                None => {
                    log("DEADLOCK".into());
                    break;
                }
            }
            continue;
        }
        let t = ready[choose(ready.len())];
        if with(|w| w.plan.cancel.contains(&(t as u8, polls[t]))) {
            fire(4);
            log(format!("cancel t{t}"));
            slots[t] = None;
            log(format!("cancelled t{t}"));
            res[t] = "cancelled".into();
            continue;
        }
        flags[t].0.store(false, Ordering::SeqCst);
        log(format!("poll t{t}"));
        polls[t] += 1;
        let wk: Waker = flags[t].clone().into();
        let mut cx = Context::from_waker(&wk);
        let p = slots[t].as_mut().unwrap().as_mut().poll(&mut cx);
        if let Poll::Ready(s) = p {
            log(format!("done t{t}"));
            slots[t] = None;
            res[t] = s;
        } else if polls[t] > 60 {
            log("TOO MANY POLLS".into());
            slots[t] = None;
        }
    }
    format!("[{}]", res.join(", "))
}
/// a single task
pub fn block_on<T: 'static>(f: impl Future<Output = T> + 'static, show: fn(T) -> String) -> String {
    run(vec![Box::pin(async move { show(f.await) })])
}
