//! C24 timers and intervals, under a controlled clock.
use mc::*;
use std::future::Future;
use std::task::Poll;
use std::time::Duration;
use textual::{AppContext, EventContext, IntervalHandle, MessageEnvelope, MountContext};
use tokio::sync::mpsc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Op {
    Timer(u64),
    Interval(u64),
    /// Cancel the n-th interval.
    Cancel(usize),
    Drop(usize),
    /// Time passes and everything that is due runs.
    Pass(u64),
    /// Time passes while the app is busy: nothing runs meanwhile.
    Stall(u64),
    /// Time passes and the runtime knows what is due, but the app gets its turn first.
    Due(u64),
    Post,
}

/// When something was started, and what is known about when it has to fire.
#[derive(Clone, Debug)]
struct Source {
    id: usize,
    start: u64,
    period: u64,
    once: bool,
    fired: u64,
    /// Cancelled: nothing more may come.
    stopped: bool,
}

type M = (usize, u64);

enum Ctx2<'a> {
    App(AppContext<M>),
    Event(EventContext<'a, M>),
    Mount(MountContext<'a, M>),
}

impl Ctx2<'_> {
    fn post(&self, m: M) {
        match self {
            Ctx2::App(c) => c.post(m),
            Ctx2::Event(c) => c.post(m),
            Ctx2::Mount(c) => c.post(m),
        }
    }
    fn set_timer(&self, d: Duration, m: M) {
        match self {
            Ctx2::App(c) => c.set_timer(d, m),
            Ctx2::Event(c) => c.set_timer(d, m),
            Ctx2::Mount(c) => c.set_timer(d, m),
        }
    }
    fn set_interval(&self, d: Duration, f: impl Fn() -> M + Send + 'static) -> IntervalHandle {
        match self {
            Ctx2::App(c) => c.set_interval(d, f),
            Ctx2::Event(c) => c.set_interval(d, f),
            Ctx2::Mount(c) => c.set_interval(d, f),
        }
    }
}

async fn settle() {
    for _ in 0..10 {
        tokio::task::yield_now().await;
    }
}

async fn run(kind: usize, ops: &[Op], w: &mut mc::W) -> Result<(), String> {
    let (tx, mut rx) = mpsc::unbounded_channel::<MessageEnvelope<M>>();
    let app = AppContext::new(tx.clone()).with_sender_info(Some("who"), "Kind");
    let mut tree = textual::tree::WidgetTree::new(Box::new(textual::Static::<M>::new("")));
    let ctx = match kind {
        0 => Ctx2::App(app),
        1 => Ctx2::Event(EventContext::new(app, &mut tree)),
        _ => Ctx2::Mount(MountContext::new(app, &mut tree)),
    };
    drop(tx);
    let mut src: Vec<Source> = vec![];
    let mut handles: Vec<Option<IntervalHandle>> = vec![];
    let mut by: Vec<usize> = vec![];
    let mut now = 0u64;
    // Messages posted and not seen yet
    let mut posted = std::collections::VecDeque::new();
    let mut count = 0u64;
    let mut busy = false;
    for (n, op) in ops.iter().chain([Op::Pass(3), Op::Pass(100)].iter()).enumerate() {
        w.step();
        let at = format!("step {n} {op:?} at {now} ms");
        let mut run_all = true;
        match *op {
            Op::Timer(d) => {
                // What was busy goes on first: a timer starts to count when it is set.
                settle().await;
                let id = src.len();
                ctx.set_timer(Duration::from_millis(d), (id, 0));
                src.push(Source { id, start: now, period: d, once: true, fired: 0, stopped: false });
            }
            Op::Interval(d) => {
                settle().await;
                let id = src.len();
                let h = ctx.set_interval(Duration::from_millis(d), move || (id, 0));
                src.push(Source { id, start: now, period: d, once: false, fired: 0, stopped: false });
                handles.push(Some(h));
                by.push(id);
            }
            Op::Cancel(i) | Op::Drop(i) => {
                let Some(Some(h)) = handles.get_mut(i) else { continue };
                if matches!(op, Op::Cancel(_)) {
                    h.cancel();
                    // Cancelling twice is harmless.
                    h.cancel();
                } else {
                    handles[i] = None;
                }
                src[by[i]].stopped = true;
            }
            Op::Pass(d) => {
                for _ in 0..d {
                    tokio::time::advance(Duration::from_millis(1)).await;
                }
                now += d;
            }
            Op::Stall(d) => {
                let mut f = Box::pin(tokio::time::advance(Duration::from_millis(d)));
                futures::future::poll_fn(|cx| {
                    let _ = f.as_mut().poll(cx);
                    Poll::Ready(())
                })
                .await;
                now += d;
                run_all = false;
                busy = true;
            }
            Op::Due(d) => {
                tokio::time::advance(Duration::from_millis(d)).await;
                now += d;
                run_all = false;
                busy = true;
            }
            Op::Post => {
                ctx.post((999, count));
                posted.push_back(count);
                count += 1;
            }
        }
        if run_all {
            settle().await;
            busy = false;
        }
        while let Ok(e) = rx.try_recv() {
            ensure!(e.sender_id.as_deref() == Some("who") && e.sender_type == "Kind", "{at}: sender {:?} {:?}", e.sender_id, e.sender_type);
            let (id, k) = e.message;
            if id == 999 {
                ensure!(posted.pop_front() == Some(k), "{at}: message {k} is out of order or came twice");
                continue;
            }
            let s = &mut src[id];
            ensure!(!s.stopped, "{at}: the interval of {} ms fired after it was cancelled", s.period);
            s.fired += 1;
            let due = s.start + s.period * if s.once { 1 } else { s.fired };
            ensure!(!s.once || s.fired == 1, "{at}: a timer fired {} times", s.fired);
            ensure!(now >= due, "{at}: {s:?} fired at {now} ms, before {due} ms");
        }
        ensure!(posted.is_empty(), "{at}: {} posted messages did not arrive", posted.len());
        if !busy {
            for s in &src {
                if s.stopped {
                    continue;
                }
                // The clock of the runtime ticks in milliseconds, rounding up.
                let due = |t: u64| if s.once { u64::from(t >= s.start + s.period) } else { t.saturating_sub(s.start) / s.period };
                ensure!(s.fired >= due(now.saturating_sub(1)), "{at}: at {now} ms {s:?} should have fired {} times", due(now - 1));
            }
        }
        w.state(&(kind, now, src.iter().map(|s| (s.period, s.once, now - s.start, s.fired, s.stopped)).collect::<Vec<_>>()));
    }
    w.outcome(&src.iter().map(|s| (s.id, s.fired)).collect::<Vec<_>>());
    Ok(())
}

fn drive(kind: usize, ops: &[Op], w: &mut mc::W) -> Result<(), String> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(run(kind, ops, w))
}

fn c24(ctx: &Ctx) {
    use Op::*;
    ctx.assume("periods of whole milliseconds, above zero");
    ctx.note("select!", "where several branches of a task are ready, tokio picks one at random: each case runs four times".into());
    let ops: &'static [Op] = &[Timer(10), Timer(0), Interval(10), Interval(4), Cancel(0), Drop(0), Cancel(1), Pass(4), Pass(10), Stall(25), Due(10), Due(6), Post];
    let depth = ctx.pick(5, 6);
    let n = seq_count(ops.len() as u64, depth);
    let at = move |i: u64| seq_at(i, ops.len() as u64, depth).iter().map(|k| ops[*k]).collect::<Vec<_>>();
    ctx.explore(&format!("all sequences of up to {depth} of {} operations", ops.len()), n, move |i| format!("{:?}", at(i)), move |i, w| {
        for _ in 0..4 {
            drive(0, &at(i), w)?;
        }
        Ok(())
    });
    let n = seq_count(ops.len() as u64, 3) * 2;
    let at = move |i: u64| seq_at(i / 2, ops.len() as u64, 3).iter().map(|k| ops[*k]).collect::<Vec<_>>();
    ctx.explore("the contexts of events and of mounting: all sequences of up to 3", n, move |i| format!("{} {:?}", i % 2, at(i)), move |i, w| drive(1 + (i % 2) as usize, &at(i), w));
}

fn main() {
    main_with(&[("C24", c24)]);
}
