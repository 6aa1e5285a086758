use std::{
    collections::VecDeque,
    sync::{Arc, Condvar, Mutex},
    time::Duration,
};

use futures::{FutureExt, StreamExt};
use mc_kit::{Ctx, guard, sequences};
use tokio::sync::mpsc;
use utils::{eventhandler::EventsController, sender_with_id::MpscUnboundedSenderWithId};
use utils_networking::broadcaster::{Broadcaster, Receiver};

/// A handler that may be held up: it takes a permit before it records its event.
#[derive(Default)]
struct Gate {
    permits: Mutex<usize>,
    changed: Condvar,
}
impl Gate {
    fn pass(&self) {
        let mut p = self.permits.lock().unwrap();
        while *p == 0 {
            p = self.changed.wait(p).unwrap();
        }
        *p -= 1;
    }
    fn permit(&self, n: usize) {
        *self.permits.lock().unwrap() += n;
        self.changed.notify_all();
    }
}

pub fn run(ctx: &Ctx) {
    ctx.part("broadcasting", "every history of up to 6 (thorough 7) of: subscribe, unsubscribe the first or last, send, tidy up, take from the first or last: each receiver gets what was sent after it joined, in order, and then the end", |c| {
        let depth = ctx.pick(6, 7);
        c.par(7 * 7, |first| {
            for n in 0..=depth - 2 {
                for rest in sequences(7, n) {
                    let seq: Vec<usize> = [first / 7, first % 7].into_iter().chain(rest).collect();
                    c.evals(1);
                    c.traces(1);
                    c.transitions(seq.len() as u64);
                    let bad = guard(|| broadcast(&seq));
                    if !c.eq(|| format!("history {seq:?} of join, leave first, leave last, send, tidy, take first, take last"), &bad, &Ok(None)) {
                        return;
                    }
                    c.nontrivial(1);
                }
            }
            c.outcome("followed");
        });
    });

    ctx.part("no pile-up", "up to 1000 receivers come and go without anything being sent: those gone are dropped in time", |c| {
        for live in [0usize, 1, 5] {
            let mut b = Broadcaster::<u32>::new();
            let mut keep: Vec<Receiver<u32>> = (0..live).map(|_| b.subscribe()).collect();
            for i in 0..1000 {
                drop(b.subscribe());
                c.evals(1);
                if b.num_subscribers() > 2 * 128 + live {
                    c.fail(format!("{live} live, {i} gone"), format!("{} are kept", b.num_subscribers()));
                    return;
                }
            }
            b.broadcast(&7);
            c.eq(|| format!("{live} live after sending"), &b.num_subscribers(), &live);
            for r in &mut keep {
                c.eq(|| format!("{live} live, received"), &r.recv().now_or_never(), &Some(Some(7)));
            }
            c.nontrivial(1);
            c.outcome("bounded");
        }
    });

    ctx.part("crowds", "1 to 700 receivers, none, every third or every one but the last of them leaving before the second of three events: those that stay get all of them", |c| {
        let sizes: Vec<usize> = (1..=20).chain((1..=9).flat_map(|p| [(1usize << p) - 1, 1 << p, (1 << p) + 1])).chain([99, 100, 101, 300, 383, 384, 385, 500, 640, 700]).collect();
        c.par(sizes.len(), |i| {
            let n = sizes[i];
            for leave in 0..3 {
                for tidy in [false, true] {
                    let key = || format!("{n} receivers, leaving {leave}, tidied {tidy}");
                    let mut b = Broadcaster::<u32>::new();
                    let mut all: Vec<Option<Receiver<u32>>> = (0..n).map(|_| Some(b.subscribe())).collect();
                    b.broadcast(&1);
                    for (j, r) in all.iter_mut().enumerate() {
                        let c1 = r.as_mut().unwrap().recv().now_or_never();
                        c.eq(|| format!("{} first event of {j}", key()), &c1, &Some(Some(1)));
                        if (leave == 1 && j % 3 == 0) || (leave == 2 && j + 1 < n) {
                            *r = None;
                        }
                    }
                    if tidy {
                        b.purge();
                    }
                    let late = b.subscribe();
                    b.broadcast(&2);
                    b.broadcast(&3);
                    c.evals(1);
                    c.nontrivial(1);
                    c.outcome("crowd");
                    let live = all.iter().flatten().count() + 1;
                    c.eq(|| format!("{} listed", key()), &b.num_subscribers(), &live);
                    drop(b);
                    for (j, r) in all.into_iter().chain([Some(late)]).enumerate() {
                        if let Some(r) = r {
                            let got: Option<Vec<u32>> = r.into_stream().collect::<Vec<_>>().now_or_never();
                            if !c.eq(|| format!("{} rest of {j}", key()), &got, &Some(vec![2, 3])) {
                                return;
                            }
                        }
                    }
                }
            }
        });
    });

    ctx.part("named senders", "every history of up to 6 of: send by one of 2 senders, take, close: each message arrives once with its sender's name", |c| {
        for s in (0..=6).flat_map(|n| sequences(4, n)) {
            let (tx, rx) = mpsc::unbounded_channel();
            let mut rx = Some(rx);
            let senders: Vec<_> = (0..2u8).map(|i| MpscUnboundedSenderWithId::new(i, tx.clone())).collect();
            let mut queue = VecDeque::new();
            let mut ok = true;
            for (i, o) in s.iter().enumerate() {
                match *o {
                    o @ 0..=1 => {
                        let r = senders[o].send(i);
                        ok &= match &rx {
                            Some(_) => r.is_ok(),
                            None => r.err().map(|e| e.0) == Some(i),
                        };
                        queue.push_back((o as u8, i));
                    }
                    2 => {
                        if let Some(rx) = &mut rx {
                            ok &= rx.try_recv().ok() == queue.pop_front();
                        }
                    }
                    _ => rx = None,
                }
                ok &= senders.iter().all(|s| s.is_closed() == rx.is_none() && s.closed().now_or_never().is_some() == rx.is_none());
            }
            c.evals(1);
            c.traces(1);
            c.nontrivial(1);
            c.outcome(if rx.is_some() { "open" } else { "closed" });
            if !c.eq(|| format!("history {s:?} of send 0, send 1, take, close"), &ok, &true) {
                return;
            }
        }
    });

    ctx.part("event handlers", "every history of up to 6 (thorough 7) of: add a recording handler, add one that panics, send, wait: every handler gets every event sent after it was added once and in order, and waiting ends only when all are done", |c| {
        let depth = ctx.pick(6, 7);
        c.par(16, |first| {
            for n in 0..=depth - 2 {
                for rest in sequences(4, n) {
                    let seq: Vec<usize> = [first / 4, first % 4].into_iter().chain(rest).collect();
                    // waiting costs time: once on the way is enough
                    if seq.iter().filter(|o| **o == 3).count() > 1 {
                        continue;
                    }
                    c.evals(1);
                    c.traces(1);
                    c.transitions(seq.len() as u64);
                    if !c.eq(|| format!("history {seq:?} of add, add panicking, send, wait"), &guard(|| handlers(&seq)), &Ok(None)) {
                        return;
                    }
                    c.nontrivial(1);
                }
            }
            c.outcome("handled");
        });
    });

    ctx.part("waiting", "1 to 3 handlers and 1 to 3 events, held up at every point: waiting is not over before the last one is done, and is over after it", |c| {
        for (subs, events) in (1..=3usize).flat_map(|s| (1..=3usize).map(move |e| (s, e))) {
            for held in 1..=subs * events {
                let gate = Arc::new(Gate::default());
                let done = Arc::new(Mutex::new(vec![]));
                let mut ctl = EventsController::<usize>::new();
                for s in 0..subs {
                    let (gate, done) = (gate.clone(), done.clone());
                    ctl.subscribe_to_events(Arc::new(move |e| {
                        gate.pass();
                        done.lock().unwrap().push((e, s));
                    }));
                }
                for e in 0..events {
                    ctl.broadcast(e);
                }
                gate.permit(subs * events - held);
                let over = Mutex::new(false);
                let over = std::thread::scope(|scope| {
                    scope.spawn(|| {
                        ctl.wait_for_all_events();
                        *over.lock().unwrap() = true;
                    });
                    std::thread::sleep(Duration::from_millis(35));
                    let early = *over.lock().unwrap();
                    gate.permit(held);
                    early
                });
                let want: Vec<_> = (0..events).flat_map(|e| (0..subs).map(move |s| (e, s))).collect();
                c.evals(1);
                c.nontrivial(1);
                c.states(1);
                c.outcome("waited");
                c.eq(|| format!("{subs} handlers, {events} events, {held} held: over early"), &over, &false);
                c.eq(|| format!("{subs} handlers, {events} events, {held} held: order"), &*done.lock().unwrap(), &want);
            }
        }
    });
}

fn broadcast(seq: &[usize]) -> Option<String> {
    let mut b = Broadcaster::<usize>::new();
    let mut live: VecDeque<(Receiver<usize>, VecDeque<usize>)> = VecDeque::new();
    // receivers that are gone but may still be listed
    let mut gone = 0usize;
    for (i, o) in seq.iter().enumerate() {
        match *o {
            0 => {
                if i % 2 == 0 {
                    live.push_back((b.subscribe(), VecDeque::new()));
                } else {
                    // by way of a channel of one's own
                    let (tx, rx) = mpsc::unbounded_channel();
                    b.subscribe_using(tx);
                    drop(rx);
                    gone += 1;
                }
            }
            1 => gone += live.pop_front().is_some() as usize,
            2 => gone += live.pop_back().is_some() as usize,
            3 => {
                b.broadcast(&i);
                live.iter_mut().for_each(|(_, q)| q.push_back(i));
                gone = 0;
            }
            4 => {
                b.purge();
                gone = 0;
            }
            o => {
                let r = if o == 5 { live.front_mut() } else { live.back_mut() };
                if let Some((r, q)) = r {
                    let got = r.recv().now_or_never();
                    let want = q.pop_front().map(Some);
                    if got != want {
                        return Some(format!("step {i}: received {got:?}, expected {want:?}"));
                    }
                }
            }
        }
        if b.num_subscribers() != live.len() + gone {
            return Some(format!("step {i}: {} subscribers, expected {} and {gone} gone", b.num_subscribers(), live.len()));
        }
    }
    drop(b);
    for (i, (r, q)) in live.into_iter().enumerate() {
        let got: Option<Vec<usize>> = r.into_stream().collect::<Vec<_>>().now_or_never();
        if got != Some(q.iter().copied().collect()) {
            return Some(format!("at the end receiver {i} got {got:?}, expected {q:?}"));
        }
    }
    None
}

fn handlers(seq: &[usize]) -> Option<String> {
    let mut ctl = EventsController::<usize>::new();
    let log: Arc<Mutex<Vec<(usize, usize)>>> = Default::default();
    let mut want = vec![];
    let mut subs = 0;
    for (i, o) in seq.iter().enumerate() {
        match *o {
            o @ 0..=1 => {
                let (me, log) = (subs, log.clone());
                ctl.subscribe_to_events(Arc::new(move |e| {
                    log.lock().unwrap().push((e, me));
                    if o == 1 {
                        std::panic::resume_unwind(Box::new("handler"));
                    }
                }));
                subs += 1;
            }
            2 => {
                ctl.broadcast(i);
                want.extend((0..subs).map(|s| (i, s)));
            }
            _ => {
                ctl.wait_for_all_events();
                if *log.lock().unwrap() != want {
                    return Some(format!("after waiting at {i}: {:?}, expected {want:?}", log.lock().unwrap()));
                }
            }
        }
        if ctl.subscribers().len() != subs {
            return Some(format!("{} handlers, expected {subs}", ctl.subscribers().len()));
        }
    }
    ctl.wait_for_all_events();
    let got = log.lock().unwrap().clone();
    (got != want).then(|| format!("{got:?}, expected {want:?}"))
}
