//! L03: the storage fails, or the process ends, at any operation.

use chainstate::BlockSource;
use common::{chain::GenBlock, primitives::Id};
use chainstate_types::BlockIndex;
use mc_kit::{Ctx, PartCtx, guard};
use serialization::DecodeAll;

use crate::{
    sim::{Chain, Kind, World},
    spy::{Fail, Image, Spy, diff},
    tree::{INDEX, Lab, Op, Tour, Walk},
};

use Kind::*;

/// The outcome as far as the caller sees it.
fn act(ch: &mut Chain, w: &Walk) -> Result<bool, String> {
    let (op, block) = w.last();
    match (op, block) {
        (Op::Deliver(..), Some(b)) => ch.process_block(b.clone(), BlockSource::Local).map(|i| i.is_some()).map_err(|e| e.to_string()),
        (Op::Invalidate(i), _) => ch.invalidate_block(&Id::new(w.node(*i).id().to_hash())).map(|_| true).map_err(|e| e.to_string()),
        (Op::Reset(i), _) => ch.reset_block_failure_flags(&Id::new(w.node(*i).id().to_hash())).map(|_| true).map_err(|e| e.to_string()),
        _ => unreachable!(),
    }
}

struct Clean {
    r: Result<bool, String>,
    image: Image,
    ops: u64,
}

fn clean(lab: &Lab, before: &Image, w: &Walk) -> Result<Clean, String> {
    let spy = Spy::of(before);
    let mut ch = lab.w.open(&spy)?;
    spy.plan(None);
    let r = act(&mut ch, w);
    let ops = spy.ops();
    Ok(Clean { r, image: spy.image(), ops })
}

fn tip(ch: &Chain) -> Result<Id<GenBlock>, String> {
    ch.get_best_block_id().map_err(|e| e.to_string())
}

fn sweep(lab: &Lab, before: &Walk, w: &Walk, c: &PartCtx) {
    let good = match guard(|| clean(lab, before.image(), w)) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) | Err(e) => return c.fail(w.name(), e),
    };
    let fail: [(&str, fn(u64) -> Fail); 3] = [("once", Fail::Once), ("hard", Fail::Hard), ("dead", Fail::Dead)];
    for (name, mode) in fail {
        for n in 0..good.ops {
            if c.stop() {
                return;
            }
            let key = || format!("{}; operation {n} of {} of the storage fails ({name})", w.name(), good.ops);
            if let Err(e) = one(lab, before, w, &good, mode(n), c) {
                c.fail(key(), e);
            }
            c.states(1);
            c.transitions(1);
        }
    }
}

/// A block that is on record as good before and in the end is never found bad because of the storage.
fn no_slander(before: &Image, left: &Image, after: &Image) -> Result<(), String> {
    let ok = |image: &Image, k: &Vec<u8>| image[INDEX].get(k).map(|v| BlockIndex::decode_all(&mut &v[..]).expect("a block index").status().is_ok());
    for k in left[INDEX].keys() {
        if ok(left, k) == Some(false) && ok(after, k) == Some(true) && ok(before, k) != Some(false) {
            return Err("a good block is on record as bad".into());
        }
    }
    Ok(())
}

fn one(lab: &Lab, before: &Walk, w: &Walk, good: &Clean, plan: Fail, c: &PartCtx) -> Result<(), String> {
    let spy = Spy::of(before.image());
    let mut ch = lab.w.open(&spy)?;
    spy.plan(Some(plan));
    // to give up is fine, but only when the process could be started again
    let r = guard(|| act(&mut ch, w));
    spy.plan(None);
    let left = spy.image();
    let first = r.clone();
    let gave_up = r.is_err();
    let same = diff(&left, &good.image, &[]).is_empty();
    let before_same = diff(&left, before.image(), &[]).is_empty();
    // An operator's command is done in several steps and may end after any of them: blocks are on record as bad, but the
    // best of the other lines is not the tip yet. Only the rest is required of it.
    let command = !matches!(w.last().0, Op::Deliver(..));
    match &r {
        Ok(Ok(true)) if command && !same => c.outcome("done, but not on the best line"),
        Ok(r) if *r == good.r || (r.is_err() && good.r.is_err() && same) => {
            if !same && r.is_ok() {
                return Err(format!("reported as {r:?}, but not done: {}", diff(&left, &good.image, &[]).join("; ")));
            }
            c.outcome(if matches!(plan, Fail::Once(_)) { "got over it" } else { "done all the same" });
        }
        Ok(Ok(x)) => return Err(format!("{x} is reported where {:?} is due", good.r)),
        Ok(Err(_)) => c.outcome(if before_same { "refused, nothing done" } else if same { "refused, done" } else { "refused, half done" }),
        Err(_) => c.outcome("gave up"),
    }
    no_slander(before.image(), &left, &good.image)?;
    // whatever was left is the state of some tip, completely
    let consistent = |image: &Image, at: Id<GenBlock>, when: &str| -> Result<(), String> {
        let Some(node) = w.find(&at).filter(|_| w.sound(&at)) else {
            return Err(format!("{when} the tip is {at:?}"));
        };
        let d = lab.same_as_replay(image, node, false);
        if d.is_empty() { Ok(()) } else { Err(format!("{when}, not what the main chain alone leaves: {}", d.join("; "))) }
    };
    // done once more, in the same process and after a restart
    for restart in [false, true] {
        if !restart && gave_up {
            continue;
        }
        let again = if restart { Spy::of(&left) } else { spy.clone() };
        let r = guard(|| -> Result<(), String> {
            let mut other = if restart { Some(lab.w.open(&again)?) } else { None };
            let ch: &mut Chain = other.as_mut().unwrap_or(&mut ch);
            consistent(&left, tip(ch)?, if restart { "after a restart" } else { "afterwards" })?;
            if same {
                return Ok(());
            }
            let r = act(ch, w);
            let image = again.image();
            let at = tip(ch)?;
            consistent(&image, at, "when done once more")?;
            no_slander(before.image(), &image, &good.image)?;
            if command {
                return Ok(());
            }
            // the index of a block that was found bad may stay behind
            let d = diff(&image, &good.image, if good.r.is_err() { &[INDEX] } else { &[] });
            if !d.is_empty() {
                return Err(format!("done once more ({r:?}), the result is another: {}", d.join("; ")));
            }
            if good.r.is_ok() && r != good.r {
                return Err(format!("done once more, {r:?} is the answer where {:?} was", good.r));
            }
            if good.r.is_err() && r.is_ok() {
                return Err("what is wrong is taken the second time".into());
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return Err(format!("answered {first:?}; {e}")),
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let lab = Lab::new(World::new(1000, false, |b| b));
    let go = |c: &PartCtx, kinds: &[Kind], blocks: usize, others: usize, bases: &[Vec<Kind>]| {
        let steps = Tour { others, ..Tour::of(&lab, kinds, blocks, c) }.steps(bases);
        c.par(steps.len(), |i| sweep(&lab, &steps[i].0, &steps[i].2, c));
    };
    ctx.part("open", "the storage fails while a new or an old chain is opened", |c| {
        for (name, image) in [("new", None), ("old", lab.chain(&[Move, Stake]).ok().flatten().and_then(|n| n.image.clone()))] {
            let fresh = || image.as_ref().map_or_else(Spy::default, Spy::of);
            let spy = fresh();
            spy.plan(None);
            let r = guard(|| lab.w.open(&spy).map(drop));
            if r != Ok(Ok(())) {
                return c.fail(name, format!("{r:?}"));
            }
            let (n, want) = (spy.ops(), spy.image());
            for k in 0..n {
                for plan in [Fail::Once(k), Fail::Hard(k), Fail::Dead(k)] {
                    let spy = fresh();
                    spy.plan(Some(plan));
                    let r = guard(|| lab.w.open(&spy).map(drop));
                    c.states(1);
                    c.outcome(if matches!(r, Ok(Ok(()))) { "opened" } else { "refused" });
                    spy.plan(None);
                    let key = || format!("{name}, {plan:?} of {n}");
                    if matches!(r, Ok(Ok(()))) && !diff(&spy.image(), &want, &[]).is_empty() {
                        c.fail(key(), "reported as opened, but not all is there");
                    }
                    let r = guard(|| lab.w.open(&spy).map(drop));
                    if r != Ok(Ok(())) {
                        c.fail(key(), format!("does not open afterwards: {r:?}"));
                    } else {
                        let d = diff(&spy.image(), &want, &[]);
                        if !d.is_empty() {
                            c.fail(key(), format!("opened afterwards, other things are there: {}", d.join("; ")));
                        }
                    }
                }
            }
        }
    });
    ctx.part("accounts", "blocks that change tokens, pools and orders, and reorganisations of them", |c| {
        let n = ctx.pick(2, 3);
        go(c, &[Token], n, 0, &[vec![], vec![Token; 3]]);
        go(c, &[Stake], n, 0, &[vec![], vec![Stake; 2]]);
        go(c, &[Order], n, 0, &[vec![], vec![Order; 2]]);
    });
    ctx.part("bad", "blocks found broken, alone and in the middle of a reorganisation", |c| {
        go(c, &[Move, Overspend], ctx.pick(3, 4), 0, &[vec![]]);
        go(c, &[Mixed, GreedyReward, SameInputTwice], 2, 0, &[vec![Reward]]);
    });
    ctx.part("operator", "blocks declared bad and good again", |c| {
        go(c, &[Move], ctx.pick(3, 4), 2, &[vec![Move]]);
    });
}
