mod node;
mod play;
#[path = "../../chain/src/sim.rs"]
#[allow(dead_code)]
mod sim;
#[path = "../../chain/src/spy.rs"]
#[allow(dead_code)]
mod spy;
mod world;

use mc_kit::{Check, Ctx, PartCtx, guard, sequences};
use node::Host;
use play::{Op, Play, Stage};
use sim::World;

/// every history of these steps after the lead-in, each played on a node of its own
fn histories(c: &PartCtx, host: &Host, s: &Stage, lead: &[Op], ops: &[Op], depth: usize) {
    for len in 1..=depth {
        let all: Vec<Vec<usize>> = sequences(ops.len(), len).collect();
        c.par(all.len(), |i| {
            let list: Vec<Op> = all[i].iter().map(|o| ops[*o]).collect();
            let r = guard(|| -> Result<(), String> {
                let mut p = Play::new(s, host)?;
                for op in lead {
                    p.step(*op).map_err(|e| format!("lead-in {op:?}: {e}"))?;
                }
                for (n, op) in list.iter().enumerate() {
                    let done = p.step(*op).map_err(|e| format!("{:?}: {e}", &list[..=n]))?;
                    if !done {
                        c.outcome("no such step here");
                        return Ok(());
                    }
                }
                c.evals(1);
                c.transitions(len as u64);
                p.check().map_err(|e| format!("after {list:?}: {e}"))?;
                let (pool, orphans) = p.sizes();
                c.outcome(&format!("{pool} in the pool, {orphans} orphans"));
                c.nontrivial(u64::from(pool > 0));
                c.traces(1);
                Ok(())
            });
            if let Ok(Err(e)) | Err(e) = r {
                c.fail(format!("{}, after {lead:?}: {list:?}", s.u.name), e);
            }
        });
    }
}

fn run(ctx: &Ctx) {
    let w = World::new(1000, false, |b| b);
    let host = Host::new();
    let give = |n: usize| (0..n).flat_map(|t| [Op::Local(t), Op::Remote(t, 1)]).collect::<Vec<_>>();
    let universes = || [world::family(&w), world::accounts(&w), world::staking(&w), world::orders(&w), world::locked(&w)];
    for u in universes() {
        let s = Stage::new(&w, &u, 64);
        let mut ops = give(u.txs.len());
        ops.extend((0..u.blocks.len()).map(Op::Block));
        ops.extend([Op::Template, Op::Reorg(1, 0), Op::Reorg(1, 1), Op::Later(play::EXPIRY + 1)]);
        ctx.part(u.name, "every history of up to 3 (thorough 4) of: giving any of the transactions by hand or by a peer, blocks with several lists or the pool's own template, reorgs, two weeks passing", |c| {
            histories(c, &host, &s, &[], &ops, ctx.pick(3, 4))
        });
    }
    for u in universes() {
        let s = Stage::new(&w, &u, 64);
        let n = u.txs.len();
        let mut ops = give(n);
        ops.extend((0..u.blocks.len()).flat_map(|b| [Op::Block(b), Op::Reorg(1, b), Op::Reorg(2, b)]));
        ops.extend([Op::Template, Op::Later(play::EXPIRY), Op::Later(1), Op::Later(60), Op::Gone(1), Op::Gone(2)]);
        // (what only lives from the balance of an account may outlive in the pool what pays into it, when that is thrown out)
        if u.tracked {
            ops.extend([0, 30, 60, 90].map(Op::Limit));
        }
        let leads: [(&str, Vec<Op>); 4] = [
            ("all given", (0..n).map(|t| Op::Remote(t, 1)).collect()),
            ("all given backwards by two", (0..n).rev().map(|t| Op::Remote(t, t as u64 % 2 + 1)).collect()),
            ("all given with a week between, one block", (0..n).flat_map(|t| [Op::Local(t), Op::Later(play::EXPIRY / 2)]).chain([Op::Block(1)]).collect()),
            ("template after template", (0..n).flat_map(|t| [Op::Local(t), Op::Template]).collect()),
        ];
        ctx.part(&format!("{}, well on", u.name), "four lead-ins, then every history of up to 2 (thorough 3) of these, peers leaving, memory limits, longer reorgs", |c| {
            // quick: all lead-ins in the first universe, every other one in the rest
            let step = if ctx.quick() && u.name != "family" { 3 } else { 1 };
            for (_, lead) in leads.iter().step_by(step) {
                histories(c, &host, &s, lead, &ops, ctx.pick(2, 3));
            }
        });
    }
    for u in universes() {
        let s = Stage::new(&w, &u, 64);
        let n = u.txs.len();
        let mut ops: Vec<Op> = (0..n.min(4)).map(|t| Op::Remote(t, 1)).collect();
        ops.extend((0..u.blocks.len()).map(Op::Quiet));
        ops.extend([Op::QuietReorg(1, 0), Op::QuietReorg(1, 1), Op::QuietReorg(2, 0), Op::Tell]);
        ctx.part(&format!("{}, late news", u.name), "every history of up to 3 (thorough 4) steps after all were given, the pool told about blocks at any later time", |c| {
            let lead: Vec<Op> = (0..n).map(Op::Local).collect();
            histories(c, &host, &s, &lead, &ops, ctx.pick(3, 4));
        });
    }
    let u = world::family(&w);
    for cluster in [1, 2, 3] {
        let s = Stage::new(&w, &u, cluster);
        let mut ops: Vec<Op> = (0..u.txs.len()).map(Op::Local).collect();
        ops.extend([Op::Block(0), Op::Block(1), Op::Template, Op::Reorg(1, 0)]);
        ctx.part(&format!("clusters of {cluster}"), "every history of up to 3 (thorough 5) steps with a limit on how many may be connected", |c| histories(c, &host, &s, &[], &ops, ctx.pick(3, 5)));
    }
}

fn main() {
    mc_kit::main(&[Check { id: "M01", level: "model_checking", rule: "the pool's contents, order, orphans and answers are those the model of the history predicts, and its templates connect to the chain", assumptions: &["transactions and fees are the fixed ones of five universes", "background work is run to its end between steps"], run }]);
}
