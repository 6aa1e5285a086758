use std::collections::BTreeSet;
use std::sync::Mutex;

use mc_kit::{Ctx as Kit, PartCtx, guard, hex, sequences};
use script::{Script, Stack};

use crate::reference::{self as re, LOOSE, Limits, Out, ROOMY, Roomy, Rules, STRICT, St, TIGHT, Tight};

fn show(st: &St) -> String {
    st.iter().map(|i| format!("[{}]", hex(i))).collect::<Vec<_>>().join(" ")
}

/// Distinct (first opcode, refused) shapes seen, to report how many different refusals were exercised.
pub struct Tally {
    ok: u64,
    refused: u64,
    ops: BTreeSet<(u8, bool)>,
}
impl Tally {
    fn new() -> Self {
        Self { ok: 0, refused: 0, ops: BTreeSet::new() }
    }
    fn into(self, c: &PartCtx, all: &Mutex<BTreeSet<(u8, bool)>>) {
        c.evals(self.ok + self.refused);
        c.nontrivial(self.ok);
        c.traces(self.ok + self.refused);
        c.outcome_n("accepted", self.ok);
        c.outcome_n("refused", self.refused);
        all.lock().unwrap().extend(self.ops);
    }
}

/// Run one script from one stack on both interpreters.
fn one(c: &PartCtx, tight: bool, rules: &Rules, code: &[u8], start: &St, t: &mut Tally) -> bool {
    one_in(c, if tight { (&TIGHT, "tight") } else { (&ROOMY, "default") }, rules, code, start, t)
}

fn one_in(c: &PartCtx, (lim, called): (&Limits, &str), rules: &Rules, code: &[u8], start: &St, t: &mut Tally) -> bool {
    let mut out = Out::default();
    let want = re::run(lim, rules, code, start.clone(), &mut out);
    let s = Script::from(code.to_vec());
    let stack = Stack::from(start.iter().map(|i| i.clone().into()).collect::<Vec<_>>());
    let key = || {
        format!(
            "{} limits, minimal push {}, minimal if {}, script {}, stack {}",
            called,
            rules.minimal_push,
            rules.minimal_if,
            hex(code),
            show(start)
        )
    };
    let (got, calls, times) = if called == "wide" {
        let ctx = re::Wide::new(*rules);
        let got = guard(|| script::run_script(&ctx, &s, stack));
        (got, ctx.calls.into_inner(), ctx.times.into_inner())
    } else if called == "tight" {
        let ctx = Tight::new(*rules);
        let got = guard(|| script::run_script(&ctx, &s, stack));
        (got, ctx.calls.into_inner(), ctx.times.into_inner())
    } else {
        let ctx = Roomy::new(*rules);
        let got = guard(|| script::run_script(&ctx, &s, stack));
        (got, ctx.calls.into_inner(), ctx.times.into_inner())
    };
    let got = match got {
        Ok(g) => g,
        Err(p) => {
            c.fail(key(), format!("case: {}\nthe interpreter panicked: {p}", key()));
            return false;
        }
    };
    let first = code.first().copied().unwrap_or(0);
    t.ops.insert((first, want.is_some()));
    if want.is_some() {
        t.ok += 1
    } else {
        t.refused += 1
    }
    let agree = match (&got, &want) {
        (Ok(g), Some(w)) => *g == Stack::from(w.iter().map(|i| i.as_slice().into()).collect::<Vec<_>>()),
        (Err(_), None) => true,
        _ => false,
    };
    if !agree {
        c.fail(key(), format!("case: {}\n got: {got:?}\nwant: {}", key(), want.as_ref().map_or("an error".into(), show)));
        return false;
    }
    // what the signatures and time locks of a successful run were checked against
    if want.is_some() && !out.multi && calls != out.calls {
        c.fail(key(), format!("case: {}\nsignature checks (key, signature, signed part, separator)\n got: {calls:?}\nwant: {:?}", key(), out.calls));
        return false;
    }
    if want.is_some() && times != out.times {
        c.fail(key(), format!("case: {}\ntime lock checks (relative, value)\n got: {times:?}\nwant: {:?}", key(), out.times));
        return false;
    }
    true
}

fn items() -> St {
    let mut v: St = vec![
        vec![], vec![0], vec![0x80], vec![0, 0], vec![0, 0x80], vec![1], vec![0x81], vec![2], vec![3], vec![1, 0], vec![1, 0x80],
        vec![0x7f], vec![0xff], vec![0x10], vec![0, 1], vec![0xff, 0x7f], vec![0xff, 0xff], vec![0, 0, 0x80], vec![0, 0, 0, 1],
        vec![0xff, 0xff, 0xff, 0x7f], vec![0xff, 0xff, 0xff, 0xff], vec![0xfe, 0xff, 0xff, 0x7f], vec![0, 0, 0, 0x80], vec![0, 0, 0, 0, 1], vec![1, 0, 0, 0, 0],
        vec![0, 0, 0, 0, 0x80], vec![0, 0, 0, 0, 0, 0], vec![0xEE], vec![1, 1, 1],
    ];
    v.push(vec![0x64]); // 100, the lock time in force
    v.push(vec![0x65]);
    v.push(vec![0x32]);
    v.push(vec![0x33]);
    v
}

pub fn run(ctx: &Kit) {
    let all = Mutex::new(BTreeSet::new());
    let items = items();

    ctx.part("one opcode", "every byte as a script from every stack: depth to 2 over 33 items, depth to 3 over 14 items, depth to 7 over 2 or 3 items", |c| {
        let small: Vec<usize> = (0..items.len()).collect();
        let mid: Vec<usize> = (0..14).collect();
        let few: Vec<usize> = vec![0, 5, 7];
        let mut stacks: BTreeSet<Vec<usize>> = BTreeSet::new();
        for d in 0..=2 {
            stacks.extend(sequences(small.len(), d).map(|s| s.iter().map(|i| small[*i]).collect::<Vec<_>>()));
        }
        stacks.extend(sequences(mid.len(), 3).map(|s| s.iter().map(|i| mid[*i]).collect::<Vec<_>>()));
        for d in 3..=ctx.pick(6, 7) {
            stacks.extend(sequences(few.len(), d).map(|s| s.iter().map(|i| few[*i]).collect::<Vec<_>>()));
        }
        stacks.extend(sequences(2, 8).map(|s| s.iter().map(|i| few[*i]).collect::<Vec<_>>()));
        if !ctx.quick() {
            stacks.extend(sequences(small.len(), 3));
        }
        let stacks: Vec<St> = stacks.iter().map(|s| s.iter().map(|i| items[*i].clone()).collect()).collect();
        c.states(stacks.len() as u64);
        c.par(256, |op| {
            let mut t = Tally::new();
            for st in &stacks {
                for r in [STRICT, LOOSE] {
                    if !one(c, false, &r, &[op as u8], st, &mut t) || (st.len() < 4 && !one(c, true, &r, &[op as u8], st, &mut t)) {
                        break;
                    }
                }
                if c.stop() {
                    break;
                }
            }
            t.into(c, &all);
        });
    });

    ctx.part("numbers", "numeric opcodes on every pair (WITHIN: triple) of numbers around 0, the byte and the 32-bit boundaries, and encodings that are too long", |c| {
        let mut nums: BTreeSet<Vec<u8>> = items.iter().cloned().collect();
        for base in [0i64, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 0x7fff_ffff, 0x8000_0000] {
            for d in -1..=1 {
                nums.insert(re::enc(base + d));
                nums.insert(re::enc(-base + d));
            }
        }
        let nums: Vec<_> = nums.into_iter().collect();
        let ops: Vec<u8> = (0x87..=0xa5).chain([0x79, 0x7a, 0xb1, 0xb2]).collect();
        c.states((nums.len() * nums.len()) as u64);
        c.par(nums.len(), |i| {
            let mut t = Tally::new();
            for b in &nums {
                for op in &ops {
                    one(c, false, &STRICT, &[*op], &vec![nums[i].clone(), b.clone()], &mut t);
                }
                // limits below, inside and above
                if !ctx.quick() || b.len() < 2 || nums[i].len() < 2 {
                    for x in &nums {
                        one(c, false, &STRICT, &[0xa5], &vec![x.clone(), nums[i].clone(), b.clone()], &mut t);
                    }
                }
            }
            t.into(c, &all);
        });
    });

    ctx.part("two opcodes", "every pair of bytes as a script from 10 stacks under both rule sets", |c| {
        let stacks: Vec<St> = vec![
            vec![],
            vec![vec![]],
            vec![vec![1]],
            vec![vec![2], vec![1]],
            vec![vec![1], vec![2]],
            vec![vec![], vec![], vec![1]],
            vec![vec![], vec![2], vec![1], vec![2], vec![1]],
            vec![vec![3], vec![2], vec![1], vec![], vec![5], vec![6]],
            vec![vec![0x80], vec![0, 0], vec![1, 0]],
            vec![vec![], vec![7, 9], vec![1], vec![7], vec![1]],
        ];
        c.par(256, |a| {
            let mut t = Tally::new();
            for b in 0..=255u8 {
                for st in &stacks {
                    one(c, false, &STRICT, &[a as u8, b], st, &mut t);
                    one(c, false, &LOOSE, &[a as u8, b], st, &mut t);
                }
            }
            t.into(c, &all);
        });
    });

    let depth = ctx.pick(7, 8);
    ctx.part("control flow", "every sequence over 0, 1, IF, NOTIF, ELSE, ENDIF, CODESEPARATOR, CHECKSIG, VERIFY, TOALT, FROMALT, DROP, a malformed push, RETURN and an illegal opcode", |c| {
        let alphabet: [&[u8]; 15] = [
            &[0x51], &[0x63], &[0x67], &[0x68], &[0x00], &[0x64], &[0xab], &[0xac], &[0x6b], &[0x6c], &[0x69], &[0x75], &[0x6a], &[0x65], &[0x01, 0x01],
        ];
        let n = alphabet.len();
        // shorter ones over everything, the longest over the first twelve
        let start: St = vec![vec![2, 5], vec![2], vec![1, 5], vec![1]];
        for d in 0..=depth {
            let n = if d == depth { 11 } else { n };
            let heads: Vec<_> = sequences(n, d.min(3)).collect();
            c.par(heads.len(), |h| {
                let mut t = Tally::new();
                let mut code = vec![];
                for tail in sequences(n, d.saturating_sub(3)) {
                    code.clear();
                    for i in heads[h].iter().chain(&tail) {
                        code.extend_from_slice(alphabet[*i]);
                    }
                    one(c, false, &STRICT, &code, &start, &mut t);
                    if d < depth {
                        one(c, false, &LOOSE, &code, &start, &mut t);
                    }
                    if c.stop() {
                        break;
                    }
                }
                t.into(c, &all);
            });
        }
        c.sample(|| "IF ELSE CODESEPARATOR ENDIF CHECKSIG ...".into());
    });

    ctx.part("stack programs", "every sequence of stack, logic and number opcodes from a stack of seven different items", |c| {
        let ops: Vec<u8> = vec![
            0x51, 0x52, 0x6b, 0x6c, 0x6d, 0x6e, 0x6f, 0x70, 0x71, 0x72, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x7b, 0x7c, 0x7d, 0x82, 0x87, 0x8c, 0x91, 0x93, 0x94,
            0xa3, 0xa8,
        ];
        let start: St = (1..=7).map(|i| if i == 4 { vec![] } else { vec![i as u8] }).collect();
        let d = ctx.pick(5, 6);
        let heads: Vec<_> = sequences(ops.len(), 2).collect();
        c.par(heads.len(), |h| {
            let mut t = Tally::new();
            for l in 0..=d - 2 {
                for tail in sequences(ops.len(), l) {
                    let code: Vec<u8> = heads[h].iter().chain(&tail).map(|i| ops[*i]).collect();
                    one(c, false, &STRICT, &code, &start, &mut t);
                    if l < 2 {
                        one(c, true, &STRICT, &code, &start[..3].to_vec(), &mut t);
                    }
                    if c.stop() {
                        return;
                    }
                }
            }
            t.into(c, &all);
        });
    });

    ctx.part("multisig", "every list of up to 4 keys (two good ones, reserved, malformed) and up to 3 signatures, every announced count, both opcodes, with and without the dummy", |c| {
        let keys: Vec<Vec<u8>> = vec![vec![1], vec![2], vec![0xEE], vec![9, 9]];
        let sigs: Vec<Vec<u8>> = vec![vec![1], vec![2], vec![2, 7], vec![]];
        let mut jobs = vec![];
        for nk in 0..=4 {
            for ns in 0..=3 {
                jobs.push((nk, ns));
            }
        }
        c.par(jobs.len(), |j| {
            let (nk, ns) = jobs[j];
            let mut t = Tally::new();
            for ks in sequences(keys.len(), nk) {
                for ss in sequences(sigs.len(), ns) {
                    // the announced numbers are usually right, and once each one off
                    for (ak, a_s) in [(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (9, 0), (0, 9)] {
                        for dummy in [vec![], vec![0]] {
                            let mut st: St = vec![vec![1], dummy];
                            st.extend(ss.iter().map(|i| sigs[*i].clone()));
                            st.push(re::enc(ns as i64 + a_s));
                            st.extend(ks.iter().map(|i| keys[*i].clone()));
                            st.push(re::enc(nk as i64 + ak));
                            for op in [0xae, 0xaf] {
                                one(c, false, &STRICT, &[op], &st, &mut t);
                                one(c, true, &LOOSE, &[op], &st, &mut t);
                            }
                        }
                    }
                    // a matching with distinct keys in order exists exactly when the result is true
                    if ks.iter().all(|k| *k < 2) {
                        let mut st: St = vec![vec![]];
                        st.extend(ss.iter().map(|i| sigs[*i].clone()));
                        st.push(re::enc(ns as i64));
                        st.extend(ks.iter().map(|i| keys[*i].clone()));
                        st.push(re::enc(nk as i64));
                        let exists = mc_kit::subsets(nk).any(|m| {
                            let chosen: Vec<_> = (0..nk).filter(|i| m & (1 << i) != 0).map(|i| &keys[ks[i]]).collect();
                            chosen.len() == ns && chosen.iter().zip(&ss).all(|(k, s)| re::signs(k[0], &sigs[*s]))
                        });
                        let mut out = Out::default();
                        let r = re::run(&ROOMY, &STRICT, &[0xae], st.clone(), &mut out);
                        if ns <= nk {
                            c.eq(|| format!("matching for {}", show(&st)), &r, &Some(vec![if exists { vec![1] } else { vec![] }]));
                        }
                    }
                }
            }
            t.into(c, &all);
        });
    });

    ctx.part("many keys", "every number of signatures among up to 22 (quick) or 30 keys: those of the first, the last, every other, the middle keys, one missing, one of a stranger, two out of order, one twice; for some, each key in turn unreadable or of an unknown kind", |c| {
        let most = ctx.pick(22, 30);
        c.par(most + 1, |nk| {
            let mut t = Tally::new();
            let wide = (&re::WIDE, "wide");
            let keys: Vec<u8> = (0..nk as u8).map(|k| k + 1).collect();
            for ns in 0..=nk {
                let mut picks: Vec<Vec<u8>> = vec![keys[..ns].to_vec(), keys[nk - ns..].to_vec(), keys[(nk - ns) / 2..][..ns].to_vec()];
                picks.push(keys.iter().step_by(2).chain(keys.iter().skip(1).step_by(2)).take(ns).copied().collect::<BTreeSet<_>>().into_iter().collect());
                for p in picks.clone() {
                    for at in 0..ns {
                        for with in [0, nk as u8 + 9] {
                            let mut p = p.clone();
                            p[at] = with;
                            picks.push(p);
                        }
                        if at > 0 {
                            let mut q = p.clone();
                            q.swap(at - 1, at);
                            picks.push(q);
                            let mut q = p.clone();
                            q[at] = q[at - 1];
                            picks.push(q);
                        }
                    }
                }
                picks.sort();
                picks.dedup();
                for p in picks {
                    let mut st: St = vec![vec![1], vec![]];
                    st.extend(p.iter().map(|s| vec![*s, 7]));
                    st.push(re::enc(ns as i64));
                    st.extend(keys.iter().map(|k| vec![*k]));
                    st.push(re::enc(nk as i64));
                    if !one_in(c, wide, &STRICT, &[0xae], &st, &mut t) {
                        return;
                    }
                    // the same with one key that cannot be read, or is of a kind not yet known
                    if nk % 4 > 1 || ns + 6 < nk {
                        continue;
                    }
                    let first = st.len() - 1 - nk;
                    for j in 0..nk {
                        for odd in [&[1u8, 2][..], &[0xee]] {
                            let mut st = st.clone();
                            st[first + j] = odd.to_vec();
                            if !one_in(c, wide, &STRICT, &[0xae], &st, &mut t) {
                                return;
                            }
                        }
                    }
                }
            }
            t.into(c, &all);
        });
    });

    ctx.part("long scripts", "separators after up to 9900 instructions of four kinds; branches up to 3300 deep, taken and not, with an else at each of several depths; every place of a stack of 998 picked and rolled; every length of an element to 520 hashed, measured, compared and judged with its one bit at either end", |c| {
        let lens: Vec<usize> = (0..=40).chain((6..=13).flat_map(|k| [(1usize << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1])).chain([100, 200, 250, 300, 999, 1000, 1001, 3300, 9900, 9990]).filter(|n| *n <= 9990).collect();
        c.par(lens.len(), |i| {
            let n = lens[i];
            let mut t = Tally::new();
            let sign: St = vec![vec![1], vec![1]];
            // key and signature are on the stack
            for fill in [&[0x61u8][..], &[0x51, 0x75], &[0x00, 0x63, 0x68], &[0x02, 9, 9, 0x75]] {
                let before: Vec<u8> = fill.iter().copied().cycle().take(n * fill.len()).collect();
                if before.len() > 9_990 {
                    continue;
                }
                for after in [&[0xacu8][..], &[0xab, 0xac], &[0xab, 0x61, 0xac], &[0x00, 0x63, 0xab, 0x68, 0xac], &[0x51, 0x63, 0xab, 0x68, 0xac]] {
                    one(c, false, &STRICT, &[&before[..], after].concat(), &sign, &mut t);
                    one(c, false, &STRICT, &[&[0xab], &before[..], after].concat(), &sign, &mut t);
                }
            }
            if n <= 3300 {
                for conds in [&[1u8][..], &[0], &[1, 0], &[1, 1, 1, 0], &[0, 1]] {
                    // the outermost test reads the top
                    let st: St = (0..n.min(990)).rev().map(|k| if conds[k % conds.len()] == 1 { vec![1] } else { vec![] }).collect();
                    let open = vec![0x63u8; n];
                    for e in [0, 1, n / 2, n.saturating_sub(1), n] {
                        let close: Vec<u8> = (0..n).flat_map(|k| if k == e { vec![0x67, 0x52, 0x68] } else { vec![0x68] }).collect();
                        one(c, false, &STRICT, &[&open[..], &[0x51], &close].concat(), &st, &mut t);
                        one(c, false, &STRICT, &[&open[..], &[0x51], &close[..close.len().saturating_sub(1)]].concat(), &st, &mut t);
                        one(c, false, &STRICT, &[&open[..], &close, &[0x68]].concat(), &st, &mut t);
                    }
                    let every: Vec<u8> = (0..n).flat_map(|_| [0x67, 0x53, 0x68]).collect();
                    one(c, false, &STRICT, &[&open[..], &every].concat(), &st, &mut t);
                }
            }
            t.into(c, &all);
        });
        c.par(999, |n| {
            let mut t = Tally::new();
            let mut st: St = (0..998usize).map(|k| vec![(k >> 8) as u8 + 1, k as u8]).collect();
            st.push(re::enc(n as i64));
            for op in [0x79, 0x7a] {
                one(c, false, &STRICT, &[op], &st, &mut t);
            }
            if n <= 520 {
                for fill in [0u8, 1, 0x87] {
                    for (low, high) in [(0, 0), (0, 0x80), (1, 0), (0, 1), (0x80, 0x80), (1, 1)] {
                        let mut x = vec![fill; n];
                        if n > 0 {
                            x[n - 1] = high;
                            x[0] |= low;
                        }
                        let mut y = x.clone();
                        if n > 0 {
                            y[n / 2] ^= 0x10;
                        }
                        for op in [0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0x82, 0x69, 0x73, 0x92] {
                            one(c, false, &STRICT, &[op], &vec![x.clone()], &mut t);
                        }
                        one(c, false, &LOOSE, &[0x63, 0x51, 0x68], &vec![x.clone()], &mut t);
                        for z in [x.clone(), y, [&x[..], &[0]].concat()] {
                            one(c, false, &STRICT, &[0x87], &vec![x.clone(), z], &mut t);
                        }
                        // as the last thing left
                        let want = re::truth(&x);
                        c.eq(|| format!("verdict on {n} bytes of {fill:02x}, first {low:02x}, last {high:02x}"), &guard(|| Stack::from(vec![x.clone().into()]).verify().is_ok()), &Ok(want));
                    }
                }
            }
            t.into(c, &all);
        });
    });

    ctx.part("limits", "stack, element and script sizes around their limits, reached by pushes, copies, the alternative stack and from outside", |c| {
        let mut t = Tally::new();
        // small limits: all sequences over pushes and copies
        let ops: Vec<Vec<u8>> = vec![vec![0x51], vec![0x76], vec![0x6e], vec![0x6f], vec![0x75], vec![0x6b], vec![0x6c], vec![2, 9, 9], vec![3, 9, 9, 9], vec![4, 9, 9, 9, 9], vec![0x63], vec![0x68], vec![0x61], vec![0x73], vec![0x70]];
        for d in 0..=ctx.pick(4, 6) {
            for s in sequences(ops.len(), d) {
                let code: Vec<u8> = s.iter().flat_map(|i| ops[*i].clone()).collect();
                for st in [vec![], vec![vec![1]], vec![vec![1], vec![], vec![3]], vec![vec![1]; 4], vec![vec![1]; 5]] {
                    one(c, true, &STRICT, &code, &st, &mut t);
                }
            }
        }
        // the default limits
        for n in [996usize, 997, 998, 999, 1000, 1001] {
            for (code, from) in [(vec![0x51; n], 0), (vec![0x61], n), (vec![0x76], n), (vec![0x6e], n), (vec![0x6f], n), (vec![0x6b], n), (vec![0x6b, 0x76], n), (vec![0x74], n), (vec![0x70], n), (vec![0x75], n), (vec![0x51, 0x75], n), (vec![], n)] {
                one(c, false, &STRICT, &code, &vec![vec![1]; from], &mut t);
            }
        }
        for n in [0usize, 1, 74, 75, 76, 77, 254, 255, 256, 257, 519, 520, 521, 600] {
            for form in 0..4 {
                let mut code = match form {
                    0 if n < 76 => vec![n as u8],
                    1 if n < 256 => vec![0x4c, n as u8],
                    2 => vec![0x4d, n as u8, (n >> 8) as u8],
                    3 => vec![0x4e, n as u8, (n >> 8) as u8, 0, 0],
                    _ => continue,
                };
                code.extend(vec![0x42; n]);
                for r in [STRICT, LOOSE] {
                    one(c, false, &r, &code, &vec![], &mut t);
                    one(c, false, &r, &[&code[..], &[0x82]].concat(), &vec![], &mut t);
                    one(c, false, &r, &code[..code.len() - 1], &vec![], &mut t);
                    // not even in a branch that is not taken
                    one(c, false, &r, &[&[0x63], &code[..], &[0x68]].concat(), &vec![vec![]], &mut t);
                }
            }
        }
        // what holds for a context that chooses nothing
        let bare = |code: Vec<u8>, from: St, want: bool| {
            let s = Script::from(code.clone());
            let stack = Stack::from(from.iter().map(|i| i.clone().into()).collect::<Vec<_>>());
            let got = guard(|| script::run_script(&re::Bare, &s, stack).is_ok());
            c.evals(1);
            c.eq(|| format!("a plain context, {} bytes {} from {}", code.len(), hex(&code[..code.len().min(8)]), from.len()), &got, &Ok(want));
        };
        for n in [1usize, 255, 256, 519, 520, 521, 522] {
            let mut code = if n < 76 { vec![n as u8] } else if n < 256 { vec![0x4c, n as u8] } else { vec![0x4d, n as u8, (n >> 8) as u8] };
            code.extend(vec![0x42; n]);
            bare(code, vec![], n <= 520);
        }
        for n in 997..=1002usize {
            bare(vec![0x51; n], vec![], n <= 1000);
            bare(vec![0x76], vec![vec![1]; n], n < 1000);
        }
        for (code, from, want) in [
            (vec![0x01, 0x05], vec![], false),
            (vec![0x4c, 0x02, 9, 9], vec![], false),
            (vec![0x02, 9, 9], vec![], true),
            (vec![0x63, 0x68], vec![vec![2]], false),
            (vec![0x63, 0x68], vec![vec![0]], false),
            (vec![0x63, 0x68], vec![vec![1]], true),
            (vec![0xb1], vec![vec![0x7f]], true),
            (vec![0xb2], vec![vec![0x7f]], true),
        ] {
            bare(code, from, want);
        }
        for n in 9_998..=10_002 {
            one(c, false, &STRICT, &vec![0x61; n], &vec![vec![1]], &mut t);
        }
        t.into(c, &all);
    });

    ctx.part("witness and lock", "every byte string to length 2, longer ones over 12 bytes, and ones around each limit, as a witness; every pair of a witness and a lock from the lists", |c| {
        let mut scripts: Vec<Vec<u8>> = vec![vec![]];
        for a in 0..=255u8 {
            scripts.push(vec![a]);
            for b in 0..=255u8 {
                scripts.push(vec![a, b]);
            }
        }
        let bytes = [0x00u8, 0x01, 0x02, 0x03, 0x4c, 0x4d, 0x4e, 0x4f, 0x51, 0x60, 0x61, 0x81];
        for d in 3..=ctx.pick(5, 6) {
            scripts.extend(sequences(bytes.len(), d).map(|s| s.iter().map(|i| bytes[*i]).collect()));
        }
        // around the limits on the script, the element and the stack
        for a in [vec![0x03, 1, 2, 3], vec![0x02, 1, 2], vec![0x01, 0x80], vec![0x00], vec![0x51]] {
            for b in [vec![0x03, 1, 2, 3], vec![0x02, 1, 2], vec![0x01, 0x80], vec![0x04, 1, 2, 3, 4], vec![0x51]] {
                for ones in 0..=4 {
                    scripts.push([&a[..], &b[..], &vec![0x52; ones][..]].concat());
                }
            }
        }
        for big in [518usize, 519, 520, 521] {
            for size in 9_998..=10_002usize {
                let push = [&[0x4d, big as u8, (big >> 8) as u8][..], &vec![7; big][..]].concat();
                let mut code = push.repeat(size / push.len());
                code.resize(size, 0x51);
                scripts.push(code);
            }
        }
        scripts.extend((998..=1002).map(|n| vec![0x00; n]));
        c.par(64, |w| {
            let mut ok = 0;
            let mut no = 0;
            for s in scripts.iter().skip(w).step_by(64) {
                for r in [STRICT, LOOSE] {
                    for tight in [false, true] {
                        let sc = Script::from(s.clone());
                        let want = re::pushdata(if tight { &TIGHT } else { &ROOMY }, &r, s);
                        let got = guard(|| {
                            if tight { script::run_pushdata(&Tight::new(r), &sc) } else { script::run_pushdata(&Roomy::new(r), &sc) }
                        });
                        let agree = match (&got, &want) {
                            (Ok(Ok(g)), Some(x)) => *g == Stack::from(x.iter().map(|i| i.as_slice().into()).collect::<Vec<_>>()),
                            (Ok(Err(_)), None) => true,
                            _ => false,
                        };
                        if want.is_some() { ok += 1 } else { no += 1 }
                        if !agree {
                            c.fail(format!("witness {} tight {tight} minimal {}", hex(s), r.minimal_push), format!(" got: {got:?}\nwant: {want:?}"));
                            return;
                        }
                    }
                }
            }
            c.evals(ok + no);
            c.nontrivial(ok);
            c.outcome_n("witness accepted", ok);
            c.outcome_n("witness refused", no);
        });
        let wit: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0x51], vec![0x52, 0x51], vec![0x01, 0x80], vec![0x4f], vec![0x51, 0x51], vec![0x61], vec![0x01, 0x01], vec![0x02, 0x01, 0x05, 0x51], vec![0x51; 5]];
        let locks: Vec<Vec<u8>> = vec![vec![], vec![0x51], vec![0x00], vec![0x61], vec![0x75], vec![0x93], vec![0x87], vec![0x69], vec![0x76], vec![0xac], vec![0xad], vec![0x63, 0x51, 0x67, 0x00, 0x68], vec![0x6a], vec![0x01, 0x80], vec![0x02, 0, 0], vec![0x02, 0, 1], vec![0x75, 0x51], vec![0x63], vec![0x6b]];
        for w in &wit {
            for l in &locks {
                for r in [STRICT, LOOSE] {
                    for (tight, lim) in [(false, &ROOMY), (true, &TIGHT)] {
                        let want = re::pushdata(lim, &r, w).and_then(|st| re::run(lim, &r, l, st, &mut Out::default())).is_some_and(|st| st.len() == 1 && re::truth(&st[0]));
                        let (ws, ls) = (Script::from(w.clone()), Script::from(l.clone()));
                        let got = guard(|| if tight { script::verify_witness_lock(&Tight::new(r), &ws, &ls).is_ok() } else { script::verify_witness_lock(&Roomy::new(r), &ws, &ls).is_ok() });
                        c.evals(1);
                        c.nontrivial(want as u64);
                        c.outcome(if want { "unlocked" } else { "locked" });
                        c.eq(|| format!("witness {} lock {} tight {tight} strict {}", hex(w), hex(l), r == STRICT), &got, &Ok(want));
                    }
                }
            }
        }
    });

    let seen = all.into_inner().unwrap();
    let both = (0..=255u8).filter(|o| seen.contains(&(*o, true)) && seen.contains(&(*o, false))).count();
    ctx.sample(format!("{both} opcodes were both accepted and refused in first position"));
}
