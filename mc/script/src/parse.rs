use std::collections::BTreeSet;

use mc_kit::{Ctx, PartCtx, guard, hex, sequences};
use script::{
    Builder, Script,
    opcodes::All,
    script::{Instruction, build_scriptint, read_scriptbool, read_scriptint, read_scriptint_size, read_uint},
};

use crate::reference::{self as re, Ins};

#[derive(Clone, Debug, PartialEq, Eq)]
enum I {
    Push(Vec<u8>),
    Op(u8),
}

fn want_parse(s: &[u8], minimal: bool) -> (Vec<I>, bool) {
    let mut v = vec![];
    let mut rest = s;
    while !rest.is_empty() {
        match re::decode(rest, minimal) {
            None => return (v, false),
            Some((i, r)) => {
                v.push(match i {
                    Ins::Push(d) => I::Push(d.to_vec()),
                    Ins::Op(o) => I::Op(o),
                });
                rest = r;
            }
        }
    }
    (v, true)
}
fn got_parse(s: &[u8], minimal: bool) -> (Vec<I>, bool) {
    let sc = Script::from(s.to_vec());
    let mut v = vec![];
    let mut it = if minimal { sc.instructions_minimal() } else { sc.instructions() };
    while let Some(i) = it.next() {
        match i {
            Ok(Instruction::PushBytes(d)) => v.push(I::Push(d.to_vec())),
            Ok(Instruction::Op(o)) => v.push(I::Op(o.into_u8())),
            Err(_) => {
                assert!(it.next().is_none(), "instructions after an error");
                return (v, false);
            }
        }
        // what has not been parsed yet is always a tail of the script
        assert!(s.ends_with(it.subscript()));
    }
    (v, true)
}

fn name(op: u8) -> String {
    let n = match op {
        0 => return "OP_0".into(),
        1..=75 => return format!("OP_PUSHBYTES_{op}"),
        0x4c => "PUSHDATA1",
        0x4d => "PUSHDATA2",
        0x4e => "PUSHDATA4",
        0x4f => "PUSHNUM_NEG1",
        0x50 => "RESERVED",
        0x51..=0x60 => return format!("OP_PUSHNUM_{}", op - 0x50),
        0xb1 => "CLTV",
        0xb2 => "CSV",
        0xb0..=0xb9 => return format!("OP_NOP{}", op - 0xb0 + 1),
        0xba.. => return format!("OP_RETURN_{op}"),
        _ => [
            "NOP", "VER", "IF", "NOTIF", "VERIF", "VERNOTIF", "ELSE", "ENDIF", "VERIFY", "RETURN", "TOALTSTACK", "FROMALTSTACK", "2DROP", "2DUP", "3DUP", "2OVER", "2ROT", "2SWAP",
            "IFDUP", "DEPTH", "DROP", "DUP", "NIP", "OVER", "PICK", "ROLL", "ROT", "SWAP", "TUCK", "CAT", "SUBSTR", "LEFT", "RIGHT", "SIZE", "INVERT", "AND", "OR", "XOR", "EQUAL",
            "EQUALVERIFY", "RESERVED1", "RESERVED2", "1ADD", "1SUB", "2MUL", "2DIV", "NEGATE", "ABS", "NOT", "0NOTEQUAL", "ADD", "SUB", "MUL", "DIV", "MOD", "LSHIFT", "RSHIFT",
            "BOOLAND", "BOOLOR", "NUMEQUAL", "NUMEQUALVERIFY", "NUMNOTEQUAL", "LESSTHAN", "GREATERTHAN", "LESSTHANOREQUAL", "GREATERTHANOREQUAL", "MIN", "MAX", "WITHIN", "RIPEMD160",
            "SHA1", "SHA256", "HASH160", "HASH256", "CODESEPARATOR", "CHECKSIG", "CHECKSIGVERIFY", "CHECKMULTISIG", "CHECKMULTISIGVERIFY",
        ][op as usize - 0x61],
    };
    format!("OP_{n}")
}
fn want_asm(s: &[u8]) -> Vec<String> {
    let mut v = vec![];
    let mut rest = s;
    while let Some((i, r)) = re::decode(rest, false) {
        v.push(name(rest[0]));
        if let Ins::Push(d) = i {
            if !d.is_empty() {
                v.push(hex(d));
            }
        }
        rest = r;
    }
    v
}

fn brief(s: &[u8]) -> String {
    if s.len() <= 40 { hex(s) } else { format!("{}… ({} bytes)", hex(&s[..40]), s.len()) }
}

fn check_bytes(c: &PartCtx, s: &[u8], asm: bool) -> bool {
    for minimal in [false, true] {
        let want = want_parse(s, minimal);
        let got = guard(|| got_parse(s, minimal));
        if got.as_ref().ok() != Some(&want) {
            c.fail(format!("script {} minimal {minimal}", brief(s)), format!(" got: {got:?}\nwant: {want:?}"));
            return false;
        }
        if asm && !minimal {
            let text = guard(|| Script::bytes_to_asm(s));
            let expect = want_asm(s).join(" ");
            let ok = match &text {
                Err(_) => false,
                // the readable beginning is printed, and nothing else unless the script breaks off
                Ok(t) if want.1 => t.trim() == expect,
                Ok(t) => t.trim_start().starts_with(&expect),
            };
            if !ok {
                c.fail(format!("text of {}", brief(s)), format!(" got: {text:?}\nwant: {expect:?}"));
                return false;
            }
            // every way to show the script shows the same
            let text = text.unwrap();
            let sc = Script::from(s.to_vec());
            let plain = hex(s);
            let got = [sc.asm(), format!("{sc}"), format!("{sc:?}"), format!("{sc:x}"), format!("{sc:X}")];
            let want = [text.clone(), format!("Script({text})"), format!("Script({text})"), plain.clone(), plain.to_uppercase()];
            if got != want || (sc.len(), sc.is_empty(), sc.as_bytes(), sc.to_bytes()) != (s.len(), s.is_empty(), s, s.to_vec()) {
                c.fail(format!("{} shown", brief(s)), format!(" got: {got:?}\nwant: {want:?}"));
                return false;
            }
        }
    }
    true
}

pub fn run(ctx: &Ctx) {
    ctx.part("numbers", "every number to 2^17 and around every power of two both ways, every byte string to length 3 (quick: 2) and longer ones over 6 bytes, every size limit", |c| {
        let mut nums: BTreeSet<i64> = (-(1 << 17)..=1 << 17).collect();
        for e in 0..63 {
            for d in -3..=3i64 {
                nums.insert((1i64 << e).wrapping_add(d));
                nums.insert((1i64 << e).wrapping_add(d).wrapping_neg());
            }
        }
        nums.extend([i64::MAX, -i64::MAX, i64::MAX - 1]);
        nums.remove(&i64::MIN);
        for n in nums.iter().copied() {
            let want = re::enc(n);
            let got = guard(|| build_scriptint(n));
            c.eq(|| format!("encoding of {n}"), &got, &Ok(want.clone()));
            c.eq(|| format!("{n} read back"), &guard(|| read_scriptint_size(&want, 8).ok()), &Ok(Some(n)));
            c.eq(|| format!("truth of {n}"), &guard(|| read_scriptbool(&want)), &Ok(n != 0));
        }
        c.evals(nums.len() as u64);
        c.nontrivial(nums.len() as u64);
        c.outcome_n("number", nums.len() as u64);
        let full = ctx.pick(2, 3);
        let few = [0u8, 1, 0x7f, 0x80, 0x81, 0xff];
        let strings = |n: usize| -> Box<dyn Iterator<Item = Vec<u8>> + '_> {
            if n <= full { Box::new(sequences(256, n).map(|s| s.iter().map(|b| *b as u8).collect())) } else { Box::new(sequences(few.len(), n).map(|s| s.iter().map(|b| few[*b]).collect())) }
        };
        c.par(8, |n| {
            let (mut ok, mut no) = (0, 0);
            for s in strings(n) {
                for max in 0..=8 {
                    let want = re::num(&s, max);
                    let got = guard(|| if max == 4 { read_scriptint(&s).ok() } else { read_scriptint_size(&s, max).ok() });
                    if want.is_some() { ok += 1 } else { no += 1 }
                    if got.as_ref().ok() != Some(&want) {
                        c.fail(format!("number {} size limit {max}", hex(&s)), format!(" got: {got:?}\nwant: {want:?}"));
                        return;
                    }
                    let want = (s.len() >= max).then(|| s[..max].iter().rev().fold(0u64, |a, b| (a << 8) | *b as u64) as usize);
                    let got = guard(|| read_uint(&s, max).ok());
                    if got.as_ref().ok() != Some(&want) {
                        c.fail(format!("length {} size {max}", hex(&s)), format!(" got: {got:?}\nwant: {want:?}"));
                        return;
                    }
                }
                if read_scriptbool(&s) != re::truth(&s) {
                    c.fail(format!("truth of {}", hex(&s)), "");
                    return;
                }
            }
            c.evals(ok + no);
            c.nontrivial(ok);
            c.outcome_n("readable", ok);
            c.outcome_n("too long", no);
        });
        c.par(601, |n| {
            for last in [0u8, 0x80, 1, 0x81] {
                for at in 0..=n {
                    let mut s = vec![0; n];
                    if n > 0 {
                        s[n - 1] = last;
                    }
                    if at < n {
                        s[at] |= 0x40;
                    }
                    c.evals(1);
                    c.eq(|| format!("truth of {n} bytes ending {last:02x} with a bit in {at}"), &guard(|| read_scriptbool(&s)), &Ok(re::truth(&s)));
                }
            }
        });
    });

    ctx.part("byte strings", "every byte string to length 3 (quick: 2) and longer ones over 13 bytes: instructions with and without the shortest-form rule, and the text form", |c| {
        let full = ctx.pick(2, 3);
        for n in 0..=full {
            c.par(if n == 0 { 1 } else { 256 }, |a| {
                for tail in sequences(256, n.max(1) - 1) {
                    let s: Vec<u8> = if n == 0 { vec![] } else { std::iter::once(a as u8).chain(tail.iter().map(|b| *b as u8)).collect() };
                    c.evals(1);
                    c.nontrivial(1);
                    if !check_bytes(c, &s, n < 3) || c.stop() {
                        return;
                    }
                }
            });
        }
        let few = [0u8, 1, 2, 3, 0x4c, 0x4d, 0x4e, 0x51, 0x81, 0x87, 0x10, 0x11, 0xff];
        for n in 3..=ctx.pick(6, 7) {
            c.par(few.len(), |a| {
                for tail in sequences(few.len(), n - 1) {
                    let s: Vec<u8> = std::iter::once(a).chain(tail).map(|b| few[b]).collect();
                    c.evals(1);
                    c.nontrivial(want_parse(&s, false).1 as u64);
                    if !check_bytes(c, &s, n < 6) || c.stop() {
                        return;
                    }
                }
            });
        }
    });

    ctx.part("pushes", "data of every length to 300 and around 65536, first byte over 5 values, pushed by every builder function, in every encoding, complete and cut short", |c| {
        let lens: Vec<usize> = (0..=300).chain(510..=530).chain(65530..=65545).chain([70_000, 100_000, (1 << 23) - 1, 1 << 23, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]).collect();
        c.par(lens.len(), |i| {
            let n = lens[i];
            for first in [0u8, 1, 16, 17, 0x81] {
                let mut data = vec![0x87; n];
                if n > 0 {
                    data[0] = first;
                }
                c.evals(1);
                c.nontrivial(1);
                let mut want = match n {
                    0..=75 => vec![n as u8],
                    76..=255 => vec![0x4c, n as u8],
                    256..=65535 => vec![0x4d, n as u8, (n >> 8) as u8],
                    _ => vec![0x4e, n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8],
                };
                want.extend_from_slice(&data);
                let got = guard(|| Builder::new().push_slice(&data).into_script().into_bytes());
                if got.as_ref().ok() != Some(&want) {
                    c.fail(format!("push of {n} bytes starting {first}"), format!("got: {:?}", got.map(|g| hex(&g[..g.len().min(16)]))));
                    return;
                }
                let short = match data[..] {
                    [b @ 1..=16] => vec![0x50 + b],
                    [0x81] => vec![0x4f],
                    _ => want.clone(),
                };
                let got = guard(|| Builder::new().push_slice_minimal(&data).into_script().into_bytes());
                if got.as_ref().ok() != Some(&short) {
                    c.fail(format!("shortest push of {n} bytes starting {first}"), format!("got: {:?}", got.map(|g| hex(&g[..g.len().min(16)]))));
                    return;
                }
                if n > 200_000 {
                    // too long for the text form: only that it reads back as itself
                    let code = Script::from(want);
                    let same = [code.instructions(), code.instructions_minimal()].into_iter().all(|mut it| matches!(it.next(), Some(Ok(Instruction::PushBytes(d))) if d == data) && it.next().is_none());
                    if !same {
                        c.fail(format!("push of {n} bytes starting {first}, read back"), "does not read back as itself".to_string());
                        return;
                    }
                    continue;
                }
                // every encoding, complete, followed by something, and cut short
                for w in 0..4 {
                    let mut code = match w {
                        0 if n < 76 => vec![n as u8],
                        1 if n < 256 => vec![0x4c, n as u8],
                        2 if n < 65536 => vec![0x4d, n as u8, (n >> 8) as u8],
                        3 => vec![0x4e, n as u8, (n >> 8) as u8, (n >> 16) as u8, (n >> 24) as u8],
                        _ => continue,
                    };
                    code.extend_from_slice(&data);
                    if !check_bytes(c, &code, true) || !check_bytes(c, &[&code[..], &[0x51, 0x02, 1]].concat(), true) || !check_bytes(c, &code[..code.len() - 1], true) {
                        return;
                    }
                    code.truncate(3);
                    if !check_bytes(c, &code, true) {
                        return;
                    }
                }
                for (b, tail) in [
                    (guard(|| Script::new_p2pk(&data)), vec![0xac]),
                    (guard(|| Script::new_p2pkh(&data)), vec![0x88, 0xac]),
                    (guard(|| Script::new_p2sh(&data)), vec![0x87]),
                    (guard(|| Script::new_op_return(&data)), vec![]),
                ]
                .into_iter()
                {
                    let b = b.map(|b| b.into_bytes()).unwrap_or_default();
                    let head = b.len().saturating_sub(want.len() + tail.len());
                    let heads: [&[u8]; 4] = [&[], &[0x76, 0xa9], &[0xa9], &[0x6a]];
                    let ok = heads.iter().any(|h| h.len() == head && b.starts_with(h)) && b[head..].starts_with(&want) && b.ends_with(&tail);
                    if !ok {
                        c.fail(format!("template with {n} bytes"), hex(&b[..b.len().min(40)]));
                        return;
                    }
                }
            }
            c.outcome("push");
        });
    });

    ctx.part("templates", "each template and every script that differs from one in one byte, or by one byte more or less, is recognised for exactly what it is", |c| {
        let mut cases: BTreeSet<Vec<u8>> = BTreeSet::new();
        let bases = [
            Script::new_p2pk(&[7; 33]), Script::new_p2pk(&[7; 65]), Script::new_p2pkh(&[7; 20]), Script::new_p2sh(&[7; 20]), Script::new_op_return(&[7; 20]), Script::new_op_return(&[]),
            Script::from([&[0u8, 32][..], &[7; 32]].concat()), Script::from([&[0u8, 20][..], &[7; 20]].concat()), Script::from([&[0x51u8, 40][..], &[7; 40]].concat()), Script::from([&[0x60u8, 2][..], &[7; 2]].concat()),
        ];
        for b in &bases {
            let b = b.as_bytes().to_vec();
            for i in 0..b.len() {
                for v in 0..=255 {
                    let mut m = b.clone();
                    m[i] = v;
                    cases.insert(m);
                }
                let mut m = b.clone();
                m.remove(i);
                cases.insert(m);
                let mut m = b.clone();
                m.insert(i, 7);
                cases.insert(m);
            }
            cases.insert([&b[..], &[7]].concat());
        }
        for first in 0..=255u8 {
            for second in 0..=80u8 {
                for n in [0usize, 1, second as usize, second as usize + 1, (second as usize).saturating_sub(1)] {
                    cases.insert([&[first, second][..], &vec![7; n]].concat());
                }
            }
            cases.insert(vec![first]);
        }
        for s in &cases {
            c.evals(1);
            let push = |at: usize, n: usize| s.len() > at + n && s[at] as usize == n;
            let p2sh = s.len() == 23 && s[0] == 0xa9 && push(1, 20) && s[22] == 0x87;
            let p2pkh = s.len() == 25 && s[..2] == [0x76, 0xa9] && push(2, 20) && s[23..] == [0x88, 0xac];
            let p2pk = [33, 65].iter().any(|n| s.len() == n + 2 && push(0, *n) && s[n + 1] == 0xac);
            let wit = s.len() >= 2 && (s[0] == 0 || (0x51..=0x60).contains(&s[0])) && (2..=40).contains(&s[1]) && s.len() == s[1] as usize + 2;
            let wsh = s.len() == 34 && s[..2] == [0, 32];
            let wpkh = s.len() == 22 && s[..2] == [0, 20];
            let ret = s.first() == Some(&0x6a);
            let dead = s.first().is_some_and(|o| re::is_return(*o) || re::is_illegal(*o));
            let want = [p2sh, p2pkh, p2pk, wit, wsh, wpkh, ret, dead];
            let sc = Script::from(s.clone());
            let got = guard(|| {
                [sc.is_p2sh(), sc.is_p2pkh(), sc.is_p2pk(), sc.is_witness_program(), sc.is_v0_p2wsh(), sc.is_v0_p2wpkh(), sc.is_op_return(), sc.is_provably_unspendable()]
            });
            c.nontrivial(want.contains(&true) as u64);
            c.outcome(if want.contains(&true) { "recognised" } else { "nothing" });
            if !c.eq(|| format!("[p2sh, p2pkh, p2pk, witness, v0 wsh, v0 wpkh, return, unspendable] of {}", hex(s)), &got, &Ok(want)) {
                return;
            }
        }
    });

    ctx.part("builder", "every sequence of up to 4 builder calls: the bytes, and what they parse to", |c| {
        #[derive(Clone, Debug)]
        enum B {
            Int(i64),
            ScriptInt(i64),
            Slice(Vec<u8>),
            Minimal(Vec<u8>),
            Op(u8),
            Verify,
            Reload,
        }
        let calls = vec![
            B::Verify, B::Op(0x87), B::Op(0x9c), B::Op(0xac), B::Op(0xae), B::Op(0x88), B::Op(0x69), B::Op(0x76), B::Slice(vec![0x87]), B::Slice(vec![1, 0x87]), B::Slice(vec![]), B::Minimal(vec![0x81]),
            B::Minimal(vec![16]), B::Minimal(vec![0x87]), B::Minimal(vec![0xac, 0x9c]), B::Int(0), B::Int(-1), B::Int(1), B::Int(16), B::Int(17), B::Int(-2), B::Int(300), B::ScriptInt(1), B::ScriptInt(0), B::ScriptInt(-300), B::Reload,
            B::Slice(vec![0xac; 76]),
        ];
        c.par(calls.len(), |h| {
            for n in 0..=ctx.pick(3, 4) {
                for tail in sequences(calls.len(), n - n.min(1)) {
                    let seq: Vec<&B> = if n == 0 { vec![] } else { std::iter::once(h).chain(tail).map(|i| &calls[i]).collect() };
                    c.evals(1);
                    c.nontrivial(1);
                    let mut want: Vec<u8> = vec![];
                    let mut parts: Vec<I> = vec![];
                    for b in &seq {
                        let mut push = |d: &[u8], short: bool, want: &mut Vec<u8>| {
                            match d {
                                [x @ 1..=16] if short => {
                                    want.push(0x50 + x);
                                    parts.push(I::Op(0x50 + x));
                                }
                                [0x81] if short => {
                                    want.push(0x4f);
                                    parts.push(I::Op(0x4f));
                                }
                                _ => {
                                    if d.len() > 75 {
                                        want.push(0x4c);
                                    }
                                    want.push(d.len() as u8);
                                    want.extend_from_slice(d);
                                    parts.push(I::Push(d.to_vec()));
                                }
                            };
                        };
                        match b {
                            B::Int(n) => push(&re::enc(*n), true, &mut want),
                            B::ScriptInt(n) => push(&re::enc(*n), false, &mut want),
                            B::Slice(d) => push(d, false, &mut want),
                            B::Minimal(d) => push(d, true, &mut want),
                            B::Op(o) => {
                                want.push(*o);
                                parts.push(I::Op(*o));
                            }
                            B::Verify => match parts.last() {
                                Some(I::Op(o @ (0x87 | 0x9c | 0xac | 0xae))) => {
                                    let o = *o;
                                    want.pop();
                                    want.push(o + 1);
                                    *parts.last_mut().unwrap() = I::Op(o + 1);
                                }
                                _ => {
                                    want.push(0x69);
                                    parts.push(I::Op(0x69));
                                }
                            },
                            B::Reload => (),
                        }
                    }
                    let got = guard(|| {
                        let mut b = Builder::new();
                        for x in &seq {
                            b = match x {
                                B::Int(n) => b.push_int(*n),
                                B::ScriptInt(n) => b.push_scriptint(*n),
                                B::Slice(d) => b.push_slice(d),
                                B::Minimal(d) => b.push_slice_minimal(d),
                                B::Op(o) => b.push_opcode(All::from(*o)),
                                B::Verify => b.push_verify(),
                                B::Reload => Builder::from(b.into_script().into_bytes()),
                            };
                        }
                        b.into_script().into_bytes()
                    });
                    if !c.eq(|| format!("{seq:?}"), &got, &Ok(want.clone())) {
                        return;
                    }
                    if got_parse(&want, false) != (parts.clone(), true) {
                        c.fail(format!("{seq:?} parsed"), format!("{:?}", got_parse(&want, false)));
                        return;
                    }
                }
            }
            c.outcome("built");
        });
        // a script that does not parse to its end has no last opcode to merge with
        for s in [vec![0x02, 0x87], vec![0x4c, 0x87], vec![0x87, 0x4c], vec![0x4d, 0x01], vec![0x51, 0x03, 0x9c, 0xac]] {
            c.evals(1);
            let got = guard(|| Builder::from(s.clone()).push_verify().into_script().into_bytes());
            c.eq(|| format!("verify after {}", hex(&s)), &got, &Ok([&s[..], &[0x69]].concat()));
        }
    });

    ctx.part("stored form", "scripts of every length to 70 and around 2^14 survive their binary and hexadecimal forms", |c| {
        use serialization::{DecodeAll, Encode};
        for n in (0..=70).chain(250..=260).chain(16380..=16390) {
            let s = Script::from((0..n).map(|i| (i * 7) as u8).collect::<Vec<_>>());
            c.evals(1);
            c.nontrivial(1);
            let e = s.encode();
            c.eq(|| format!("stored script of {n} bytes"), &Script::decode_all(&mut &e[..]).ok(), &Some(s.clone()));
            c.eq(|| format!("hex of {n} bytes"), &format!("{s:x}"), &hex(s.as_bytes()));
            c.eq(|| format!("HEX of {n} bytes"), &format!("{s:X}").to_lowercase(), &hex(s.as_bytes()));
            for cut in 0..e.len().min(40) {
                c.eq(|| format!("cut at {cut} of {n}"), &Script::decode_all(&mut &e[..cut]).is_ok(), &false);
            }
            c.outcome("stored");
        }
    });
}
