//! N05: fractions, per-thousands, versions, heights, times.  N06: bech32m.

use crate::big::Big;
use common::{
    Uint256,
    primitives::{
        BlockCount, BlockDistance, BlockHeight,
        bech32_encoding::{bech32m_decode, bech32m_encode},
        per_thousand::PerThousand,
        rational::Rational,
        semver::SemVer,
        time::{self, Time},
    },
};
use mc_kit::{Ctx, guard, sequences};
use std::{cmp::Ordering, time::Duration};

pub fn scalars(ctx: &Ctx) {
    ctx.part("fractions", "all pairs of fractions with numerator and denominator from 14 boundary numbers, for 64, 128 and 256 bits, against cross-multiplication; all triples of small ones for transitivity", |p| {
        const M: u64 = u64::MAX;
        let v64 = [0u64, 1, 2, 3, 5, 7, 1 << 31, 1 << 32, (1 << 63) - 1, 1 << 63, M - 2, M - 1, M];
        let m128 = [0u128, 1, 2, 3, M as u128, 1 << 64, (1 << 64) + 1, u128::MAX / 2, u128::MAX / 2 + 1, u128::MAX - 1, u128::MAX];
        let w = |a: u64, b: u64, c: u64, d: u64| Uint256([a, b, c, d]);
        let m256 = [w(0, 0, 0, 0), w(1, 0, 0, 0), w(2, 0, 0, 0), w(M, M, 0, 0), w(0, 0, 1, 0), w(1, 0, 1, 0), w(M, M, M, 0), w(0, 0, 0, 1), w(M, M, M, M >> 1), w(0, 0, 0, 1 << 63), w(M - 1, M, M, M), w(M, M, M, M)];
        macro_rules! run {
            ($vs:expr, $t:ty, $big:expr) => {{
                let vs = $vs;
                let fr: Vec<(usize, usize)> = (0..vs.len()).flat_map(|n| (1..vs.len()).map(move |d| (n, d))).collect();
                let big: Vec<Big> = vs.iter().map($big).collect();
                for &(n1, d1) in &fr {
                    for &(n2, d2) in &fr {
                        let (a, b) = (Rational::<$t>::new(vs[n1], vs[d1]), Rational::<$t>::new(vs[n2], vs[d2]));
                        let want = big[n1].mul(&big[d2]).cmp(&big[n2].mul(&big[d1]));
                        p.evals(1);
                        p.nontrivial((want != Ordering::Equal) as u64);
                        p.eq(|| format!("{a:?} ? {b:?}"), &guard(|| (a.cmp(&b), a.partial_cmp(&b))), &Ok((want, Some(want))));
                        p.eq(|| format!("{a:?} numerator and denominator"), &(*a.numer(), *a.denom()), &(vs[n1], vs[d1]));
                    }
                }
            }};
        }
        run!(v64, u64, |v| Big::from_u128(*v as u128));
        run!(m128, u128, |v| Big::from_u128(*v));
        run!(m256, Uint256, |v| Big::from_words(&v.0));
        for a in m128 {
            for b in m128 {
                let r: Rational<Uint256> = Rational::<u128>::new(a, b).into();
                p.eq(|| format!("widening {a} / {b}"), &(*r.numer(), *r.denom()), &(Uint256::from_u128(a), Uint256::from_u128(b)));
            }
        }
    });

    ctx.part("per-thousand", "all 65536 constructions, all texts and JSON forms of the 1001 values, every string of <= 6 characters over \"0159.% -\"", |p| {
        for v in 0..=u16::MAX {
            p.evals(1);
            p.nontrivial(1);
            let r = PerThousand::new(v);
            if r.map(|r| (r.value(), r.as_per_thousand_int(), r.denominator())) != (v <= 1000).then_some((v, v, 1000)) {
                p.fail(format!("new({v})"), format!("{r:?}"));
            }
            let j = serde_json::from_value::<PerThousand>(serde_json::json!(v)).ok().map(|r| r.value());
            p.eq(|| format!("JSON {v}"), &j, &(v <= 1000).then_some(v));
            if let Some(r) = r {
                let trim = |s: String| {
                    let s = s.trim_end_matches('0').to_string();
                    s.trim_end_matches('.').to_string()
                };
                let dec = if v == 0 { "0".to_string() } else { trim(format!("{}.{:03}", v / 1000, v % 1000)) };
                let per = if v == 0 { "0".to_string() } else { trim(format!("{}.{}", v / 10, v % 10)) };
                p.eq(|| format!("{v} as decimal"), &r.to_decimal_str(), &dec);
                p.eq(|| format!("{v} as percentage"), &r.to_percentage_str(), &format!("{per}%"));
                p.eq(|| format!("{v} displayed"), &r.to_string(), &format!("{per}%"));
                p.eq(|| format!("{v} to JSON"), &serde_json::to_value(r).unwrap(), &serde_json::json!(format!("{per}%")));
                for t in [dec.clone(), format!("{per}%"), format!("{}.{:03}", v / 1000, v % 1000), format!("{}.{}%", v / 10, v % 10)] {
                    p.eq(|| format!("{t:?} parsed"), &PerThousand::from_decimal_str(&t).ok().map(|r| r.value()), &Some(v));
                    let j = serde_json::from_value::<PerThousand>(serde_json::json!(t)).ok().map(|r| r.value());
                    p.eq(|| format!("{t:?} from JSON"), &j, &Some(v));
                }
                if (r.as_f64() - v as f64 / 1000.0).abs() > 1e-12 {
                    p.fail(format!("{v} as float"), format!("{}", r.as_f64()));
                }
            }
        }
        let alpha: Vec<char> = "0159.% -".chars().collect();
        for l in 0..=ctx.pick(6, 7) {
            let total = alpha.len().pow(l as u32);
            p.par(total.div_ceil(4096), |c| {
                let (mut ok, mut no) = (0, 0);
                for mut i in c * 4096..((c + 1) * 4096).min(total) {
                    let s: String = (0..l)
                        .map(|_| {
                            let d = alpha[i % alpha.len()];
                            i /= alpha.len();
                            d
                        })
                        .collect();
                    // only plain numbers with at most one trailing % are claimed
                    if s.matches('%').count() > 1 || s.contains(' ') {
                        continue;
                    }
                    let (body, scale) = match s.strip_suffix('%') {
                        Some(b) => (b, 10u64),
                        None => (&s[..], 1000),
                    };
                    let want = (|| {
                        if body.matches('.').count() > 1 || body.chars().any(|c| !c.is_ascii_digit() && c != '.') {
                            return None;
                        }
                        let (int, frac) = body.split_once('.').unwrap_or((body, ""));
                        if int.is_empty() && frac.is_empty() {
                            return None;
                        }
                        let frac = frac.trim_end_matches('0');
                        let mut m: u64 = format!("0{int}{frac}").parse().ok()?;
                        let mut sc = scale;
                        for _ in 0..frac.len() {
                            if sc == 1 {
                                return None;
                            }
                            sc /= 10;
                        }
                        m *= sc;
                        (m <= 1000).then_some(m as u16)
                    })();
                    let got = PerThousand::from_decimal_str(&s).ok().map(|r| r.value());
                    if want.is_some() { ok += 1 } else { no += 1 }
                    if got != want {
                        p.fail(format!("{s:?}"), format!("got {got:?}, must be {want:?}"));
                        return;
                    }
                }
                p.evals(ok + no);
                p.nontrivial(ok);
                p.outcome_n("value", ok);
                p.outcome_n("refused", no);
            });
        }
    });

    ctx.part("versions", "all 65536 major.minor x 12 patches printed and parsed; order of all pairs of 11^3; every string of <= 7 characters over \"0256.-x\"", |p| {
        let patches = [0u16, 1, 9, 10, 99, 255, 256, 257, 999, 32768, 65534, 65535];
        p.par(256, |ma| {
            for mi in 0..=255u8 {
                for pa in patches {
                    let v = SemVer::new(ma as u8, mi, pa);
                    let t = format!("{ma}.{mi}.{pa}");
                    p.eq(|| t.clone(), &v.to_string(), &t);
                    p.eq(|| t.clone(), &t.parse::<SemVer>().ok(), &Some(v));
                    p.eq(|| t.clone(), &SemVer::try_from(t.clone()).ok(), &Some(v));
                }
            }
            p.evals(256 * 12);
            p.nontrivial(256 * 12);
        });
        let s8 = [0u8, 1, 2, 9, 10, 11, 127, 128, 254, 255];
        let all: Vec<(u8, u8, u16)> = s8.iter().flat_map(|a| s8.iter().flat_map(move |b| [0u16, 1, 255, 256, 65535].map(|c| (*a, *b, c)))).collect();
        for a in &all {
            for b in &all {
                if SemVer::new(a.0, a.1, a.2).cmp(&SemVer::new(b.0, b.1, b.2)) != a.cmp(b) {
                    p.fail(format!("{a:?} ? {b:?}"), "wrong order");
                }
            }
        }
        let alpha: Vec<char> = "0256.-x".chars().collect();
        for l in 0..=7 {
            let total = alpha.len().pow(l as u32);
            p.par(total.div_ceil(4096), |c| {
                let (mut ok, mut no) = (0, 0);
                for mut i in c * 4096..((c + 1) * 4096).min(total) {
                    let s: String = (0..l)
                        .map(|_| {
                            let d = alpha[i % alpha.len()];
                            i /= alpha.len();
                            d
                        })
                        .collect();
                    let num = |t: &str, max: u64| -> Option<u64> {
                        if t.is_empty() || t.chars().any(|c| !c.is_ascii_digit()) {
                            return None;
                        }
                        t.parse().ok().filter(|v| *v <= max)
                    };
                    let parts: Vec<&str> = s.split('.').collect();
                    let want = if parts.len() == 3 {
                        (|| Some((num(parts[0], 255)?, num(parts[1], 255)?, num(parts[2], 65535)?)))()
                    } else {
                        None
                    };
                    let got = s.parse::<SemVer>().ok().map(|v| (v.major as u64, v.minor as u64, v.patch as u64));
                    if want.is_some() { ok += 1 } else { no += 1 }
                    if got != want {
                        p.fail(format!("{s:?}"), format!("got {got:?}, must be {want:?}"));
                        return;
                    }
                }
                p.evals(ok + no);
                p.nontrivial(ok);
                p.outcome_n("version", ok);
                p.outcome_n("refused", no);
            });
        }
    });

    ctx.part("heights", "all pairs of 16 boundary heights, distances and counts, against 128-bit integers", |p| {
        let hs = [0u64, 1, 2, 3, 100, u32::MAX as u64, 1 << 32, i64::MAX as u64 - 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX];
        let ds = [0i64, 1, -1, 2, -2, 3, -100, 100, i32::MAX as i64, i64::MAX - 1, i64::MAX, i64::MIN, i64::MIN + 1];
        let signed = |h: u64| i64::try_from(h).ok();
        for (got, want) in [(BlockHeight::zero(), 0), (BlockHeight::one(), 1), (BlockHeight::max(), u64::MAX)] {
            p.eq(|| format!("the height {want}"), &(got.into_int(), got), &(want, BlockHeight::new(want)));
        }
        for &h in &hs {
            p.eq(|| format!("{h} converted"), &(u64::from(BlockHeight::from(h)), BlockHeight::from(h)), &(h, BlockHeight::new(h)));
            let bh = BlockHeight::new(h);
            for &d in &ds {
                p.evals(2);
                p.nontrivial(2);
                let bd = BlockDistance::new(d);
                // heights beyond the signed range and sums that leave it are refused (one way or the other)
                let exact = |v: i128| signed(h).and_then(|_| u64::try_from(v).ok()).filter(|v| *v <= i64::MAX as u64);
                let add = guard(|| bh + bd).unwrap_or(None).map(|h| h.into_int());
                p.eq(|| format!("height {h} + {d}"), &add, &exact(h as i128 + d as i128));
                let sub = guard(|| bh - bd).unwrap_or(None).map(|h| h.into_int());
                p.eq(|| format!("height {h} - {d}"), &sub, &exact(h as i128 - d as i128));
            }
            for &g in &hs {
                p.evals(3);
                p.nontrivial(3);
                let bg = BlockHeight::new(g);
                let want = signed(h).and_then(|_| signed(g)).map(|_| (h as i128 - g as i128) as i64);
                p.eq(|| format!("height {h} - height {g}"), &(bh - bg).map(|d| d.to_int()), &want);
                p.eq(|| format!("height {h} checked_add {g}"), &bh.checked_add(g).map(|h| h.into_int()), &u64::try_from(h as u128 + g as u128).ok());
                p.eq(|| format!("height {h} ? {g}"), &bh.cmp(&bg), &h.cmp(&g));
                let (ch, cg) = (BlockCount::new(h), BlockCount::new(g));
                p.eq(|| format!("count {h} + {g}"), &(ch + cg).map(|c| c.to_int()), &u64::try_from(h as u128 + g as u128).ok());
                p.eq(|| format!("count {h} - {g}"), &(ch - cg).map(|c| c.to_int()), &h.checked_sub(g));
                if g.saturating_sub(h) < 200 {
                    let want: Vec<u64> = (h..g).collect();
                    p.eq(|| format!("{h} up to {g}"), &bh.iter_up_to(bg).map(|h| h.into_int()).collect::<Vec<_>>(), &want);
                    let want: Vec<u64> = (h..=g).collect();
                    p.eq(|| format!("{h} up to including {g}"), &bh.iter_up_to_including(bg).map(|h| h.into_int()).collect::<Vec<_>>(), &want);
                }
            }
            p.eq(|| format!("next {h}"), &guard(|| bh.next_height()).ok().map(|h| h.into_int()), &h.checked_add(1));
            p.eq(|| format!("prev {h}"), &bh.prev_height().map(|h| h.into_int()), &h.checked_sub(1));
            p.eq(|| format!("{h} text"), &bh.to_string().parse::<BlockHeight>().ok(), &Some(bh));
            p.eq(|| format!("{h} shown"), &bh.to_string(), &h.to_string());
            let j = serde_json::to_value(bh).unwrap();
            p.eq(|| format!("{h} JSON"), &j, &serde_json::json!(h));
            p.eq(|| format!("{h} JSON back"), &serde_json::from_value::<BlockHeight>(j).ok(), &Some(bh));
        }
        for &a in &ds {
            for &b in &ds {
                let (x, y) = (BlockDistance::new(a), BlockDistance::new(b));
                p.evals(2);
                p.nontrivial(2);
                p.eq(|| format!("distance {a} + {b}"), &(x + y).map(|d| d.to_int()), &a.checked_add(b));
                p.eq(|| format!("distance {a} - {b}"), &(x - y).map(|d| d.to_int()), &a.checked_sub(b));
                p.eq(|| format!("distance {a} ? {b}"), &x.cmp(&y), &a.cmp(&b));
            }
        }
    });

    ctx.part("times", "all pairs of 14 boundary times and durations against nanosecond integers; every sequence of <= 5 settings of the replaceable clock", |p| {
        let max = Duration::MAX;
        let ds = [
            Duration::ZERO, Duration::from_nanos(1), Duration::from_nanos(999_999_999), Duration::from_millis(1), Duration::from_secs(1), Duration::new(1, 1),
            Duration::from_secs(1_700_000_000), Duration::new(1_700_000_000, 5), Duration::from_secs(i64::MAX as u64), Duration::from_secs(i64::MAX as u64 + 1),
            Duration::from_millis(u64::MAX), Duration::from_secs(u64::MAX - 1), Duration::new(u64::MAX, 0), max,
        ];
        let back = |v: u128| Duration::new((v / 1_000_000_000) as u64, (v % 1_000_000_000) as u32);
        for a in ds {
            let t = Time::from_duration_since_epoch(a);
            for b in ds {
                p.evals(7);
                p.nontrivial(7);
                let (x, y) = (a.as_nanos(), b.as_nanos());
                let k = || format!("{a:?} and {b:?}");
                let sum = (x + y <= max.as_nanos()).then(|| back(x + y));
                let diff = x.checked_sub(y).map(back);
                let d = |t: Option<Time>| t.map(|t| t.as_duration_since_epoch());
                p.eq(k, &d(t + b), &sum);
                p.eq(k, &d(t - b), &diff);
                p.eq(k, &(t - Time::from_duration_since_epoch(b)), &diff);
                p.eq(k, &t.saturating_duration_add(b).as_duration_since_epoch(), &sum.unwrap_or(max));
                p.eq(k, &t.saturating_duration_sub(b).as_duration_since_epoch(), &diff.unwrap_or(Duration::ZERO));
                p.eq(k, &t.saturating_sub(Time::from_duration_since_epoch(b)), &diff.unwrap_or(Duration::ZERO));
                p.eq(k, &t.cmp(&Time::from_duration_since_epoch(b)), &x.cmp(&y));
            }
            p.eq(|| format!("{a:?} seconds"), &t.as_secs_since_epoch(), &a.as_secs());
            p.eq(|| format!("{a:?} from seconds"), &Time::from_secs_since_epoch(a.as_secs()).as_duration_since_epoch(), &Duration::from_secs(a.as_secs()));
            let ms = a.as_millis();
            p.eq(|| format!("{a:?} as integer"), &time::duration_to_int(&a).ok(), &u64::try_from(ms).ok());
            if let Ok(v) = u64::try_from(ms) {
                p.eq(|| format!("{v} ms"), &time::duration_from_int(v), &Duration::from_millis(v));
            }
            let j = serde_json::to_value(t).unwrap();
            p.eq(|| format!("{a:?} JSON"), &serde_json::from_value::<Time>(j).ok(), &Some(t));
            let abs = t.as_absolute_time();
            if let Some(abs) = abs {
                p.eq(|| format!("{a:?} as date"), &(abs.timestamp() as u64, abs.timestamp_subsec_nanos()), &(a.as_secs(), a.subsec_nanos()));
                let whole = (a.subsec_nanos() == 0).then_some(t);
                p.eq(|| format!("{a:?} date back"), &Time::from_absolute_time(&abs), &whole);
                guard(|| format!("{t} {t:?}")).map_err(|e| p.fail(format!("{a:?} shown"), e)).ok();
            } else if a.as_secs() < 8_000_000_000_000 {
                p.fail(format!("{a:?} as date"), "no date");
            }
        }
        // the clock: None = real time
        let sets = [None, Some(1u64), Some(5_000), Some(u64::MAX)];
        for l in 0..=5 {
            for s in sequences(sets.len(), l) {
                time::reset();
                let mut cur = None;
                for i in s {
                    match sets[i] {
                        None => time::reset(),
                        Some(ms) => time::set(Duration::from_millis(ms)).unwrap(),
                    }
                    cur = sets[i];
                    p.evals(1);
                    let now = time::get_time();
                    match cur {
                        Some(ms) => {
                            p.eq(|| format!("clock set to {ms} ms"), &now.as_duration_since_epoch(), &Duration::from_millis(ms));
                        }
                        None => {
                            if now.as_secs_since_epoch() < 1_600_000_000 || now.as_duration_since_epoch() > Duration::from_secs(1 << 40) {
                                p.fail("clock reset", format!("{now:?}"));
                            }
                        }
                    }
                }
                let _ = cur;
            }
        }
        time::reset();
        if time::set(Duration::MAX).is_ok() {
            p.fail("clock set to the largest duration", "accepted although it does not fit");
        }
        time::reset();
    });
}

pub fn bech(ctx: &Ctx) {
    const ALPHA: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    ctx.part("round-trip", "6 prefixes x data of every length 0..=90 in 6 fillings and all 1- and 2-byte data", |p| {
        for hrp in ["mtc", "tmt", "a", "mlsomething", "rpmt1", "x-y_z!"] {
            let mut datas: Vec<Vec<u8>> = (0..=90).flat_map(|l| [0u8, 0xff, 1, 0x80, 0x55].map(|f| vec![f; l])).collect();
            datas.extend((0..=90usize).map(|l| (0..l).map(|i| (i * 37 + 11) as u8).collect()));
            datas.extend((0..=255u8).map(|b| vec![b]));
            if hrp == "mtc" {
                datas.extend((0..=65535u16).map(|b| b.to_be_bytes().to_vec()));
            }
            for d in datas {
                p.evals(1);
                p.nontrivial(1);
                match guard(|| bech32m_encode(hrp, &d)) {
                    Ok(Ok(s)) => {
                        let back = bech32m_decode(&s).ok().map(|x| (x.hrp().to_string(), x.data().to_vec()));
                        p.eq(|| format!("{hrp} {d:02x?} -> {s}"), &back, &Some((hrp.to_string(), d.clone())));
                        // the text itself, against a reference encoder
                        p.eq(|| format!("{hrp} {d:02x?}"), &s, &encode_ref(hrp, &d, 0x2bc8_30a3));
                        let up = s.to_uppercase();
                        let back = bech32m_decode(&up).ok().map(|x| x.data().to_vec());
                        p.eq(|| format!("upper case {up}"), &back, &Some(d.clone()));
                        p.outcome("encoded");
                    }
                    Ok(Err(_)) => {
                        p.outcome("too long");
                        let chars = hrp.len() + 1 + (d.len() * 8).div_ceil(5) + 6;
                        if chars <= 90 {
                            p.fail(format!("{hrp} {d:02x?}"), "refused");
                        }
                    }
                    Err(e) => p.fail(format!("{hrp} {d:02x?}"), e),
                }
            }
        }
    });
    ctx.part("corruption", "for 4 addresses: every single substitution by any printable character, every double substitution by letters of the alphabet, every adjacent swap, every insertion, every deletion, every truncation, the other checksum constant, mixed case: all refused", |p| {
        for (hrp, len) in [("mtc", 0usize), ("mtc", 1), ("tmt", 5), ("rmt", 21), ("mptc", 33)] {
            let d: Vec<u8> = (0..len).map(|i| (i * 53 + 7) as u8).collect();
            let s = bech32m_encode(hrp, &d).unwrap();
            let bytes = s.as_bytes();
            let refused = |t: &[u8], what: &str| {
                p.evals(1);
                p.nontrivial(1);
                if let Ok(t) = std::str::from_utf8(t) {
                    match guard(|| bech32m_decode(t)) {
                        Ok(Err(_)) => {}
                        r => p.fail(format!("{what}: {s} -> {t}"), format!("accepted: {r:?}")),
                    }
                }
            };
            let sep = hrp.len();
            for i in 0..bytes.len() {
                for c in 0x20..0x7fu8 {
                    if c.to_ascii_lowercase() != bytes[i] {
                        let mut t = bytes.to_vec();
                        t[i] = c;
                        refused(&t, "substitution");
                    } else if c != bytes[i] {
                        let mut t = bytes.to_vec();
                        t[i] = c;
                        refused(&t, "mixed case");
                    }
                }
                if i + 1 < bytes.len() && bytes[i] != bytes[i + 1] {
                    let mut t = bytes.to_vec();
                    t.swap(i, i + 1);
                    refused(&t, "swap");
                }
                refused(&bytes[..i], "truncation");
                refused(&bytes[i + 1..], "leading truncation");
                let mut t = bytes.to_vec();
                t.remove(i);
                refused(&t, "deletion");
                for c in ALPHA {
                    let mut t = bytes.to_vec();
                    t.insert(i, *c);
                    refused(&t, "insertion");
                }
            }
            let limit = if ctx.quick() && len > 5 { sep + 14 } else { bytes.len() };
            p.par(limit.saturating_sub(sep + 1), |a| {
                let i = sep + 1 + a;
                for j in i + 1..bytes.len() {
                    for c in ALPHA {
                        for e in ALPHA {
                            if *c != bytes[i] && *e != bytes[j] {
                                let mut t = bytes.to_vec();
                                t[i] = *c;
                                t[j] = *e;
                                refused(&t, "double substitution");
                            }
                        }
                    }
                }
            });
            refused(encode_ref(hrp, &d, 1).as_bytes(), "bech32 instead of bech32m");
            refused(encode_ref(hrp, &d, 0).as_bytes(), "no checksum constant");
            for bad in ["", "1", "mtc", "mtc1", "1qqqqqq"] {
                refused(bad.as_bytes(), "malformed");
            }
            for bad in [format!(" {s}"), format!("{s} "), format!("{s}\n"), format!("\u{7f}{s}"), format!("{s}\u{e9}")] {
                refused(bad.as_bytes(), "surroundings");
            }
        }
        p.eq(|| "empty prefix".into(), &bech32m_encode("", [1u8]).is_err(), &true);
        p.eq(|| "blank prefix".into(), &bech32m_encode("a b", [1u8]).is_err(), &true);
    });
    ctx.part("long texts", "4 prefixes x data of every length 0..=660 in 4 fillings, encoded by the reference: with the right checksum constant the text reads back (or is over the limit of the code), with the constant of plain Bech32, with none, and with each of the six checksum characters moved it is refused", |p| {
        p.par(661, |len| {
            for hrp in ["mtc", "tmt", "a", "mlsomethingrathermuchlonger"] {
                for (n, d) in [vec![0u8; len], vec![0xff; len], (0..len).map(|i| (i * 37 + 11) as u8).collect(), (0..len).map(|i| (i * i >> 3) as u8 ^ 0x5a).collect::<Vec<u8>>()].into_iter().enumerate() {
                    p.evals(1);
                    p.nontrivial(1);
                    let key = |what: &str| format!("{what}: prefix {hrp}, {len} bytes, filling {n}");
                    let good = encode_ref(hrp, &d, 0x2bc8_30a3);
                    let fits = good.len() <= 1023;
                    let back = guard(|| bech32m_decode(&good).ok().map(|x| (x.hrp().to_string(), x.data().to_vec())));
                    p.outcome(if fits { "within the code" } else { "over the code" });
                    if good.len() <= 90 || matches!(back, Ok(Some(_)) | Err(_)) {
                        p.eq(|| key("read back"), &back, &Ok(Some((hrp.to_string(), d.clone()))));
                    }
                    // reading and writing agree on what is too long
                    let made = guard(|| bech32m_encode(hrp, &d).ok());
                    if !fits || back == Ok(None) {
                        p.eq(|| key("both ways"), &made, &Ok(None));
                    } else {
                        p.eq(|| key("written"), &made, &Ok(Some(good.clone())));
                    }
                    let mut bad = vec![("plain Bech32", encode_ref(hrp, &d, 1)), ("no constant", encode_ref(hrp, &d, 0))];
                    for k in 1..=6 {
                        let mut t = good.clone().into_bytes();
                        let at = t.len() - k;
                        let old = ALPHA.iter().position(|a| *a == t[at]).unwrap();
                        t[at] = ALPHA[(old + 1 + len % 31) % 32];
                        bad.push(("checksum character moved", String::from_utf8(t).unwrap()));
                    }
                    for (what, t) in bad {
                        p.evals(1);
                        match guard(|| bech32m_decode(&t)) {
                            Ok(Err(_)) => {}
                            r => p.fail(key(what), format!("accepted: {t} as {r:?}")),
                        }
                    }
                }
            }
        });
    });
}

/// BIP 173/350, written from the specification.
pub fn encode_ref(hrp: &str, data: &[u8], constant: u32) -> String {
    const ALPHA: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    let polymod = |vs: &[u8]| {
        let mut chk = 1u32;
        for v in vs {
            let b = chk >> 25;
            chk = (chk & 0x1ff_ffff) << 5 ^ *v as u32;
            for (i, g) in [0x3b6a57b2u32, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3].iter().enumerate() {
                if b >> i & 1 == 1 {
                    chk ^= g;
                }
            }
        }
        chk
    };
    let mut five = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = acc << 8 | *b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            five.push((acc >> bits & 31) as u8);
        }
        acc &= (1 << bits) - 1;
    }
    if bits > 0 {
        five.push((acc << (5 - bits) & 31) as u8);
    }
    let mut all: Vec<u8> = hrp.bytes().map(|b| b >> 5).collect();
    all.push(0);
    all.extend(hrp.bytes().map(|b| b & 31));
    all.extend(&five);
    all.extend([0; 6]);
    let chk = polymod(&all) ^ constant;
    let mut out = format!("{hrp}1");
    for v in five.iter().copied().chain((0..6).map(|i| (chk >> (5 * (5 - i)) & 31) as u8)) {
        out.push(ALPHA[v as usize] as char);
    }
    out
}
