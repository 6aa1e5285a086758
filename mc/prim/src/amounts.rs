//! N01: amount arithmetic.  N02: decimal text.

use crate::big::Big;
use common::primitives::{
    Amount,
    amount::{DecimalAmount, DisplayAmount, RpcAmountIn, RpcAmountOut, SignedAmount, decimal::subtract_decimal_amounts_of_same_currency},
};
use mc_kit::{Ctx, guard, sequences};

fn boundary() -> Vec<u128> {
    let mut v = vec![0, 1, 2, 3, 5, 7, 9, 10, 11, 99, 100, 999, 1000, 1001, u128::MAX, u128::MAX - 1, u128::MAX / 2, u128::MAX / 3, u128::MAX / 10];
    for s in [7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 95, 126, 127] {
        let b = 1u128 << s;
        v.extend([b - 1, b, b + 1]);
    }
    for e in [6, 12, 18, 19, 20, 37, 38] {
        let b = 10u128.pow(e);
        v.extend([b - 1, b, b + 1, b.saturating_mul(3)]);
    }
    v.sort();
    v.dedup();
    v
}

pub fn arithmetic(ctx: &Ctx) {
    let b = boundary();
    ctx.part("unsigned", &format!("all pairs of {} boundary amounts, every operation, against big numbers", b.len()), |p| {
        p.par(b.len(), |i| {
            let x = b[i];
            let a = Amount::from_atoms(x);
            let mut n = 0;
            let fit = |v: Big| (v.bits() <= 128).then(|| v.words(2)[0] as u128 | (v.words(2)[1] as u128) << 64);
            let at = |v: Option<Amount>| v.map(|v| v.into_atoms());
            for &y in &b {
                let o = Amount::from_atoms(y);
                let (bx, by) = (Big::from_u128(x), Big::from_u128(y));
                macro_rules! want {
                    ($w:expr, $g:expr, $e:expr) => {{
                        n += 1;
                        p.eq(|| format!("{x} {} {y}", $w), &guard(|| $g), &Ok($e));
                    }};
                }
                want!("+", at(a + o), fit(bx.add(&by)));
                want!("-", at(a - o), bx.sub(&by).and_then(fit));
                want!("*", at(a * y), fit(bx.mul(&by)));
                want!("/", at(a / y), (y != 0).then(|| x / y));
                want!("%", at(a % y), (y != 0).then(|| x % y));
                want!("abs_diff", a.abs_diff(o).into_atoms(), x.max(y) - x.min(y));
                want!("&", (a & o).into_atoms(), x & y);
                want!("|", (a | o).into_atoms(), x | y);
                want!("^", (a ^ o).into_atoms(), x ^ y);
                let (mut c, mut d, mut e) = (a, a, a);
                c &= o;
                d |= o;
                e ^= o;
                want!("&= |= ^=", (c.into_atoms(), d.into_atoms(), e.into_atoms()), (x & y, x | y, x ^ y));
                want!("cmp", (a.cmp(&o), a == o), (bx.cmp(&by), x == y));
                for &z in [0u128, 1, u128::MAX, 1 << 127].iter() {
                    let s: Option<Amount> = [a, o, Amount::from_atoms(z)].into_iter().sum();
                    let m = common::amount_sum!(a, o, Amount::from_atoms(z));
                    want!(format!("+ {z} +"), (at(s), at(m)), {
                        let v = fit(bx.add(&by).add(&Big::from_u128(z)));
                        (v, v)
                    });
                }
            }
            for s in 0..140u32 {
                n += 2;
                let l = (s < 128).then(|| Big::from_u128(x).shl(s as usize).words(2)).map(|w| w[0] as u128 | (w[1] as u128) << 64);
                p.eq(|| format!("{x} << {s}"), &at(a << s), &l);
                p.eq(|| format!("{x} >> {s}"), &at(a >> s), &(s < 128).then(|| x >> s));
            }
            p.eq(|| format!("!{x}"), &(!a).into_atoms(), &!x);
            p.eq(|| format!("signed {x}"), &a.into_signed().map(|s| s.into_atoms()), &i128::try_from(x).ok());
            p.eq(|| format!("signed2 {x}"), &SignedAmount::from_unsigned(a).map(|s| s.into_atoms()), &i128::try_from(x).ok());
            p.eq(|| format!("nonzero {x}"), &at(a.as_non_zero()), &(x != 0).then_some(x));
            p.evals(n);
            p.nontrivial(n);
        });
        let none: Option<Amount> = std::iter::empty().sum();
        p.eq(|| "empty sum".into(), &none, &Some(Amount::ZERO));
    });
    let mut sg: Vec<i128> = vec![i128::MIN, i128::MIN + 1];
    for v in &b {
        if let Ok(v) = i128::try_from(*v) {
            sg.extend([v, -v]);
        }
    }
    sg.sort();
    sg.dedup();
    ctx.part("signed", &format!("all pairs of {} boundary signed amounts, every operation", sg.len()), |p| {
        // sign and magnitude
        let mag = |v: i128| Big::from_u128(v.unsigned_abs());
        let top = Big::pow2(127);
        let make = |neg: bool, m: Big| -> Option<i128> {
            if m < top || (neg && m == top) {
                let w = m.words(2);
                let v = w[0] as u128 | (w[1] as u128) << 64;
                Some(if neg { (v as i128).wrapping_neg() } else { v as i128 })
            } else {
                None
            }
        };
        let add = |x: i128, y: i128, flip: bool| {
            let (nx, ny) = (x < 0, (y < 0) != flip);
            let (mx, my) = (mag(x), mag(y));
            if nx == ny {
                make(nx, mx.add(&my))
            } else if mx >= my {
                make(nx, mx.sub(&my).unwrap())
            } else {
                make(ny, my.sub(&mx).unwrap())
            }
        };
        p.par(sg.len(), |i| {
            let x = sg[i];
            let a = SignedAmount::from_atoms(x);
            let at = |v: Option<SignedAmount>| v.map(|v| v.into_atoms());
            let mut n = 0;
            for &y in &sg {
                let o = SignedAmount::from_atoms(y);
                macro_rules! want {
                    ($w:expr, $g:expr, $e:expr) => {{
                        n += 1;
                        p.eq(|| format!("{x} {} {y}", $w), &guard(|| $g), &Ok($e));
                    }};
                }
                want!("+", at(a + o), add(x, y, false));
                want!("-", at(a - o), add(x, y, true));
                want!("*", at(a * y), make((x < 0) != (y < 0) && x != 0 && y != 0, mag(x).mul(&mag(y))));
                let over = x == i128::MIN && y == -1;
                want!("/", at(a / y), (y != 0 && !over).then(|| x / y));
                want!("%", at(a % y), (y != 0 && !over).then(|| x % y));
                want!("cmp", (a.cmp(&o), a == o), (x.cmp(&y), x == y));
                let s: Option<SignedAmount> = [a, o].into_iter().sum();
                want!("sum", at(s), add(x, y, false));
            }
            p.eq(|| format!("-{x}"), &at(-a), &make(x > 0, mag(x)));
            p.eq(|| format!("unsigned {x}"), &a.into_unsigned().map(|v| v.into_atoms()), &u128::try_from(x).ok());
            p.eq(|| format!("unsigned2 {x}"), &Amount::from_signed(a).map(|v| v.into_atoms()), &u128::try_from(x).ok());
            p.evals(n);
            p.nontrivial(n);
        });
    });
}

/// (mantissa, decimals) of a well-formed number, by the grammar: optional spaces around, `_` anywhere, digits with at
/// most one point and at least one digit; the digits must fit.
fn parse_ref(s: &str) -> Option<(u128, u8)> {
    if s.len() > 257 {
        return None;
    }
    let t: Vec<char> = s.trim_matches(' ').chars().filter(|c| *c != '_').collect();
    let mut digits = 0;
    let mut frac = None;
    let mut m = Some(0u128);
    for c in t {
        match c {
            '.' => {
                if frac.is_some() {
                    return None;
                }
                frac = Some(0u32);
            }
            '0'..='9' => {
                digits += 1;
                frac = frac.map(|f| f + 1);
                m = m.and_then(|m| m.checked_mul(10)?.checked_add(c as u128 - 48));
            }
            _ => return None,
        }
    }
    if digits == 0 {
        return None;
    }
    // at most 255 fractional digits
    Some((m?, u8::try_from(frac.unwrap_or(0)).ok()?))
}

/// The exact number of atoms; None when it is not a whole number of them or does not fit.
fn to_atoms_ref(m: u128, dec: u8, want: u8) -> Option<u128> {
    let (mut m, mut dec) = (m, dec);
    if m == 0 {
        return Some(0);
    }
    while dec > want {
        if m % 10 != 0 {
            return None;
        }
        m /= 10;
        dec -= 1;
    }
    for _ in dec..want {
        m = m.checked_mul(10)?;
    }
    Some(m)
}

fn check_text(s: &str, decs: &[u8]) -> Result<bool, String> {
    let want = parse_ref(s);
    let got = guard(|| s.parse::<DecimalAmount>().ok().map(|d| (d.mantissa(), d.decimals())))?;
    if got != want {
        return Err(format!("{s:?} parses to {got:?}, must give {want:?}"));
    }
    for d in decs {
        let want_atoms = want.and_then(|(m, dec)| to_atoms_ref(m, dec, *d));
        let got = guard(|| Amount::from_fixedpoint_str(s, *d).map(|a| a.into_atoms()))?;
        if got != want_atoms {
            return Err(format!("{s:?} with {d} decimals gives {got:?} atoms, must give {want_atoms:?}"));
        }
        let (neg, body) = match s.strip_prefix('-') {
            Some(b) => (true, b),
            None => (false, s),
        };
        let want_signed = parse_ref(body).and_then(|(m, dec)| to_atoms_ref(m, dec, *d)).and_then(|v| {
            if neg {
                if v == 1 << 127 { Some(i128::MIN) } else { i128::try_from(v).ok().map(|v| -v) }
            } else {
                i128::try_from(v).ok()
            }
        });
        let got = guard(|| SignedAmount::from_fixedpoint_str(s, *d).map(|a| a.into_atoms()))?;
        if got != want_signed {
            return Err(format!("signed {s:?} with {d} decimals gives {got:?}, must give {want_signed:?}"));
        }
    }
    Ok(want.is_some())
}

/// The shortest text of `m / 10^d`, or the one with exactly `d` decimals.
fn text_ref(mut m: u128, mut d: usize, pad: bool) -> String {
    if !pad {
        while d > 0 && m % 10 == 0 {
            m /= 10;
            d -= 1;
        }
    }
    let mut s: Vec<char> = m.to_string().chars().collect();
    if d > 0 {
        while s.len() < d + 1 {
            s.insert(0, '0');
        }
        s.insert(s.len() - d, '.');
    }
    s.into_iter().collect()
}

pub fn text(ctx: &Ctx) {
    let len = ctx.pick(6, 8);
    let alpha: Vec<char> = "019._ -+x".chars().collect();
    ctx.part("parse-short", &format!("every string of <= {len} characters over \"019._ -+x\", with 0, 1, 2, 3 and 40 decimals, unsigned and signed"), |p| {
        for l in 0..=len {
            let total = alpha.len().pow(l as u32);
            let step = 4096;
            p.par(total.div_ceil(step), |c| {
                let (mut ok, mut no) = (0, 0);
                for mut i in c * step..((c + 1) * step).min(total) {
                    let s: String = (0..l)
                        .map(|_| {
                            let d = alpha[i % alpha.len()];
                            i /= alpha.len();
                            d
                        })
                        .collect();
                    match check_text(&s, &[0, 1, 2, 3, 40]) {
                        Ok(true) => ok += 1,
                        Ok(false) => no += 1,
                        Err(e) => {
                            p.fail(format!("{s:?}"), e);
                            return;
                        }
                    }
                }
                p.evals(ok + no);
                p.nontrivial(ok);
                p.outcome_n("number", ok);
                p.outcome_n("refused", no);
            });
        }
        p.sample(|| "\"0_1.9 \" -> mantissa 19, 1 decimal".into());
    });
    ctx.part("parse-long", "numbers around 2^127 and 2^128 with the point at every place, leading and trailing zeros up to the length limit, non-ASCII digits and spaces", |p| {
        let mut all = vec![];
        for base in ["340282366920938463463374607431768211455", "340282366920938463463374607431768211456", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728", "1", "0", "10", "99999999999999999999999999999999999999", "999999999999999999999999999999999999999"] {
            for at in 0..=base.len() {
                for lead in [0usize, 1, 37, 38, 39, 40, 100, 200, 216, 217, 218, 219, 253, 254, 255, 256, 257, 258] {
                    for trail in [0usize, 1, 37, 38, 39, 40, 216, 217, 218, 254, 255, 256, 257] {
                        if lead > 1 && trail > 1 && lead + trail > 300 {
                            continue;
                        }
                        for sign in ["", "-"] {
                            all.push(format!("{sign}{}{}.{}{}", "0".repeat(lead), &base[..at], &base[at..], "0".repeat(trail)));
                            all.push(format!("{sign}{}{}.{}{}", &base[..at], "0".repeat(lead), "0".repeat(trail), &base[at..]));
                        }
                    }
                }
            }
        }
        for s in ["\u{661}", "1\u{a0}", "1\u{2003}", "\t1", "1\n", "１", "1e5", "0x1", "1,0", "∞", "NaN", "", " ", "_", ".", "..", "_._"] {
            all.push(s.into());
        }
        all.sort();
        all.dedup();
        let total = all.len();
        p.par(total.div_ceil(64), |c| {
            let (mut ok, mut no) = (0, 0);
            for s in &all[c * 64..((c + 1) * 64).min(total)] {
                match check_text(s, &[0, 1, 11, 18, 37, 38, 39, 40, 254, 255]) {
                    Ok(true) => ok += 1,
                    Ok(false) => no += 1,
                    Err(e) => {
                        p.fail(format!("{s:?}"), e);
                        return;
                    }
                }
            }
            p.evals(ok + no);
            p.nontrivial(ok);
            p.outcome_n("number", ok);
            p.outcome_n("refused", no);
        });
    });
    let b = boundary();
    ctx.part("print", "boundary amounts x all 256 numbers of decimals: padded and unpadded text, back from text, through the RPC representations", |p| {
        p.par(b.len(), |i| {
            let x = b[i];
            let a = Amount::from_atoms(x);
            let mut n = 0;
            for d in 0..=255u8 {
                n += 10;
                let short = text_ref(x, d as usize, false);
                let long = text_ref(x, d as usize, true);
                let k = || format!("{x} atoms, {d} decimals");
                let s = a.into_fixedpoint_str(d);
                p.eq(k, &s, &short);
                let full = DecimalAmount::from_amount_full_padding(a, d);
                let none = DecimalAmount::from_amount_no_padding(a, d);
                p.eq(k, &full.to_string(), &long);
                p.eq(k, &none.to_string(), &short);
                p.eq(k, &DisplayAmount::from_amount_full(a, d).to_string(), &long);
                p.eq(k, &DisplayAmount::from(none).to_string(), &short);
                for (t, orig) in [(&short, none), (&long, full)] {
                    match t.parse::<DecimalAmount>() {
                        Ok(back) => {
                            p.eq(k, &(back.mantissa(), back.decimals()), &(orig.mantissa(), orig.decimals()));
                            p.eq(k, &back.is_same(&orig), &true);
                        }
                        Err(e) => p.fail(k(), format!("{t:?} does not parse back: {e}")),
                    }
                    p.eq(k, &Amount::from_fixedpoint_str(t, d), &Some(a));
                }
                p.eq(k, &full.to_amount(d), &Some(a));
                p.eq(k, &none.to_amount(d), &Some(a));
                p.eq(k, &full.is_same(&none), &(short == long));
                // signed
                {
                    let up = i128::try_from(x).ok();
                    let down = (x <= 1 << 127).then(|| (x as i128).wrapping_neg());
                    for v in up.into_iter().chain(down) {
                        let t = SignedAmount::from_atoms(v).into_fixedpoint_str(d);
                        p.eq(k, &t, &format!("{}{short}", if v < 0 { "-" } else { "" }));
                        p.eq(k, &SignedAmount::from_fixedpoint_str(&t, d).map(|v| v.into_atoms()), &Some(v));
                    }
                }
                // scaling
                for w in [0u8, 1, d.saturating_sub(1), d, d.saturating_add(1), d.saturating_add(17), 255] {
                    n += 2;
                    let exact = to_atoms_ref(x, d, w);
                    p.eq(|| format!("{x} / 10^{d} in 10^-{w}"), &full.to_amount(w).map(|v| v.into_atoms()), &exact);
                    if let Some(s) = full.with_decimals(w) {
                        let want = if w >= d { exact.map(|m| (m, w)) } else { None };
                        p.eq(|| format!("{x} / 10^{d} rescaled to {w}"), &Some((s.mantissa(), s.decimals())), &want);
                    } else if w >= d && exact.is_some() {
                        p.fail(format!("{x} / 10^{d} rescaled to {w}"), "refused although it fits");
                    }
                }
                if [0, 1, 11, 18, 38, 255].contains(&d) {
                    n += 4;
                    for o in [RpcAmountOut::from_amount(a, d), RpcAmountOut::from_amount_full_padding(a, d), RpcAmountOut::from_amount_no_padding(a, d)] {
                        let j = serde_json::to_value(&o).unwrap();
                        let t = o.decimal().to_string();
                        p.eq(k, &j, &serde_json::json!({"atoms": x.to_string(), "decimal": t}));
                        p.eq(k, &o.decimal().to_amount(d), &Some(a));
                        p.eq(k, &o.amount(), &a);
                        match serde_json::from_value::<RpcAmountOut>(j) {
                            Ok(back) => {
                                p.eq(k, &back.is_same(&o), &true);
                                // the same number of another currency, another number, and the same written otherwise
                                let e = if d == 255 { 254 } else { d + 1 };
                                let more = Amount::from_atoms(if x == u128::MAX { x - 1 } else { x + 1 });
                                for q in [RpcAmountOut::from_amount_full_padding(a, e), RpcAmountOut::from_amount_full_padding(more, d), RpcAmountOut::from_amount_full_padding(more, e)] {
                                    p.eq(k, &(back.is_same(&q), q.is_same(&back)), &(false, false));
                                }
                                if let Some(ten) = x.checked_mul(10).filter(|t| *t != x) {
                                    let q = RpcAmountOut::from_amount_no_padding(Amount::from_atoms(ten), e);
                                    p.eq(k, &(back.is_same(&q), q.is_same(&back)), &(false, false));
                                }
                            }
                            Err(e) => p.fail(k(), format!("RPC amount does not read back: {e}")),
                        }
                    }
                    for (inp, j) in [
                        (RpcAmountIn::from_atoms(a), serde_json::json!({"atoms": x.to_string()})),
                        (RpcAmountIn::from_decimal(full), serde_json::json!({"decimal": long})),
                        (RpcAmountIn::from_decimal(none), serde_json::json!({"decimal": short})),
                    ] {
                        p.eq(k, &serde_json::to_value(inp).unwrap(), &j);
                        match serde_json::from_value::<RpcAmountIn>(j) {
                            Ok(back) => {
                                p.eq(k, &back.is_same(&inp), &true);
                                p.eq(k, &back.to_amount(d), &Some(a));
                            }
                            Err(e) => p.fail(k(), format!("RPC amount does not read back: {e}")),
                        }
                    }
                    let (i, j) = (RpcAmountIn::from_atoms(a), RpcAmountIn::from_decimal(none));
                    p.eq(|| format!("{} atoms and decimal told apart", k()), &(i.is_same(&j), j.is_same(&i)), &(false, false));
                    let other = if x == 0 { 1 } else { x - 1 };
                    let (i, j) = (RpcAmountIn::from_atoms(Amount::from_atoms(other)), RpcAmountIn::from_decimal(DecimalAmount::from_amount_no_padding(Amount::from_atoms(other), d)));
                    let same = (i.is_same(&RpcAmountIn::from_atoms(a)), j.is_same(&RpcAmountIn::from_decimal(none)), j.is_same(&RpcAmountIn::from_decimal(full)));
                    p.eq(|| format!("{} and another amount told apart", k()), &same, &(false, false, false));
                    let j = serde_json::to_value(a).unwrap();
                    p.eq(k, &j, &serde_json::json!({"atoms": x.to_string()}));
                    p.eq(k, &serde_json::from_value::<Amount>(j).ok(), &Some(a));
                    // bare JSON integers are not part of the documented form: refused or read as what they say
                    if let Ok(v) = u64::try_from(x) {
                        if let Ok(got) = serde_json::from_value::<Amount>(serde_json::json!({"atoms": v})) {
                            p.eq(k, &got, &a);
                        }
                    }
                    if x > 0 {
                        for bad in ["-1".to_string(), format!("{x}.0"), format!("0x{x}"), format!("{}0", u128::MAX)] {
                            p.eq(|| format!("atoms {bad:?}"), &serde_json::from_value::<Amount>(serde_json::json!({"atoms": bad})).is_err(), &true);
                        }
                    }
                }
            }
            p.evals(n);
            p.nontrivial(n);
        });
    });
    ctx.part("subtract", "differences of decimal amounts: all pairs of 24 boundary mantissas x 7 x 7 decimals", |p| {
        let ms: Vec<u128> = b.iter().copied().filter(|v| *v < 12 || v % 10 == 0 || *v > u128::MAX / 4).collect();
        let ds = [0u8, 1, 2, 18, 38, 39, 255];
        p.par(ms.len(), |i| {
            let mut n = 0;
            let (mut some, mut none) = (0, 0);
            for &m2 in &ms {
                for d1 in ds {
                    for d2 in ds {
                        n += 1;
                        let l = DecimalAmount::from_uint_decimal(ms[i], d1);
                        let r = DecimalAmount::from_uint_decimal(m2, d2);
                        let got = subtract_decimal_amounts_of_same_currency(&l, &r);
                        // exact difference at the finer of the two scales
                        let top = d1.max(d2);
                        let scale = |m: u128, d: u8| Big::from_u128(m).mul(&pow10((top - d) as usize));
                        let diff = scale(ms[i], d1).sub(&scale(m2, d2));
                        let k = || format!("{} - {}", text_ref(ms[i], d1 as usize, true), text_ref(m2, d2 as usize, true));
                        match (got, diff) {
                            (Some(_), None) => p.fail(k(), format!("negative, but gave {got:?}")),
                            (Some(g), Some(diff)) => {
                                some += 1;
                                let gm = Big::from_u128(g.mantissa()).mul(&pow10((top - g.decimals().min(top)) as usize));
                                if g.decimals() > top || gm != diff {
                                    p.fail(k(), format!("gave {g}, which is not the exact difference"));
                                }
                                p.eq(k, &g.to_string(), &text_ref(g.mantissa(), g.decimals() as usize, false));
                            }
                            (None, None) => none += 1,
                            (None, Some(_)) => {
                                none += 1;
                                // may only be refused when a side does not fit at the common scale
                                let (mut sm, mut sd) = (m2, d2);
                                while sd > 0 && sm % 10 == 0 {
                                    sm /= 10;
                                    sd -= 1;
                                }
                                let c = d1.max(sd);
                                if to_atoms_ref(ms[i], d1, c).is_some() && to_atoms_ref(sm, sd, c).is_some() {
                                    p.fail(k(), "refused although both sides and the difference fit");
                                }
                            }
                        }
                    }
                }
            }
            p.evals(n);
            p.nontrivial(some);
            p.outcome_n("difference", some);
            p.outcome_n("refused", none);
        });
    });
    let _ = sequences;
}

fn pow10(n: usize) -> Big {
    let mut r = Big::from_u128(1);
    for _ in 0..n {
        r = r.mul(&Big::from_u128(10));
    }
    r
}
