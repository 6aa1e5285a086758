//! N03: the fixed-width integers against schoolbook arithmetic.  N04: compact targets.

use crate::big::Big;
use common::{
    Uint128, Uint256, Uint512,
    primitives::{Amount, compact::Compact},
    uint::BitArray,
};
use mc_kit::{Ctx, PartCtx, guard, sequences};

fn word_patterns(words: usize, alphabet: &[u64]) -> Vec<Vec<u64>> {
    sequences(alphabet.len(), words).map(|s| s.into_iter().map(|i| alphabet[i]).collect()).collect()
}

macro_rules! uint_check {
    ($fname:ident, $t:ident, $n:expr) => {
        fn $fname(p: &PartCtx, unary: &[Vec<u64>], binary: &[Vec<u64>]) {
            let mk = |w: &[u64]| {
                let mut a = [0u64; $n];
                a.copy_from_slice(w);
                $t(a)
            };
            const B: usize = 64 * $n;
            let name = stringify!($t);
            let shifts: Vec<usize> =
                (0..=B + 70).filter(|s| s % 64 <= 2 || s % 64 >= 62 || s % 13 == 0).chain([1000, 2016]).collect();
            p.par(unary.len(), |i| {
                let w = &unary[i];
                let (x, b) = (mk(w), Big::from_words(w));
                let fit = |r: &Big| mk(&r.words($n));
                let mut n = 0u64;
                macro_rules! want {
                    ($what:expr, $got:expr, $exp:expr) => {{
                        n += 1;
                        let (g, e) = (guard(|| $got), $exp);
                        match g {
                            Ok(g) if g == e => {}
                            g => p.fail(format!("{name} {} of {w:x?}", $what), format!("got {g:?}, must be {e:?}")),
                        }
                    }};
                }
                want!("bits", x.bits(), b.bits());
                want!("low_u32", x.low_u32(), w[0] as u32);
                want!("low_u64", x.low_u64(), w[0]);
                want!("is_zero order", x > $t::ZERO, b > Big::zero());
                want!("not", !x, mk(&w.iter().map(|v| !v).collect::<Vec<_>>()));
                let le: Vec<u8> = w.iter().flat_map(|v| v.to_le_bytes()).collect();
                let be: Vec<u8> = le.iter().rev().copied().collect();
                want!("to_bytes", x.to_bytes().to_vec(), le.clone());
                want!("to_be_bytes", x.to_be_bytes().to_vec(), be.clone());
                want!("from_bytes", $t::from_bytes(le.clone().try_into().unwrap()), x);
                want!("from_be_bytes", $t::from_be_bytes(be.clone().try_into().unwrap()), x);
                want!("from_slice", $t::from_slice(&le).ok(), Some(x));
                want!("from_be_slice", $t::from_be_slice(&be).ok(), Some(x));
                want!("from array", $t::from(<[u8; 8 * $n]>::try_from(le.clone()).unwrap()), x);
                let hex: String = be.iter().map(|v| format!("{v:02x}")).collect();
                want!("hex", format!("{x:x}"), hex.clone());
                want!("HEX", format!("{x:X}"), hex.to_uppercase());
                want!("#hex", format!("{x:#x}"), format!("0x{hex}"));
                want!("#HEX", format!("{x:#X}"), format!("0X{}", hex.to_uppercase()));
                want!("debug", format!("{x:?}"), format!("0x{hex}"));
                if i == 0 {
                    for l in 0..=8 * $n + 9 {
                        if l != 8 * $n {
                            let z = vec![1u8; l];
                            want!(format!("from_slice of {l} bytes"), $t::from_slice(&z).is_err() && $t::from_be_slice(&z).is_err(), true);
                        }
                    }
                }
                let tz = (0..B).find(|k| b.bit(*k)).unwrap_or(B);
                want!("trailing_zeros", x.trailing_zeros(), tz);
                for s in &shifts {
                    want!(format!("<< {s}"), x << *s, fit(&b.shl(*s)));
                    want!(format!(">> {s}"), x >> *s, fit(&b.shr(*s)));
                    if *s <= B {
                        want!(format!("mask {s}"), x.mask(*s), fit(&b.low_bits(*s)));
                    }
                    if *s < B {
                        want!(format!("bit {s}"), x.bit(*s), b.bit(*s));
                    }
                }
                for s in [0, 1, 31, 63, 64, 65, B / 2, B - 1, B] {
                    for e in [0, 1, 32, 63, 64, 65, B / 2, B / 2 + 1, B - 1, B] {
                        if s <= e {
                            want!(format!("bit_slice {s}..{e}"), x.bit_slice(s, e), fit(&b.shr(s).low_bits(e - s)));
                        }
                    }
                }
                for m in [0u32, 1, 2, 3, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
                    want!(format!("mul_u32 {m}"), x.mul_u32(m), fit(&b.mul(&Big::from_u128(m as u128))));
                }
                p.evals(n);
                p.nontrivial(n);
            });
            let ys: Vec<_> = binary.iter().map(|w| (mk(w), Big::from_words(w))).collect();
            let top = Big::pow2(B);
            p.par(ys.len(), |i| {
                let (x, bx) = &ys[i];
                let mut n = 0u64;
                let (mut inr, mut out) = (0, 0);
                for (j, (y, by)) in ys.iter().enumerate() {
                    macro_rules! want {
                        ($what:expr, $got:expr, $exp:expr) => {{
                            n += 1;
                            let (g, e) = ($got, $exp);
                            if g != e {
                                p.fail(format!("{name} {x:?} {} {y:?}", $what), format!("got {g:?}, must be {e:?}"));
                                return;
                            }
                        }};
                    }
                    let fits = |r: Big| (r < top).then(|| mk(&r.words($n)));
                    want!("cmp", x.cmp(y), bx.cmp(by));
                    want!("==", x == y, i == j);
                    let sum = fits(bx.add(by));
                    want!("+", *x + *y, sum);
                    want!("-", *x - *y, bx.sub(by).map(|r| mk(&r.words($n))));
                    let prod = bx.mul(by);
                    let (lo, hi) = x.widening_mul(y);
                    want!("widening *", (lo, hi), (mk(&prod.words($n)), mk(&prod.shr(B).words($n))));
                    let pr = fits(prod);
                    if pr.is_some() { inr += 1 } else { out += 1 }
                    want!("*", *x * *y, pr);
                    let q = *x / *y;
                    let r = *x % *y;
                    if *by == Big::zero() {
                        want!("/ 0", (q, r), (None, None));
                    } else {
                        match (q, r) {
                            (Some(q), Some(r)) => {
                                let (bq, br) = (Big::from_words(&q.0), Big::from_words(&r.0));
                                want!("/ %", bq.mul(by).add(&br) == *bx && br < *by, true);
                            }
                            e => want!("/ %", e, (Some($t::ZERO), Some($t::ZERO))),
                        }
                    }
                    let z = |f: fn(u64, u64) -> u64| mk(&x.0.iter().zip(&y.0).map(|(a, b)| f(*a, *b)).collect::<Vec<_>>());
                    want!("&", *x & *y, z(|a, b| a & b));
                    want!("|", *x | *y, z(|a, b| a | b));
                    want!("^", *x ^ *y, z(|a, b| a ^ b));
                }
                p.evals(n);
                p.nontrivial(n);
                p.outcome_n("product in range", inr);
                p.outcome_n("product out of range", out);
            });
        }
    };
}
uint_check!(u128s, Uint128, 2);
uint_check!(u256s, Uint256, 4);
uint_check!(u512s, Uint512, 8);

pub fn uints(ctx: &Ctx) {
    const M: u64 = u64::MAX;
    const H: u64 = 1 << 63;
    let rich = [0, 1, 2, 3, 10, 0xffff_ffff, 0x1_0000_0000, H - 1, H, H + 1, M - 1, M];
    ctx.part("uint128", "all 2-word values over 12 boundary words; all pairs of them", |p| {
        let v = word_patterns(2, &rich);
        u128s(p, &v, &v);
    });
    ctx.part("uint256", "unary operations on all 4-word values over 6 words; all pairs over 4 words (thorough: 5)", |p| {
        let u = word_patterns(4, &[0, 1, 0xffff_ffff_0000, H, M - 1, M]);
        let b = word_patterns(4, ctx.pick(&[0, 1, H, M][..], &[0, 1, 0x1_0000_0001, H, M][..]));
        u256s(p, &u, &b);
    });
    ctx.part("uint512", "unary operations on all 8-word values over 2 words (thorough: 3); all pairs over {0, max}^8 (thorough: with single boundary words)", |p| {
        let u = word_patterns(8, ctx.pick(&[0, M][..], &[0, 1, M][..]));
        let mut b = word_patterns(8, &[0, M]);
        for i in 0..8 {
            for w in ctx.pick(&[1, H + 1][..], &[1, 3, 0x1_0000_0001, H, H + 1, M - 1][..]) {
                let mut v = vec![0; 8];
                v[i] = *w;
                b.push(v.clone());
                if !ctx.quick() {
                    v[(i + 3) % 8] = M;
                    b.push(v);
                }
            }
        }
        b.sort();
        b.dedup();
        u512s(p, &u, &b);
    });
    ctx.part("conversions", "between the widths, u64, u128 and amounts, over all word patterns above", |p| {
        for w in word_patterns(2, &rich) {
            let v = w[0] as u128 | (w[1] as u128) << 64;
            let ok = u128::from(Uint128([w[0], w[1]])) == v
                && Uint128::from_u128(v).0 == [w[0], w[1]]
                && Uint256::from(Uint128([w[0], w[1]])).0 == [w[0], w[1], 0, 0]
                && Uint256::from_u128(v).0 == [w[0], w[1], 0, 0]
                && Uint512::from_u128(v).0 == [w[0], w[1], 0, 0, 0, 0, 0, 0]
                && Uint256::from_amount(Amount::from_atoms(v)).0 == [w[0], w[1], 0, 0]
                && Uint256::from(Amount::from_atoms(v)).0 == [w[0], w[1], 0, 0]
                && Uint128::from_amount(Amount::from_atoms(v)).0 == [w[0], w[1]]
                && Uint512::from(Amount::from_atoms(v)).0 == [w[0], w[1], 0, 0, 0, 0, 0, 0]
                && Uint256::from_u64(w[0]).0 == [w[0], 0, 0, 0]
                && Uint256::from(w[0]).0 == [w[0], 0, 0, 0]
                && Uint256::from(v).0 == [w[0], w[1], 0, 0];
            p.evals(12);
            p.nontrivial(12);
            if !ok {
                p.fail(format!("widening {w:x?}"), "a widening conversion changed the value");
            }
        }
        for w in word_patterns(4, &[0, 1, H, M]) {
            let x = Uint256([w[0], w[1], w[2], w[3]]);
            let small = w[2] == 0 && w[3] == 0;
            p.evals(3);
            p.nontrivial(3);
            p.outcome(if small { "fits" } else { "does not fit" });
            p.eq(|| format!("{x:?} to u128"), &u128::try_from(x).ok(), &small.then(|| w[0] as u128 | (w[1] as u128) << 64));
            p.eq(|| format!("{x:?} to 512 bits"), &Uint512::from(x).0.to_vec(), &vec![w[0], w[1], w[2], w[3], 0, 0, 0, 0]);
            p.eq(|| format!("{x:?} low 128"), &x.low_128().0.to_vec(), &vec![w[0], w[1]]);
        }
        for w in word_patterns(8, &[0, 1, M]) {
            let mut a = [0; 8];
            a.copy_from_slice(&w);
            let small = w[4..].iter().all(|v| *v == 0);
            p.evals(1);
            p.nontrivial(1);
            p.eq(
                || format!("{:?} to 256 bits", Uint512(a)),
                &Uint256::try_from(Uint512(a)).ok(),
                &small.then(|| Uint256([w[0], w[1], w[2], w[3]])),
            );
        }
    });
}

fn compact_decode_ref(c: u32) -> Result<Big, ()> {
    let size = (c >> 24) as usize;
    let mant = Big::from_u128((c & 0x7f_ffff) as u128);
    let v = if size <= 3 { mant.shr(8 * (3 - size)) } else { mant.shl(8 * (size - 3)) };
    if v != Big::zero() && c & 0x80_0000 != 0 || v.bits() > 256 { Err(()) } else { Ok(v) }
}

fn compact_encode_ref(v: &Big) -> u32 {
    // the shortest exponent for which a 23-bit mantissa holds the leading bytes
    let mut size = v.bits().div_ceil(8);
    let lead = |size: usize| if size >= 3 { v.shr(8 * (size - 3)) } else { v.shl(8 * (3 - size)) };
    let mut m = lead(size);
    if m.bits() > 23 {
        size += 1;
        m = lead(size);
    }
    (size as u32) << 24 | m.words(1)[0] as u32
}

pub fn compact(ctx: &Ctx) {
    ctx.part(
        "decode",
        if ctx.quick() { "all 256 exponents x sign x all mantissas over 24 boundary bytes" } else { "all 2^32 compact values" },
        |p| {
            let bytes: Vec<u32> = vec![0, 1, 2, 3, 4, 7, 8, 0xf, 0x10, 0x1f, 0x20, 0x3f, 0x40, 0x55, 0x7e, 0x7f, 0x80, 0x81, 0xaa, 0xbf, 0xc0, 0xf0, 0xfe, 0xff];
            let check = |c: u32| -> bool {
                let want = compact_decode_ref(c);
                let got = Uint256::try_from(Compact(c));
                let same = match (&got, &want) {
                    (Ok(g), Ok(w)) => Big::from_words(&g.0) == *w,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    p.fail(format!("decode {c:#010x}"), format!("got {got:?}, must be {want:?}"));
                    return false;
                }
                if let (Ok(g), Ok(w)) = (got, want) {
                    let back = Compact::from(g).0;
                    if back != compact_encode_ref(&w) {
                        p.fail(format!("encode of decoded {c:#010x}"), format!("got {back:#010x}, must be {:#010x}", compact_encode_ref(&w)));
                        return false;
                    }
                    if Uint256::try_from(Compact(back)).ok() != Some(g) {
                        p.fail(format!("round trip {c:#010x}"), format!("{g:?} encodes to {back:#010x}, which is another target"));
                        return false;
                    }
                }
                true
            };
            p.par(256, |size| {
                let (mut n, mut ok) = (0u64, 0u64);
                if ctx.quick() {
                    for a in &bytes {
                        for b in &bytes {
                            for c in &bytes {
                                let v = (size as u32) << 24 | a << 16 | b << 8 | c;
                                n += 1;
                                ok += compact_decode_ref(v).is_ok() as u64;
                                if !check(v) {
                                    return;
                                }
                            }
                        }
                    }
                } else {
                    for m in 0..1u32 << 24 {
                        let v = (size as u32) << 24 | m;
                        n += 1;
                        ok += compact_decode_ref(v).is_ok() as u64;
                        if !check(v) || (m % 65536 == 0 && p.stop()) {
                            return;
                        }
                    }
                }
                p.evals(n);
                p.nontrivial(ok);
                p.outcome_n("target", ok);
                p.outcome_n("refused", n - ok);
            });
        },
    );
    ctx.part("encode", "every 256-bit number whose bytes are <= 5 leading boundary bytes followed by 00.. or ff.., at every length", |p| {
        let lead = [0u8, 1, 0x7f, 0x80, 0xff];
        p.par(33, |len| {
            let mut n = 0;
            for s in sequences(lead.len(), 4.min(len)) {
                for fill in [0u8, 0xff, 0x80] {
                    let mut be = vec![0u8; 32 - len];
                    be.extend(s.iter().map(|i| lead[*i]));
                    be.resize(32, fill);
                    let v = Uint256::from_be_slice(&be).unwrap();
                    let b = Big::from_words(&v.0);
                    n += 1;
                    let c = Compact::from(v);
                    p.eq(|| format!("encode {v:?}"), &format!("{:#010x}", c.0), &format!("{:#010x}", compact_encode_ref(&b)));
                    // the encoded target never exceeds the number, and keeps its leading 16 bits
                    match Uint256::try_from(c) {
                        Ok(back) => {
                            let bb = Big::from_words(&back.0);
                            let cut = b.bits().saturating_sub(15);
                            if bb > b || bb.shr(cut) != b.shr(cut) {
                                p.fail(format!("encode {v:?}"), format!("decodes to {back:?}"));
                            }
                        }
                        Err(_) => p.fail(format!("encode {v:?}"), format!("gives {c:?}, which does not decode")),
                    }
                }
            }
            p.evals(n);
            p.nontrivial(n);
        });
    });
}
