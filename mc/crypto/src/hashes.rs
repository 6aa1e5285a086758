use std::num::NonZeroUsize;

use crypto::{
    hash::{self, StreamHasher},
    kdf::{self, KdfChallenge, KdfConfig, KdfResult, argon2::Argon2Config},
    util::eq::SliceEqualityCheckMethod as Eq,
};
use mc_kit::{Ctx, PartCtx, guard, hex, sequences};
use serialization::{DecodeAll, Encode};

use crate::{Chosen, lengths, pattern};

type Lib = fn(&[u8]) -> Vec<u8>;

fn lib<D: sha2::Digest>(d: &[u8]) -> Vec<u8> {
    D::digest(d).to_vec()
}
fn blake32(d: &[u8]) -> Vec<u8> {
    lib::<blake2::Blake2b512>(d)[..32].to_vec()
}
fn hash160(d: &[u8]) -> Vec<u8> {
    lib::<ripemd::Ripemd160>(&lib::<sha2::Sha256>(d))
}

/// Histories of writes, results and resets of one stream against a buffer.
fn stream<S: StreamHasher>(c: &PartCtx, name: &str, lib: Lib, depth: usize) {
    let chunks: Vec<Vec<u8>> = vec![vec![], vec![1], pattern(63), pattern(64), pattern(65), pattern(130)];
    let ops = chunks.len() + 2;
    c.par(ops, |first| {
        for n in 0..depth {
            for tail in sequences(ops, n) {
                let seq: Vec<usize> = std::iter::once(first).chain(tail).collect();
                let got = guard(|| {
                    let mut s = S::new();
                    let mut outs = vec![];
                    for o in &seq {
                        match *o {
                            o if o < chunks.len() => {
                                s.write(&chunks[o]);
                            }
                            o if o == chunks.len() => outs.push(s.finalize().to_vec()),
                            _ => s.reset(),
                        }
                    }
                    outs.push(s.finalize().to_vec());
                    outs
                });
                let mut buf = vec![];
                let mut want = vec![];
                for o in &seq {
                    match *o {
                        o if o < chunks.len() => buf.extend_from_slice(&chunks[o]),
                        o => {
                            if o == chunks.len() {
                                want.push(lib(&buf));
                            }
                            buf.clear();
                        }
                    }
                }
                want.push(lib(&buf));
                c.evals(1);
                c.nontrivial(1);
                c.traces(1);
                if !c.eq(|| format!("{name}: history {seq:?} of chunks, 6 = result, 7 = reset"), &got, &Ok(want)) {
                    return;
                }
            }
        }
        c.outcome(name);
    });
    // every way of cutting a message in two
    c.par(300, |n| {
        let m = pattern(n);
        let want = lib(&m);
        for cut in 0..=n {
            let got = guard(|| S::new().write(&m[..cut]).write(&m[cut..]).finalize().to_vec());
            c.evals(1);
            if !c.eq(|| format!("{name}: {n} bytes cut at {cut}"), &got, &Ok(want.clone())) {
                return;
            }
        }
    });
}
fn whole<H: hash::Hasher>(c: &PartCtx, name: &str, lib: Lib) {
    for n in lengths(600, 1 << 18) {
        let m = pattern(n);
        c.evals(1);
        c.nontrivial(1);
        c.eq(|| format!("{name} of {n} bytes"), &guard(|| hash::hash::<H, _>(&m).to_vec()), &Ok(lib(&m)));
    }
    c.outcome(name);
}

pub fn run(ctx: &Ctx) {
    ctx.part("digests", "messages of every length to 600 and around the powers of two to 2^18: the published functions, and what the name promises", |c| {
        whole::<hash::Blake2b>(c, "blake2b", lib::<blake2::Blake2b512>);
        whole::<hash::Blake2b32>(c, "blake2b-32", blake32);
        whole::<hash::Sha1>(c, "sha1", lib::<sha1::Sha1>);
        whole::<hash::Sha256>(c, "sha256", lib::<sha2::Sha256>);
        whole::<hash::Sha3_512>(c, "sha3-512", lib::<sha3::Sha3_512>);
        whole::<hash::Ripemd160>(c, "ripemd160", lib::<ripemd::Ripemd160>);
        // published digests of "abc"
        for (name, got, want) in [
            ("sha1", hash::hash::<hash::Sha1, _>("abc").to_vec(), "a9993e364706816aba3e25717850c26c9cd0d89d"),
            ("sha256", hash::hash::<hash::Sha256, _>("abc").to_vec(), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"),
            ("ripemd160", hash::hash::<hash::Ripemd160, _>("abc").to_vec(), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
            ("blake2b", hash::hash::<hash::Blake2b, _>("abc").to_vec(), "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923"),
        ] {
            c.eq(|| format!("{name} of abc"), &hex(&got), &want.to_string());
        }
    });

    let depth = ctx.pick(6, 7);
    ctx.part("streams", "every history of writes of 6 sizes, results and resets to length 5 (thorough 6), every two-way cut of every length to 300, for 7 functions", |c| {
        stream::<hash::Blake2bStream>(c, "blake2b", lib::<blake2::Blake2b512>, depth);
        stream::<hash::Blake2b32Stream>(c, "blake2b-32", blake32, depth);
        stream::<hash::Sha1Stream>(c, "sha1", lib::<sha1::Sha1>, depth);
        stream::<hash::Sha256Stream>(c, "sha256", lib::<sha2::Sha256>, depth);
        stream::<hash::Sha3_512Stream>(c, "sha3-512", lib::<sha3::Sha3_512>, depth);
        stream::<hash::Ripemd160Stream>(c, "ripemd160", lib::<ripemd::Ripemd160>, depth);
        stream::<hash::Sha256Ripmd160Stream>(c, "sha256+ripemd160", hash160, depth);
        // a copy of a stream goes its own way
        for cut in 0..200 {
            let m = pattern(200);
            let mut a = hash::Blake2b32Stream::new();
            a.write(&m[..cut]);
            let mut b = a.clone();
            a.write(&m[cut..]);
            c.evals(1);
            c.eq(|| format!("copy after {cut}"), &(b.finalize().to_vec(), a.finalize().to_vec()), &(blake32(&m[..cut]), blake32(&m)));
        }
    });

    ctx.part("passwords", "passwords and stored hashes with every bit, length and cost changed: only the very same password passes", |c| {
        let config = Argon2Config::new(16, 2, 1);
        let kdf = |h: usize, s: usize, cfg: &Argon2Config| KdfConfig::Argon2id { config: cfg.clone(), hash_length: NonZeroUsize::new(h).unwrap(), salt_length: NonZeroUsize::new(s).unwrap() };
        let passwords: Vec<Vec<u8>> = vec![vec![], b"p".to_vec(), b"password".to_vec(), b"password ".to_vec(), b"Password".to_vec(), vec![0], vec![0, 0], pattern(64), pattern(65), pattern(200)];
        let jobs: Vec<(usize, usize, usize)> = [4usize, 16, 31, 32, 33, 64, 65].iter().flat_map(|h| [8usize, 16, 48].iter().flat_map(|s| (0..passwords.len()).map(|p| (*h, *s, p))).collect::<Vec<_>>()).collect();
        c.par(jobs.len(), |j| {
            let (h, s, p) = jobs[j];
            let id = || format!("password {p} hash {h} salt {s}");
            let Ok(Ok(r)) = guard(|| kdf::hash_password(&mut Chosen(j as u64), kdf(h, s, &config), &passwords[p])) else {
                c.fail(id(), "could not hash");
                return;
            };
            let KdfResult::Argon2id { config: cfg, salt, hashed_password } = r.clone();
            c.evals(1);
            c.nontrivial(1);
            c.eq(|| format!("{} shape", id()), &(cfg, salt.len(), hashed_password.len()), &(config.clone(), s, h));
            c.eq(|| format!("{} stored", id()), &KdfResult::decode_all(&mut &r.encode()[..]).ok(), &Some(r.clone()));
            let ch = r.clone().into_challenge();
            c.eq(|| format!("{} challenge stored", id()), &KdfChallenge::decode_all(&mut &ch.encode()[..]).ok(), &Some(ch.clone()));
            c.eq(|| format!("{} without the hash", id()), &(ch.encode().windows(hashed_password.len()).any(|w| w == hashed_password)), &false);
            for (q, other) in passwords.iter().enumerate() {
                c.evals(1);
                c.outcome(if p == q { "passed" } else { "refused" });
                for m in [Eq::Normal, Eq::TimingResistant] {
                    c.eq(|| format!("{} tried with {q}", id()), &guard(|| kdf::verify_password(other, &r, m).ok()), &Ok(Some(p == q)));
                }
                c.eq(|| format!("{} challenged with {q}", id()), &guard(|| kdf::hash_from_challenge(ch.clone(), other).unwrap() == r), &Ok(p == q));
            }
        });
        // lengths beyond a byte, and salts: as long as asked, never seen before, without repetition inside
        for (h, s) in [(255usize, 8usize), (256, 16), (257, 64), (300, 255), (1024, 256), (65535, 257), (65536, 300), (65537, 1024)] {
            let id = || format!("long hash {h} salt {s}");
            let Ok(Ok(r)) = guard(|| kdf::hash_password(&mut Chosen(h as u64), kdf(h, s, &config), b"password")) else {
                c.fail(id(), "could not hash");
                continue;
            };
            let KdfResult::Argon2id { config: cfg, salt, hashed_password } = r.clone();
            c.evals(3);
            c.nontrivial(1);
            c.outcome("long");
            c.eq(|| format!("{} shape", id()), &(cfg, salt.len(), hashed_password.len()), &(config.clone(), s, h));
            let mut want = vec![0; h];
            argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, argon2::Params::new(16, 2, 1, Some(h)).unwrap()).hash_password_into(b"password", &salt, &mut want).unwrap();
            c.eq(|| format!("{} is argon2id", id()), &(hashed_password == want), &true);
            let ch = r.clone().into_challenge();
            c.eq(|| format!("{} challenge stored", id()), &KdfChallenge::decode_all(&mut &ch.encode()[..]).ok(), &Some(ch.clone()));
            c.eq(|| format!("{} stored", id()), &KdfResult::decode_all(&mut &r.encode()[..]).ok(), &Some(r.clone()));
            for other in [&b"password"[..], b"passwore"] {
                let good = other == b"password";
                c.eq(|| format!("{} challenged {good}", id()), &guard(|| kdf::hash_from_challenge(ch.clone(), other).ok().is_some_and(|x| x == r)), &Ok(good));
                c.eq(|| format!("{} tried {good}", id()), &guard(|| kdf::verify_password(other, &r, Eq::TimingResistant).ok()), &Ok(Some(good)));
            }
            // 8 bytes of it occur nowhere else in it (by chance once in 10^13)
            let parts: std::collections::BTreeSet<&[u8]> = salt.windows(8).collect();
            c.eq(|| format!("{} repeats nothing", id()), &parts.len(), &(s - 7));
        }
        // everything that is stored matters
        let r = kdf::hash_password(&mut Chosen(77), kdf(32, 16, &config), b"password").unwrap();
        let KdfResult::Argon2id { config: cfg, salt, hashed_password } = r.clone();
        let check = |what: String, r: KdfResult| {
            c.evals(1);
            c.nontrivial(1);
            c.outcome("changed record");
            for m in [Eq::Normal, Eq::TimingResistant] {
                let got = guard(|| kdf::verify_password(b"password", &r, m).unwrap_or(false));
                c.eq(|| what.clone(), &got, &Ok(false));
            }
        };
        for bit in 0..hashed_password.len() * 8 {
            let mut h = hashed_password.clone();
            h[bit / 8] ^= 1 << (bit % 8);
            check(format!("hash bit {bit}"), KdfResult::Argon2id { config: cfg.clone(), salt: salt.clone(), hashed_password: h });
        }
        for n in 0..32 {
            check(format!("hash cut to {n}"), KdfResult::Argon2id { config: cfg.clone(), salt: salt.clone(), hashed_password: hashed_password[..n].to_vec() });
        }
        check("hash extended".into(), KdfResult::Argon2id { config: cfg.clone(), salt: salt.clone(), hashed_password: [&hashed_password[..], &[0]].concat() });
        for bit in 0..salt.len() * 8 {
            let mut s = salt.clone();
            s[bit / 8] ^= 1 << (bit % 8);
            check(format!("salt bit {bit}"), KdfResult::Argon2id { config: cfg.clone(), salt: s, hashed_password: hashed_password.clone() });
        }
        for (m, t, p) in [(17, 2, 1), (16, 3, 1), (16, 1, 1), (24, 2, 1), (16, 2, 2), (0, 2, 1), (16, 0, 1), (16, 2, 0)] {
            check(format!("costs {m} {t} {p}"), KdfResult::Argon2id { config: Argon2Config::new(m, t, p), salt: salt.clone(), hashed_password: hashed_password.clone() });
        }
        for bit in 0..8 * 8 {
            let mut p = b"password".to_vec();
            p[bit / 8] ^= 1 << (bit % 8);
            c.evals(1);
            c.eq(|| format!("password bit {bit}"), &kdf::verify_password(&p, &r, Eq::TimingResistant), &Ok(false));
        }
        let (a, b) = {
            let mut rng = Chosen(5);
            let one = |rng: &mut Chosen| kdf::hash_password(rng, kdf(32, 16, &config), b"password").unwrap();
            (one(&mut rng), one(&mut rng))
        };
        c.eq(|| "the same password hashed twice".into(), &(a == b), &false);
    });

    ctx.part("comparison", "every pair of slices of up to 5 of 3 values; one change of every bit at every place of lengths to 300, and every pair of lengths to 530 of a repeated value", |c| {
        let all: Vec<Vec<u8>> = (0..=5).flat_map(|n| sequences(3, n).map(|s| s.iter().map(|v| [0u8, 1, 0x80][*v]).collect()).collect::<Vec<_>>()).collect();
        c.par(all.len(), |i| {
            for b in &all {
                let got = guard(|| (Eq::TimingResistant.are_equal(&all[i], b), Eq::Normal.are_equal(&all[i], b), Eq::timing_resistant_equal(&all[i], b)));
                let e = all[i] == *b;
                c.evals(1);
                if !c.eq(|| format!("{} and {}", hex(&all[i]), hex(b)), &got, &Ok((e, e, e))) {
                    return;
                }
                let w = |v: &[u8]| v.iter().map(|b| (*b as u16) << 8 | 1).collect::<Vec<_>>();
                if !c.eq(|| format!("wide {} and {}", hex(&all[i]), hex(b)), &Eq::timing_resistant_equal(&w(&all[i]), &w(b)), &e) {
                    return;
                }
            }
            c.nontrivial(1);
        });
        let max = ctx.pick(530, 1100);
        c.par(max + 1, |n| {
            for m in 0..=max {
                let same = Eq::timing_resistant_equal(&vec![9u8; n], &vec![9u8; m]);
                c.evals(1);
                c.eq(|| format!("lengths {n} and {m}"), &same, &(n == m));
            }
            if n > 300 {
                return;
            }
            for at in 0..n {
                for bit in 0..8 {
                    let a = pattern(n);
                    let mut b = a.clone();
                    b[at] ^= 1 << bit;
                    c.evals(1);
                    c.eq(|| format!("length {n} change at {at} bit {bit}"), &(Eq::timing_resistant_equal(&a, &b), Eq::timing_resistant_equal(&a, &a)), &(false, true));
                }
            }
        });
        c.outcome("compared");
    });
}
