use schnorrkel::derive::Derivation;
use crypto::key::{
    PredefinedSigAuxDataProvider,
    extended::{ExtendedKeyKind, ExtendedPrivateKey, ExtendedPublicKey},
    hdkd::{chain_code::ChainCode, child_number::ChildNumber, derivable::Derivable, derivation_path::DerivationPath, u31::U31},
};
use crypto::vrf::{ExtendedVRFPrivateKey, ExtendedVRFPublicKey, VRFKeyKind, transcript::no_rng::VRFTranscript};
use hmac::{Hmac, Mac};
use mc_kit::{Ctx, guard, hex, sequences};
use serialization::{DecodeAll, Encode};
use sha2::Sha512;

use crate::keys::unhex;

const H: u32 = 0x8000_0000;

fn path(v: &[u32]) -> DerivationPath {
    v.iter().map(|n| ChildNumber::from_index_with_hardened_bit(*n)).collect::<Vec<_>>().try_into().unwrap()
}

/// BIP32 by the book.
#[derive(Clone)]
struct Ref {
    k: secp256k1::SecretKey,
    c: [u8; 32],
}
fn hm(key: &[u8], parts: &[&[u8]]) -> ([u8; 32], [u8; 32]) {
    let mut m = Hmac::<Sha512>::new_from_slice(key).unwrap();
    for p in parts {
        m.update(p);
    }
    let r = m.finalize().into_bytes();
    (r[..32].try_into().unwrap(), r[32..].try_into().unwrap())
}
impl Ref {
    fn master(seed: &[u8]) -> Self {
        let (k, c) = hm(b"Bitcoin seed", &[seed]);
        Ref { k: secp256k1::SecretKey::from_slice(&k).unwrap(), c }
    }
    fn public(&self) -> [u8; 33] {
        secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &self.k).serialize()
    }
    fn child(&self, n: u32) -> Self {
        let (l, c) = if n & H != 0 { hm(&self.c, &[&[0], &self.k.secret_bytes(), &n.to_be_bytes()]) } else { hm(&self.c, &[&self.public(), &n.to_be_bytes()]) };
        Ref { k: self.k.add_tweak(&secp256k1::Scalar::from_be_bytes(l).unwrap()).unwrap(), c }
    }
    /// stored form: kind, path, chain code, key
    fn stored(&self, p: &[u32], public: bool) -> Vec<u8> {
        let mut v = vec![0, p.len() as u8];
        p.iter().for_each(|n| v.extend(n.to_be_bytes()));
        v.extend(self.c);
        if public { v.extend(self.public()) } else { v.extend(self.k.secret_bytes()) }
        v
    }
}

pub fn run(ctx: &Ctx) {
    let steps = [0u32, 1, 2, H - 1, H, H + 1, 2 * (H - 1) + 1, 44 + H];

    ctx.part("numbers", "every child number around the borders, plain and hardened", |c| {
        c.eq(|| "the first two".into(), &(ChildNumber::ZERO, ChildNumber::ONE), &(ChildNumber::from_index_with_hardened_bit(0), ChildNumber::from_index_with_hardened_bit(1)));
        for n in [0, 1, 2, 9, 44, 1000, H / 2, H - 2, H - 1] {
            let u = U31::from_u32(n).unwrap();
            c.evals(4);
            c.nontrivial(1);
            c.outcome("number");
            let (soft, hard) = (ChildNumber::from_normal(u), ChildNumber::from_hardened(u));
            c.eq(|| format!("{n}"), &(soft, hard), &(ChildNumber::from_index_with_hardened_bit(n), ChildNumber::from_index_with_hardened_bit(n | H)));
            c.eq(|| format!("{n} taken apart"), &(soft.is_hardened(), hard.is_hardened(), soft.get_index(), hard.get_index()), &(false, true, u, u));
            c.eq(|| format!("{n} encoded"), &(soft.into_encoded_index(), hard.into_encoded_index()), &(n, n | H));
            c.eq(|| format!("{n} printed"), &(soft.to_string(), hard.to_string()), &(n.to_string(), format!("{n}'")));
            c.eq(|| format!("{n} as bytes"), &(soft.into_encoded_be_bytes(), hard.into_encoded_be_bytes()), &(n.to_be_bytes(), (n | H).to_be_bytes()));
            c.eq(|| format!("{n} from bytes"), &(ChildNumber::from_encoded_be_bytes(n.to_be_bytes()), ChildNumber::from_encoded_be_bytes((n | H).to_be_bytes())), &(soft, hard));
            let next = (n < H - 1).then(|| (ChildNumber::from_index_with_hardened_bit(n + 1), ChildNumber::from_index_with_hardened_bit((n + 1) | H)));
            c.eq(|| format!("after {n}"), &guard(|| (soft.increment().ok(), hard.increment().ok())), &Ok((next.map(|x| x.0), next.map(|x| x.1))));
            c.eq(|| format!("U31 of {n} and beyond"), &(u.into_u32(), U31::from_u32(n | H)), &(n, None));
        }
    });

    ctx.part("derivation", "every path of up to 3 (thorough 4) of 8 child numbers from 3 seeds: keys and chain codes as BIP32 says, from every ancestor, publicly where possible", |c| {
        let seeds: Vec<Vec<u8>> = vec![(0..16).collect(), vec![0xff; 64], vec![]];
        let paths: Vec<Vec<u32>> = (0..=ctx.pick(4, 5)).flat_map(|d| sequences(steps.len(), d).map(|s| s.iter().map(|i| steps[*i]).collect()).collect::<Vec<_>>()).collect();
        for seed in &seeds {
            let master = ExtendedPrivateKey::new_master(seed, ExtendedKeyKind::Secp256k1Schnorr).unwrap();
            let book = Ref::master(seed);
            c.par(paths.len(), |i| {
                let p = &paths[i];
                let key = || format!("seed {} path {}", hex(seed), path(p));
                let want = p.iter().fold(book.clone(), |r, n| r.child(*n));
                let got = guard(|| p.iter().fold(master.clone(), |k, n| k.derive_child(ChildNumber::from_index_with_hardened_bit(*n)).unwrap()));
                c.evals(1);
                c.nontrivial(1);
                c.outcome_n("derived", 1);
                let Ok(got) = got else {
                    c.fail(key(), "derivation panicked");
                    return;
                };
                c.eq(key, &hex(&got.encode()), &hex(&want.stored(p, false)));
                c.eq(|| format!("{} public", key()), &hex(&got.to_public_key().encode()), &hex(&want.stored(p, true)));
                c.eq(|| format!("{} path", key()), got.get_derivation_path(), &path(p));
                c.eq(|| format!("{} read back", key()), &ExtendedPrivateKey::decode_all(&mut &got.encode()[..]).ok(), &Some(got.clone()));
                c.eq(|| format!("{} public read back", key()), &ExtendedPublicKey::decode_all(&mut &got.to_public_key().encode()[..]).ok(), &Some(got.to_public_key()));
                let sig = got.clone().private_key().sign_message(b"m", &mut PredefinedSigAuxDataProvider).unwrap();
                c.eq(|| format!("{} usable", key()), &got.to_public_key().into_public_key().verify_message(&sig, b"m"), &true);
                let (pk, cc) = got.to_public_key().into_public_key_and_chain_code();
                c.eq(|| format!("{} parts", key()), &(pk.encode()[1..].to_vec(), cc), &(want.public().to_vec(), ChainCode::from(want.c)));
                // from every ancestor at once, and with public keys where no hardened step follows
                for cut in 0..=p.len() {
                    let anc = p[..cut].iter().fold(master.clone(), |k, n| k.derive_child(ChildNumber::from_index_with_hardened_bit(*n)).unwrap());
                    let all = guard(|| anc.clone().derive_absolute_path(&path(p)).ok());
                    c.eq(|| format!("{} from ancestor {cut}", key()), &all, &Ok((cut < p.len()).then(|| got.clone())));
                    let hard = p[cut..].iter().any(|n| n & H != 0);
                    let public = guard(|| anc.to_public_key().derive_absolute_path(&path(p)).ok());
                    c.eq(|| format!("{} publicly from ancestor {cut}", key()), &public, &Ok((cut < p.len() && !hard).then(|| got.to_public_key())));
                    // not a descendant
                    for at in 0..cut {
                        let mut other = p.clone();
                        other[at] ^= 1;
                        other.push(0);
                        c.eq(|| format!("{} not an ancestor of {}, cut {cut}", key(), path(&other)), &guard(|| anc.clone().derive_absolute_path(&path(&other)).is_ok()), &Ok(false));
                    }
                }
            });
        }
        // every pair of paths
        let short: Vec<&Vec<u32>> = paths.iter().filter(|p| p.len() <= 3).collect();
        c.par(short.len(), |i| {
            let a = short[i];
            for b in &short {
                let want = a.strip_prefix(&b[..]).filter(|d| !d.is_empty()).map(|d| d.to_vec());
                let (pa, pb) = (path(a), path(b));
                let got = guard(|| pa.get_super_path_diff(&pb).map(|d| d.iter().map(|n| n.into_encoded_index()).collect::<Vec<_>>()));
                c.evals(1);
                if !c.eq(|| format!("from {pb} to {pa}"), &got, &Ok(want)) {
                    return;
                }
            }
        });
        // keys sort as their paths do, step by step
        let few: Vec<(ExtendedPrivateKey, ExtendedPublicKey, &Vec<u32>)> = {
            let master = ExtendedPrivateKey::new_master(&seeds[0], ExtendedKeyKind::Secp256k1Schnorr).unwrap();
            paths.iter().filter(|p| p.len() <= 2).map(|p| {
                let k = p.iter().fold(master.clone(), |k, n| k.derive_child(ChildNumber::from_index_with_hardened_bit(*n)).unwrap());
                (k.clone(), k.to_public_key(), p)
            }).collect()
        };
        for a in &few {
            for b in &few {
                c.evals(1);
                let want = a.2.cmp(b.2);
                c.eq(|| format!("order of {} and {}", path(a.2), path(b.2)), &(a.0.cmp(&b.0), a.1.cmp(&b.1), path(a.2).cmp(&path(b.2))), &(want, want, want));
                c.eq(|| format!("partial order of {} and {}", path(a.2), path(b.2)), &(a.0.partial_cmp(&b.0), a.1.partial_cmp(&b.1)), &(Some(want), Some(want)));
            }
        }
        // two published vectors
        let m = ExtendedPrivateKey::new_master(&(0..16).collect::<Vec<u8>>(), ExtendedKeyKind::Secp256k1Schnorr).unwrap();
        let k: [u8; 32] = unhex("e8f32e723decf4051aefac8e2c93c9c5b214313817cdb01a1494b917c8436b35");
        c.eq(|| "BIP32 vector 1 master".into(), &m.clone().private_key().encode()[1..].to_vec(), &k.to_vec());
        let k: [u8; 32] = unhex("471b76e389e528d6de6d816857e012c5455051cad6660850e58372a6c3e6e7c8");
        let p: DerivationPath = "m/0'/1/2'/2/1000000000".parse().unwrap();
        c.eq(|| "BIP32 vector 1 m/0'/1/2'/2/1000000000".into(), &m.derive_absolute_path(&p).unwrap().private_key().encode()[1..].to_vec(), &k.to_vec());
    });

    ctx.part("VRF derivation", "every path of up to 2 (thorough 3) of 8 child numbers: private and public derivation agree, hardened steps need the private key, every path gives another key", |c| {
        let paths: Vec<Vec<u32>> = (0..=ctx.pick(3, 4)).flat_map(|d| sequences(steps.len(), d).map(|s| s.iter().map(|i| steps[*i]).collect()).collect::<Vec<_>>()).collect();
        let master = ExtendedVRFPrivateKey::new_master(&[5; 32], VRFKeyKind::Schnorrkel).unwrap();
        let seen = std::sync::Mutex::new(std::collections::BTreeSet::new());
        c.par(paths.len(), |i| {
            let p = &paths[i];
            let key = || format!("path {}", path(p));
            let got = p.iter().fold(master.clone(), |k, n| k.derive_child(ChildNumber::from_index_with_hardened_bit(*n)).unwrap());
            c.evals(1);
            c.nontrivial(1);
            c.outcome_n("derived", 1);
            c.eq(|| format!("{} path", key()), got.get_derivation_path(), &path(p));
            // half of the secret key is a nonce that only matters for its owner; compare what the public sees
            c.eq(|| format!("{} is new", key()), &seen.lock().unwrap().insert(got.to_public_key().public_key().encode()), &true);
            c.eq(|| format!("{} read back", key()), &ExtendedVRFPrivateKey::decode_all(&mut &got.encode()[..]).ok().map(|k| k.encode()), &Some(got.encode()));
            c.eq(|| format!("{} public read back", key()), &ExtendedVRFPublicKey::decode_all(&mut &got.to_public_key().encode()[..]).ok(), &Some(got.to_public_key()));
            let t = || VRFTranscript::new(b"t");
            let proof = got.clone().private_key().produce_vrf_data(t());
            c.eq(|| format!("{} usable", key()), &got.to_public_key().into_public_key().verify_vrf_data(t(), &proof), &Ok(()));
            if let Some((last, before)) = p.split_last() {
                // the step as the schnorrkel library takes it; its nonce half is random, so only the key half is compared
                let parent = before.iter().fold(master.clone(), |k, n| k.derive_child(ChildNumber::from_index_with_hardened_bit(*n)).unwrap()).encode();
                let (code, secret) = (&parent[parent.len() - 97..parent.len() - 65], schnorrkel::SecretKey::from_bytes(&parent[parent.len() - 64..]).unwrap());
                let code = schnorrkel::derive::ChainCode(code.try_into().unwrap());
                let (key_half, next) = if last & H != 0 {
                    let (mini, next) = secret.hard_derive_mini_secret_key(Some(code), last.to_be_bytes());
                    (mini.expand(schnorrkel::ExpansionMode::Uniform), next)
                } else {
                    secret.derived_key_simple(code, last.to_be_bytes())
                };
                let e = got.encode();
                c.eq(|| format!("{} as schnorrkel steps", key()), &(&e[e.len() - 97..e.len() - 65], &e[e.len() - 64..e.len() - 32]), &(&next.0[..], &key_half.to_bytes()[..32]));
            }
            for cut in 0..=p.len() {
                let anc = p[..cut].iter().fold(master.clone(), |k, n| k.derive_child(ChildNumber::from_index_with_hardened_bit(*n)).unwrap());
                let hard = p[cut..].iter().any(|n| n & H != 0);
                let all = guard(|| anc.clone().derive_absolute_path(&path(p)).ok().map(|k| k.to_public_key()));
                c.eq(|| format!("{} from ancestor {cut}", key()), &all, &Ok((cut < p.len()).then(|| got.to_public_key())));
                let public = guard(|| anc.to_public_key().derive_absolute_path(&path(p)).ok());
                c.eq(|| format!("{} publicly from ancestor {cut}", key()), &public, &Ok((cut < p.len() && !hard).then(|| got.to_public_key())));
            }
        });
    });

    ctx.part("masters", "every pair of 66 seeds gives other VRF keys and chain codes, the same seed the same; 64 random extended keys: all keys and chain codes differ", |c| {
        let seeds: Vec<Vec<u8>> = [32, 64].into_iter().flat_map(|n| std::iter::once(vec![0u8; n]).chain((0..32).map(move |i| {
            let mut s = vec![0; n];
            s[i * n / 32] = 1;
            s
        }))).collect();
        let mut seen = std::collections::BTreeMap::new();
        for (i, s) in seeds.iter().enumerate() {
            let key = |s: &[u8]| {
                let e = ExtendedVRFPrivateKey::new_master(s, VRFKeyKind::Schnorrkel).unwrap().to_public_key().encode();
                (e[e.len() - 65..e.len() - 33].to_vec(), e[e.len() - 32..].to_vec())
            };
            let (a, b) = (key(s), key(s));
            c.evals(2);
            c.nontrivial(1);
            c.eq(|| format!("seed {i} again"), &a, &b);
            for half in [a.0, a.1] {
                if let Some(j) = seen.insert(half, i) {
                    c.fail(format!("seeds {i} and {j}"), "the same key or chain code");
                }
            }
        }
        c.outcome("of a seed");
        let mut rng = randomness::make_true_rng();
        let mut seen = std::collections::BTreeSet::new();
        for i in 0..64 {
            let (private, public) = ExtendedPrivateKey::new_from_rng(&mut rng, ExtendedKeyKind::Secp256k1Schnorr);
            c.evals(1);
            c.nontrivial(1);
            c.eq(|| format!("random key {i}"), &private.to_public_key(), &public);
            let e = public.encode();
            for half in [&e[e.len() - 65..e.len() - 33], &e[e.len() - 33..]] {
                c.eq(|| format!("random key {i} is new"), &seen.insert(half.to_vec()), &true);
            }
        }
        c.outcome("of chance");
    });

    ctx.part("longest paths", "255 steps are possible in every way of getting there, 256 are refused", |c| {
        let m = ExtendedPrivateKey::new_master(&[1; 16], ExtendedKeyKind::Secp256k1Schnorr).unwrap();
        let v = ExtendedVRFPrivateKey::new_master(&[1; 16], VRFKeyKind::Schnorrkel);
        let v = match v {
            Ok(v) => v,
            Err(_) => ExtendedVRFPrivateKey::new_master(&[1; 32], VRFKeyKind::Schnorrkel).unwrap(),
        };
        let numbers = vec![ChildNumber::ONE; 255];
        let full: DerivationPath = numbers.clone().try_into().unwrap();
        let k = m.clone().derive_absolute_path(&full).unwrap();
        let w = v.clone().derive_absolute_path(&full).unwrap();
        c.evals(10);
        c.nontrivial(4);
        c.eq(|| "255 steps".into(), &k.get_derivation_path().len(), &255);
        c.eq(|| "255 steps publicly".into(), &m.to_public_key().derive_absolute_path(&full).ok(), &Some(k.to_public_key()));
        c.eq(|| "255 VRF steps publicly".into(), &v.to_public_key().derive_absolute_path(&full).ok(), &Some(w.to_public_key()));
        c.eq(|| "stored after 255 steps".into(), &ExtendedPrivateKey::decode_all(&mut &k.encode()[..]).ok(), &Some(k.clone()));
        c.eq(|| "step 256".into(), &guard(|| k.clone().derive_child(ChildNumber::ONE).is_ok()), &Ok(false));
        c.eq(|| "public step 256".into(), &guard(|| k.to_public_key().derive_child(ChildNumber::ONE).is_ok()), &Ok(false));
        c.eq(|| "VRF step 256".into(), &guard(|| w.clone().derive_child(ChildNumber::ONE).is_ok()), &Ok(false));
        c.eq(|| "public VRF step 256".into(), &guard(|| w.to_public_key().derive_child(ChildNumber::ONE).is_ok()), &Ok(false));
        c.eq(|| "path of 256".into(), &guard(|| DerivationPath::try_from(vec![ChildNumber::ONE; 256]).is_ok()), &Ok(false));
        c.eq(|| "text of 256".into(), &guard(|| format!("m{}", "/1".repeat(256)).parse::<DerivationPath>().is_ok()), &Ok(false));
        c.eq(|| "text of 255".into(), &guard(|| format!("m{}", "/1".repeat(255)).parse::<DerivationPath>().ok()), &Ok(Some(full.clone())));
        c.eq(|| "text printed".into(), &full.to_string(), &format!("m{}", "/1".repeat(255)));
        c.outcome("limit");
    });

    ctx.part("path text", "every text of up to 6 (thorough 7) over m / 0 1 9 ' h + space; numbers around 2^31 with every suffix", |c| {
        let chars = ['m', '/', '0', '1', '\'', 'h', '9', '+', ' '];
        let number = |s: &str| -> Option<u32> {
            let (d, hard) = match s.strip_suffix('\'').or(s.strip_suffix('h')) {
                Some(d) => (d, true),
                None => (s, false),
            };
            if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) || d.len() > 12 {
                return None;
            }
            let n: u64 = d.parse().ok()?;
            (n < H as u64).then(|| n as u32 | if hard { H } else { 0 })
        };
        let parse = |s: &str| -> Option<Vec<u32>> {
            let mut it = s.split('/');
            (it.next()? == "m").then_some(())?;
            it.map(number).collect()
        };
        let max = ctx.pick(7, 8);
        let one = |s: String| {
            let want = parse(&s);
            c.evals(1);
            c.nontrivial(want.is_some() as u64);
            let got = guard(|| s.parse::<DerivationPath>().ok().map(|p| p.as_slice().iter().map(|n| n.into_encoded_index()).collect::<Vec<_>>()));
            if !c.eq(|| format!("{s:?}"), &got, &Ok(want.clone())) {
                return false;
            }
            if let Some(w) = want {
                let p = path(&w);
                let text: String = std::iter::once("m".to_string()).chain(w.iter().map(|n| format!("/{}{}", n & !H, if n & H != 0 { "'" } else { "" }))).collect();
                return c.eq(|| format!("{s:?} printed"), &p.to_string(), &text)
                    && c.eq(|| format!("{s:?} stored"), &DerivationPath::decode_all(&mut &p.encode()[..]).ok(), &Some(p.clone()))
                    && c.eq(|| format!("{s:?} read again"), &text.parse::<DerivationPath>().ok(), &Some(p));
            }
            true
        };
        c.par(chars.len(), |a| {
            for n in 0..max {
                for tail in sequences(chars.len(), n) {
                    let s: String = std::iter::once(a).chain(tail).map(|i| chars[i]).collect();
                    // most texts are refused at once unless they begin properly
                    if !one(s) || c.stop() {
                        return;
                    }
                }
            }
        });
        for n in (0..30u64).chain(H as u64 - 3..H as u64 + 3).chain([u32::MAX as u64, u32::MAX as u64 + 1, 1 << 40, 99_999_999_999]) {
            for suf in ["", "'", "h", "''", "hh", "'h", "H", " ", "/", "//1", "/1'"] {
                for pre in ["m/", "m/0", "m/+", "m/-", "/", "", "M/", "m", "m/1/"] {
                    one(format!("{pre}{n}{suf}"));
                }
            }
        }
        c.outcome("text");
        // child numbers
        c.eq(|| "named 31-bit numbers".into(), &[U31::ZERO, U31::ONE, U31::TWO].map(|u| u.into_u32()), &[0, 1, 2]);
        c.eq(|| "the first child".into(), &(ChildNumber::ZERO.into_encoded_index(), ChildNumber::ZERO.is_hardened()), &(0, false));
        for n in [0u32, 1, 5, H - 2, H - 1, H, H + 1, u32::MAX - 1, u32::MAX] {
            let x = ChildNumber::from_index_with_hardened_bit(n);
            c.evals(1);
            c.nontrivial(1);
            c.eq(|| format!("child number {n}"), &(x.is_hardened(), x.is_normal(), x.get_index().into_u32(), x.into_encoded_index(), x.into_encoded_be_bytes()), &(n >= H, n < H, n & !H, n, n.to_be_bytes()));
            c.eq(|| format!("child number {n} bytes"), &ChildNumber::from_encoded_be_bytes(n.to_be_bytes()), &x);
            let next = guard(|| x.increment().ok().map(|y| y.into_encoded_index()));
            c.eq(|| format!("after child number {n}"), &next, &Ok((n & !H != H - 1).then(|| n + 1)));
            let i = U31::from_u32(n & !H).unwrap();
            c.eq(|| format!("made from {n}"), &if n >= H { ChildNumber::from_hardened(i) } else { ChildNumber::from_normal(i) }, &x);
            c.eq(|| format!("31-bit {n}"), &(U31::from_u32(n).is_some(), U31::decode_all(&mut &n.encode()[..]).is_ok(), n.to_string().parse::<U31>().is_ok()), &(n < H, n < H, n < H));
            c.eq(|| format!("{n} shown"), &(format!("{x}"), format!("{x:#}")), &if n >= H { (format!("{}'", n & !H), format!("{}h", n & !H)) } else { (n.to_string(), n.to_string()) });
        }
    });
}
