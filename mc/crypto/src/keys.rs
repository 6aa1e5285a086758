use crypto::key::{
    KeyKind, PredefinedSigAuxDataProvider, PrivateKey, PublicKey, Signature,
    secp256k1::{Secp256k1PrivateKey, Secp256k1PublicKey},
    signature::SignatureKind,
};
use mc_kit::{Ctx, guard, hex};
use serialization::{DecodeAll, Encode};

use crate::{Chosen, lengths, pattern};

fn digest(msg: &[u8]) -> [u8; 32] {
    use blake2::{Blake2b512, Digest};
    Blake2b512::digest(msg)[..32].try_into().unwrap()
}

fn secrets() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32]; 3];
    v[0][31] = 1;
    v[1][31] = 2;
    // the group order minus one
    v[2] = unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140");
    for i in 0..5u8 {
        v.push(std::array::from_fn(|j| (j as u8).wrapping_mul(i + 3).wrapping_add(i * 17 + 1)));
    }
    v
}
pub fn unhex<const N: usize>(s: &str) -> [u8; N] {
    std::array::from_fn(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
}

pub fn run(ctx: &Ctx) {
    let keys: Vec<(PrivateKey, PublicKey)> = secrets()
        .iter()
        .map(|s| {
            let k: PrivateKey = Secp256k1PrivateKey::from_bytes(s).unwrap().into();
            let p = PublicKey::from_private_key(&k);
            (k, p)
        })
        .collect();

    ctx.part("signatures", "8 keys, messages of every length to 300 and around the powers of two to 2^17: accepted by their key and by the curve library, refused by every other key, made afresh they differ only with the randomness", |c| {
        let secp = secp256k1::Secp256k1::new();
        let lens = lengths(300, 1 << 17);
        c.par(lens.len(), |n| {
            let n = lens[n];
            let msg = pattern(n);
            for (i, (sk, pk)) in keys.iter().enumerate() {
                let sig = guard(|| sk.sign_message(&msg, &mut PredefinedSigAuxDataProvider).unwrap());
                let Ok(sig) = sig else {
                    c.fail(format!("key {i} length {n}"), "signing panicked");
                    return;
                };
                c.evals(1);
                c.nontrivial(1);
                c.outcome("signed");
                c.eq(|| format!("key {i} length {n} verified"), &guard(|| pk.verify_message(&sig, &msg)), &Ok(true));
                c.eq(|| format!("key {i} length {n} signed twice"), &sk.sign_message(&msg, &mut PredefinedSigAuxDataProvider).ok(), &Some(sig.clone()));
                let fresh = sk.sign_message(&msg, &mut Chosen(n as u64)).unwrap();
                c.eq(|| format!("key {i} length {n} with randomness"), &pk.verify_message(&fresh, &msg), &true);
                c.eq(|| format!("key {i} length {n} randomness used"), &(fresh == sig), &false);
                // an independent party: the curve library on the first half of the digest
                let Signature::Secp256k1Schnorr(raw) = &sig;
                let native = Secp256k1PublicKey::try_from(pk.clone()).unwrap();
                let other = secp.verify_schnorr(raw, &secp256k1::Message::from_digest(digest(&msg)), &native.as_native().x_only_public_key().0).is_ok();
                c.eq(|| format!("key {i} length {n} for the curve library"), &other, &true);
                for (j, (_, other)) in keys.iter().enumerate() {
                    // 1 and n-1 are each other's negatives and share their x coordinate
                    if i != j && !(i + j == 2 && i != 1) {
                        c.evals(1);
                        c.outcome("foreign key");
                        c.eq(|| format!("signature of key {i} under key {j}, length {n}"), &guard(|| other.verify_message(&sig, &msg)), &Ok(false));
                    }
                }
            }
        });
    });

    ctx.part("altered", "every bit of the message, of the signature and of its stored form, every cut and an extension, for 3 keys and messages of 1, 32, 64 and 129 bytes", |c| {
        let jobs: Vec<_> = [0usize, 3, 5].iter().flat_map(|k| [1usize, 32, 64, 129].map(|n| (*k, n))).collect();
        c.par(jobs.len(), |j| {
            let (k, n) = jobs[j];
            let (sk, pk) = &keys[k];
            let msg = pattern(n);
            let sig = sk.sign_message(&msg, &mut PredefinedSigAuxDataProvider).unwrap();
            for bit in 0..n * 8 {
                let mut m = msg.clone();
                m[bit / 8] ^= 1 << (bit % 8);
                c.evals(1);
                c.nontrivial(1);
                c.outcome("message altered");
                c.eq(|| format!("key {k} length {n} message bit {bit}"), &guard(|| pk.verify_message(&sig, &m)), &Ok(false));
            }
            for m in [&msg[..n - 1], &[&msg[..], &[0]].concat(), &[&[0][..], &msg].concat()] {
                c.eq(|| format!("key {k} length {n} message of {} bytes", m.len()), &guard(|| pk.verify_message(&sig, m)), &Ok(false));
            }
            let enc = sig.encode();
            c.eq(|| "stored form is a kind and 64 bytes".into(), &(enc.len(), enc[0]), &(65, 0));
            c.eq(|| format!("key {k} stored"), &Signature::from_data(&enc).ok(), &Some(sig.clone()));
            c.eq(|| format!("key {k} raw"), &Signature::from_raw_data(&enc[1..], SignatureKind::Secp256k1Schnorr).ok(), &Some(sig.clone()));
            c.eq(|| format!("key {k} json"), &serde_json::to_string(&sig).unwrap(), &format!("\"{}\"", hex(&enc)));
            for bit in 0..enc.len() * 8 {
                let mut e = enc.clone();
                e[bit / 8] ^= 1 << (bit % 8);
                c.evals(1);
                c.nontrivial(1);
                c.outcome("signature altered");
                let got = guard(|| match Signature::decode_all(&mut &e[..]) {
                    Ok(s) => pk.verify_message(&s, &msg),
                    Err(_) => false,
                });
                c.eq(|| format!("key {k} length {n} signature bit {bit}"), &got, &Ok(false));
            }
            for cut in 0..enc.len() {
                c.eq(|| format!("signature cut to {cut}"), &guard(|| Signature::from_data(&enc[..cut]).is_ok()), &Ok(false));
                c.eq(|| format!("raw signature of {cut}"), &guard(|| Signature::from_raw_data(&enc[..cut], SignatureKind::Secp256k1Schnorr).is_ok()), &Ok(cut == 64));
            }
            c.eq(|| "signature with a byte more".into(), &guard(|| Signature::from_data([&enc[..], &[0]].concat()).is_ok()), &Ok(false));
        });
    });

    ctx.part("key encodings", "private keys around 0 and the group order, public keys of every first byte and of small and altered coordinates, stored and read back, cut and extended", |c| {
        let order = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
        let mut cases: Vec<([u8; 32], bool)> = secrets().iter().map(|s| (*s, true)).collect();
        cases.push(([0; 32], false));
        cases.push((unhex(order), false));
        cases.push((unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364142"), false));
        cases.push(([0xff; 32], false));
        for (s, ok) in cases {
            c.evals(1);
            c.nontrivial(1);
            c.outcome(if ok { "private key" } else { "no private key" });
            let stored = [&[0u8][..], &s].concat();
            c.eq(|| format!("private {}", hex(&s)), &guard(|| Secp256k1PrivateKey::from_bytes(&s).is_ok()), &Ok(ok));
            let got = guard(|| PrivateKey::decode_all(&mut &stored[..]).ok());
            c.eq(|| format!("stored private {}", hex(&s)), &got.as_ref().map(|k| k.is_some()), &Ok(ok));
            if let Ok(Some(k)) = got {
                c.eq(|| "private key stored again".into(), &k.encode(), &stored);
                let want = secp256k1::PublicKey::from_secret_key(&secp256k1::Secp256k1::new(), &secp256k1::SecretKey::from_slice(&s).unwrap()).serialize();
                c.eq(|| format!("public key of {}", hex(&s)), &PublicKey::from_private_key(&k).encode(), &[&[0u8][..], &want].concat());
            }
            for cut in 0..stored.len() {
                c.eq(|| format!("private cut to {cut}"), &guard(|| PrivateKey::decode_all(&mut &stored[..cut]).is_ok()), &Ok(false));
            }
            c.eq(|| "private with more".into(), &guard(|| PrivateKey::decode_all(&mut &[&stored[..], &[0]].concat()[..]).is_ok()), &Ok(false));
        }
        let mut publics: Vec<Vec<u8>> = vec![];
        for (_, pk) in &keys {
            let e = pk.encode();
            for b in 0..=255u8 {
                for at in [0, 1] {
                    let mut m = e.clone();
                    m[at] = b;
                    publics.push(m);
                }
            }
            for bit in 0..e.len() * 8 {
                let mut m = e.clone();
                m[bit / 8] ^= 1 << (bit % 8);
                publics.push(m);
            }
        }
        for x in 0..64u8 {
            for first in [2, 3] {
                let mut m = vec![0, first];
                m.extend([0; 31]);
                m.push(x);
                publics.push(m);
            }
        }
        for m in publics {
            c.evals(1);
            let want = m[0] == 0 && secp256k1::PublicKey::from_slice(&m[1..]).is_ok();
            c.nontrivial(want as u64);
            c.outcome(if want { "public key" } else { "no public key" });
            let got = guard(|| PublicKey::decode_all(&mut &m[..]).ok());
            if !c.eq(|| format!("public {}", hex(&m)), &got.as_ref().map(|k| k.is_some()), &Ok(want)) {
                return;
            }
            if let Ok(Some(k)) = got {
                c.eq(|| "public key stored again".into(), &k.encode(), &m);
                let json = serde_json::to_string(&k).unwrap();
                c.eq(|| "public key json".into(), &json, &format!("\"{}\"", hex(&m)));
                c.eq(|| "public key from json".into(), &serde_json::from_str::<PublicKey>(&json).ok(), &Some(k));
            }
        }
        let e = keys[0].1.encode();
        for cut in 0..e.len() {
            c.eq(|| format!("public cut to {cut}"), &guard(|| PublicKey::decode_all(&mut &e[..cut]).is_ok()), &Ok(false));
            c.eq(|| format!("public bytes of {cut}"), &guard(|| Secp256k1PublicKey::from_bytes(&e[1..][..cut.min(33)]).is_ok()), &Ok(cut >= 33));
        }
    });

    ctx.part("generated", "pairs made from 200 streams of randomness belong together and differ from each other", |c| {
        let mut seen = std::collections::BTreeSet::new();
        for seed in 0..200 {
            let (sk, pk) = PrivateKey::new_from_rng(&mut Chosen(seed), KeyKind::Secp256k1Schnorr);
            c.evals(1);
            c.nontrivial(1);
            c.eq(|| format!("pair {seed}"), &PublicKey::from_private_key(&sk), &pk);
            c.eq(|| format!("pair {seed} is new"), &seen.insert(sk.encode()), &true);
        }
        let (a, ap) = PrivateKey::new_from_entropy(KeyKind::Secp256k1Schnorr);
        let (b, _) = PrivateKey::new_from_entropy(KeyKind::Secp256k1Schnorr);
        c.eq(|| "fresh pair".into(), &PublicKey::from_private_key(&a), &ap);
        c.eq(|| "fresh keys are equal".into(), &(a == b), &false);
        c.outcome("pair");
    });
}
