use chacha20poly1305::{KeyInit, XChaCha20Poly1305, aead::{Aead, Payload}};
use crypto::{
    ephemeral_e2e::{EndToEndPrivateKey, EndToEndPublicKey},
    symkey::{SymmetricKey, SymmetricKeyKind, key_size},
};
use mc_kit::{Ctx, guard, hex};
use serialization::{DecodeAll, Encode};

use crate::{Chosen, lengths, pattern};

const KIND: SymmetricKeyKind = SymmetricKeyKind::XChacha20Poly1305;

pub fn run(ctx: &Ctx) {
    let raw: Vec<[u8; 32]> = (0..4u8).map(|i| std::array::from_fn(|j| (j as u8).wrapping_mul(7).wrapping_add(i.wrapping_mul(50)))).collect();
    let keys: Vec<SymmetricKey> = raw.iter().map(|k| SymmetricKey::from_raw_key(KIND, k).unwrap()).collect();
    let ads: Vec<Option<Vec<u8>>> = vec![None, Some(vec![]), Some(vec![0]), Some(pattern(16)), Some(pattern(17)), Some(pattern(100)), Some(pattern(1000)), Some(pattern(40000)), Some([pattern(39999), vec![0]].concat())];
    let same = |a: &Option<Vec<u8>>, b: &Option<Vec<u8>>| a.clone().unwrap_or_default() == b.clone().unwrap_or_default();

    ctx.part("round trips", "messages of every length to 300 and around the powers of two to 2^17, 4 keys, 9 kinds of associated data: only the same key and data open it, and what comes out is what went in", |c| {
        let lens = lengths(300, 1 << 17);
        c.par(lens.len(), |i| {
            let msg = pattern(lens[i]);
            for (k, key) in keys.iter().enumerate() {
                let mut rng = Chosen((lens[i] * 10 + k) as u64);
                let mut nonces = std::collections::BTreeSet::new();
                for (a, ad) in ads.iter().enumerate() {
                    let Ok(Ok(ct)) = guard(|| key.encrypt(&msg, &mut rng, ad.as_deref())) else {
                        c.fail(format!("key {k} data {a} length {}", msg.len()), "could not encrypt");
                        return;
                    };
                    c.evals(1);
                    c.nontrivial(1);
                    c.outcome("sealed");
                    let id = || format!("key {k} data {a} length {}", msg.len());
                    c.eq(id, &ct.len(), &(24 + msg.len() + 16));
                    c.eq(|| format!("{} has its own nonce", id()), &nonces.insert(ct[..24].to_vec()), &true);
                    // another implementation opens it
                    let lib = XChaCha20Poly1305::new(raw[k].as_slice().into());
                    let opened = lib.decrypt(ct[..24].into(), Payload { msg: &ct[24..], aad: ad.as_deref().unwrap_or(b"") }).ok();
                    c.eq(|| format!("{} opened by the library", id()), &opened, &Some(msg.clone()));
                    for (b, bd) in ads.iter().enumerate() {
                        for (j, other) in keys.iter().enumerate() {
                            let want = (j == k && same(ad, bd)).then(|| msg.clone());
                            let got = guard(|| other.decrypt(&ct, bd.as_deref()).ok());
                            c.evals(1);
                            c.nontrivial(1);
                            c.outcome(if want.is_some() { "opened" } else { "kept shut" });
                            if !c.eq(|| format!("{} opened with key {j} data {b}", id()), &got, &Ok(want)) {
                                return;
                            }
                        }
                    }
                }
            }
        });
    });

    ctx.part("altered", "every bit, every cut, every byte removed or repeated, of sealed messages of 0, 1, 15, 16, 17, 64 and 65 bytes; every bit of the key and the associated data", |c| {
        let lens = [0usize, 1, 15, 16, 17, 64, 65];
        c.par(lens.len(), |i| {
            let msg = pattern(lens[i]);
            let ad = pattern(300);
            let ct = keys[1].encrypt(&msg, &mut Chosen(1), Some(&ad)).unwrap();
            let shut = |what: String, m: &[u8], key: &SymmetricKey, ad: &[u8]| {
                c.evals(1);
                c.nontrivial(1);
                c.outcome("kept shut");
                c.eq(|| format!("length {} {what}", msg.len()), &guard(|| key.decrypt(m, Some(ad)).is_ok()), &Ok(false))
            };
            for bit in 0..ct.len() * 8 {
                let mut m = ct.clone();
                m[bit / 8] ^= 1 << (bit % 8);
                shut(format!("bit {bit}"), &m, &keys[1], &ad);
            }
            for cut in 0..ct.len() {
                shut(format!("cut to {cut}"), &ct[..cut], &keys[1], &ad);
                shut(format!("from {}", cut + 1), &ct[cut + 1..], &keys[1], &ad);
                let mut m = ct.clone();
                let b = m.remove(cut);
                if ct[..cut].iter().any(|x| *x != b) || cut == 0 {
                    shut(format!("without byte {cut}"), &m, &keys[1], &ad);
                }
            }
            shut("one more byte".into(), &[&ct[..], &[0]].concat(), &keys[1], &ad);
            for bit in 0..256 {
                let mut k = raw[1];
                k[bit / 8] ^= 1 << (bit % 8);
                shut(format!("key bit {bit}"), &ct, &SymmetricKey::from_raw_key(KIND, &k).unwrap(), &ad);
            }
            for bit in 0..ad.len() * 8 {
                let mut a = ad.clone();
                a[bit / 8] ^= 1 << (bit % 8);
                shut(format!("data bit {bit}"), &ct, &keys[1], &a);
            }
            for cut in 0..ad.len() {
                shut(format!("data cut to {cut}"), &ct, &keys[1], &ad[..cut]);
            }
        });
    });

    ctx.part("keys", "raw keys of every length to 70, stored keys, keys from randomness", |c| {
        for n in 0..70 {
            c.evals(1);
            c.nontrivial(1);
            c.outcome(if n == 32 { "key" } else { "no key" });
            c.eq(|| format!("raw key of {n}"), &guard(|| SymmetricKey::from_raw_key(KIND, &pattern(n)).is_ok()), &Ok(n == 32));
        }
        c.eq(|| "key size".into(), &key_size(KIND), &32);
        for k in &keys {
            let e = k.encode();
            c.eq(|| "stored key".into(), &SymmetricKey::decode_all(&mut &e[..]).ok(), &Some(k.clone()));
            for cut in 0..e.len() {
                c.eq(|| format!("stored key cut to {cut}"), &SymmetricKey::decode_all(&mut &e[..cut]).is_ok(), &false);
            }
            for kind in 1..=255u8 {
                let mut m = e.clone();
                m[0] = kind;
                c.eq(|| format!("stored key of kind {kind}"), &SymmetricKey::decode_all(&mut &m[..]).is_ok(), &false);
            }
        }
        let made: std::collections::BTreeSet<Vec<u8>> = (0..100).map(|s| SymmetricKey::new(KIND, &mut Chosen(s)).encode()).collect();
        c.eq(|| "keys made from randomness".into(), &made.len(), &100);
        let mut rng = Chosen(1);
        let (a, b) = (SymmetricKey::new(KIND, &mut rng), SymmetricKey::new(KIND, &mut rng));
        c.eq(|| "two keys in a row".into(), &(a == b), &false);
    });

    ctx.part("two parties", "6 parties: every pair agrees on one secret, every other pair has another; what one seals only the other opens", |c| {
        let n = 6;
        let parties: Vec<EndToEndPrivateKey> = (0..n as u64).map(|i| EndToEndPrivateKey::new_from_rng(&mut Chosen(i * 1000))).collect();
        let publics: Vec<EndToEndPublicKey> = parties.iter().map(|p| {
            let k = p.public_key();
            let e = k.encode();
            c.eq(|| "public key bytes".into(), &e, &k.as_bytes().to_vec());
            for cut in 0..e.len() {
                c.eq(|| format!("public key cut to {cut}"), &EndToEndPublicKey::decode_all(&mut &e[..cut]).is_ok(), &false);
            }
            let back = EndToEndPublicKey::decode_all(&mut &e[..]).unwrap();
            c.eq(|| "public key read back".into(), &back, &k);
            back
        }).collect();
        for a in 0..n {
            for b in 0..n {
                if a == b {
                    // sharing a secret with oneself is a programming error and is reported as one
                    c.eq(|| format!("secret of {a} with itself"), &guard(|| parties[a].shared_secret(&publics[a]).encrypt(b"", &mut Chosen(1)).is_ok()).is_ok(), &false);
                    continue;
                }
                let s = parties[a].shared_secret(&publics[b]);
                c.evals(1);
                c.nontrivial(1);
                c.outcome("agreed");
                c.eq(|| format!("secret of {a} and {b}"), &s, &parties[b].shared_secret(&publics[a]));
                for len in [0usize, 1, 33, 200] {
                    let msg = pattern(len);
                    let ct = s.encrypt(&msg, &mut Chosen((a * n + b) as u64)).unwrap();
                    let ct2 = s.encode_then_encrypt(&msg, &mut Chosen((a * n + b) as u64 + 500)).unwrap();
                    for x in 0..n {
                        for y in 0..n {
                            if x == y {
                                continue;
                            }
                            let ok = (x, y) == (a, b) || (x, y) == (b, a);
                            let t = parties[x].shared_secret(&publics[y]);
                            c.evals(1);
                            c.eq(|| format!("from {a} to {b} opened by {x} and {y}"), &guard(|| t.decrypt(&ct).ok()), &Ok(ok.then(|| msg.clone())));
                            c.eq(|| format!("object from {a} to {b} opened by {x} and {y}"), &guard(|| t.decrypt_then_decode::<Vec<u8>>(&ct2).ok()), &Ok(ok.then(|| msg.clone())));
                        }
                    }
                    // an object must be the whole of what was sealed
                    for (bytes, want) in [(msg.encode(), true), ([&msg.encode()[..], &[0]].concat(), false), (msg.encode()[1..].to_vec(), false)] {
                        if !want && Vec::<u8>::decode_all(&mut &bytes[..]).is_ok() {
                            continue;
                        }
                        let ct = s.encrypt(&bytes, &mut Chosen(7)).unwrap();
                        c.eq(|| format!("object {}", hex(&bytes)), &guard(|| s.decrypt_then_decode::<Vec<u8>>(&ct).is_ok()), &Ok(want));
                    }
                    for bit in (0..ct.len() * 8).step_by(if len > 40 { 13 } else { 1 }) {
                        let mut m = ct.clone();
                        m[bit / 8] ^= 1 << (bit % 8);
                        c.evals(1);
                        c.outcome("kept shut");
                        c.eq(|| format!("bit {bit} of {len}"), &guard(|| s.decrypt(&m).is_ok() || s.decrypt_then_decode::<Vec<u8>>(&m).is_ok()), &Ok(false));
                    }
                    for cut in 0..ct.len() {
                        c.eq(|| format!("cut {cut} of {len}"), &guard(|| s.decrypt(&ct[..cut]).is_ok()), &Ok(false));
                    }
                }
            }
        }
    });
}
