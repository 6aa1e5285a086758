use std::collections::BTreeMap;
use std::sync::Mutex;

use crypto::vrf::{
    VRFKeyKind, VRFPrivateKey, VRFPublicKey, VRFReturn,
    transcript::{no_rng::VRFTranscript, traits::SignableTranscript, with_rng::VRFTranscriptWithRng},
};
use generic_array::typenum::{U32, U64};
use mc_kit::{Ctx, guard, hex, sequences};
use serialization::{DecodeAll, Encode};

use crate::Chosen;

#[derive(Clone, Copy, Debug)]
enum Item {
    Num(&'static [u8], u64),
    Raw(&'static [u8], &'static [u8]),
}
const ITEMS: [Item; 8] = [
    Item::Num(b"a", 1),
    Item::Num(b"a", 1 << 32),
    Item::Num(b"b", 1),
    Item::Raw(b"a", b""),
    Item::Raw(b"a", b"x"),
    Item::Raw(b"b", b"x"),
    Item::Raw(b"", b"ax"),
    Item::Raw(b"a", b"xx"),
];
fn build<T: SignableTranscript>(t: T, s: &[usize]) -> T {
    s.iter().fold(t, |t, i| match ITEMS[*i] {
        Item::Num(l, v) => t.attach_u64(l, v),
        Item::Raw(l, v) => t.attach_raw_data(l, v),
    })
}
fn plain(label: &'static [u8], s: &[usize]) -> VRFTranscript {
    build(VRFTranscript::new(label), s)
}
fn reference(label: &'static [u8], s: &[usize]) -> merlin::Transcript {
    let mut t = merlin::Transcript::new(label);
    for i in s {
        match ITEMS[*i] {
            Item::Num(l, v) => t.append_message(l, &v.to_le_bytes()),
            Item::Raw(l, v) => t.append_message(l, v),
        }
    }
    t
}
fn output(pk: &VRFPublicKey, r: &VRFReturn, t: VRFTranscript) -> Option<Vec<u8>> {
    let VRFReturn::Schnorrkel(d) = r;
    d.calculate_vrf_output_with_generic_key::<U32, _>(pk.clone(), t).ok().map(|b| b.to_vec())
}

pub fn run(ctx: &Ctx) {
    let keys: Vec<(VRFPrivateKey, VRFPublicKey)> = (0..4u8).map(|i| VRFPrivateKey::new_using_random_bytes(&[i * 60 + 1; 32], VRFKeyKind::Schnorrkel).unwrap()).collect();

    ctx.part("proofs", "4 keys, every input of up to 3 attachments (8 kinds) under 2 labels: accepted for that input and key, one output per input and key whatever the randomness", |c| {
        let mut inputs: Vec<(&'static [u8], Vec<usize>)> = vec![];
        for label in [&b"one"[..], b"two"] {
            for n in 0..=ctx.pick(3, 4) {
                inputs.extend(sequences(ITEMS.len(), n).map(|s| (label, s)));
            }
        }
        let outputs: Mutex<BTreeMap<Vec<u8>, String>> = Default::default();
        c.par(inputs.len(), |i| {
            let (label, s) = &inputs[i];
            for (k, (sk, pk)) in keys.iter().enumerate() {
                let key = || format!("key {k} label {} attachments {:?}", String::from_utf8_lossy(label), s.iter().map(|i| ITEMS[*i]).collect::<Vec<_>>());
                c.evals(1);
                c.nontrivial(1);
                let ways: Vec<VRFReturn> = vec![
                    sk.produce_vrf_data(plain(label, s)),
                    sk.produce_vrf_data(plain(label, s)),
                    sk.produce_vrf_data(build(VRFTranscriptWithRng::new(label, Chosen(3)), s)),
                    sk.produce_vrf_data(build(VRFTranscript::new(label).with_rng(Chosen(4)), s)),
                    sk.produce_vrf_data(plain(label, s).with_rng(Chosen(5))),
                ];
                let out = output(pk, &ways[0], plain(label, s));
                for (w, r) in ways.iter().enumerate() {
                    c.eq(|| format!("{} way {w}", key()), &guard(|| pk.verify_vrf_data(plain(label, s), r)), &Ok(Ok(())));
                    c.eq(|| format!("{} way {w} with randomness", key()), &pk.verify_vrf_data(build(VRFTranscriptWithRng::new(label, Chosen(9)), s), r), &Ok(()));
                    c.eq(|| format!("{} way {w} output", key()), &output(pk, r, plain(label, s)), &out);
                    let VRFReturn::Schnorrkel(d) = r;
                    let lib = schnorrkel::PublicKey::from_bytes(&pk.encode()[1..]).unwrap();
                    let pre = schnorrkel::vrf::VRFPreOut::from_bytes(&d.vrf_preout()).unwrap();
                    let proof = schnorrkel::vrf::VRFProof::from_bytes(&d.vrf_proof()).unwrap();
                    c.eq(|| format!("{} way {w} for the library", key()), &lib.vrf_verify(reference(label, s), &pre, &proof).is_ok(), &true);
                    let VRFReturn::Schnorrkel(first) = &ways[0];
                    c.eq(|| format!("{} way {w} same output", key()), &d.vrf_preout(), &first.vrf_preout());
                }
                // randomness chosen by the caller is what decides
                let again = sk.produce_vrf_data(build(VRFTranscriptWithRng::new(label, Chosen(3)), s));
                c.eq(|| format!("{} repeated", key()), &again, &ways[2]);
                c.eq(|| format!("{} other randomness", key()), &(ways[2] == ways[3]), &false);
                if let Some(o) = &out {
                    if let Some(prev) = outputs.lock().unwrap().insert(o.clone(), key()) {
                        c.fail(key(), format!("same output as {prev}"));
                        return;
                    }
                }
                c.outcome(if out.is_some() { "proved" } else { "no output" });
                let VRFReturn::Schnorrkel(d) = &ways[0];
                let long = d.calculate_vrf_output_with_generic_key::<U64, _>(pk.clone(), plain(label, s)).unwrap().to_vec();
                c.eq(|| format!("{} long output", key()), &long.len(), &64);
                for (o, (_, other)) in keys.iter().enumerate() {
                    if o != k {
                        c.evals(1);
                        c.outcome("foreign key");
                        c.eq(|| format!("{} under key {o}", key()), &guard(|| other.verify_vrf_data(plain(label, s), &ways[0]).is_ok()), &Ok(false));
                        c.eq(|| format!("{} output under key {o}", key()), &(output(other, &ways[0], plain(label, s)) == out), &false);
                    }
                }
                // every neighbouring input
                let mut others: Vec<(&'static [u8], Vec<usize>)> = vec![(if label == b"one" { b"two" } else { b"one" }, s.clone())];
                for at in 0..s.len() {
                    let mut t = s.clone();
                    t.remove(at);
                    others.push((label, t));
                    for v in 0..ITEMS.len() {
                        let mut t = s.clone();
                        t[at] = v;
                        others.push((label, t));
                    }
                    if at > 0 {
                        let mut t = s.clone();
                        t.swap(at, at - 1);
                        others.push((label, t));
                    }
                }
                for v in 0..ITEMS.len() {
                    others.push((label, [&s[..], &[v]].concat()));
                }
                for (l, t) in others {
                    if (l, &t) != (*label, s) {
                        c.evals(1);
                        c.nontrivial(1);
                        c.outcome("other input");
                        c.eq(|| format!("{} for input {t:?}", key()), &guard(|| pk.verify_vrf_data(plain(l, &t), &ways[0]).is_ok()), &Ok(false));
                        c.eq(|| format!("{} output for input {t:?}", key()), &(output(pk, &ways[0], plain(l, &t)) == out), &false);
                    }
                }
            }
        });
    });

    ctx.part("long inputs", "data of every length to 300 and around the powers of two to 2^16 with another last byte, another length or cut in two, and every bit of a number: other inputs, refused and of other output", |c| {
        let lens = crate::lengths(300, 1 << 16);
        let (sk, pk) = &keys[0];
        let raw = |v: &[u8]| VRFTranscript::new(b"one").attach_raw_data(b"a", v);
        c.par(lens.len(), |i| {
            let n = lens[i];
            let m = crate::pattern(n);
            let VRFReturn::Schnorrkel(d) = sk.produce_vrf_data(raw(&m));
            let r = VRFReturn::Schnorrkel(d);
            c.evals(1);
            c.nontrivial(1);
            c.outcome("long");
            c.eq(|| format!("length {n}"), &guard(|| pk.verify_vrf_data(raw(&m), &r)), &Ok(Ok(())));
            let mut reference = merlin::Transcript::new(b"one");
            reference.append_message(b"a", &m);
            let VRFReturn::Schnorrkel(d) = &r;
            let lib = schnorrkel::PublicKey::from_bytes(&pk.encode()[1..]).unwrap();
            let ok = lib.vrf_verify(reference, &schnorrkel::vrf::VRFPreOut::from_bytes(&d.vrf_preout()).unwrap(), &schnorrkel::vrf::VRFProof::from_bytes(&d.vrf_proof()).unwrap()).is_ok();
            c.eq(|| format!("length {n} for the library"), &ok, &true);
            let with = build(VRFTranscriptWithRng::new(b"one", Chosen(1)), &[]).attach_raw_data(b"a", &m);
            c.eq(|| format!("length {n} with randomness"), &guard(|| pk.verify_vrf_data(with, &r)), &Ok(Ok(())));
            let out = output(pk, &r, raw(&m));
            let mut others = vec![[&m[..], &[0]].concat()];
            if n > 0 {
                others.push(m[..n - 1].to_vec());
                for at in [0, n / 2, n - 1] {
                    let mut o = m.clone();
                    o[at] ^= 0x10;
                    others.push(o);
                }
            }
            let mut wrong: Vec<VRFTranscript> = others.iter().map(|o| raw(o)).collect();
            wrong.push(raw(&m[..n / 2]).attach_raw_data(b"a", &m[n / 2..]));
            let again = || -> Vec<VRFTranscript> { others.iter().map(|o| raw(o)).chain([raw(&m[..n / 2]).attach_raw_data(b"a", &m[n / 2..])]).collect() };
            for (j, t) in wrong.into_iter().enumerate() {
                c.evals(1);
                c.outcome("other long input");
                c.eq(|| format!("length {n}, other {j}"), &guard(|| pk.verify_vrf_data(t, &r).is_ok()), &Ok(false));
            }
            for (j, t) in again().into_iter().enumerate() {
                c.eq(|| format!("length {n}, other {j}, output"), &(output(pk, &r, t) == out), &false);
            }
        });
        let num = |v: u64| VRFTranscript::new(b"one").attach_u64(b"a", v);
        for v in [0u64, 1, 0x0123_4567_89ab_cdef, u64::MAX] {
            let r = sk.produce_vrf_data(num(v));
            c.eq(|| format!("number {v}"), &pk.verify_vrf_data(num(v), &r), &Ok(()));
            c.eq(|| format!("number {v} as its bytes"), &pk.verify_vrf_data(raw(&v.to_le_bytes()), &r), &Ok(()));
            for bit in 0..64 {
                c.evals(1);
                c.nontrivial(1);
                c.outcome("other number");
                c.eq(|| format!("number {v} bit {bit}"), &guard(|| pk.verify_vrf_data(num(v ^ (1 << bit)), &r).is_ok()), &Ok(false));
            }
        }
    });

    ctx.part("altered", "every bit and every cut of a stored proof and of a stored key", |c| {
        for (k, (sk, pk)) in keys.iter().enumerate().take(2) {
            let t = || plain(b"one", &[0, 4]);
            let r = sk.produce_vrf_data(t());
            let e = r.encode();
            c.eq(|| "stored length".into(), &(e.len(), e[0]), &(97, 0));
            c.eq(|| format!("key {k} proof read back"), &VRFReturn::decode_all(&mut &e[..]).ok(), &Some(r.clone()));
            let VRFReturn::Schnorrkel(d) = &r;
            c.eq(|| "proof parts".into(), &[&[0][..], &d.vrf_preout(), &d.vrf_proof()].concat(), &e);
            c.eq(|| "proof json".into(), &serde_json::to_string(&r).unwrap(), &format!("{{\"Schnorrkel\":\"{}\"}}", hex(&e[1..])));
            c.par(e.len() * 8, |bit| {
                let mut m = e.clone();
                m[bit / 8] ^= 1 << (bit % 8);
                c.evals(1);
                c.nontrivial(1);
                c.outcome("proof altered");
                let got = guard(|| VRFReturn::decode_all(&mut &m[..]).is_ok_and(|x| pk.verify_vrf_data(t(), &x).is_ok()));
                c.eq(|| format!("key {k} proof bit {bit}"), &got, &Ok(false));
            });
            for (what, e) in [("proof", &e), ("public", &pk.encode()), ("private", &sk.encode())] {
                for cut in 0..e.len() {
                    let ok = guard(|| match what {
                        "proof" => VRFReturn::decode_all(&mut &e[..cut]).is_ok(),
                        "public" => VRFPublicKey::decode_all(&mut &e[..cut]).is_ok(),
                        _ => VRFPrivateKey::decode_all(&mut &e[..cut]).is_ok(),
                    });
                    c.eq(|| format!("{what} cut to {cut}"), &ok, &Ok(false));
                }
                let more = [&e[..], &[0]].concat();
                c.eq(|| format!("{what} with more"), &(VRFReturn::decode_all(&mut &more[..]).is_ok() || VRFPublicKey::decode_all(&mut &more[..]).is_ok() || VRFPrivateKey::decode_all(&mut &more[..]).is_ok()), &false);
            }
            c.eq(|| format!("key {k} private read back"), &VRFPrivateKey::decode_all(&mut &sk.encode()[..]).ok(), &Some(sk.clone()));
            c.eq(|| format!("key {k} public of private"), &sk.to_public_key(), pk);
            let json = serde_json::to_string(pk).unwrap();
            c.eq(|| format!("key {k} json"), &json, &format!("\"{}\"", hex(&pk.encode())));
            c.eq(|| format!("key {k} from json"), &serde_json::from_str::<VRFPublicKey>(&json).ok(), &Some(pk.clone()));
            let e = pk.encode();
            for bit in 0..e.len() * 8 {
                let mut m = e.clone();
                m[bit / 8] ^= 1 << (bit % 8);
                c.evals(1);
                let want = m[0] == 0 && schnorrkel::PublicKey::from_bytes(&m[1..]).is_ok();
                let got = guard(|| VRFPublicKey::decode_all(&mut &m[..]).ok());
                c.eq(|| format!("key {k} public bit {bit}"), &got.as_ref().map(|x| x.is_some()), &Ok(want));
                if let Ok(Some(x)) = got {
                    c.eq(|| format!("key {k} public bit {bit} verifies"), &x.verify_vrf_data(t(), &r).is_ok(), &false);
                }
                c.outcome("key altered");
            }
        }
        for n in 0..70 {
            c.eq(|| format!("key from {n} bytes"), &guard(|| VRFPrivateKey::new_using_random_bytes(&vec![3; n], VRFKeyKind::Schnorrkel).is_ok()), &Ok(n == 32));
        }
        for seed in 0..50 {
            let (sk, pk) = VRFPrivateKey::new_from_rng(&mut Chosen(seed), VRFKeyKind::Schnorrkel);
            c.eq(|| format!("pair {seed}"), &sk.to_public_key(), &pk);
        }
    });
}
