//! Hashes, names made of them, and what carries them, against their definitions.
use std::fmt::{Debug, Write};

use common::{
    Uint256,
    primitives::{
        H256, Id, Idable, id,
        user_agent::{UserAgent, mintlayer_core_user_agent},
        version_tag::VersionTag,
    },
};
use crypto::hash::StreamHasher;
use mc_kit::{Ctx, PartCtx, guard, hex, sequences};
use serialization::{Compact, Decode, DecodeAll, Encode};
use typename::TypeName;

type WithId<T> = id::WithId<T>;

#[derive(TypeName, Clone, PartialEq, Eq, Debug)]
struct Thing;

/// bytes and the text of them, most significant first
fn values(ctx: &Ctx) -> Vec<[u8; 32]> {
    let mut out = vec![[0; 32], [255; 32], std::array::from_fn(|i| i as u8), std::array::from_fn(|i| 0xf0 - i as u8)];
    for p in 0..32 {
        for v in (0..=255u8).step_by(ctx.pick(5, 1)) {
            let mut a: [u8; 32] = std::array::from_fn(|i| 0x5a ^ (i as u8 * 7));
            a[p] = v;
            out.push(a);
            let mut a = [0; 32];
            a[p] = v;
            out.push(a);
        }
    }
    out
}

/// a text is a hash when it is 64 digits, with or without 0x in front; the library that reads it passes over blanks
fn parse(t: &[u8]) -> Option<[u8; 32]> {
    let t = t.strip_prefix(b"0x").unwrap_or(t);
    let t: Vec<u8> = t.iter().copied().filter(|c| !b" \r\n\t".contains(c)).collect();
    if t.len() != 64 {
        return None;
    }
    let mut out = [0; 32];
    for (i, c) in t.iter().enumerate() {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            b'A'..=b'F' => c - b'A' + 10,
            _ => return None,
        };
        out[i / 2] |= d << (4 * (1 - i % 2));
    }
    Some(out)
}

pub fn run(ctx: &Ctx) {
    ctx.part("texts of hashes and names", "every byte at every place, in every way of writing; read back, ordered, and as a number", |c| {
        let all = values(ctx);
        for (n, b) in all.iter().enumerate() {
            let h = H256(*b);
            let i = Id::<Thing>::new(h);
            let u = Id::<()>::new(h);
            let low = hex(b);
            let up = low.to_uppercase();
            let short = format!("{}…{}", &low[..4], &low[60..]);
            let back: String = b.iter().rev().fold(String::new(), |mut s, x| {
                write!(s, "{x:02x}").unwrap();
                s
            });
            let key = || format!("hash {low}");
            c.evals(1);
            c.nontrivial(1);
            c.eq(key, &[format!("{h:x}"), format!("{h:#x}"), format!("{h:?}"), format!("{h}"), h.as_bitcoin_uint256_hex()], &[low.clone(), format!("0x{low}"), format!("0x{low}"), format!("0x{short}"), back.clone()]);
            c.eq(key, &[format!("{i:x}"), format!("{i:#x}"), format!("{i:X}"), format!("{i:#X}"), format!("{i}"), format!("{i:?}")], &[low.clone(), format!("0x{low}"), up.clone(), format!("0X{up}"), short.clone(), format!("Id<Thing>{{{low}}}")]);
            c.eq(key, &(h.encode(), i.encode(), H256::decode_all(&mut &b[..]).ok(), Id::<Thing>::decode_all(&mut &b[..]).ok().map(|x| x.to_hash())), &(b.to_vec(), b.to_vec(), Some(h), Some(h)));
            c.eq(key, &(i.to_hash(), *i.as_hash(), i.as_ref().to_vec(), Id::<Thing>::from(h) == i), &(h, h, b.to_vec(), true));
            c.eq(key, &(serde_json::to_value(h).ok(), serde_json::to_value(u).ok(), i.serde_serialize(serde_json::value::Serializer).ok()), &(Some(low.clone().into()), Some(low.clone().into()), Some(low.clone().into())));
            for t in [low.clone(), up.clone(), format!("0x{low}"), format!("0x{up}")] {
                let v = serde_json::Value::from(t.clone());
                let got = (t.parse::<H256>().ok(), serde_json::from_value::<H256>(v.clone()).ok(), serde_json::from_value::<Id<()>>(v.clone()).ok().map(|x| x.to_hash()), Id::<Thing>::serde_deserialize(v).ok().map(|x| x.to_hash()));
                c.eq(|| format!("hash read from {t}"), &got, &(Some(h), Some(h), Some(h), Some(h)));
            }
            let number = Uint256::from(h);
            c.eq(key, &(number.to_bytes(), h.into_arith_uint256() == number, H256::from(number), format!("{number:x}").trim_start_matches("0x").to_string()), &(*b, true, h, back));
            // the order is the order of the bytes
            for o in [&all[(n * 7 + 1) % all.len()], &all[(n + 1) % all.len()], b] {
                let (p, j) = (H256(*o), Id::<Thing>::new(H256(*o)));
                let want = b.cmp(o);
                let place = |x: &Id<Thing>| {
                    use std::hash::{DefaultHasher, Hash, Hasher};
                    let mut s = DefaultHasher::new();
                    x.hash(&mut s);
                    s.finish()
                };
                c.eq(|| format!("order of {low} and {}", hex(o)), &(h.cmp(&p), i.cmp(&j), i.partial_cmp(&j), h == p, i == j, !want.is_eq() || place(&i) == place(&j)), &(want, want, Some(want), want.is_eq(), want.is_eq(), true));
            }
        }
        c.eq(|| "nothing".into(), &(H256::zero(), Id::<Thing>::zero().to_hash()), &(H256([0; 32]), H256([0; 32])));
    });

    ctx.part("texts that are no hash", "every character at every place, every length to 70, with and without 0x", |c| {
        let good: String = (0..64).map(|i| char::from_digit(i % 16, 16).unwrap()).collect();
        let mut texts = vec![];
        for p in 0..64 {
            for ch in 0..=255u8 {
                let mut t: Vec<char> = good.chars().collect();
                t[p] = ch as char;
                texts.push(t.iter().collect::<String>());
                if p < 4 {
                    texts.push(format!("0x{}", t.iter().collect::<String>()));
                }
            }
        }
        for n in 0..=70 {
            for pre in ["", "0x", "0X", "0", "x", "0x0x", " ", "+"] {
                texts.push(format!("{pre}{}", good.chars().cycle().take(n).collect::<String>()));
            }
        }
        for t in texts {
            let want = parse(t.as_bytes()).map(H256);
            c.evals(1);
            c.outcome(if want.is_some() { "a hash" } else { "none" });
            let got = guard(|| (t.parse::<H256>().ok(), serde_json::from_value::<Id<()>>(t.clone().into()).ok().map(|x| x.to_hash())));
            c.eq(|| format!("hash read from {t:?}"), &got, &Ok((want, want)));
            c.nontrivial(u64::from(want.is_some()));
        }
        for v in [serde_json::json!(null), serde_json::json!(1), serde_json::json!([]), serde_json::json!({})] {
            c.eq(|| format!("hash read from {v}"), &serde_json::from_value::<H256>(v.clone()).is_ok(), &false);
        }
    });

    ctx.part("the hash of a value", "values of several types and lengths: what is hashed is what would be written, alone and one after another", |c| {
        fn one<T: Encode + Debug>(c: &PartCtx, v: T) -> Vec<u8> {
            let text = v.encode();
            let want: H256 = crypto::hash::hash::<id::DefaultHashAlgo, _>(&text).into();
            c.evals(1);
            c.nontrivial(1);
            c.eq(|| format!("hash of a value of {} bytes beginning {}", text.len(), hex(&text[..text.len().min(8)])), &(id::hash_encoded(&v), id::hash_encoded(&&v), id::default_hash(&text)), &(want, want, want));
            text
        }
        let mut texts = vec![one(c, ()), one(c, true), one(c, 7u8), one(c, 1u128 << 100), one(c, Compact(1u64 << 40)), one(c, (1u8, 2u16, vec![3u32])), one(c, Some(String::from("four"))), one(c, None::<u8>), one(c, [5u8; 32]), one(c, Id::<Thing>::new(H256([6; 32])))];
        for n in (0..300).chain([1000, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 65535, 65536, 65537, 131073, 300000]) {
            let v: Vec<u8> = (0..n).map(|i: u32| (i * 31 + 7) as u8).collect();
            texts.push(one(c, v.clone()));
            one(c, v.iter().map(|b| *b as u16).collect::<Vec<u16>>());
            one(c, v.chunks(7).map(|b| b.to_vec()).collect::<Vec<_>>());
        }
        for w in texts.windows(3) {
            let mut s = id::DefaultHashAlgoStream::new();
            let raw = |b: &Vec<u8>| Raw(b.clone());
            w.iter().for_each(|b| id::hash_encoded_to(&raw(b), &mut s));
            let got: H256 = s.finalize().into();
            c.eq(|| format!("hash of three of {} {} {} bytes", w[0].len(), w[1].len(), w[2].len()), &got, &id::default_hash(w.concat()));
        }
    });

    ctx.part("a thing with its name", "every sequence of up to four of: wrap, write and read back, take out and wrap again, borrow a part, clone", |c| {
        for len in 0..=4 {
            for s in sequences(5, len) {
                for x in [0u8, 1, 77] {
                    let mut w = WithId::new(Whole { part: Part(x), rest: vec![x; 3] });
                    for o in &s {
                        w = match o {
                            0 => WithId::from(WithId::take(w)),
                            1 => WithId::decode_all(&mut &w.encode()[..]).unwrap(),
                            2 => {
                                // another thing read from changed bytes has its own name
                                let mut b = w.encode();
                                b[0] ^= 0x10;
                                WithId::decode_all(&mut &b[..]).unwrap()
                            }
                            3 => {
                                let p = WithId::as_sub_obj(&w);
                                c.eq(|| format!("{s:?}: name of the part"), &(p.get_id(), WithId::get(&p).0), &(w.get_id(), w.part.0));
                                w
                            }
                            _ => w.clone(),
                        };
                        c.transitions(1);
                    }
                    c.evals(1);
                    c.traces(1);
                    let o = WithId::get(&w);
                    c.eq(|| format!("{s:?}: name after"), &(*WithId::id(&w), w.get_id(), (&w).get_id(), w.encode(), w.as_ref() == o, w.rest.clone()), &(o.get_id(), o.get_id(), o.get_id(), o.encode(), true, o.rest.clone()));
                }
            }
        }
        c.nontrivial(1);
    });

    ctx.part("names of programs", "every byte string of up to two bytes, every byte at every place of every length to 30, written and read", |c| {
        let fine = |b: &[u8]| !b.is_empty() && b.len() <= 24 && b.iter().all(|x| (0x21..=0x7e).contains(x));
        let mut one = |b: Vec<u8>| {
            let want = fine(&b).then(|| b.clone());
            let got = guard(|| {
                let a = UserAgent::try_from(b.clone()).ok();
                let d = UserAgent::decode_all(&mut &b.encode()[..]).ok();
                let t = std::str::from_utf8(&b).ok().map(|t| UserAgent::try_from(t).ok());
                let same = a == d && t.is_none_or(|t| t == a);
                (a.map(|a| (a.to_string().into_bytes(), a.encode(), serde_json::to_value(a).ok())), same)
            });
            c.evals(1);
            c.nontrivial(u64::from(want.is_some()));
            c.eq(|| format!("program's name {}", hex(&b)), &got, &Ok((want.map(|w| (w.clone(), w.encode(), serde_json::to_value(&w).ok())), true)));
        };
        one(vec![]);
        for a in 0..=255u8 {
            one(vec![a]);
            (0..=255u8).for_each(|b| one(vec![a, b]));
        }
        for n in 0..=ctx.pick(30, 200) {
            for p in 0..n.min(30) {
                for b in 0..=255u8 {
                    let mut t = vec![b'a'; n];
                    t[p] = b;
                    one(t);
                }
            }
        }
        one("naïve".as_bytes().to_vec());
        c.eq(|| "own name".into(), &mintlayer_core_user_agent().to_string(), &"MintlayerCore".to_string());
    });

    ctx.part("tags of versions", "tags of four versions, each read from every byte", |c| {
        fn tags<const V: u8>(c: &PartCtx) {
            for b in 0..=255u8 {
                c.evals(1);
                let got = VersionTag::<V>::decode_all(&mut &[b][..]).ok().map(|t| (t.encode(), serde_json::to_value(t).ok()));
                c.eq(|| format!("version {V} read from {b}"), &got, &(b == V).then(|| (vec![V], Some(V.into()))));
            }
            c.nontrivial(1);
            c.eq(|| format!("version {V}"), &(VersionTag::<V>::default().encode(), <VersionTag<V> as serialization::Tagged>::TAG), &(vec![V], V));
        }
        tags::<0>(c);
        tags::<1>(c);
        tags::<2>(c);
        tags::<255>(c);
    });

    ctx.part("hashes by chance", "a source that gives one byte over and over, and one that gives each byte once: no byte of the hash is left as it was", |c| {
        for k in 0..=255u8 {
            let mut r = Fixed(k, 0);
            c.evals(1);
            c.nontrivial(1);
            let mut old = H256([!k; 32]);
            old.randomize_using(&mut r);
            c.eq(|| format!("hash from a source of {k}"), &(old, H256::random_using(&mut r), Id::<Thing>::random_using(&mut r).to_hash()), &(H256([k; 32]), H256([k; 32]), H256([k; 32])));
            let mut r = Fixed(k, 1);
            let (a, b) = (H256::random_using(&mut r), H256::random_using(&mut r));
            let seen: std::collections::BTreeSet<u8> = a.0.iter().chain(&b.0).copied().collect();
            c.eq(|| format!("hashes from a counting source at {k}"), &seen.len(), &64);
        }
    });
}

/// gives k in every byte, or counts up from it with each number asked for
struct Fixed(u8, u8);
impl randomness::TryRng for Fixed {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        let k = self.0;
        self.0 = k.wrapping_add(self.1);
        Ok(u32::from_ne_bytes([k; 4]))
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        let k = self.0;
        self.0 = k.wrapping_add(self.1);
        Ok(u64::from_ne_bytes([k; 8]))
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), Self::Error> {
        for x in b {
            *x = self.0;
            self.0 = self.0.wrapping_add(self.1);
        }
        Ok(())
    }
}

fn r_is_long(rest: &[u8]) -> bool {
    rest.len() > 64
}

/// bytes written as they are
struct Raw(Vec<u8>);
impl Encode for Raw {
    fn encode_to<O: serialization::Output + ?Sized>(&self, o: &mut O) {
        // in pieces of every size up to the whole
        let mut rest = &self.0[..];
        for n in (1..6).cycle() {
            let (b, r) = rest.split_at(rest.len().min(if r_is_long(rest) { rest.len() / n } else { n }));
            o.write(b);
            rest = r;
            if rest.is_empty() {
                break;
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
struct Part(u8);
#[derive(Clone, Debug, PartialEq, Eq, Encode, Decode)]
struct Whole {
    part: Part,
    rest: Vec<u8>,
}
impl Idable for Part {
    type Tag = Thing;
    fn get_id(&self) -> Id<Thing> {
        Id::new(H256([self.0; 32]))
    }
}
impl Idable for Whole {
    type Tag = Thing;
    fn get_id(&self) -> Id<Thing> {
        self.part.get_id()
    }
}
impl id::HasSubObjWithSameId<Part> for Whole {
    fn get_sub_obj(&self) -> &Part {
        &self.part
    }
}
