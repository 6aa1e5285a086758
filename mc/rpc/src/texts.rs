use mc_kit::{Ctx, guard, sequences};
use rpc::types::{RpcHexString, RpcString};
use serde_json::{Value, from_value, json, to_value};

/// Hexadecimal digits in pairs, in either case.
fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 == 1 || !b.iter().all(u8::is_ascii_hexdigit) {
        return None;
    }
    Some(b.chunks(2).map(|p| u8::from_str_radix(std::str::from_utf8(p).unwrap(), 16).unwrap()).collect())
}
fn hexed(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

/// What a JSON value means as a text.
fn meaning(v: &Value) -> Option<Vec<u8>> {
    match v {
        Value::String(s) => Some(s.clone().into_bytes()),
        Value::Object(o) => {
            let text = match o.get("text") {
                None | Some(Value::Null) => None,
                Some(Value::String(s)) => Some(s.clone().into_bytes()),
                _ => return None,
            };
            let hex = match o.get("hex") {
                None | Some(Value::Null) => None,
                Some(Value::String(s)) => Some(unhex(s)?),
                _ => return None,
            };
            match (text, hex) {
                (Some(t), Some(h)) => (t == h).then_some(t),
                (t, h) => t.or(h),
            }
        }
        _ => None,
    }
}

pub fn run(ctx: &Ctx) {
    let all = |n: usize| (0..=n).flat_map(|n| sequences(10, n)).map(|s| s.iter().map(|i| [0u8, b'a', b'"', b'\\', 0x7f, 0x80, 0xc3, 0xa9, 0xed, 0xff][*i]).collect::<Vec<u8>>());
    ctx.part("there and back", "every string of up to 4 (thorough 6) of 10 bytes, those that begin and continue a character among them, and every pair of bytes: written out and read back; as text exactly if it is one", |c| {
        let mut bytes: Vec<Vec<u8>> = all(ctx.pick(4, 6)).collect();
        bytes.extend((0..=255u8).flat_map(|a| (0..=255u8).map(move |b| vec![a, b])));
        c.par(64, |k| {
            for b in bytes.iter().skip(k).step_by(64) {
                let s = RpcString::from_bytes(b.clone());
                let text = std::str::from_utf8(b).ok();
                c.evals(1);
                c.nontrivial(1);
                c.outcome(if text.is_some() { "text" } else { "bytes" });
                let j = to_value(&s).unwrap();
                let id = || format!("{}", hexed(b));
                let ok = c.eq(id, &j, &json!({"text": text, "hex": hexed(b)}))
                    && c.eq(|| format!("{} back", id()), &from_value::<RpcString>(j).ok(), &Some(s.clone()))
                    && c.eq(|| format!("{} as text", id()), &s.try_as_str().ok(), &text)
                    && c.eq(|| format!("{} into text", id()), &s.clone().try_into_string().map_err(|(s, _)| s), &text.map(str::to_string).ok_or(s.clone()))
                    && c.eq(|| format!("{} bytes", id()), &(s.as_bytes(), s.clone().into_bytes()), &(&b[..], b.clone()));
                if !ok {
                    return;
                }
                if let Some(t) = text {
                    c.eq(|| format!("{} from text", id()), &RpcString::from_string(t.into()), &s);
                    c.eq(|| format!("{} from a bare text", id()), &from_value::<RpcString>(json!(t)).ok(), &Some(s.clone()));
                }
                let h = RpcHexString::from_bytes(b.clone());
                let j = to_value(&h).unwrap();
                c.eq(|| format!("{} in hex", id()), &(j.clone(), h.to_string(), format!("{h:x}"), h.as_bytes().to_vec()), &(json!(hexed(b)), hexed(b), hexed(b), b.clone()));
                c.eq(|| format!("{} in hex and back", id()), &from_value::<RpcHexString>(j).ok(), &Some(h.clone()));
                c.eq(|| format!("{} from hex", id()), &(RpcString::from(h.clone()), h.into_bytes()), &(s, b.clone()));
            }
        });
    });
    ctx.part("hex", "every text of up to 5 (thorough 6) of 10 characters: read exactly if it is pairs of hexadecimal digits", |c| {
        for n in 0..=ctx.pick(5, 6) {
            for seq in sequences(10, n) {
                let t: String = seq.iter().map(|i| ['0', '9', 'a', 'f', 'A', 'F', 'g', ' ', 'x', 'é'][*i]).collect();
                let want = unhex(&t);
                c.evals(1);
                c.outcome(if want.is_some() { "read" } else { "refused" });
                c.nontrivial(want.is_some() as u64);
                let got = guard(|| (t.parse::<RpcHexString>().ok(), from_value::<RpcHexString>(json!(t)).ok()));
                let w = want.map(RpcHexString::from_bytes);
                if !c.eq(|| t.clone(), &got, &Ok((w.clone(), w))) {
                    return;
                }
            }
        }
    });
    ctx.part("shapes", "every value: null, bare texts, numbers, lists, and objects with every combination of 15 texts, 15 hex strings and wrong types: the text meant, or refused where the two differ or neither is there", |c| {
        let texts = ["", "a", "A", "ab", "61", "é", "\u{0}", "a\u{0}", " ", "g"];
        let mut parts: Vec<Option<Value>> = vec![None, Some(Value::Null), Some(json!(1)), Some(json!(["a"])), Some(json!({}))];
        parts.extend(texts.iter().map(|t| Some(json!(t))));
        let mut hexes = parts[..5].to_vec();
        hexes.extend(texts.iter().map(|t| Some(json!(hexed(t.as_bytes())))));
        hexes.extend([json!("C3A9"), json!("c3"), json!("c"), json!("zz")].map(Some));
        let mut all: Vec<Value> = vec![Value::Null, json!(1), json!(true), json!([]), json!(["a"]), json!([null, "61"]), json!({})];
        all.extend(texts.iter().map(|t| json!(t)));
        for t in &parts {
            for h in &hexes {
                for extra in [false, true] {
                    let mut o = serde_json::Map::new();
                    if let Some(t) = t {
                        o.insert("text".into(), t.clone());
                    }
                    if let Some(h) = h {
                        o.insert("hex".into(), h.clone());
                    }
                    if extra {
                        o.insert("other".into(), json!("x"));
                    }
                    all.push(Value::Object(o));
                }
            }
        }
        for v in all {
            // a list may be taken for the members of an object in order; that is left open
            if v.is_array() {
                c.eq(|| format!("{v} does not panic"), &guard(|| drop(from_value::<RpcString>(v.clone()))).is_ok(), &true);
                continue;
            }
            let want = meaning(&v);
            c.evals(1);
            c.nontrivial(want.is_some() as u64);
            c.outcome(if want.is_some() { "read" } else { "refused" });
            c.eq(|| v.to_string(), &guard(|| from_value::<RpcString>(v.clone()).ok()), &Ok(want.clone().map(RpcString::from_bytes)));
            c.eq(|| format!("{v} as written"), &serde_json::from_str::<RpcString>(&v.to_string()).ok(), &want.map(RpcString::from_bytes));
        }
    });
    ctx.part("characters and lengths", "every character there is, alone, before and after another, in every accepted shape and back; and every length to 600 (thorough 5000) of one-, two- and four-byte characters and of bytes that are no text", |c| {
        let there_and_back = |bytes: &[u8], id: &dyn Fn() -> String| {
            let text = std::str::from_utf8(bytes).ok();
            let s = RpcString::from_bytes(bytes.to_vec());
            let written = serde_json::to_string(&s).ok();
            let j: Option<Value> = written.as_deref().and_then(|w| serde_json::from_str(w).ok());
            let mut ok = c.eq(|| id(), &j, &Some(json!({"text": text, "hex": hexed(bytes)})));
            ok &= c.eq(|| format!("{} back", id()), &serde_json::from_str::<RpcString>(&written.unwrap_or_default()).ok(), &Some(s.clone()));
            ok &= c.eq(|| format!("{} from hex", id()), &from_value::<RpcString>(json!({"hex": hexed(bytes)})).ok(), &Some(s.clone()));
            if let Some(t) = text {
                for v in [json!(t), json!({ "text": t })] {
                    ok &= c.eq(|| format!("{} from a text", id()), &from_value::<RpcString>(v).ok(), &Some(s.clone()));
                }
            }
            c.evals(1);
            c.nontrivial(1);
            ok
        };
        c.par(64, |k| {
            for ch in ('\0'..=char::MAX).skip(k).step_by(64) {
                for text in [format!("{ch}"), format!("{ch}b"), format!("a{ch}")] {
                    if !there_and_back(text.as_bytes(), &|| format!("{text:?}")) {
                        return;
                    }
                }
            }
        });
        c.outcome_n("characters", 0x11_0000 - 0x800);
        let longest = ctx.pick(600, 5000);
        c.par(64, |k| {
            for n in (0..=longest).skip(k).step_by(64) {
                for unit in [&b"a"[..], "é".as_bytes(), "😀".as_bytes(), b"\xff", b"\0"] {
                    if !there_and_back(&unit.repeat(n), &|| format!("{n} times {}", hexed(unit))) {
                        return;
                    }
                }
            }
        });
        c.outcome_n("lengths", longest as u64 + 1);
        let long: Vec<usize> = (10..=17).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).chain([100_000, 1_000_000]).collect();
        c.par(long.len(), |k| {
            for unit in [&b"a"[..], "é".as_bytes(), b"\xff"] {
                if !there_and_back(&unit.repeat(long[k]), &|| format!("{} times {}", long[k], hexed(unit))) {
                    return;
                }
            }
        });
        c.outcome_n("long", long.len() as u64);
        // a bare text is itself, whatever it looks like
        for word in ["hex:", "HEX:", "0x", "0X", "x'", "\\x", "#", "$", "base64:", "b64:", "text:", "utf8:", "bytes:", "data:", "data:;base64,", "raw:", "@", "%", "&#x", "u+", "{", "[", "\"", "'", "null", "true", "1", " ", "\n"] {
            for rest in ["", "61", "6162", "c3a9", "C3A9", "YWI=", "a", "1", "61 ", "61'", "61\"", "\"hex\":\"61\"}"] {
                for text in [format!("{word}{rest}"), format!("{word} {rest}"), format!("{rest}{word}")] {
                    there_and_back(text.as_bytes(), &|| format!("{text:?}"));
                    c.eq(|| format!("{text:?} as hex"), &text.parse::<RpcHexString>().ok().map(|h| h.into_bytes()), &unhex(&text));
                }
            }
        }
    });
}
