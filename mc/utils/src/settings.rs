use std::{os::unix::ffi::OsStrExt, path::PathBuf};

use crypto::symkey::{SymmetricKey, SymmetricKeyKind};
use logging::{LogStyle, TextColoring, get_log_style_from_env};
use mc_kit::{Ctx, Scratch, guard, hex};
use serialization::{DecodeAll, Encode};
use utils::{
    cookie::load_cookie,
    default_data_dir::{PrepareDataDirError, prepare_data_dir},
    env_utils::bool_from_env,
    make_config_setting,
    maybe_encrypted::MaybeEncrypted,
};

make_config_setting!(Number, u32, 17);

/// A text, its case variants, and everything one edit away.
fn near(words: &[&str]) -> Vec<String> {
    let mut all = vec![];
    for w in words {
        let letters: Vec<usize> = w.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|(i, _)| i).collect();
        for mask in 0..1usize << letters.len().min(6) {
            let mut b = w.as_bytes().to_vec();
            for (k, at) in letters.iter().take(6).enumerate() {
                if mask >> k & 1 == 1 {
                    b[*at] = b[*at].to_ascii_uppercase();
                }
            }
            all.push(String::from_utf8(b).unwrap());
        }
        all.push(w.to_uppercase());
        for at in 0..=w.len() {
            for ch in ["", " ", "0", "1", "a", "s", "-", "_", "\t", "é", "İ", "\u{212a}"] {
                all.push(format!("{}{ch}{}", &w[..at], &w[at..]));
                if at < w.len() {
                    all.push(format!("{}{ch}{}", &w[..at], &w[at + 1..]));
                }
            }
        }
    }
    all.extend(["", " ", "on", "off", "y", "n", "t", "f", "null", "2", "01", "TRUE FALSE", "xml"].map(String::from));
    all.sort();
    all.dedup();
    all
}

pub fn run(ctx: &Ctx) {
    const VAR: &str = "MC_SETTING";
    let set = |v: Option<&[u8]>| match v {
        // nothing else runs in this process while this part does
        Some(v) => unsafe { std::env::set_var(VAR, std::ffi::OsStr::from_bytes(v)) },
        None => unsafe { std::env::remove_var(VAR) },
    };

    ctx.part("yes and no", "the words for yes and no in every case, and everything one edit away; unset, and not text", |c| {
        for s in near(&["1", "yes", "true", "0", "no", "false"]) {
            set(Some(s.as_bytes()));
            let low = s.to_ascii_lowercase();
            let want = match low.as_str() {
                "1" | "yes" | "true" => Some(true),
                "0" | "no" | "false" => Some(false),
                _ => None,
            };
            let got = guard(|| bool_from_env(VAR).ok());
            c.evals(1);
            c.nontrivial(1);
            c.outcome(if want.is_some() { "a word" } else { "no word" });
            c.eq(|| format!("{s:?}"), &got, &Ok(want.map(Some)));
        }
        set(None);
        c.eq(|| "unset".into(), &bool_from_env(VAR).ok(), &Some(None));
        set(Some(b"\xff\xfe"));
        c.eq(|| "not text".into(), &bool_from_env(VAR).is_err(), &true);
        set(None);
    });

    ctx.part("log styles", "the styles in every case, and everything one edit away; by name and from the environment", |c| {
        for s in near(&["json", "text", "text-colored", "text-uncolored"]) {
            let want = match s.to_ascii_lowercase().as_str() {
                "json" => Some(LogStyle::Json),
                "text" => Some(LogStyle::Text(TextColoring::Auto)),
                "text-colored" => Some(LogStyle::Text(TextColoring::On)),
                "text-uncolored" => Some(LogStyle::Text(TextColoring::Off)),
                _ => None,
            };
            set(Some(s.as_bytes()));
            c.evals(1);
            c.nontrivial(1);
            c.outcome(if want.is_some() { "a style" } else { "no style" });
            c.eq(|| format!("{s:?}"), &guard(|| LogStyle::parse(&s).ok()), &Ok(want));
            c.eq(|| format!("{s:?} from the environment"), &guard(|| get_log_style_from_env(VAR).ok()), &Ok(want.map(Some)));
        }
        set(None);
        c.eq(|| "unset".into(), &get_log_style_from_env(VAR).ok(), &Some(None));
        set(Some(b"json\xff"));
        c.eq(|| "not text".into(), &get_log_style_from_env(VAR).is_err(), &true);
        set(None);
    });

    ctx.part("defaults", "a setting given, left out or converted; the variable of every option", |c| {
        for v in [0u32, 1, 16, 17, 18, u32::MAX] {
            c.evals(1);
            c.nontrivial(1);
            let all = [*Number::from(v), *Number::from(Some(v)), *Number::new(v), u32::from(Number::from(v)), *Number::from(v).as_ref()];
            c.eq(|| format!("value {v}"), &all, &[v; 5]);
        }
        c.eq(|| "left out".into(), &(*Number::from(None), *Number::default()), &(17, 17));
        for (long, want) in [("log", "ML_X_LOG"), ("data-dir", "ML_X_DATA_DIR"), ("rpc-bind-address", "ML_X_RPC_BIND_ADDRESS"), ("p2p", "ML_X_P2P"), ("a1-b2", "ML_X_A1_B2")] {
            let a = utils::clap_utils::add_env("X", clap::Arg::new("a").long(long));
            let b = utils::clap_utils::env_adder("X")(clap::Arg::new("a").long(long));
            let name = |a: &clap::Arg| a.get_env().map(|s| s.to_string_lossy().into_owned());
            c.evals(1);
            c.eq(|| format!("option {long}"), &(name(&a), name(&b)), &(Some(want.into()), Some(want.into())));
        }
        let none = utils::clap_utils::add_env("X", clap::Arg::new("a").short('a'));
        c.eq(|| "option without a long name".into(), &none.get_env().is_none(), &true);
        c.outcome("defaults");
    });

    ctx.part("data directories", "given or not, to be made or not or left to the default, there or missing or below a missing one or below a file", |c| {
        for given in [false, true] {
            for flag in [None, Some(false), Some(true)] {
                for case in 0..4 {
                    let scratch = Scratch::new("dirs");
                    let dir: PathBuf = scratch.path().join(["there", "missing", "missing/below", "file/below"][case]);
                    let other = scratch.path().join("other");
                    std::fs::create_dir_all(scratch.path().join("there")).unwrap();
                    std::fs::write(scratch.path().join("there/content"), b"kept").unwrap();
                    std::fs::write(scratch.path().join("file"), b"kept").unwrap();
                    let default = if given { other.clone() } else { dir.clone() };
                    let got = guard(|| prepare_data_dir(|| default.clone(), given.then_some(&dir), flag));
                    // one that was named is not made unless asked for, the default one is unless forbidden
                    let make = flag.unwrap_or(!given);
                    let want = match case {
                        0 => "ok",
                        _ if !make => "missing",
                        3 => "failed",
                        _ => "ok",
                    };
                    let what = match &got {
                        Ok(Ok(p)) if *p == dir => "ok",
                        Ok(Err(PrepareDataDirError::DoesNotExist(p))) if *p == dir => "missing",
                        Ok(Err(PrepareDataDirError::CreateFailed(p, _))) if *p == dir => "failed",
                        _ => "something else",
                    };
                    c.evals(1);
                    c.nontrivial(1);
                    c.outcome(want);
                    let key = || format!("given {given} flag {flag:?} case {case}");
                    c.eq(key, &what, &want);
                    c.eq(|| format!("{} is there", key()), &(dir.is_dir(), other.exists()), &(want == "ok", false));
                    let kept = (std::fs::read(scratch.path().join("there/content")).ok(), std::fs::read(scratch.path().join("file")).ok());
                    c.eq(|| format!("{} touches nothing else", key()), &kept, &(Some(b"kept".to_vec()), Some(b"kept".to_vec())));
                }
            }
        }
    });

    ctx.part("cookies", "every file of up to 5 of 4 characters, a missing file, one that is not text: name and password are what stands before and after the first colon", |c| {
        let scratch = Scratch::new("cookie");
        let path = scratch.path().join("c");
        for n in 0..=5 {
            for s in mc_kit::sequences(4, n) {
                let text: String = s.iter().map(|i| ['a', ':', 'é', ' '][*i]).collect();
                std::fs::write(&path, &text).unwrap();
                let want = text.find(':').map(|at| (text[..at].to_string(), text[at + 1..].to_string()));
                c.evals(1);
                c.nontrivial(1);
                c.outcome(if want.is_some() { "read" } else { "refused" });
                c.eq(|| format!("{text:?}"), &guard(|| load_cookie(&path).ok()), &Ok(want));
            }
        }
        std::fs::write(&path, b"a:\xff").unwrap();
        c.eq(|| "not text".into(), &load_cookie(&path).is_err(), &true);
        c.eq(|| "missing".into(), &load_cookie(scratch.path().join("none")).is_err(), &true);
    });
}

pub fn stored(ctx: &Ctx) {
    let keys: Vec<Option<SymmetricKey>> = vec![
        None,
        Some(SymmetricKey::from_raw_key(SymmetricKeyKind::XChacha20Poly1305, &[1; 32]).unwrap()),
        Some(SymmetricKey::from_raw_key(SymmetricKeyKind::XChacha20Poly1305, &[2; 32]).unwrap()),
    ];

    fn one<T: Encode + DecodeAll + Clone + PartialEq + std::fmt::Debug>(c: &mc_kit::PartCtx, keys: &[Option<SymmetricKey>], v: T, bits: bool) {
        let plain = v.encode();
        for (k, key) in keys.iter().enumerate() {
            let id = || if plain.len() < 300 { format!("{v:?} with key {k}") } else { format!("{} bytes with key {k}", plain.len()) };
            let Ok(stored) = guard(|| MaybeEncrypted::new(&v, key).encode()) else {
                c.fail(id(), "storing panicked");
                return;
            };
            let again = |b: &[u8]| MaybeEncrypted::<T>::decode_all(&mut &b[..]).ok();
            if key.is_none() {
                c.eq(|| format!("{} stored", id()), &hex(&stored), &hex(&plain.encode()));
            } else {
                c.eq(|| format!("{} length", id()), &stored.len(), &(vec![0u8; plain.len() + 40].encode().len()));
                c.eq(|| format!("{} is not in the clear", id()), &(plain.len() > 7 && in_clear(&plain, &stored)), &false);
                c.eq(|| format!("{} stored twice differs", id()), &(MaybeEncrypted::new(&v, key).encode() == stored), &false);
            }
            for (j, other) in keys.iter().enumerate() {
                c.evals(1);
                c.nontrivial(1);
                let got = guard(|| again(&stored).unwrap().try_take(other).ok());
                if j == k {
                    c.outcome("opened");
                    c.eq(|| format!("{} opened", id()), &got, &Ok(Some(v.clone())));
                } else if j > 0 {
                    c.outcome("kept shut");
                    c.eq(|| format!("{} opened with key {j}", id()), &got, &Ok(None));
                } else {
                    // without a key cipher text may pass for some value, but not for this one
                    c.outcome("read without a key");
                    c.eq(|| format!("{} read without a key", id()), &got.map(|g| g == Some(v.clone())), &Ok(false));
                }
                if let Some(key) = other {
                    let got = guard(|| again(&stored).unwrap().try_decrypt_then_take(key).ok());
                    c.eq(|| format!("{} decrypted with key {j}", id()), &got, &Ok((j == k).then(|| v.clone())));
                }
            }
            if key.is_some() && bits {
                let start = stored.len() - (plain.len() + 40);
                for bit in start * 8..stored.len() * 8 {
                    let mut b = stored.clone();
                    b[bit / 8] ^= 1 << (bit % 8);
                    c.evals(1);
                    c.outcome("altered");
                    c.eq(|| format!("{} bit {bit} altered", id()), &guard(|| again(&b).and_then(|m| m.try_take(key).ok())), &Ok(None));
                }
            }
            for cut in (0..stored.len()).filter(|n| stored.len() < 1500 || *n < 50 || *n + 50 > stored.len()) {
                let got = guard(|| again(&stored[..cut]).and_then(|m| m.try_take(key).ok()));
                c.evals(1);
                c.eq(|| format!("{} cut to {cut}", id()), &got, &Ok(None));
            }
        }
    }

    /// any 32 bytes of a long value, all of a short one
    fn in_clear(plain: &[u8], stored: &[u8]) -> bool {
        let n = plain.len().min(32);
        let seen: std::collections::HashSet<&[u8]> = stored.windows(n).collect();
        plain.windows(n).any(|w| seen.contains(w))
    }

    ctx.part("long stored values", "lists of every length around the powers of two from 512 to 2^20 with 2 keys or none: every key tried on each, cut at either end", |c| {
        let lens: Vec<usize> = (9..=20).flat_map(|p| [(1usize << p) - 3, (1 << p) - 1, 1 << p, (1 << p) + 1]).chain([5000, 10_000, 100_000, 1_000_000]).collect();
        c.par(lens.len(), |i| {
            let v: Vec<u8> = (0..lens[i]).map(|i| (i * 7 + i / 256 + i / 65536 + 1) as u8).collect();
            one(c, &keys, v, false);
        });
    });

    ctx.part("stored values", "numbers, lists, pairs and nothing, with 2 keys or none: every key tried on each, every bit altered, every cut", |c| {
        for v in [0u64, 1, u64::MAX, 0x1234_5678_9abc_def0] {
            one(c, &keys, v, true);
        }
        for n in (0..70).chain([127, 128, 255, 256, 1000]) {
            let v: Vec<u8> = (0..n).map(|i| (i * 7 + 1) as u8).collect();
            one(c, &keys, v, n < 20);
        }
        one(c, &keys, (1u32, Some(vec![2u16, 3])), true);
        one(c, &keys, String::from("a passphrase of some words"), true);
        one(c, &keys, [7u8; 64], true);
    });
}
