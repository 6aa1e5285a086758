use std::os::unix::fs::PermissionsExt;
use std::path::Path;

use mc_kit::{Ctx, Scratch, guard, sequences};
use rpc::rpc_creds::{RpcCreds, RpcCredsError};
use utils::cookie::{COOKIE_FILENAME, load_cookie};

fn kind(e: &RpcCredsError) -> &'static str {
    match e {
        RpcCredsError::InvalidCookieFileConfig => "cookie and name",
        RpcCredsError::InvalidSymbolsInUsername(_) => "colon",
        RpcCredsError::CookieFileIoError(..) => "file",
        RpcCredsError::InvalidUsernamePasswordConfig => "half",
    }
}

/// Everything in a directory.
fn list(p: &Path) -> Vec<String> {
    let mut v: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
    v.sort();
    v
}

pub fn run(ctx: &Ctx) {
    ctx.part("configurations", "every combination of 17 names or none, 13 passwords or none, a cookie file (one without a name too) or none, in a directory that is there or not: what is accepted, and what is left on disk", |c| {
        let names = [None, Some(""), Some("a"), Some("ab"), Some(":"), Some("a:"), Some(":a"), Some("a:b"), Some("é"), Some("x y"), Some("x y:"), Some("x :y"), Some(" "), Some(" a"), Some("a\n"), Some("\u{ff1a}"), Some("a\0:"), Some("__cookie__")];
        let passwords = [None, Some(""), Some("p"), Some("p:q"), Some(":"), Some("é"), Some(" "), Some(" p"), Some("p "), Some("p\n"), Some("\tp"), Some("\0"), Some("p p"), Some("\u{feff}p")];
        for (n, name) in names.iter().enumerate() {
            for (p, pass) in passwords.iter().enumerate() {
                for cookie in [None, Some("here"), Some("nowhere/here"), Some("")] {
                    if cookie == Some("") && (name.is_none() || pass.is_none()) {
                        continue;
                    }
                    for there in [true, false] {
                        let scratch = Scratch::new("rpc-creds");
                        let dir = if there { scratch.path().to_path_buf() } else { scratch.path().join("missing") };
                        let file = cookie.map(|f| if f.is_empty() { "".into() } else { scratch.path().join(f) });
                        let got = guard(|| RpcCreds::new(&dir, *name, *pass, file.as_ref().map(|f| f.to_str().unwrap().to_string())));
                        let id = || format!("name {name:?} password {pass:?} cookie {cookie:?} directory {there}");
                        let path = file.clone().unwrap_or(dir.join(COOKIE_FILENAME));
                        c.evals(1);
                        c.nontrivial(1);
                        let want = match (name, pass, cookie) {
                            (Some(_), Some(_), Some(_)) => Err("cookie and name"),
                            (Some(_), None, _) | (None, Some(_), _) => Err("half"),
                            (Some(n), Some(_), None) if n.contains(':') => Err("colon"),
                            (Some(_), Some(_), None) => Ok(false),
                            (None, None, Some("nowhere/here")) => Err("file"),
                            (None, None, None) if !there => Err("file"),
                            (None, None, _) => Ok(true),
                        };
                        let got = match got {
                            Ok(g) => g,
                            Err(e) => {
                                c.fail(id(), e);
                                return;
                            }
                        };
                        c.outcome(match want {
                            Ok(true) => "a cookie",
                            Ok(false) => "a name and password",
                            Err(e) => e,
                        });
                        match (&got, want) {
                            (Ok(g), Ok(false)) => {
                                c.eq(id, &(g.username(), g.password(), list(scratch.path())), &(name.unwrap(), pass.unwrap(), vec![]));
                            }
                            (Ok(g), Ok(true)) => {
                                let read = load_cookie(&path).ok();
                                c.eq(id, &read, &Some((g.username().into(), g.password().into())));
                                c.eq(|| format!("{}: files", id()), &list(scratch.path()), &vec![path.file_name().unwrap().to_str().unwrap().to_string()]);
                            }
                            (Err(e), Err(w)) => {
                                c.eq(id, &(kind(e), list(scratch.path())), &(w, vec![]));
                            }
                            (g, w) => c.fail(id(), format!("accepted {}, wanted {w:?}", g.is_ok())),
                        }
                        drop(got);
                        c.eq(|| format!("{n}.{p} {}: files afterwards", id()), &list(scratch.path()), &vec![]);
                    }
                }
            }
        }
    });

    let lengths: Vec<usize> = (0..=ctx.pick(60, 300)).chain([1000, 5000]).collect();
    ctx.part("what was there before", "a cookie or a half-written one of every length to 60 (thorough 300), 1000 and 5000 bytes, readable by all or not, left behind: the new cookie is the only thing in the file, and for the owner's eyes only", |c| {
        for name in [".cookie", "cookie", "some.cookie", "a.b.c"] {
            for half in [false, true] {
                for mode in [0o600, 0o644, 0o666] {
                    for n in &lengths {
                        let scratch = Scratch::new("rpc-left");
                        let path = scratch.path().join(name);
                        let left = if half { path.with_extension("tmp") } else { path.clone() };
                        std::fs::write(&left, vec![b'x'; *n]).unwrap();
                        std::fs::set_permissions(&left, std::fs::Permissions::from_mode(mode)).unwrap();
                        let got = RpcCreds::cookie_file(path.clone());
                        let id = || format!("{name}, {} of {n} bytes with mode {mode:o} left behind", if half { "half-written cookie" } else { "cookie" });
                        c.evals(1);
                        c.nontrivial(1);
                        c.outcome(if half { "after a crash while writing" } else { "after a crash" });
                        let Ok(got) = got else {
                            c.fail(id(), "refused");
                            return;
                        };
                        let text = std::fs::read_to_string(&path).unwrap_or_default();
                        if !c.eq(id, &text, &format!("{}:{}", got.username(), got.password())) {
                            return;
                        }
                        // a file left behind by someone else's doing keeps its mode; one of our own making does not
                        if !half || mode == 0o600 {
                            c.eq(|| format!("{}: mode", id()), &(std::fs::metadata(&path).unwrap().permissions().mode() & 0o777), &0o600);
                        }
                        drop(got);
                        c.eq(|| format!("{}: gone afterwards", id()), &path.exists(), &false);
                    }
                }
            }
        }
    });

    ctx.part("histories", "every history of up to 6 (thorough 7) of: start with the cookie, stop the first or last, crash, remove the file: each start leaves its own fresh cookie", |c| {
        let depth = ctx.pick(6, 7);
        let firsts: Vec<_> = sequences(5, 2).collect();
        c.par(firsts.len(), |f| {
            for n in 0..=depth - 2 {
                for rest in sequences(5, n) {
                    let seq = [firsts[f].clone(), rest].concat();
                    let scratch = Scratch::new("rpc-hist");
                    let path = scratch.path().join("c");
                    let mut live: Vec<RpcCreds> = vec![];
                    let mut seen = std::collections::BTreeSet::new();
                    let mut file: Option<(String, String)> = None;
                    for (i, o) in seq.iter().enumerate() {
                        match o {
                            0 => {
                                let Ok(g) = RpcCreds::cookie_file(path.clone()) else {
                                    c.fail(format!("{seq:?} at {i}"), "refused");
                                    return;
                                };
                                let is = (g.username().to_string(), g.password().to_string());
                                if !seen.insert(is.1.clone()) {
                                    c.fail(format!("{seq:?} at {i}"), "the same password again");
                                    return;
                                }
                                let fine = is.1.len() >= 32 && is.1.bytes().all(|b| b.is_ascii_alphanumeric());
                                c.eq(|| format!("{seq:?} at {i}: password of some length"), &fine, &true);
                                file = Some(is);
                                live.push(g);
                            }
                            1 if !live.is_empty() => {
                                live.remove(0);
                                file = None;
                            }
                            2 if live.pop().is_some() => file = None,
                            3 if !live.is_empty() => {
                                std::mem::forget(live.remove(0));
                            }
                            4 => {
                                let _ = std::fs::remove_file(&path);
                                file = None;
                            }
                            _ => {}
                        }
                        if !c.eq(|| format!("{seq:?} at {i}"), &load_cookie(&path).ok(), &file) {
                            return;
                        }
                    }
                    c.evals(1);
                    c.traces(1);
                    c.transitions(seq.len() as u64);
                    c.outcome(if file.is_some() { "cookie there" } else { "no cookie" });
                    c.nontrivial(file.is_some() as u64);
                }
            }
        });
    });
}
