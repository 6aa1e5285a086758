use std::io::{BufRead, BufReader, Read, Write};
use std::net::{SocketAddr, TcpStream};
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

use base64::Engine;
use base64::engine::general_purpose::{STANDARD, STANDARD_NO_PAD, URL_SAFE};
use jsonrpsee::core::client::ClientT;
use mc_kit::{Ctx, Scratch, sequences};
use rpc::rpc_creds::RpcCreds;
use rpc::{Builder, Rpc, RpcAuthData};

/// A server that counts how often its method has been run.
struct Server {
    rpc: Rpc,
    count: Arc<AtomicUsize>,
}

impl Server {
    async fn start(creds: Option<RpcCreds>) -> Self {
        let count = Arc::new(AtomicUsize::new(0));
        let mut module = jsonrpsee::RpcModule::new(count.clone());
        module.register_method("hit", |_, count, _| count.fetch_add(1, Ordering::SeqCst) + 1).unwrap();
        let rpc = Builder::new("127.0.0.1:0".parse().unwrap(), creds).register(module).build().await.unwrap();
        Self { rpc, count }
    }
    fn hits(&self) -> usize {
        self.count.load(Ordering::SeqCst)
    }
}

/// One kept-alive connection.
struct Line {
    to: SocketAddr,
    stream: Option<BufReader<TcpStream>>,
}

impl Line {
    fn new(to: SocketAddr) -> Self {
        Self { to, stream: None }
    }
    fn ask(&mut self, head: &str, auth: Option<&[u8]>, body: &str) -> Option<(u16, String)> {
        for _ in 0..2 {
            if let Some(r) = self.try_ask(head, auth, body) {
                return Some(r);
            }
            self.stream = None;
        }
        None
    }
    fn try_ask(&mut self, head: &str, auth: Option<&[u8]>, body: &str) -> Option<(u16, String)> {
        if self.stream.is_none() {
            let s = TcpStream::connect(self.to).ok()?;
            s.set_nodelay(true).ok()?;
            s.set_read_timeout(Some(Duration::from_secs(30))).ok()?;
            self.stream = Some(BufReader::new(s));
        }
        let s = self.stream.as_mut().unwrap();
        let mut req = format!("{head}\r\nHost: {}\r\n", self.to).into_bytes();
        if let Some(a) = auth {
            req.extend(b"Authorization: ");
            req.extend(a);
            req.extend(b"\r\n");
        }
        req.extend(format!("Content-Length: {}\r\n\r\n{body}", body.len()).into_bytes());
        s.get_mut().write_all(&req).ok()?;
        let mut line = String::new();
        s.read_line(&mut line).ok()?;
        let status: u16 = line.split(' ').nth(1)?.parse().ok()?;
        let (mut length, mut chunked, mut close) = (0usize, false, status == 101);
        loop {
            let mut h = String::new();
            if s.read_line(&mut h).ok()? == 0 {
                return None;
            }
            let h = h.trim_end().to_ascii_lowercase();
            if h.is_empty() {
                break;
            }
            if let Some(v) = h.strip_prefix("content-length:") {
                length = v.trim().parse().ok()?;
            }
            chunked |= h == "transfer-encoding: chunked";
            close |= h == "connection: close";
        }
        let mut text = vec![];
        if chunked {
            loop {
                let mut n = String::new();
                s.read_line(&mut n).ok()?;
                let n = usize::from_str_radix(n.trim(), 16).ok()?;
                let mut part = vec![0; n + 2];
                s.read_exact(&mut part).ok()?;
                if n == 0 {
                    break;
                }
                text.extend(&part[..n]);
            }
        } else if head.starts_with("HEAD") {
            close = true;
        } else {
            text = vec![0; length];
            s.read_exact(&mut text).ok()?;
        }
        if close {
            self.stream = None;
        }
        Some((status, String::from_utf8_lossy(&text).into_owned()))
    }
}

const POST: &str = "POST / HTTP/1.1\r\nContent-Type: application/json";
const CALL: &str = r#"{"jsonrpc":"2.0","id":1,"method":"hit"}"#;
const WS: &str = "GET / HTTP/1.1\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==";

/// The ways of calling: what to send, how often the method runs if let in, and whether the answer is a switch of protocols.
fn ways() -> Vec<(&'static str, &'static str, String, usize, bool)> {
    vec![
        ("call", POST, CALL.into(), 1, false),
        ("notification", POST, r#"{"jsonrpc":"2.0","method":"hit"}"#.into(), 0, false),
        ("batch", POST, format!("[{CALL},{CALL},{CALL}]"), 3, false),
        ("call elsewhere", "POST /some/where?x=1 HTTP/1.1\r\nContent-Type: application/json", CALL.into(), 1, false),
        ("websocket", WS, String::new(), 0, true),
    ]
}

fn users() -> Vec<&'static str> {
    vec!["", "a", "ab", "é"]
}
fn passwords() -> Vec<&'static str> {
    vec!["", "a", "b", ":", "a:", ":a", "é", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"]
}

/// A text of so many characters, no two of them alike next to each other.
fn word(n: usize) -> String {
    (0..n).map(|i| char::from(b'a' + (i * 7 % 26) as u8)).collect()
}

/// Texts that are almost this one.
fn near(t: &str) -> Vec<String> {
    let chars: Vec<char> = t.chars().collect();
    let n = chars.len();
    let cut = |k: usize| chars[..k.min(n)].iter().collect::<String>();
    let mut all: Vec<String> = [0, 1, 8, 16, 31, 32, 63, 64, 71, 72, 127, 128, 255, 256, n.saturating_sub(1), n / 2].map(cut).into();
    all.extend(chars.get(1..).map(|c| c.iter().collect::<String>()));
    for end in [0, n / 2, n.saturating_sub(1)] {
        if let Some(old) = chars.get(end) {
            let mut c = chars.clone();
            c[end] = if *old == 'q' { 'r' } else { 'q' };
            all.push(c.iter().collect());
        }
    }
    for x in ["a", " ", "\n", "\0", "=", "\u{feff}"] {
        all.extend([format!("{t}{x}"), format!("{x}{t}")]);
    }
    for x in ['\0', ' ', '*', 'a', '%'] {
        all.extend([n, 1, 9, 16, 32].map(|k| x.to_string().repeat(k)));
    }
    all.extend([t.trim().to_string(), t.to_uppercase(), t.to_lowercase(), format!("{t}{t}"), t.replace(' ', "+"), t.replace('\0', ""), t.replace("e\u{301}", "\u{e9}"), t.replace('\u{e9}', "e\u{301}")]);
    all.retain(|s| s != t);
    all.sort();
    all.dedup();
    all
}

/// What is let in: the right name, the first colon, the right password.
fn lets_in(user: &str, pass: &str, decoded: &[u8]) -> bool {
    decoded == format!("{user}:{pass}").as_bytes()
}

pub fn run(ctx: &Ctx) {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().unwrap();
    let len = ctx.pick(5, 7);
    let decoded: Vec<Vec<u8>> = (0..=len)
        .flat_map(|n| sequences(3, n).map(|s| s.iter().map(|i| b"ab:"[*i]).collect::<Vec<u8>>()))
        .collect();

    let servers = |c: &mc_kit::PartCtx, go: &(dyn Fn(&str, &str, &Server, &mut Line) + Sync)| {
        let pairs: Vec<_> = users().into_iter().flat_map(|u| passwords().into_iter().map(move |p| (u, p))).collect();
        c.par(pairs.len(), |i| {
            let (u, p) = pairs[i];
            let creds = RpcCreds::basic(u, p).unwrap();
            let server = rt.block_on(Server::start(Some(creds)));
            let mut line = Line::new(*server.rpc.http_address());
            go(u, p, &server, &mut line);
            drop(line);
            rt.block_on(server.rpc.shutdown());
        });
    };
    let one = |c: &mc_kit::PartCtx, server: &Server, line: &mut Line, id: &dyn Fn() -> String, auth: Option<&[u8]>, way: usize, want: bool| -> bool {
        let (_, head, body, runs, switch) = &ways()[way];
        let before = server.hits();
        let got = line.ask(head, auth, body);
        let ran = server.hits() - before;
        c.evals(1);
        c.nontrivial(1);
        let Some((status, text)) = got else {
            c.fail(id(), "no answer");
            return false;
        };
        c.outcome(match (want, *switch) {
            (true, false) => "called",
            (true, true) => "connected",
            (false, false) => "call refused",
            (false, true) => "connection refused",
        });
        let ok = match (want, *switch) {
            (true, false) => status == 200 && ran == *runs && text.matches("\"result\":").count() == *runs,
            (true, true) => status == 101 && ran == 0,
            (false, _) => (status == 401 || status == 400) && ran == 0 && !text.contains("\"result\""),
        };
        c.eq(|| format!("{} (status {status}, run {ran} times, answer {text:?})", id()), &ok, &true)
    };

    ctx.part("names and passwords", "32 pairs of name and password; every text of up to 5 (thorough 7) of `a`, `b` and `:` as the credentials, and every pair among the 32: let in exactly if it is the pair, the first colon ends the name", |c| {
        servers(c, &|u, p, server, line| {
            let mut all = decoded.clone();
            all.extend(users().into_iter().flat_map(|u| passwords().into_iter().map(move |p| format!("{u}:{p}").into_bytes())));
            for d in &all {
                let want = lets_in(u, p, d);
                let header = format!("Basic {}", STANDARD.encode(d));
                let id = || format!("server with {u:?} and {p:?}, client with {:?}", String::from_utf8_lossy(d));
                if !one(c, server, line, &id, Some(header.as_bytes()), 0, want) {
                    return;
                }
            }
        });
    });

    ctx.part("ways of calling", "on each of the 32 servers: single and batch calls, notifications, another path and a websocket; with the credentials, without any, and with 6 that are almost right", |c| {
        servers(c, &|u, p, server, line| {
            let right = format!("{u}:{p}");
            let clients: Vec<Option<String>> = vec![
                Some(right.clone()),
                None,
                Some(format!("{right}x")),
                Some(format!("x{right}")),
                Some(format!("{u}:")),
                Some(format!(":{p}")),
                Some(format!("{p}:{u}")),
                Some(right.to_uppercase()),
            ];
            for client in &clients {
                for way in 0..ways().len() {
                    let want = client.as_ref().is_some_and(|d| lets_in(u, p, d.as_bytes()));
                    let header = client.as_ref().map(|d| format!("Basic {}", STANDARD.encode(d)));
                    let id = || format!("server with {u:?} and {p:?}, client with {client:?}, {}", ways()[way].0);
                    if !one(c, server, line, &id, header.as_deref().map(str::as_bytes), way, want) {
                        return;
                    }
                }
            }
        });
    });

    ctx.part("headers", "on each of the 32 servers: the right header cut at every place, each character of it changed, other schemes and spacings, unpadded and other alphabets, bytes that are not text, credentials without a colon", |c| {
        servers(c, &|u, p, server, line| {
            let right = format!("{u}:{p}");
            let coded = STANDARD.encode(&right);
            let header = format!("Basic {coded}").into_bytes();
            let mut all: Vec<Vec<u8>> = (0..header.len()).map(|n| header[..n].to_vec()).collect();
            for i in 0..header.len() {
                for x in [b'A', b'=', b'-', b' ', b'!', b'x'] {
                    let mut h = header.clone();
                    h[i] = x;
                    all.push(h);
                }
            }
            for h in ["Bearer ", "Digest ", "", "Basic: ", "Basic,", " "] {
                all.push(format!("{h}{coded}").into_bytes());
            }
            for h in [format!("Basic {coded}="), format!("Basic {coded} {coded}"), format!("Basic {coded},{coded}"), format!("Basic {right}")] {
                all.push(h.into_bytes());
            }
            all.push(format!("Basic {}", STANDARD_NO_PAD.encode(&right)).into_bytes());
            all.push(format!("Basic {}", URL_SAFE.encode(&right)).into_bytes());
            for d in [b"\xff:\xff".to_vec(), b"a\xff:a".to_vec(), b"nocolon".to_vec(), u.as_bytes().to_vec(), p.as_bytes().to_vec()] {
                all.push(format!("Basic {}", STANDARD.encode(d)).into_bytes());
            }
            for h in &all {
                // a header is what is left without the white space around it
                let t = h.trim_ascii();
                let d = t.strip_prefix(b"Basic ").and_then(|d| STANDARD.decode(d).ok());
                let want = d.is_some_and(|d| lets_in(u, p, &d));
                if t.eq_ignore_ascii_case(&header) && t != header && t[6..] == header[6..] {
                    // whether the scheme may be written in another case is left open
                    continue;
                }
                let id = || format!("server with {u:?} and {p:?}, header {:?}", String::from_utf8_lossy(h));
                if !one(c, server, line, &id, Some(h), 0, want) {
                    return;
                }
            }
        });
    });

    ctx.part("long and odd ones", "servers with names of up to 300 and passwords of up to 1000 characters, with blanks, controls and marks in them; clients with a character of either left out, added or changed at its ends, cut at the usual lengths, stripped, padded, or blanked: let in exactly with the pair", |c| {
        let scratch = Scratch::new("rpc-odd");
        let mut pairs: Vec<(String, String)> = [31usize, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 1000].map(|n| ("a".into(), word(n))).into();
        pairs.extend([31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300].map(|n| (word(n), "p".into())));
        pairs.extend([(64, 64), (65, 73), (300, 1000)].map(|(n, p)| (word(n), word(p))));
        pairs.extend(["a ", " a", " ", "a\n", "\n", "\ta", "a\r\n", "\0", "\0a", "a\0", "\0\0\0\0\0\0\0\0\0", "\u{feff}a", "e\u{301}", "\u{e9}", "\u{7f}", "a=", "a%20", "a+b", "\"a\"", "*", "null", "aaaaaaaaaaaaaaaaaaaaaaaa"].map(|p| ("a".into(), p.into())));
        pairs.extend(["a ", " a", " ", "a\n", "\0", "a\0", "\u{feff}a", "e\u{301}", "\u{e9}", "A", "root", "*", "null"].map(|u| (u.into(), "a".into())));
        c.par(pairs.len(), |i| {
            let (u, p) = &pairs[i];
            let server = rt.block_on(Server::start(Some(RpcCreds::basic(u, p).unwrap())));
            let mut line = Line::new(*server.rpc.http_address());
            let mut clients = vec![(u.clone(), p.clone())];
            clients.extend(near(p).into_iter().map(|q| (u.clone(), q)));
            clients.extend(near(u).into_iter().filter(|v| !v.contains(':')).map(|v| (v, p.clone())));
            clients.extend([(p.replace(':', ""), u.clone()), (String::new(), p.clone()), (u.clone(), u.clone()), (p.replace(':', ""), p.clone())]);
            for (v, q) in &clients {
                let header = format!("Basic {}", STANDARD.encode(format!("{v}:{q}")));
                let id = || format!("server with {u:?} and {p:?}, client with {v:?} and {q:?}");
                if !one(c, &server, &mut line, &id, Some(header.as_bytes()), 0, (v, q) == (u, p)) {
                    return;
                }
            }
            // the real clients, with these and with nearly these
            rt.block_on(async {
                for (j, (v, q)) in clients.iter().enumerate().step_by(7) {
                    let cookie = scratch.path().join(format!("cookie-{i}-{j}"));
                    std::fs::write(&cookie, format!("{v}:{q}")).unwrap();
                    for auth in [RpcAuthData::Basic { username: v.clone(), password: q.clone() }, RpcAuthData::Cookie { cookie_file_path: cookie.clone() }] {
                        let want = (v, q) == (u, p);
                        let before = server.hits();
                        let ok = call_http(&server, auth.clone()).await && (!want || call_ws(&server, auth).await);
                        c.evals(1);
                        c.eq(|| format!("server with {u:?} and {p:?}, real client with {v:?} and {q:?}"), &(ok, server.hits() - before), &(want, 2 * want as usize));
                    }
                }
            });
            drop(line);
            rt.block_on(server.rpc.shutdown());
        });
    });

    ctx.part("surroundings", "9 methods of HTTP, 24 paths and 29 other headers, one from each, with wrong credentials and none: always refused; as a plain call with the right ones: let in", |c| {
        let methods = ["POST", "GET", "OPTIONS", "HEAD", "PUT", "DELETE", "PATCH", "TRACE", "PROPFIND"];
        let paths = ["/", "/health", "/healthz", "/status", "/metrics", "/ping", "/ready", "/rpc", "/ws", "/version", "/openrpc.json", "/favicon.ico", "/robots.txt", "/api/v1", "/admin", "//", "/../", "/%2e%2e/", "/index.html", "/?auth=no", "/?user=a&password=aa", "/.well-known/x", "/login", "*"];
        let (u, p) = ("a", "aa");
        let right = format!("Basic {}", STANDARD.encode("a:aa"));
        let headers: Vec<String> = ["X-None: 1", "X-Forwarded-For: 127.0.0.1", "X-Forwarded-For: localhost", "X-Real-IP: 127.0.0.1", "Forwarded: for=127.0.0.1", "Origin: http://localhost", "Origin: null", "Referer: http://localhost/", "Upgrade: websocket", "Upgrade: h2c", "Connection: upgrade", "Connection: close", "Access-Control-Request-Method: POST", "Access-Control-Request-Headers: authorization", "User-Agent: curl/8", "User-Agent: Mintlayer", "Cookie: __cookie__=1", "Cookie: a:aa", "X-Internal: 1", "X-Debug: 1", "X-HTTP-Method-Override: OPTIONS", "Accept: text/html", "Via: 1.1 localhost", "Authentication-Info: ok", "X-Api-Key: aa"].map(String::from).into_iter().chain(["Proxy-Authorization", "X-Authorization", "WWW-Authenticate", "Authorisation"].map(|h| format!("{h}: {right}"))).collect();
        c.par(methods.len(), |m| {
            let server = rt.block_on(Server::start(Some(RpcCreds::basic(u, p).unwrap())));
            let mut line = Line::new(*server.rpc.http_address());
            let wrong = format!("Basic {}", STANDARD.encode("a:ab"));
            for path in paths {
                for (h, header) in headers.iter().enumerate() {
                    // every pair of method and path, of method and header, and of the paths and headers of calls
                    if methods[m] != "POST" && h > 1 && path != "/" && h % 5 != path.len() % 5 {
                        continue;
                    }
                    let head = format!("{} {path} HTTP/1.1\r\nContent-Type: application/json\r\n{header}", methods[m]);
                    for auth in [None, Some(wrong.as_bytes()), Some(&b"Basic"[..])] {
                        let before = server.hits();
                        let got = line.ask(&head, auth, CALL).map(|(s, t)| ((400..500).contains(&s), t.contains("\"result\"")));
                        c.evals(1);
                        c.nontrivial(1);
                        c.outcome("call refused");
                        let id = || format!("{} {path} with {header:?} and {:?}", methods[m], auth.map(String::from_utf8_lossy));
                        if !c.eq(id, &(got, server.hits() - before), &(Some((true, false)), 0)) {
                            return;
                        }
                    }
                    if methods[m] == "POST" && path != "*" && !header.starts_with("Upgrade") && !header.starts_with("Connection: up") {
                        let before = server.hits();
                        let got = line.ask(&head, Some(right.as_bytes()), CALL).map(|(s, t)| (s, t.contains("\"result\"")));
                        c.evals(1);
                        c.outcome("called");
                        if !c.eq(|| format!("POST {path} with {header:?} and the right credentials"), &(got, server.hits() - before), &(Some((200, true)), 1)) {
                            return;
                        }
                    }
                }
            }
            drop(line);
            rt.block_on(server.rpc.shutdown());
        });
    });

    ctx.part("open servers", "a server without credentials lets everyone in, whatever header they send", |c| {
        let server = rt.block_on(Server::start(None));
        let mut line = Line::new(*server.rpc.http_address());
        for d in decoded.iter().take(200) {
            for way in 0..ways().len() {
                for header in [None, Some(format!("Basic {}", STANDARD.encode(d))), Some(format!("Other {way}"))] {
                    let id = || format!("open server, header {header:?}, {}", ways()[way].0);
                    if !one(c, &server, &mut line, &id, header.as_deref().map(str::as_bytes), way, true) {
                        return;
                    }
                }
            }
        }
        drop(line);
        rt.block_on(server.rpc.shutdown());
    });

    ctx.part("clients", "every pair of 33 servers and 33 clients over HTTP, and one in 5 over a websocket: nothing, a name and password, or a cookie file; and a server with a fresh cookie", |c| {
        let scratch = Scratch::new("rpc-clients");
        let pairs: Vec<_> = users().into_iter().flat_map(|u| passwords().into_iter().map(move |p| (u, p))).collect();
        c.par(pairs.len() + 1, |i| {
            rt.block_on(async {
                let creds = pairs.get(i).map(|(u, p)| RpcCreds::basic(u, p).unwrap());
                let server = Server::start(creds).await;
                for (j, client) in pairs.iter().map(Some).chain([None]).enumerate() {
                    let cookie = scratch.path().join(format!("cookie-{i}-{j}"));
                    let mut auths = vec![client.map_or(RpcAuthData::None, |(u, p)| RpcAuthData::Basic { username: u.to_string(), password: p.to_string() })];
                    if let Some((u, p)) = client {
                        std::fs::write(&cookie, format!("{u}:{p}")).unwrap();
                        auths.push(RpcAuthData::Cookie { cookie_file_path: cookie.clone() });
                    }
                    for (k, auth) in auths.into_iter().enumerate() {
                        let want = i == pairs.len() || j == i;
                        let before = server.hits();
                        let ok = call_http(&server, auth.clone()).await;
                        c.evals(1);
                        c.nontrivial(1);
                        c.outcome(if want { "called" } else { "call refused" });
                        c.eq(|| format!("server {i}, client {j}.{k}"), &(ok, server.hits() - before), &(want, want as usize));
                        if (i + j) % 5 == 0 || want {
                            let before = server.hits();
                            let ok = call_ws(&server, auth).await;
                            c.evals(1);
                            c.outcome(if want { "connected" } else { "connection refused" });
                            c.eq(|| format!("server {i}, client {j}.{k} by websocket"), &(ok, server.hits() - before), &(want, want as usize));
                        }
                    }
                    let _ = std::fs::remove_file(&cookie);
                }
                server.rpc.shutdown().await;
            });
        });
        for n in 0..8 {
            rt.block_on(async {
                let path = scratch.path().join(format!("fresh-{n}"));
                let other = scratch.path().join(format!("other-{n}"));
                let server = Server::start(Some(RpcCreds::cookie_file(path.clone()).unwrap())).await;
                let kept = RpcCreds::cookie_file(other.clone()).unwrap();
                let good = RpcAuthData::Cookie { cookie_file_path: path.clone() };
                let bad = RpcAuthData::Cookie { cookie_file_path: other };
                let none = RpcAuthData::Cookie { cookie_file_path: scratch.path().join("none") };
                let mut got = vec![];
                for a in [&good, &bad, &none, &RpcAuthData::None] {
                    got.push((call_http(&server, a.clone()).await, call_ws(&server, a.clone()).await));
                }
                c.evals(8);
                c.nontrivial(8);
                c.eq(|| format!("fresh cookie {n}"), &got, &vec![(true, true), (false, false), (false, false), (false, false)]);
                drop(kept);
                server.rpc.shutdown().await;
                c.eq(|| format!("cookie {n} gone afterwards"), &path.exists(), &false);
            });
        }
    });
}

async fn call_http(server: &Server, auth: RpcAuthData) -> bool {
    let url = format!("http://{}", server.rpc.http_address());
    let client = rpc::new_http_client(url, auth).unwrap();
    client.request::<usize, _>("hit", jsonrpsee::rpc_params!()).await.is_ok()
}
async fn call_ws(server: &Server, auth: RpcAuthData) -> bool {
    let url = format!("ws://{}", server.rpc.http_address());
    match rpc::new_ws_client(url, auth).await {
        Ok(client) => client.request::<usize, _>("hit", jsonrpsee::rpc_params!()).await.is_ok(),
        Err(_) => false,
    }
}
