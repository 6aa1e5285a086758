use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

use futures::FutureExt;
use mc_kit::{Ctx, guard, sequences};
use utils_networking::{NameResolutionError, resolve_all, resolve_all_take_first, IpOrSocketAddress, NetworkAddress, NetworkAddressParseError, NetworkAddressWithOptionalPort, NetworkAddressWithPort, ResolvableName};

/// What a text with an optional port means: the address part as text (an IP address in its usual form), and the port.
#[derive(Debug, PartialEq, Clone)]
enum Meaning {
    Ip(IpAddr, Option<u16>),
    Name(String, Option<u16>),
    No,
}

fn is_name(s: &str) -> bool {
    addr::parse_domain_name(s).is_ok()
}
fn port(s: &str) -> Option<u16> {
    (!s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().ok()).flatten()
}
fn meaning(s: &str) -> Meaning {
    if let Ok(ip) = s.parse::<Ipv4Addr>() {
        return Meaning::Ip(ip.into(), None);
    }
    if let Ok(ip) = s.parse::<Ipv6Addr>() {
        return Meaning::Ip(ip.into(), None);
    }
    if let Some((a, p)) = s.strip_prefix('[').and_then(|s| s.split_once("]:")) {
        return match (a.parse::<Ipv6Addr>(), port(p)) {
            (Ok(a), Some(p)) => Meaning::Ip(a.into(), Some(p)),
            _ => Meaning::No,
        };
    }
    match s.rsplit_once(':') {
        None if is_name(s) => Meaning::Name(s.into(), None),
        None => Meaning::No,
        Some((a, p)) => match (a.parse::<IpAddr>(), port(p)) {
            (Ok(a), Some(p)) => Meaning::Ip(a, Some(p)),
            (_, Some(p)) if is_name(a) => Meaning::Name(a.into(), Some(p)),
            _ => Meaning::No,
        },
    }
}
fn meant(a: &NetworkAddressWithOptionalPort) -> Meaning {
    match a.address.as_ip_address() {
        Some(ip) => Meaning::Ip(*ip, a.port),
        None => Meaning::Name(a.address.to_string(), a.port),
    }
}

pub fn run(ctx: &Ctx) {
    let one = |c: &mc_kit::PartCtx, s: &str| -> bool {
        let want = meaning(s);
        c.evals(1);
        match &want {
            Meaning::No => {}
            _ => c.nontrivial(1),
        }
        c.outcome(match want {
            Meaning::Ip(_, None) => "address",
            Meaning::Ip(_, _) => "address and port",
            Meaning::Name(_, None) => "name",
            Meaning::Name(_, _) => "name and port",
            Meaning::No => "neither",
        });
        let got = match guard(|| s.parse::<NetworkAddressWithOptionalPort>()) {
            Ok(g) => g,
            Err(e) => {
                c.fail(format!("text {s:?}"), e);
                return false;
            }
        };
        let as_meaning = got.as_ref().map_or(Meaning::No, meant);
        if !c.eq(|| format!("text {s:?}"), &as_meaning, &want) {
            return false;
        }
        // with a port that must be there
        let with = guard(|| s.parse::<NetworkAddressWithPort>());
        let ok = match (&want, &with) {
            (Meaning::No, Ok(Err(_))) => true,
            (Meaning::Ip(_, None) | Meaning::Name(_, None), Ok(Err(e))) => *e == NetworkAddressParseError::MissingPortNumber(s.into()),
            (Meaning::Ip(_, Some(p)) | Meaning::Name(_, Some(p)), Ok(Ok(a))) => a.port == *p && meant(&a.clone().into()) == want,
            _ => false,
        };
        if !c.eq(|| format!("text {s:?} with a port: {with:?}"), &ok, &true) {
            return false;
        }
        // without one
        let plain = guard(|| s.parse::<NetworkAddress>().ok().map(|a| (a.as_ip_address().copied(), a.to_string())));
        let want_plain = match (s.parse::<IpAddr>(), is_name(s)) {
            (Ok(ip), _) => Some((Some(ip), ip.to_string())),
            (_, true) => Some((None, s.to_string())),
            _ => None,
        };
        if !c.eq(|| format!("text {s:?} without a port"), &plain, &Ok(want_plain)) {
            return false;
        }
        let both = guard(|| s.parse::<IpOrSocketAddress>().ok());
        let want_both = match &want {
            Meaning::Ip(ip, None) => Some(IpOrSocketAddress::Ip(*ip)),
            // here an IPv6 address with a port must be in brackets
            Meaning::Ip(ip, Some(p)) if ip.is_ipv4() || s.starts_with('[') => Some(IpOrSocketAddress::Socket(SocketAddr::new(*ip, *p))),
            _ => None,
        };
        if !c.eq(|| format!("text {s:?} as an address"), &both, &Ok(want_both)) {
            return false;
        }
        // printed and read back
        if let Ok(a) = got {
            let printed = a.to_string();
            let again = printed.parse::<NetworkAddressWithOptionalPort>();
            if !c.eq(|| format!("text {s:?} printed as {printed:?} and read back"), &again, &Ok(a.clone())) {
                return false;
            }
            let json = serde_json::to_string(&a).unwrap();
            c.eq(|| format!("text {s:?} in JSON"), &json, &format!("{printed:?}"));
            c.eq(|| format!("text {s:?} from JSON"), &serde_json::from_str::<NetworkAddressWithOptionalPort>(&json).ok(), &Some(a));
        }
        true
    };

    ctx.part("short texts", "every text of up to 6 (thorough 7) of 9 characters", |c| {
        const CHARS: &[u8] = b"a01.:[]-f";
        let max = ctx.pick(6, 7);
        c.par(CHARS.len() * CHARS.len(), |i| {
            for n in 0..=max - 2 {
                for t in sequences(CHARS.len(), n) {
                    let s: String = [i / CHARS.len(), i % CHARS.len()].iter().chain(&t).map(|k| CHARS[*k] as char).collect();
                    if !one(c, &s) {
                        return;
                    }
                }
            }
        });
        for s in ["", "a", "0", ":", ".", "[", "]", "-"] {
            one(c, s);
        }
    });

    let ips: Vec<IpAddr> = ["0.0.0.0", "1.2.3.4", "127.0.0.1", "255.255.255.255", "10.0.0.1", "::", "::1", "1:2:3:4:5:6:7:8", "fe80::1", "2001:db8::ff00:42:8329", "::ffff:1.2.3.4", "::1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1::8", "a:b::"]
        .iter()
        .map(|s| s.parse().unwrap())
        .collect();
    let names = ["a", "bogus", "example.com", "1.2.3.4.com", "xn--bcher-kva.example", "localhost", "a-b.c", "seed.mintlayer.org", "x.y.z.w"];
    let ports = ["", ":0", ":1", ":80", ":3031", ":65535", ":65536", ":", ":x", ":-1", ":080", ":99999999999", "::80", ":80:90", "]:80", " ", ": 80", "/80"];

    ctx.part("addresses and ports", "15 addresses and 9 names, plain and in brackets, with 18 endings, and each of those with one character changed, left out or added", |c| {
        let bases: Vec<String> = ips.iter().map(|i| i.to_string()).chain(names.iter().map(|n| n.to_string())).flat_map(|b| [b.clone(), format!("[{b}]")]).collect();
        let all: Vec<String> = bases.iter().flat_map(|b| ports.iter().map(move |p| format!("{b}{p}"))).collect();
        c.par(all.len(), |i| {
            let s = &all[i];
            if !one(c, s) {
                return;
            }
            for at in 0..=s.len() {
                for ch in ["", "0", "a", ":", ".", "[", "]", " ", "_", "é", "/"] {
                    let added = format!("{}{ch}{}", &s[..at], &s[at..]);
                    if !one(c, &added) {
                        return;
                    }
                    if at < s.len() && !one(c, &format!("{}{ch}{}", &s[..at], &s[at + 1..])) {
                        return;
                    }
                }
            }
        });
    });

    ctx.part("values", "every pair of 15 addresses or 9 names and all 65536 ports or none: printed and read back, and resolved", |c| {
        c.par(1 << 16, |p| {
            let p = p as u16;
            for ip in &ips {
                let sock = SocketAddr::new(*ip, p);
                let w: NetworkAddressWithPort = sock.into();
                c.evals(1);
                let back = w.to_string().parse::<NetworkAddressWithPort>();
                if !c.eq(|| format!("{sock}"), &(w.to_string(), back), &(sock.to_string(), Ok(w.clone()))) {
                    return;
                }
                let s = IpOrSocketAddress::new_socket_address(sock);
                let i = IpOrSocketAddress::new_ip(*ip);
                let got = (s.to_socket_address(p.wrapping_add(1)), s.to_ip_address(), i.to_socket_address(p), i.to_ip_address(), s.to_string(), i.to_string());
                if !c.eq(|| format!("{sock} taken apart"), &got, &(sock, *ip, sock, *ip, sock.to_string(), ip.to_string())) {
                    return;
                }
            }
            for n in names {
                let t = format!("{n}:{p}");
                let a = t.parse::<NetworkAddressWithPort>();
                c.evals(1);
                if !c.eq(|| t.clone(), &a.map(|a| (a.to_string(), a.port)), &Ok((t.clone(), p))) {
                    return;
                }
            }
            if p % 97 == 0 || p == u16::MAX {
                c.nontrivial(1);
                c.outcome("read back");
                for ip in &ips {
                    for port in [None, Some(p)] {
                        let a = NetworkAddressWithOptionalPort { address: NetworkAddress::Ip(*ip), port };
                        let want = port.map_or(IpOrSocketAddress::Ip(*ip), |p| IpOrSocketAddress::Socket(SocketAddr::new(*ip, p)));
                        let got = async { a.resolve().await.map(|r| r.collect::<Vec<_>>()).ok() }.now_or_never();
                        c.eq(|| format!("{a} resolved"), &got, &Some(Some(vec![want.clone()])));
                        let j = serde_json::to_string(&want).unwrap();
                        c.eq(|| format!("{want} in JSON"), &(serde_json::from_str::<IpOrSocketAddress>(&j).ok(), j), &(Some(want.clone()), format!("\"{want}\"")));
                    }
                }
            }
        });
    });

    ctx.part("many names", "every list of up to 4 names of which each stands for none, one, two or three addresses or cannot be resolved", |c| {
        for len in 0..=4 {
            for list in sequences(5, len) {
                let names = || list.iter().enumerate().map(|(at, n)| Stub(at, *n));
                let bad = list.iter().position(|n| *n == 4);
                let all: Vec<_> = list.iter().enumerate().flat_map(|(at, n)| (0..*n).map(move |k| (at, k))).collect();
                let firsts: Vec<_> = all.iter().copied().filter(|a| a.1 == 0).collect();
                let err = |at: usize| NameResolutionError::CannotResolve { resolvable_name: at.to_string(), error_str: "no".into() };
                let want = |v| bad.map_or(Ok(v), |at| Err(err(at)));
                c.evals(2);
                c.nontrivial(2);
                c.outcome(if bad.is_some() { "one cannot be resolved" } else { "resolved" });
                c.eq(|| format!("all of {list:?}"), &resolve_all(names()).now_or_never(), &Some(want(all)));
                c.eq(|| format!("first of each of {list:?}"), &resolve_all_take_first(names()).now_or_never(), &Some(want(firsts)));
            }
        }
    });
}

struct Stub(usize, usize);
impl ResolvableName for Stub {
    type ResolvedAddress = (usize, usize);
    async fn resolve(&self) -> Result<impl Iterator<Item = (usize, usize)> + '_, NameResolutionError> {
        match self.1 {
            4 => Err(NameResolutionError::CannotResolve { resolvable_name: self.0.to_string(), error_str: "no".into() }),
            n => Ok((0..n).map(|k| (self.0, k))),
        }
    }
}
