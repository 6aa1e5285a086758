use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

use futures::FutureExt;
use jsonrpsee::core::server::Subscription;
use mc_kit::{Ctx, guard, sequences};
use rpc::{Builder, Methods, RpcResult, handle_result, subscription};
use utils_networking::broadcaster::Broadcaster;

type Shared = Arc<Mutex<Option<Broadcaster<u32>>>>;

#[rpc::rpc(server, namespace = "ev")]
trait Events {
    #[subscription(name = "subscribe_all", item = u32)]
    async fn subscribe_all(&self) -> subscription::Reply;
    #[subscription(name = "subscribe_mapped", item = String)]
    async fn subscribe_mapped(&self) -> subscription::Reply;
    #[subscription(name = "subscribe_some", item = u32)]
    async fn subscribe_some(&self) -> subscription::Reply;
    #[method(name = "last")]
    fn last(&self) -> RpcResult<Option<u32>>;
}

struct Impl(Shared);

#[async_trait::async_trait]
impl EventsServer for Impl {
    async fn subscribe_all(&self, p: subscription::Pending) -> subscription::Reply {
        let r = self.0.lock().unwrap().as_mut().unwrap().subscribe();
        subscription::connect_broadcast(r, p).await
    }
    async fn subscribe_mapped(&self, p: subscription::Pending) -> subscription::Reply {
        let r = self.0.lock().unwrap().as_mut().unwrap().subscribe();
        subscription::connect_broadcast_map(r, p, |e| format!("<{e}>")).await
    }
    async fn subscribe_some(&self, p: subscription::Pending) -> subscription::Reply {
        let r = self.0.lock().unwrap().as_mut().unwrap().subscribe();
        subscription::connect_broadcast_filter_map(r, p, |e| (e % 2 == 1).then_some(e * 10)).await
    }
    fn last(&self) -> RpcResult<Option<u32>> {
        Ok(None)
    }
}

const NAMES: [&str; 3] = ["ev_subscribe_all", "ev_subscribe_mapped", "ev_subscribe_some"];

fn expected(kind: usize, e: u32) -> Option<serde_json::Value> {
    match kind {
        0 => Some(e.into()),
        1 => Some(format!("<{e}>").into()),
        _ => (e % 2 == 1).then(|| (e * 10).into()),
    }
}

/// an event that cannot be written when its numbers are the same
#[derive(Clone)]
struct Hard(u32, u32);
impl serde::Serialize for Hard {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == self.1 { Err(serde::ser::Error::custom("cannot be written")) } else { s.serialize_u32(self.0) }
    }
}

async fn settle() {
    for _ in 0..40 {
        tokio::task::yield_now().await;
    }
}

struct Client {
    kind: usize,
    sub: Subscription,
    due: VecDeque<serde_json::Value>,
}

impl Client {
    /// Takes everything that is there and compares it with what is due.
    async fn take(&mut self, id: &str, most: usize) -> Result<usize, String> {
        let mut n = 0;
        while n < most {
            settle().await;
            match self.sub.next::<serde_json::Value>().now_or_never() {
                None => break,
                Some(None) => return Err(format!("{id}: ended with {:?} due", self.due)),
                Some(Some(Err(e))) => return Err(format!("{id}: {e}")),
                Some(Some(Ok((got, sub)))) => {
                    n += 1;
                    if self.due.pop_front().as_ref() != Some(&got) {
                        return Err(format!("{id}: got {got}, then due {:?}", self.due));
                    }
                    if &sub != self.sub.subscription_id() {
                        return Err(format!("{id}: under another name"));
                    }
                }
            }
        }
        if n < most && !self.due.is_empty() {
            return Err(format!("{id}: still due {:?}", self.due));
        }
        Ok(n)
    }
    async fn ended(mut self, id: &str) -> Result<usize, String> {
        let mut n = 0;
        while !self.due.is_empty() {
            settle().await;
            n += self.take_one(id).await?;
        }
        settle().await;
        match self.sub.next::<serde_json::Value>().now_or_never() {
            Some(None) => Ok(n),
            Some(Some(_)) => Err(format!("{id}: more than what was due")),
            None => Err(format!("{id}: not over")),
        }
    }
    async fn take_one(&mut self, id: &str) -> Result<usize, String> {
        match self.sub.next::<serde_json::Value>().now_or_never() {
            Some(Some(Ok((got, _)))) if self.due.pop_front().as_ref() == Some(&got) => Ok(1),
            r => Err(format!("{id}: got {:?} in the end", r.map(|r| r.map(|r| r.map(|r| r.0))))),
        }
    }
}

async fn history(seq: &[usize], room: usize) -> Result<usize, String> {
    let shared: Shared = Arc::new(Mutex::new(Some(Broadcaster::new())));
    let methods: Methods = Impl(shared.clone()).into_rpc().into();
    let mut clients: VecDeque<Client> = VecDeque::new();
    let mut event = 0u32;
    let mut n = 0;
    for (i, o) in seq.iter().enumerate() {
        let id = format!("room {room} {seq:?} at {i}");
        match *o {
            kind @ 0..=2 => {
                let none = jsonrpsee::core::EmptyServerParams::new();
                let sub = methods.subscribe(NAMES[kind], none, room).await.map_err(|e| format!("{id}: {e}"))?;
                settle().await;
                clients.push_back(Client { kind, sub, due: VecDeque::new() });
            }
            3 | 4 => {
                // one event, or three in a row
                for _ in 0..if *o == 3 { 1 } else { 3 } {
                    event += 1;
                    shared.lock().unwrap().as_mut().unwrap().broadcast(&event);
                    for c in clients.iter_mut() {
                        c.due.extend(expected(c.kind, event));
                    }
                }
                settle().await;
            }
            5 => {
                if let Some(c) = clients.front_mut() {
                    n += c.take(&id, usize::MAX).await?;
                }
            }
            6 => {
                if let Some(c) = clients.back_mut() {
                    n += c.take(&id, 1).await?;
                }
            }
            _ => {
                clients.pop_front();
                settle().await;
            }
        }
    }
    let id = format!("room {room} {seq:?} in the end");
    *shared.lock().unwrap() = None;
    settle().await;
    for c in clients {
        n += c.ended(&id).await?;
    }
    Ok(n)
}

pub fn run(ctx: &Ctx) {
    let depth = ctx.pick(5, 6);
    ctx.part("subscriptions", "every history of up to 5 (thorough 6) of: subscribe to all events, to mapped ones or to some, one event, three events, take all from the first, one from the last, leave; with room for 1, 2 or 100 messages: every subscriber gets what it asked for, in order, once, and then the end", |c| {
        let firsts: Vec<_> = sequences(8, 2).collect();
        c.par(firsts.len(), |f| {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            for n in 0..=depth - 2 {
                for rest in sequences(8, n) {
                    let seq = [firsts[f].clone(), rest].concat();
                    for room in [1, 2, 100] {
                        match guard(|| rt.block_on(history(&seq, room))) {
                            Ok(Ok(n)) => {
                                c.outcome(if n > 0 { "delivered" } else { "nothing to deliver" });
                                c.nontrivial((n > 0) as u64);
                            }
                            Ok(Err(e)) | Err(e) => {
                                c.fail(format!("room {room} {seq:?}"), e);
                                return;
                            }
                        }
                        c.evals(1);
                        c.traces(1);
                        c.transitions(seq.len() as u64);
                    }
                }
            }
        });
    });

    ctx.part("method lists", "every subset of 6 methods with and without subscriptions, and a list by one of 3 names or none: all methods are listed, in order, once, and all those listed are there", |c| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        let all = ["zz", "unsubscribe_b", "Ab", "rpc.discover", "_method", "list2"];
        for set in mc_kit::subsets(6) {
            for events in [false, true] {
                for name in [None, Some("method_list"), Some("a_list"), Some("zzz")] {
                    let id = || format!("set {set:06b} events {events} list {name:?}");
                    let got = guard(|| {
                        rt.block_on(async {
                            let mut b = Builder::new("127.0.0.1:0".parse().unwrap(), None);
                            let mut want: Vec<String> = vec![];
                            // each in a module of its own
                            for (i, m) in all.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1) {
                                let mut module = jsonrpsee::RpcModule::new(());
                                module.register_method(m, move |_, _, _| i).unwrap();
                                b = b.register(module);
                                want.push(m.to_string());
                            }
                            if events {
                                b = b.register(Impl(Default::default()).into_rpc());
                                want.extend(["all", "mapped", "some"].iter().flat_map(|n| [format!("ev_subscribe_{n}"), format!("ev_unsubscribe_{n}")]));
                                want.push("ev_last".into());
                            }
                            if let Some(n) = name {
                                b = b.with_method_list(n);
                                want.push(n.into());
                            }
                            want.sort();
                            let server = b.build().await.map_err(|e| e.to_string())?;
                            let client = rpc::new_http_client(format!("http://{}", server.http_address()), rpc::RpcAuthData::None).unwrap();
                            use jsonrpsee::core::client::ClientT;
                            let listed: Result<Vec<String>, _> = client.request(name.unwrap_or("method_list"), jsonrpsee::rpc_params!()).await;
                            let mut answers = vec![];
                            for m in all {
                                answers.push(client.request::<usize, _>(m, jsonrpsee::rpc_params!()).await.ok());
                            }
                            server.shutdown().await;
                            Ok::<_, String>((listed.ok(), answers, want))
                        })
                    });
                    c.evals(1);
                    c.nontrivial(1);
                    c.outcome(if name.is_some() { "listed" } else { "no list" });
                    match got {
                        Ok(Ok((listed, answers, want))) => {
                            c.eq(id, &listed, &name.map(|_| want));
                            let want: Vec<_> = (0..all.len()).map(|i| (set >> i & 1 == 1).then_some(i)).collect();
                            c.eq(|| format!("{} answers", id()), &answers, &want);
                        }
                        Ok(Err(e)) | Err(e) => c.fail(id(), e),
                    }
                }
            }
        }
        // a list of many
        let many: Vec<&'static str> = (0..300u32).map(|i| &*Box::leak(format!("{}{}", ["m", "M", "unsub", "get_", "_", "rpc", "é"][i as usize % 7], i * 7919 % 1000).into_boxed_str())).collect();
        let got = guard(|| {
            rt.block_on(async {
                let mut b = Builder::new("127.0.0.1:0".parse().unwrap(), None);
                for part in many.chunks(7) {
                    let mut module = jsonrpsee::RpcModule::new(());
                    part.iter().for_each(|m| drop(module.register_method(m, |_, _, _| 1).unwrap()));
                    b = b.register(module);
                }
                let server = b.with_method_list("list").build().await.map_err(|e| e.to_string())?;
                let client = rpc::new_http_client(format!("http://{}", server.http_address()), rpc::RpcAuthData::None).unwrap();
                use jsonrpsee::core::client::ClientT;
                let listed: Result<Vec<String>, _> = client.request("list", jsonrpsee::rpc_params!()).await;
                server.shutdown().await;
                listed.map_err(|e| e.to_string())
            })
        });
        let mut want: Vec<String> = many.iter().map(|m| m.to_string()).chain(["list".to_string()]).collect();
        want.sort();
        c.eq(|| "300 methods".into(), &got, &Ok(Ok(want)));
        // the same method twice is refused
        let module = || {
            let mut m = jsonrpsee::RpcModule::new(());
            m.register_method("a", |_, _, _| 1).unwrap();
            m
        };
        let got = guard(|| drop(Builder::new("127.0.0.1:0".parse().unwrap(), None).register(module()).register(module())));
        c.eq(|| "the same method in two modules".into(), &got.is_err(), &true);
        let clash = rt.block_on(async { Builder::new("127.0.0.1:0".parse().unwrap(), None).register(module()).with_method_list("a").build().await.is_err() });
        c.eq(|| "a method by the name of the list".into(), &clash, &true);
    });

    ctx.part("events that cannot be written", "every place of such an event among up to five, mapped or as they are: what comes before it arrives, and nothing that comes after a gap", |c| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        for n in 1..=5u32 {
            for bad in 1..=n {
                for mapped in [false, true] {
                    let got = guard(|| {
                        rt.block_on(async {
                            let shared: Arc<Mutex<Option<Broadcaster<Hard>>>> = Arc::new(Mutex::new(Some(Broadcaster::new())));
                            let mut module = jsonrpsee::RpcModule::new(shared.clone());
                            module
                                .register_subscription("sub", "ev", "unsub", move |_, p, shared, _| async move {
                                    let r = shared.lock().unwrap().as_mut().unwrap().subscribe();
                                    if mapped { subscription::connect_broadcast_map(r, p, move |h| Hard(h.0, bad)).await } else { subscription::connect_broadcast(r, p).await }
                                })
                                .unwrap();
                            let mut sub = Methods::from(module).subscribe("sub", jsonrpsee::core::EmptyServerParams::new(), 100).await.map_err(|e| e.to_string())?;
                            settle().await;
                            for e in 1..=n {
                                shared.lock().unwrap().as_mut().unwrap().broadcast(&Hard(e, if mapped { 0 } else { bad }));
                                settle().await;
                            }
                            let mut got = vec![];
                            while let Some(Some(Ok((v, _)))) = sub.next::<u32>().now_or_never() {
                                got.push(v);
                            }
                            Ok::<_, String>(got)
                        })
                    });
                    c.evals(1);
                    c.nontrivial(1);
                    c.outcome("cut off");
                    c.eq(|| format!("{n} events, the {bad}. cannot be written, mapped {mapped}"), &got, &Ok(Ok((1..bad).collect())));
                }
            }
        }
    });

    ctx.part("results", "values and errors at every depth of up to 4 nested results: the value, or the outermost error's text under the code for a failed call", |c| {
        type E1 = Result<u32, String>;
        type E2 = Result<E1, std::io::Error>;
        type E3 = Result<E2, String>;
        type E4 = Result<E3, std::fmt::Error>;
        let io = || std::io::Error::other("disk \"x\" gone");
        let want = |m: &str| (jsonrpsee::types::error::CALL_EXECUTION_FAILED_CODE, m.to_string());
        let shape = |r: RpcResult<u32>| r.map_err(|e| (e.code(), e.message().to_string()));
        let mut one = |id: &str, got: RpcResult<u32>, want: Result<u32, (i32, String)>| {
            c.evals(1);
            c.nontrivial(1);
            c.outcome(if want.is_ok() { "value" } else { "error" });
            c.eq(|| id.into(), &shape(got), &want);
        };
        for v in [0u32, 1, u32::MAX] {
            one("0", handle_result(v), Ok(v));
            one("1", handle_result::<E1, _, _>(Ok(v)), Ok(v));
            one("2", handle_result::<E2, _, _>(Ok(Ok(v))), Ok(v));
            one("3", handle_result::<E3, _, _>(Ok(Ok(Ok(v)))), Ok(v));
            one("4", handle_result::<E4, _, _>(Ok(Ok(Ok(Ok(v))))), Ok(v));
        }
        for m in ["", "a", "a: b", "é\n"] {
            one("e1", handle_result::<E1, _, _>(Err(m.into())), Err(want(m)));
            one("e2", handle_result::<E2, _, _>(Ok(Err(m.into()))), Err(want(m)));
            one("e3", handle_result::<E3, _, _>(Err(m.into())), Err(want(m)));
            one("e31", handle_result::<E3, _, _>(Ok(Ok(Err(m.into())))), Err(want(m)));
            one("e4", handle_result::<E4, _, _>(Ok(Err(m.into()))), Err(want(m)));
            one("e41", handle_result::<E4, _, _>(Ok(Ok(Ok(Err(m.into()))))), Err(want(m)));
        }
        one("io", handle_result::<E2, _, _>(Err(io())), Err(want("disk \"x\" gone")));
        one("io3", handle_result::<E3, _, _>(Ok(Err(io()))), Err(want("disk \"x\" gone")));
        one("fmt", handle_result::<E4, _, _>(Err(std::fmt::Error)), Err(want(&std::fmt::Error.to_string())));
    });
}
