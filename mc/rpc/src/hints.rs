use std::collections::BTreeMap;
use std::fmt::Debug;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::num::*;

use mc_kit::{Ctx, PartCtx, guard};
use rpc::description::{Described, HasValueHint, Interface, MethodKindData, Module, RpcDocs, ValueHint as VH};
use rpc::types::{RpcHexString, RpcString};
use rpc::{Methods, RpcResult, subscription};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{Value, from_value, json, to_value};

/// Whether a JSON value is of the documented shape.
fn conforms(v: &Value, h: &VH) -> bool {
    match h {
        VH::Prim(p) => match *p {
            "bool" => v.is_boolean(),
            "number" => v.is_number(),
            "non-zero number" => v.is_number() && v.as_f64() != Some(0.0),
            "string" => v.is_string(),
            "hex string" => v.as_str().is_some_and(|s| s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit())),
            "null" | "nothing" => v.is_null(),
            "json" => true,
            p => panic!("primitive {p}"),
        },
        VH::StrLit(s) => v.as_str() == Some(s),
        VH::Choice(hs) => hs.iter().any(|h| conforms(v, h)),
        VH::Object(fs) => v.as_object().is_some_and(|o| o.len() == fs.len() && fs.iter().all(|(n, h)| o.get(*n).is_some_and(|v| conforms(v, h)))),
        VH::Map(k, x) => v.as_object().is_some_and(|o| {
            o.iter().all(|(n, v)| (conforms(&json!(n), k) || serde_json::from_str::<Value>(n).is_ok_and(|n| conforms(&n, k))) && conforms(v, x))
        }),
        VH::Array(x) => v.as_array().is_some_and(|a| a.iter().all(|v| conforms(v, x))),
        VH::Tuple(hs) => v.as_array().is_some_and(|a| a.len() == hs.len() && a.iter().zip(*hs).all(|(v, h)| conforms(v, h))),
    }
}

/// Values of a documented shape, every choice among them.
fn examples(h: &VH) -> Vec<Value> {
    let product = |hs: Vec<Vec<Value>>| -> Vec<Vec<Value>> {
        // every example at its place, the others fixed
        let mut out = vec![hs.iter().map(|e| e[0].clone()).collect::<Vec<_>>()];
        for (i, e) in hs.iter().enumerate() {
            for v in &e[1..] {
                let mut x = out[0].clone();
                x[i] = v.clone();
                out.push(x);
            }
        }
        out
    };
    match h {
        VH::Prim(p) => match *p {
            "bool" => vec![json!(true), json!(false)],
            "number" => vec![json!(0), json!(1), json!(100)],
            "non-zero number" => vec![json!(1), json!(7)],
            "string" => vec![json!("127.0.0.1")],
            "hex string" => vec![json!("00ff"), json!("")],
            "null" => vec![Value::Null],
            "json" => vec![json!({"a": [1]})],
            p => panic!("primitive {p}"),
        },
        VH::StrLit(s) => vec![json!(s)],
        VH::Choice(hs) => hs.iter().flat_map(|h| examples(h)).collect(),
        VH::Object([]) => vec![json!({})],
        VH::Object(fs) => product(fs.iter().map(|f| examples(f.1)).collect())
            .into_iter()
            .map(|vs| Value::Object(fs.iter().map(|f| f.0.to_string()).zip(vs).collect()))
            .collect(),
        VH::Map(_, x) => {
            let xs = examples(x);
            vec![json!({}), json!({"0": xs[0]}), Value::Object(xs.iter().enumerate().map(|(i, v)| (i.to_string(), v.clone())).collect())]
        }
        VH::Array(x) => {
            let xs = examples(x);
            vec![json!([]), json!([xs[0]]), Value::Array(xs)]
        }
        VH::Tuple([]) => vec![json!([])],
        VH::Tuple(hs) => product(hs.iter().map(|h| examples(h)).collect()).into_iter().map(Value::Array).collect(),
    }
}

/// The documented layout, line by line.
fn lines(h: &VH) -> Vec<String> {
    fn choices<'a>(hs: &[&'a VH]) -> Vec<&'a VH> {
        hs.iter()
            .flat_map(|h| match h {
                VH::Choice(hs) => choices(hs),
                h => vec![*h],
            })
            .collect()
    }
    /// `before`, the block, `after`; further lines moved in by `by`.
    fn around(before: &str, block: Vec<String>, after: &str, by: usize) -> Vec<String> {
        let n = block.len();
        block
            .into_iter()
            .enumerate()
            .map(|(i, l)| format!("{}{l}{}", if i == 0 { before.to_string() } else { " ".repeat(by) }, if i + 1 == n { after } else { "" }))
            .collect()
    }
    match h {
        VH::Prim(p) => vec![p.to_string()],
        VH::StrLit(s) => vec![json!(s).to_string()],
        VH::Choice(hs) => match &choices(hs)[..] {
            [] => vec!["impossible".into()],
            [h] => lines(h),
            hs => std::iter::once("EITHER OF".to_string()).chain(hs.iter().enumerate().flat_map(|(i, h)| around(&format!("{:>6}) ", i + 1), lines(h), "", 8))).collect(),
        },
        VH::Object([]) => vec!["{}".into()],
        VH::Object([(n, h)]) => around(&format!("{{ {}: ", json!(n)), lines(h), " }", 0),
        VH::Object(fs) => std::iter::once("{".to_string())
            .chain(fs.iter().flat_map(|(n, h)| around(&format!("    {}: ", json!(n)), lines(h), ",", 4)))
            .chain(["}".to_string()])
            .collect(),
        VH::Map(k, v) => {
            let mut k = around("{ ", lines(k), ": ", 0);
            let mut v = around("", lines(v), ", .. }", 0);
            let first = v.remove(0);
            k.last_mut().unwrap().push_str(&first);
            k.extend(v);
            k
        }
        VH::Tuple([]) => vec!["[]".into()],
        VH::Tuple([h]) => around("[ ", lines(h), " ]", 0),
        VH::Tuple(hs) => std::iter::once("[".to_string()).chain(hs.iter().flat_map(|h| around("    ", lines(h), ",", 4))).chain(["]".to_string()]).collect(),
        VH::Array(h) => around("[ ", lines(h), ", .. ]", 0),
    }
}
fn has_single(h: &VH) -> bool {
    match h {
        VH::Tuple([_]) => true,
        VH::Tuple(hs) | VH::Choice(hs) => hs.iter().any(|h| has_single(h)),
        VH::Object(fs) => fs.iter().any(|f| has_single(f.1)),
        VH::Map(k, v) => has_single(k) || has_single(v),
        VH::Array(h) => has_single(h),
        _ => false,
    }
}
fn rendered(c: &PartCtx, h: &VH) -> bool {
    let Ok(got) = guard(|| h.to_string()) else {
        c.fail(format!("{h:?}"), "rendering panicked");
        return false;
    };
    let want = lines(h).join("\n");
    c.evals(1);
    c.nontrivial(1);
    // where the blanks go around a list of one is left open
    if has_single(h) {
        let squeeze = |s: &str| s.replace(' ', "");
        c.eq(|| format!("{h:?}"), &squeeze(&got), &squeeze(&want))
    } else {
        c.eq(|| format!("{h:?}"), &got, &want)
    }
}

trait Samples: Sized {
    fn samples() -> Vec<Self>;
}
macro_rules! samples {
    ($($t:ty => [$($v:expr),* $(,)?];)*) => { $(impl Samples for $t { fn samples() -> Vec<Self> { vec![$($v),*] } })* };
}
samples! {
    () => [()];
    bool => [true, false];
    u8 => [0, 255];
    i8 => [-128, 127];
    u16 => [0, 65535];
    i32 => [-1, 0];
    u64 => [0, u64::MAX];
    i64 => [i64::MIN, 5];
    usize => [0, 9];
    i16 => [i16::MIN, 7];
    u32 => [0, u32::MAX];
    i128 => [-5, u64::MAX as i128];
    u128 => [0, u64::MAX as u128];
    isize => [-1, isize::MAX];
    NonZeroI8 => [NonZeroI8::MIN, NonZeroI8::MAX];
    NonZeroU16 => [NonZeroU16::MIN, NonZeroU16::MAX];
    NonZeroI32 => [NonZeroI32::MIN, NonZeroI32::MAX];
    NonZeroU32 => [NonZeroU32::MIN, NonZeroU32::MAX];
    NonZeroI128 => [NonZeroI128::new(-5).unwrap(), NonZeroI128::new(1).unwrap()];
    NonZeroU128 => [NonZeroU128::MIN, NonZeroU128::new(u64::MAX as u128).unwrap()];
    NonZeroIsize => [NonZeroIsize::MIN, NonZeroIsize::MAX];
    NonZeroUsize => [NonZeroUsize::MIN, NonZeroUsize::MAX];
    NonZeroU8 => [NonZeroU8::new(1).unwrap()];
    NonZeroI16 => [NonZeroI16::new(-3).unwrap()];
    NonZeroU64 => [NonZeroU64::MAX];
    NonZeroI64 => [NonZeroI64::MIN];
    String => [String::new(), "x".into(), "\"}".into()];
    std::path::PathBuf => ["/a/b".into()];
    IpAddr => [[127, 0, 0, 1].into()];
    Ipv4Addr => [[1, 2, 3, 4].into()];

    SocketAddr => [([1, 2, 3, 4], 80).into()];
    Value => [Value::Null, json!([1, {"a": null}])];
    RpcString => [RpcString::from_string("a".into()), RpcString::from_bytes(vec![255])];
    RpcHexString => [RpcHexString::from_bytes(vec![]), RpcHexString::from_bytes(vec![1, 255])];
}
impl<T: Samples> Samples for Box<T> {
    fn samples() -> Vec<Self> {
        T::samples().into_iter().map(Box::new).collect()
    }
}
impl<T: Samples> Samples for Option<T> {
    fn samples() -> Vec<Self> {
        T::samples().into_iter().map(Some).chain([None]).collect()
    }
}
impl<T: Samples> Samples for Vec<T> {
    fn samples() -> Vec<Self> {
        vec![vec![], T::samples(), T::samples().into_iter().take(1).collect()]
    }
}
impl<T: Samples> Samples for BTreeMap<String, T> {
    fn samples() -> Vec<Self> {
        vec![BTreeMap::new(), T::samples().into_iter().enumerate().map(|(i, v)| (format!("k{i}"), v)).collect()]
    }
}
impl<T: Samples> Samples for BTreeMap<u8, T> {
    fn samples() -> Vec<Self> {
        vec![T::samples().into_iter().enumerate().map(|(i, v)| (i as u8, v)).collect()]
    }
}
impl<A: Samples> Samples for (A,) {
    fn samples() -> Vec<Self> {
        A::samples().into_iter().map(|a| (a,)).collect()
    }
}
impl<A: Samples> Samples for (A, bool) {
    fn samples() -> Vec<Self> {
        A::samples().into_iter().map(|a| (a, true)).collect()
    }
}
impl<A: Samples> Samples for (String, A, Option<A>) {
    fn samples() -> Vec<Self> {
        A::samples().into_iter().flat_map(|a| Option::<A>::samples().into_iter().take(1).map(move |o| ("s".to_string(), o))).zip(A::samples()).map(|((s, o), a)| (s, a, o)).collect()
    }
}
impl<A: Samples> Samples for (u8, A, bool, Option<u16>) {
    fn samples() -> Vec<Self> {
        A::samples().into_iter().map(|a| (1, a, false, None)).collect()
    }
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
struct Wrapped<T: HasValueHint>(T);
impl<T: Samples + HasValueHint> Samples for Wrapped<T> {
    fn samples() -> Vec<Self> {
        T::samples().into_iter().map(Self).collect()
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
struct Pair<T: HasValueHint>(T, bool);
impl<T: Samples + HasValueHint> Samples for Pair<T> {
    fn samples() -> Vec<Self> {
        T::samples().into_iter().map(|t| Self(t, true)).collect()
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
struct Named<T: HasValueHint> {
    first: T,
    second: Option<u64>,
    third: RpcString,
}
impl<T: Samples + HasValueHint> Samples for Named<T> {
    fn samples() -> Vec<Self> {
        T::samples().into_iter().flat_map(|first| RpcString::samples().into_iter().map(move |s| (s, None::<u64>))).zip(T::samples().into_iter().cycle_all()).map(|((third, second), first)| Self { first, second, third }).collect()
    }
}
trait CycleAll: Iterator + Sized {
    fn cycle_all(self) -> std::vec::IntoIter<Self::Item> {
        self.collect::<Vec<_>>().into_iter()
    }
}
impl<I: Iterator> CycleAll for I {}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
struct One<T: HasValueHint> {
    only: T,
}
impl<T: Samples + HasValueHint> Samples for One<T> {
    fn samples() -> Vec<Self> {
        T::samples().into_iter().map(|only| Self { only }).collect()
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
enum Plain {
    Alpha,
    Beta,
    Gamma,
}
samples! { Plain => [Plain::Alpha, Plain::Beta, Plain::Gamma]; }
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
#[serde(tag = "type", content = "content")]
enum Tagged<T: HasValueHint> {
    Nothing,
    Other,
    Single(T),
    Double(T, u8),
    Fields { value: T, more: Plain },
    Text(RpcString),
}
impl<T: Samples + HasValueHint> Samples for Tagged<T> {
    fn samples() -> Vec<Self> {
        let mut out = vec![Self::Nothing, Self::Other];
        out.extend(T::samples().into_iter().map(Self::Single));
        out.extend(T::samples().into_iter().map(|t| Self::Double(t, 3)));
        out.extend(T::samples().into_iter().map(|value| Self::Fields { value, more: Plain::Beta }));
        out.extend(RpcString::samples().into_iter().map(Self::Text));
        out
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
#[serde(tag = "version", content = "content")]
enum Versioned<T: HasValueHint> {
    V1(T),
    V2 { only: T },
}
impl<T: Samples + HasValueHint> Samples for Versioned<T> {
    fn samples() -> Vec<Self> {
        T::samples().into_iter().map(Self::V1).chain(T::samples().into_iter().map(|only| Self::V2 { only })).collect()
    }
}
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize, HasValueHint)]
#[serde(untagged)]
enum Untagged<T: HasValueHint> {
    Number(u64),
    Text { text: T },
    Pair(T, bool),
}
impl<T: Samples + HasValueHint> Samples for Untagged<T> {
    fn samples() -> Vec<Self> {
        let mut out = vec![Self::Number(7)];
        out.extend(T::samples().into_iter().map(|text| Self::Text { text }));
        out.extend(T::samples().into_iter().map(|t| Self::Pair(t, false)));
        out
    }
}

fn one<T: Samples + HasValueHint + Serialize + DeserializeOwned + Debug>(c: &PartCtx) {
    let name = std::any::type_name::<T>().replace("mc_rpc::hints::", "").replace("alloc::", "").replace("core::", "");
    for v in T::samples() {
        c.evals(1);
        c.nontrivial(1);
        c.outcome("written as documented");
        let Ok(j) = to_value(&v) else {
            c.fail(format!("{name}: {v:?}"), "cannot be written");
            return;
        };
        if !c.eq(|| format!("{name}: {v:?} as {j}, documented as {:?}", T::HINT_SER), &conforms(&j, &T::HINT_SER), &true) {
            return;
        }
    }
    for j in examples(&T::HINT_DE) {
        c.evals(1);
        c.outcome("read as documented");
        let got = guard(|| from_value::<T>(j.clone()).map(drop).map_err(|e| e.to_string()));
        if !c.eq(|| format!("{name}: {j} read, documented as {:?}", T::HINT_DE), &got, &Ok(Ok(()))) {
            return;
        }
    }
    rendered(c, &T::HINT_SER);
    rendered(c, &T::HINT_DE);
}
macro_rules! each {
    ($c:expr, $($t:ty),*) => { $(one::<$t>($c);)* };
}
fn wrapped<T: Samples + HasValueHint + Serialize + DeserializeOwned + Debug + Clone>(c: &PartCtx) {
    each!(c, T, Box<T>, Option<T>, Vec<T>, BTreeMap<String, T>, BTreeMap<u8, T>, (T,), (T, bool), (String, T, Option<T>), (u8, T, bool, Option<u16>));
    each!(c, Wrapped<T>, Pair<T>, Named<T>, One<T>, Tagged<T>, Versioned<T>, Untagged<T>);
}
fn twice<T: Samples + HasValueHint + Serialize + DeserializeOwned + Debug + Clone>(c: &PartCtx) {
    wrapped::<T>(c);
    wrapped::<Option<T>>(c);
    wrapped::<Vec<T>>(c);
    wrapped::<(T, bool)>(c);
    wrapped::<(T,)>(c);
    wrapped::<BTreeMap<String, T>>(c);
    wrapped::<Wrapped<T>>(c);
    wrapped::<Pair<T>>(c);
    wrapped::<Named<T>>(c);
    wrapped::<Tagged<T>>(c);
    wrapped::<Versioned<T>>(c);
    wrapped::<Untagged<T>>(c);
}

/// Shop talk.
///
/// With two paragraphs.
#[rpc::describe]
#[rpc::rpc(server, namespace = "shop")]
trait Shop {
    /// Says a thing.
    #[method(name = "say")]
    fn say(&self, what: RpcString, times: Option<u8>) -> RpcResult<RpcString>;
    #[method(name = "sum")]
    async fn sum(&self, zeta: u64, alpha: u64, list: Vec<u64>) -> RpcResult<u64>;
    #[method(name = "nothing")]
    fn nothing(&self) -> RpcResult<()>;
    #[method(name = "blocking", blocking)]
    fn blocked(&self, plain: Plain, tagged: Tagged<u8>) -> RpcResult<Vec<Plain>>;
    /// Watches.
    #[subscription(name = "subscribe_things", item = Named<u8>)]
    async fn subscribe_things(&self, from: u64) -> subscription::Reply;
    #[subscription(name = "watch", unsubscribe = "stop_watching", item = Option<String>)]
    async fn watch(&self) -> subscription::Reply;
}
#[rpc::describe]
#[rpc::rpc(server)]
trait Bare {
    #[method(name = "bare_say")]
    fn say(&self, what: (u8, Option<RpcString>), map: BTreeMap<String, bool>) -> RpcResult<Option<Plain>>;
    #[subscription(name = "subscribe", item = u8)]
    async fn subscribe_one(&self) -> subscription::Reply;
}
struct Impl;
#[async_trait::async_trait]
impl ShopServer for Impl {
    fn say(&self, what: RpcString, _: Option<u8>) -> RpcResult<RpcString> {
        Ok(what)
    }
    async fn sum(&self, zeta: u64, alpha: u64, list: Vec<u64>) -> RpcResult<u64> {
        Ok(zeta + 10 * alpha + list.iter().sum::<u64>())
    }
    fn nothing(&self) -> RpcResult<()> {
        Ok(())
    }
    fn blocked(&self, plain: Plain, _: Tagged<u8>) -> RpcResult<Vec<Plain>> {
        Ok(vec![plain])
    }
    async fn subscribe_things(&self, pending: subscription::Pending, from: u64) -> subscription::Reply {
        let s = subscription::accept::<Named<u8>>(pending).await?;
        s.send(&Named { first: from as u8, second: None, third: RpcString::from_string("t".into()) }).await?;
        Ok(())
    }
    async fn watch(&self, pending: subscription::Pending) -> subscription::Reply {
        let s = subscription::accept::<Option<String>>(pending).await?;
        s.send(&None).await?;
        s.send(&Some("x".into())).await?;
        Ok(())
    }
}
#[async_trait::async_trait]
impl BareServer for Impl {
    fn say(&self, _: (u8, Option<RpcString>), _: BTreeMap<String, bool>) -> RpcResult<Option<Plain>> {
        Ok(None)
    }
    async fn subscribe_one(&self, pending: subscription::Pending) -> subscription::Reply {
        let s = subscription::accept::<u8>(pending).await?;
        s.send(&1).await?;
        Ok(())
    }
}

async fn described(c: &PartCtx<'_>, module: &Module, methods: Methods) {
    let mut documented = vec![];
    for m in module.methods {
        documented.push(m.name.to_string());
        let VH::Object(params) = &m.params else {
            c.fail(m.name, "parameters are not an object");
            return;
        };
        for by_name in [false, true] {
            for e in examples(&m.params) {
                let args = if by_name { e.clone() } else { Value::Array(params.iter().map(|p| e[p.0].clone()).collect()) };
                let req = json!({"jsonrpc": "2.0", "id": 1, "method": m.name, "params": args}).to_string();
                c.evals(1);
                c.nontrivial(1);
                let (answer, mut stream) = match methods.raw_json_request(&req, 10).await {
                    Ok(r) => r,
                    Err(e) => {
                        c.fail(&req, e.to_string());
                        return;
                    }
                };
                let answer: Value = serde_json::from_str(answer.get()).unwrap();
                match &m.kind_data {
                    MethodKindData::Method { return_type } => {
                        c.outcome("called as documented");
                        c.eq(|| format!("{req} answered {answer}"), &answer.get("result").is_some_and(|r| conforms(r, return_type)), &true);
                    }
                    MethodKindData::Subscription { unsubscribe_name, item_type } => {
                        c.outcome("subscribed as documented");
                        let mut n = 0;
                        while let Some(item) = stream.recv().await {
                            let item: Value = serde_json::from_str(item.get()).unwrap();
                            c.eq(|| format!("{req} produced {item}"), &conforms(&item["params"]["result"], item_type), &true);
                            n += 1;
                        }
                        c.eq(|| format!("{req} answered {answer}"), &(n > 0 && answer.get("result").is_some()), &true);
                        documented.push(unsubscribe_name.to_string());
                    }
                }
            }
        }
    }
    documented.sort();
    documented.dedup();
    let mut there: Vec<String> = methods.method_names().map(str::to_string).collect();
    there.sort();
    c.eq(|| format!("methods of {}", module.name), &documented, &there);
}

fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}

pub fn run(ctx: &Ctx) {
    ctx.part("values", "34 basic types, 21 of them in 17 wrappings, the rest in 3, in 12 of which it is wrapped once more: what is written has the documented shape, and every example of the documented shape is read", |c| {
        wrapped::<()>(c);
        wrapped::<bool>(c);
        twice::<u8>(c);
        wrapped::<i8>(c);
        wrapped::<u16>(c);
        wrapped::<i32>(c);
        twice::<u64>(c);
        wrapped::<i64>(c);
        wrapped::<usize>(c);
        wrapped::<NonZeroU8>(c);
        wrapped::<NonZeroI16>(c);
        wrapped::<NonZeroU64>(c);
        wrapped::<NonZeroI64>(c);
        each!(c, i16, Option<i16>, Vec<i16>, Wrapped<i16>);
        each!(c, u32, Option<u32>, Vec<u32>, Wrapped<u32>);
        each!(c, i128, Option<i128>, Vec<i128>, Wrapped<i128>);
        each!(c, u128, Option<u128>, Vec<u128>, Wrapped<u128>);
        each!(c, isize, Option<isize>, Vec<isize>, Wrapped<isize>);
        each!(c, NonZeroI8, Option<NonZeroI8>, Vec<NonZeroI8>, Wrapped<NonZeroI8>);
        each!(c, NonZeroU16, Option<NonZeroU16>, Vec<NonZeroU16>, Wrapped<NonZeroU16>);
        each!(c, NonZeroI32, Option<NonZeroI32>, Vec<NonZeroI32>, Wrapped<NonZeroI32>);
        each!(c, NonZeroU32, Option<NonZeroU32>, Vec<NonZeroU32>, Wrapped<NonZeroU32>);
        each!(c, NonZeroI128, Option<NonZeroI128>, Vec<NonZeroI128>, Wrapped<NonZeroI128>);
        each!(c, NonZeroU128, Option<NonZeroU128>, Vec<NonZeroU128>, Wrapped<NonZeroU128>);
        each!(c, NonZeroIsize, Option<NonZeroIsize>, Vec<NonZeroIsize>, Wrapped<NonZeroIsize>);
        each!(c, NonZeroUsize, Option<NonZeroUsize>, Vec<NonZeroUsize>, Wrapped<NonZeroUsize>);
        twice::<String>(c);
        wrapped::<std::path::PathBuf>(c);
        wrapped::<IpAddr>(c);
        wrapped::<Ipv4Addr>(c);
        
        wrapped::<Value>(c);
        twice::<RpcString>(c);
        twice::<RpcHexString>(c);
        twice::<Plain>(c);
    });

    ctx.part("layout", "every description of depth up to 3 over 2 primitives, with up to 2 (thorough 3) members, and choices of up to 12: drawn in the documented layout, nested choices flattened", |c| {
        let width = ctx.pick(2, 3);
        let mut level: Vec<&'static VH> = vec![leak(VH::STRING), leak(VH::StrLit("a\"b"))];
        for depth in 1..=3usize {
            // members of the deepest level: a selection, so that the space stays finite in time
            let step = (level.len() / ctx.pick(40, 60)).max(1);
            let base: Vec<&'static VH> = level.iter().copied().step_by(step).collect();
            let mut next = level.clone();
            next.push(leak(VH::Array(&VH::NULL)));
            let widths = if depth == 3 { 2 } else { width };
            for n in 0..=widths {
                for seq in mc_kit::sequences(base.len(), n) {
                    let hs: &'static [&'static VH] = seq.iter().map(|i| base[*i]).collect::<Vec<_>>().leak();
                    let fs: &'static [(&'static str, &'static VH)] = seq.iter().enumerate().map(|(i, h)| (["k", "key \"2\"", "z"][i], base[*h])).collect::<Vec<_>>().leak();
                    next.extend([leak(VH::Choice(hs)), leak(VH::Object(fs)), leak(VH::Tuple(hs))]);
                    if let [h] = hs {
                        next.push(leak(VH::Array(h)));
                        next.push(leak(VH::Map(&VH::STRING, h)));
                        next.push(leak(VH::Map(h, &VH::NULL)));
                    }
                }
            }
            level = next;
        }
        for n in 3..=12 {
            for h in level.iter().step_by(97) {
                level_choice(c, n, h);
            }
        }
        for h in level {
            c.outcome(match h {
                VH::Choice(_) => "choice",
                VH::Object(_) => "object",
                VH::Tuple(_) => "tuple",
                _ => "other",
            });
            if !rendered(c, h) {
                return;
            }
        }
    });

    ctx.part("methods", "two interfaces with 6 methods and 3 subscriptions, called by position and by name with every example of their documented parameters: what is documented is there, takes what it says and answers what it says", |c| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            described(c, &<ShopDescription as Described>::DESCRIPTION, ShopServer::into_rpc(Impl).into()).await;
            described(c, &<BareDescription as Described>::DESCRIPTION, BareServer::into_rpc(Impl).into()).await;
        });
        let shop = <ShopDescription as Described>::DESCRIPTION;
        c.eq(|| "name and text of an interface".into(), &(shop.name, shop.description.trim()), &("shop", "Shop talk.\n\nWith two paragraphs."));
        let texts: Vec<_> = shop.methods.iter().map(|m| m.description.trim()).collect();
        c.eq(|| "texts of methods".into(), &texts, &vec!["Says a thing.", "", "", "", "Watches.", ""]);
        // the whole document holds every part of every method, in order
        let interface: Interface = [shop, <BareDescription as Described>::DESCRIPTION].into_iter().collect();
        let doc = RpcDocs { title: "T", version: "9", description: "About", interface: &interface }.to_string();
        let mut want = vec!["# RPC documentation for T".to_string(), "Version `9`".into(), "About".into()];
        for m in interface.modules() {
            want.push(format!("## Module `{}`", m.name));
            want.push(m.description.to_string());
            for m in m.methods {
                let (kind, back, ty, unsub) = match &m.kind_data {
                    MethodKindData::Method { return_type } => ("Method", "Returns", return_type, None),
                    MethodKindData::Subscription { unsubscribe_name, item_type } => ("Subscription", "Produces", item_type, Some(unsubscribe_name)),
                };
                want.push(format!("### {kind} `{}`", m.name));
                want.push(m.description.to_string());
                want.push(format!("Parameters:\n```\n{}\n```", lines(&m.params).join("\n")));
                want.push(format!("{back}:\n```\n{}\n```", lines(ty).join("\n")));
                want.extend(unsub.map(|u| format!("Unsubscribe using `{u}`.")));
            }
        }
        let mut rest = &doc[..];
        for w in want {
            c.evals(1);
            match rest.find(&w) {
                Some(at) => rest = &rest[at + w.len()..],
                None => {
                    c.fail(format!("document lacks {w:?}"), &doc);
                    return;
                }
            }
        }
    });
}

fn level_choice(c: &PartCtx, n: usize, h: &'static VH) {
    let hs: &'static [&'static VH] = vec![h; n].leak();
    rendered(c, leak(VH::Choice(hs)));
}
