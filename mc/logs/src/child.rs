//! The process that sets up logging one way and writes the same events every time.
use logging::{LogStyle, TextColoring, ValueOrEnvVar, ValueOrEnvVarWithDefault, WriterSettings, log};
use serde::{Deserialize, Serialize};
use std::io::Write;
use std::panic::Location;
use std::sync::{Arc, Mutex};
use tracing_subscriber::fmt::MakeWriter;
use utils::{log_error, tap_log::TapLog};

pub const CHILD: &str = "MC_LOGS_CHILD";

/// Where a setting comes from: given as a value, or from a variable of the environment (filters: with a default).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum From<T> {
    Value(T),
    Var(String, String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Writer {
    pub terminal: bool,
    pub filter: From<String>,
    pub style: From<Style>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Style {
    Json,
    Plain,
    Colored,
    Auto,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Setup {
    Simple,
    SimpleWith(String),
    To(bool),
    Generic(Writer, Option<Writer>),
}

#[derive(Clone, Default)]
struct Sink(Arc<Mutex<Vec<u8>>>);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn settings(w: Writer, sink: &Sink) -> WriterSettings<impl for<'a> MakeWriter<'a> + Send + Sync + 'static> {
    WriterSettings {
        make_writer: logging::write_to_make_writer(sink.clone()),
        is_terminal: w.terminal,
        filter: match w.filter {
            From::Value(v) => ValueOrEnvVarWithDefault::Value(v),
            From::Var(var_name, default_value) => ValueOrEnvVarWithDefault::EnvVar { var_name: var_name.into(), default_value },
        },
        log_style: match w.style {
            From::Value(Style::Json) => ValueOrEnvVar::Value(LogStyle::Json),
            From::Value(Style::Plain) => ValueOrEnvVar::Value(LogStyle::Text(TextColoring::Off)),
            From::Value(Style::Colored) => ValueOrEnvVar::Value(LogStyle::Text(TextColoring::On)),
            From::Value(Style::Auto) => ValueOrEnvVar::Value(LogStyle::Text(TextColoring::Auto)),
            From::Var(name, _) => ValueOrEnvVar::EnvVar(name.into()),
        },
    }
}

pub const LEVELS: [log::Level; 5] = [log::Level::Error, log::Level::Warn, log::Level::Info, log::Level::Debug, log::Level::Trace];
pub const TARGETS: [&str; 5] = ["my", "my::sub", "myx", "other", "Other"];

fn events(add: &str) {
    for t in TARGETS {
        for l in LEVELS {
            log::log!(target: t, l, "event {t} {l}{add}");
        }
    }
}

pub fn child() -> bool {
    let Some(mode) = std::env::var_os(CHILD) else { return false };
    let setup: Setup = serde_json::from_str(mode.to_str().unwrap()).unwrap();
    let (main, aux) = (Sink::default(), Sink::default());
    match setup {
        Setup::Simple => logging::init_logging(),
        Setup::SimpleWith(f) => logging::init_logging_with_default_filter(f),
        Setup::To(terminal) => logging::init_logging_to(main.clone(), terminal),
        Setup::Generic(a, Some(b)) => logging::init_logging_generic(settings(a, &main), Some(settings(b, &aux))),
        Setup::Generic(a, None) => logging::init_logging_generic(settings(a, &main), logging::no_writer_settings()),
    }
    events("");
    // once set up, it stays so
    logging::init_logging_to(aux.clone(), true);
    logging::init_logging_with_default_filter("trace".to_string());
    events(" again");
    let mut told = vec![];
    helpers(&mut told);
    let (main, aux) = (main.0.lock().unwrap().clone(), aux.0.lock().unwrap().clone());
    let text = |b: &[u8]| String::from_utf8_lossy(b).into_owned();
    println!("{}", serde_json::to_string(&(text(&main), text(&aux), told)).unwrap());
    std::process::exit(0);
}

/// What a helper was asked to log: level, target, text and the line of the call.
pub type Told = (String, String, String, u32);

#[log_error]
fn plain(r: Result<u8, String>) -> Result<u8, String> {
    r
}
#[log_error(level = "warn")]
fn warns(r: Result<u8, String>) -> Result<u8, String> {
    let v = r?;
    if v > 100 {
        return Err(format!("{v} is too much"));
    }
    Ok(v + 1)
}
#[log_error(level = "Trace")]
fn traces(r: &Result<u8, String>) -> Result<u8, String> {
    r.clone()
}
#[log_error(level = "DEBUG")]
fn debugs<T: Clone>(r: Result<T, String>) -> Result<Vec<T>, String> {
    let r = r?;
    Ok(vec![r.clone(), r])
}
#[log_error(level = "info")]
async fn infos(r: Result<u8, String>) -> Result<u8, String> {
    let v = r?;
    std::future::ready(()).await;
    Ok(v)
}
struct Holder(Result<u8, String>, u32);
impl Holder {
    #[log_error]
    fn count(&mut self) -> Result<u8, String> {
        self.1 += 1;
        self.0.clone()
    }
    #[log_error]
    async fn count_later(&mut self) -> Result<u8, String> {
        self.1 += 1;
        std::future::ready(()).await;
        self.0.clone()
    }
}

#[track_caller]
fn line() -> u32 {
    Location::caller().line()
}

fn helpers(told: &mut Vec<Told>) {
    let mut tell = |l: &str, t: &str, text: &str, line: u32| told.push((l.to_string(), t.to_string(), text.to_string(), line));
    for n in 0..3 {
        let good: Result<u8, String> = Ok(n);
        let bad: Result<u8, String> = Err(format!("wrong {n}"));
        assert_eq!(good.clone().log_err(), good);
        assert_eq!(good.clone().log_warn(), good);
        assert_eq!(good.clone().log_lvl(log::Level::Info), good);
        assert_eq!(good.clone().log_err_pfx("p"), good);
        assert_eq!(good.clone().log_warn_pfx("p"), good);
        assert_eq!(good.clone().log_lvl_pfx(log::Level::Info, "p"), good);
        let e = format!("wrong {n}");
        let p = format!("p{n}: wrong {n}");
        let pre = format!("p{n}");
        let (r, l) = (bad.clone().log_err(), line());
        assert_eq!(r, bad);
        tell("ERROR", "TapLog", &e, l);
        let (r, l) = (bad.clone().log_warn(), line());
        assert_eq!(r, bad);
        tell("WARN", "TapLog", &e, l);
        let (r, l) = (bad.clone().log_err_pfx(&pre), line());
        assert_eq!(r, bad);
        tell("ERROR", "TapLog", &p, l);
        let (r, l) = (bad.clone().log_warn_pfx(&pre), line());
        assert_eq!(r, bad);
        tell("WARN", "TapLog", &p, l);
        for lvl in LEVELS {
            let (r, l) = (bad.clone().log_lvl(lvl), line());
            assert_eq!(r, bad);
            tell(lvl.as_str(), "TapLog", &e, l);
            let (r, l) = (bad.clone().log_lvl_pfx(lvl, &pre), line());
            assert_eq!(r, bad);
            tell(lvl.as_str(), "TapLog", &p, l);
        }
        assert_eq!(plain(good.clone()), good);
        assert_eq!(warns(good.clone()), Ok(n + 1));
        assert_eq!(traces(&good), good);
        assert_eq!(debugs(good.clone()), Ok(vec![n, n]));
        assert_eq!(futures::executor::block_on(infos(good.clone())), good);
        let (r, l) = (plain(bad.clone()), line());
        assert_eq!(r, bad);
        tell("ERROR", "log_error", &e, l);
        let (r, l) = (warns(bad.clone()), line());
        assert_eq!(r, bad);
        tell("WARN", "log_error", &e, l);
        let (r, l) = (warns(Ok(101 + n)), line());
        let much = format!("{} is too much", 101 + n);
        assert_eq!(r, Err(much.clone()));
        tell("WARN", "log_error", &much, l);
        let (r, l) = (traces(&bad), line());
        assert_eq!(r, bad);
        tell("TRACE", "log_error", &e, l);
        let (r, l) = (debugs(bad.clone()), line());
        assert_eq!(r, Err(e.clone()));
        tell("DEBUG", "log_error", &e, l);
        let (fut, l) = (infos(bad.clone()), line());
        let r = futures::executor::block_on(async move { fut.await });
        assert_eq!(r, bad);
        tell("INFO", "log_error", &e, l);
        // a future that is dropped was never run
        drop(infos(bad.clone()));
        for r in [good.clone(), bad.clone()] {
            let is_bad = r.is_err();
            let mut h = Holder(r.clone(), 0);
            let (got, l) = (h.count(), line());
            assert_eq!(got, r);
            if is_bad {
                tell("ERROR", "log_error", &e, l);
            }
            let (fut, l) = (h.count_later(), line());
            let got = futures::executor::block_on(fut);
            assert_eq!(got, r);
            if is_bad {
                tell("ERROR", "log_error", &e, l);
            }
            assert_eq!(h.1, 2);
        }
    }
}
