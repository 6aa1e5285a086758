//! U09: what is written where, for every way of setting up logging.
use crate::child::{CHILD, From, LEVELS, Setup, Style, TARGETS, Told, Writer};
use mc_kit::{Check, Ctx, PartCtx};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::process::{Command, Stdio};

pub const CHECK: Check = Check {
    id: "U09",
    level: "exploration",
    rule: "each writer gets exactly the events its filter lets through, in its style and in order; errors of a fallible call are logged once, where it was made, and the value is handed on",
    assumptions: &["the lines are those of tracing-subscriber 0.3; the timestamps are not checked"],
    run,
};

/// A text of the environment: absent, or these bytes.
type Text = Option<&'static [u8]>;
const BROKEN: &[u8] = b"trace\xff";

const FILTERS: [&str; 22] = [
    "",
    ",,",
    "info",
    "WARN",
    "trace",
    "off",
    "error",
    "my",
    "my=debug",
    "my::sub=trace",
    "my=warn,my::sub=debug",
    "my::sub=debug,my=warn",
    "warn,my=trace",
    "my=off,trace",
    "debug,my::sub=off,",
    "other=error",
    "Other,TapLog=warn",
    "logging=off,debug",
    "my=debug,my=error",
    "log_error=info,TapLog",
    "my=loud",
    "trace,my=loud",
];
const STYLES: [(Text, Option<Style>); 15] = [
    (None, Some(Style::Auto)),
    (Some(b"json"), Some(Style::Json)),
    (Some(b"JSON"), Some(Style::Json)),
    (Some(b"Json"), Some(Style::Json)),
    (Some(b"text"), Some(Style::Auto)),
    (Some(b"Text"), Some(Style::Auto)),
    (Some(b"text-colored"), Some(Style::Colored)),
    (Some(b"TEXT-Colored"), Some(Style::Colored)),
    (Some(b"text-uncolored"), Some(Style::Plain)),
    (Some(b"Text-UNCOLORED"), Some(Style::Plain)),
    (Some(b""), None),
    (Some(b"yaml"), None),
    (Some(b"json "), None),
    (Some(b"text_colored"), None),
    (Some(b"json\xff"), None),
];

struct Filter(Vec<(String, usize)>);
impl Filter {
    /// The reference: a list of "target", "target=level" and "level"; none for a text that is not one.
    fn read(text: &str) -> Option<Filter> {
        let level = |w: &str| ["off", "error", "warn", "info", "debug", "trace"].iter().position(|l| l.eq_ignore_ascii_case(w));
        let mut all: Vec<(String, usize)> = vec![];
        for part in text.split(',').filter(|p| !p.is_empty()) {
            let (target, l) = match part.split_once('=') {
                Some((t, w)) => (t, level(w)?),
                None => level(part).map_or((part, 5), |l| ("", l)),
            };
            all.retain(|(t, _)| t != target);
            all.push((target.to_string(), l));
        }
        Some(if all.is_empty() { Filter(vec![(String::new(), 3)]) } else { Filter(all) })
    }
    fn lets(&self, target: &str, level: usize) -> bool {
        let best = self.0.iter().filter(|(t, _)| target.starts_with(t.as_str())).max_by_key(|(t, _)| t.len());
        best.is_some_and(|(_, l)| level <= *l)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
struct Line {
    level: String,
    target: String,
    text: String,
}

/// What a log of one style says; none for anything that is not one.
fn read(log: &str, json: bool, colored: bool) -> Option<Vec<Line>> {
    let mut lines = vec![];
    for l in log.lines() {
        if json {
            let v: serde_json::Value = serde_json::from_str(l).ok()?;
            let s = |v: &serde_json::Value| v.as_str().map(|s| s.to_string());
            s(&v["timestamp"])?;
            lines.push(Line { level: s(&v["level"])?, target: s(&v["target"])?, text: s(&v["fields"]["message"])? });
        } else {
            let mut plain = String::new();
            let mut rest = l;
            while let Some((a, b)) = rest.split_once('\u{1b}') {
                plain.push_str(a);
                rest = b.split_once('m')?.1;
            }
            plain.push_str(rest);
            if (plain.len() != l.len()) != colored {
                return None;
            }
            let (time, rest) = plain.split_once(' ')?;
            let (level, rest) = rest.trim_start().split_once(' ')?;
            let (target, text) = rest.split_once(": ")?;
            if !time.ends_with('Z') {
                return None;
            }
            lines.push(Line { level: level.into(), target: target.into(), text: text.into() });
        }
    }
    Some(lines)
}

struct Case {
    setup: Setup,
    env: Vec<(&'static str, Text)>,
}

/// One writer as the reference sees it: its filter, its style, and the complaints about its settings, by the word each holds.
struct Seen {
    filter: Filter,
    style: Style,
    terminal: bool,
    wrong: Vec<String>,
}

impl Case {
    fn env(&self, name: &str) -> Text {
        self.env.iter().find(|(n, _)| *n == name).and_then(|(_, t)| *t)
    }
    fn seen(&self, w: &Writer) -> Seen {
        let mut wrong = vec![];
        let info = || Filter::read("").unwrap();
        let text = match &w.filter {
            From::Value(t) => Some(t.clone()),
            From::Var(name, default) => match self.env(name) {
                None => Some(default.clone()),
                Some(b) => String::from_utf8(b.to_vec()).ok().or_else(|| {
                    wrong.push(name.clone());
                    None
                }),
            },
        };
        let filter = text.map_or_else(info, |t| {
            Filter::read(&t).unwrap_or_else(|| {
                wrong.push(t);
                info()
            })
        });
        let style = match &w.style {
            From::Value(s) => *s,
            From::Var(name, _) => {
                let t = self.env(name);
                STYLES.iter().find(|(s, _)| *s == t).unwrap().1.unwrap_or_else(|| {
                    wrong.push(name.clone());
                    Style::Auto
                })
            }
        };
        Seen { filter, style, terminal: w.terminal, wrong }
    }
    /// The writers of the set-up; for the simple ones the first is the standard error.
    fn writers(&self) -> Vec<Seen> {
        let usual = |default: &str, terminal| Writer {
            terminal,
            filter: From::Var("RUST_LOG".into(), default.into()),
            style: From::Var("ML_LOG_STYLE".into(), String::new()),
        };
        match &self.setup {
            Setup::Simple => vec![self.seen(&usual("info", false))],
            Setup::SimpleWith(f) => vec![self.seen(&usual(f, false))],
            Setup::To(t) => vec![self.seen(&usual("info", *t))],
            Setup::Generic(a, b) => std::iter::once(a).chain(b).map(|w| self.seen(w)).collect(),
        }
    }
}

fn one(c: &PartCtx, case: &Case) {
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    for (k, _) in std::env::vars_os() {
        if k.to_string_lossy().contains("LOG") || k == "NO_COLOR" {
            cmd.env_remove(k);
        }
    }
    cmd.env(CHILD, serde_json::to_string(&case.setup).unwrap()).stdin(Stdio::null());
    for (n, t) in &case.env {
        if let Some(t) = t {
            cmd.env(n, OsString::from_vec(t.to_vec()));
        }
    }
    let key = || format!("{:?} {:?}", case.setup, case.env.iter().map(|(n, t)| format!("{n}={:?}", t.map(String::from_utf8_lossy))).collect::<Vec<_>>());
    let out = cmd.output().unwrap();
    c.evals(1);
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let Ok((main, aux, told)) = serde_json::from_slice::<(String, String, Vec<Told>)>(&out.stdout) else {
        c.fail(key(), format!("the process ended with {:?}: {}", out.status.code(), &err[..err.len().min(600)]));
        return;
    };
    let simple = matches!(case.setup, Setup::Simple | Setup::SimpleWith(_));
    let logs = if simple { [err.clone(), aux.clone()] } else { [main.clone(), aux.clone()] };
    if simple { c.eq(key, &main.as_str(), &"") } else { c.eq(key, &err.as_str(), &"") };
    let writers = case.writers();
    let wrong: Vec<&String> = writers.iter().flat_map(|w| &w.wrong).collect();
    if writers.len() == 1 {
        c.eq(key, &aux.as_str(), &"");
    }
    c.nontrivial(1);
    for (n, w) in writers.iter().enumerate() {
        let key = || format!("writer {n} of {}", key());
        let json = w.style == Style::Json;
        let colored = w.style == Style::Colored || w.style == Style::Auto && w.terminal;
        let Some(got) = read(&logs[n], json, colored) else {
            c.fail(key(), format!("not a log of style {:?} for {}: {:?}", w.style, if w.terminal { "a terminal" } else { "a file" }, logs[n].lines().next()));
            continue;
        };
        let mut want = vec![];
        let mut put = |level: &str, target: &str, text: String| {
            let l = LEVELS.iter().position(|l| l.as_str() == level).unwrap() + 1;
            if w.filter.lets(target, l) {
                want.push(Line { level: level.into(), target: target.into(), text });
            }
        };
        for w in &wrong {
            put("ERROR", "logging", format!("Log initialization error: {w}"));
        }
        for add in ["", " again"] {
            for t in TARGETS {
                for l in LEVELS {
                    put(l.as_str(), t, format!("event {t} {l}{add}"));
                }
            }
        }
        for (level, target, text, line) in &told {
            put(level, target, format!("{text} @{line}"));
        }
        c.outcome_n(json.then_some("json").unwrap_or(if colored { "colored" } else { "plain" }), 1);
        // the complaint names what is wrong, and the place is that of the call
        let mut complaints = wrong.iter();
        let got: Vec<Line> = got
            .into_iter()
            .map(|mut l| {
                if l.target == "logging" {
                    if let Some(w) = complaints.next().filter(|w| l.text.starts_with("Log initialization error: ") && l.text.contains(w.as_str())) {
                        l.text = format!("Log initialization error: {w}");
                    }
                } else if let Some((text, place)) = l.text.rsplit_once(" (") {
                    let mut parts = place.trim_end_matches(')').rsplit(':');
                    let (col, line, file) = (parts.next(), parts.next(), parts.next());
                    if file.is_some_and(|f| f.ends_with("src/child.rs")) && col.is_some_and(|c| c.parse::<u32>().is_ok_and(|c| c > 0)) {
                        l.text = format!("{text} @{}", line.unwrap_or("?"));
                    }
                }
                l
            })
            .collect();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            c.fail(key(), format!("line {at} of {} is {:?}; expected {:?} of {}", got.len(), got.get(at), want.get(at), want.len()));
        }
    }
}

fn writer(filter: From<String>, style: From<Style>, terminal: bool) -> Writer {
    Writer { terminal, filter, style }
}

fn run(ctx: &Ctx) {
    const A: &str = "MC_A_LOG";
    const B: &str = "MC_B_LOG";
    const S: &str = "MC_S_LOG";
    let every = |c: &PartCtx, cases: Vec<Case>| {
        c.par(cases.len(), |i| one(c, &cases[i]));
    };
    ctx.part("filters", "every filter, as a value, as the default of an absent variable, in the variable, and unreadable there", |c| {
        let mut cases = vec![];
        for f in FILTERS {
            for style in [Style::Json, Style::Plain, Style::Colored] {
                let mut add = |filter, env| {
                    cases.push(Case { setup: Setup::Generic(writer(filter, From::Value(style), false), None), env });
                };
                add(From::Value(f.to_string()), vec![]);
                add(From::Value(f.to_string()), vec![("RUST_LOG", Some(b"trace".as_slice()))]);
                for other in ["trace", "off"] {
                    add(From::Var(A.into(), other.into()), vec![(A, Some(f.as_bytes()))]);
                }
                add(From::Var(A.into(), f.into()), vec![("RUST_LOG", Some(b"my=trace".as_slice()))]);
                add(From::Var(A.into(), f.into()), vec![(A, Some(BROKEN))]);
            }
        }
        every(c, cases);
    });
    ctx.part("styles", "every style, as a value and as a text of the variable, for a terminal or not", |c| {
        let mut cases = vec![];
        for terminal in [false, true] {
            for filter in ["info", "trace,my=off", "my=loud"] {
                for s in [Style::Json, Style::Plain, Style::Colored, Style::Auto] {
                    let w = writer(From::Value(filter.into()), From::Value(s), terminal);
                    cases.push(Case { setup: Setup::Generic(w, None), env: vec![("ML_LOG_STYLE", Some(b"json"))] });
                }
                for (text, _) in STYLES {
                    let w = writer(From::Value(filter.into()), From::Var(S.into(), String::new()), terminal);
                    cases.push(Case { setup: Setup::Generic(w, None), env: vec![(S, text)] });
                }
            }
        }
        every(c, cases);
    });
    ctx.part("two-writers", "two writers with settings of their own", |c| {
        let mut cases = vec![];
        for a in FILTERS {
            for b in FILTERS {
                let styles = [Style::Json, Style::Plain, Style::Colored, Style::Auto];
                let n = cases.len();
                let one = writer(From::Value(a.into()), From::Value(styles[n % 4]), n / 4 % 2 == 0);
                let two = writer(From::Var(B.into(), "trace".into()), From::Value(styles[n / 2 % 4]), n / 8 % 2 == 0);
                cases.push(Case { setup: Setup::Generic(one, Some(two)), env: vec![(B, Some(b.as_bytes()))] });
            }
        }
        for (s, _) in STYLES {
            let one = writer(From::Var(A.into(), "my=loud".into()), From::Var(S.into(), String::new()), true);
            let two = writer(From::Var(A.into(), "debug".into()), From::Var(S.into(), String::new()), false);
            for text in [None, Some(BROKEN), Some(b"my=trace".as_slice())] {
                cases.push(Case { setup: Setup::Generic(one.clone(), Some(two.clone())), env: vec![(A, text), (S, s)] });
            }
        }
        every(c, cases);
    });
    ctx.part("usual-ways", "the ready-made ways, with every filter and style in the usual variables", |c| {
        let mut cases = vec![];
        let mut filters: Vec<Text> = FILTERS.iter().map(|f| Some(f.as_bytes())).collect();
        filters.extend([None, Some(BROKEN)]);
        for (n, f) in filters.into_iter().enumerate() {
            for (m, (s, _)) in STYLES.into_iter().enumerate() {
                let with = FILTERS[(n + 7 * m) % FILTERS.len()].to_string();
                let ways = [Setup::Simple, Setup::SimpleWith(with), Setup::To(false), Setup::To(true)];
                for setup in ways {
                    cases.push(Case { setup, env: vec![("RUST_LOG", f), ("ML_LOG_STYLE", s)] });
                }
            }
        }
        every(c, cases);
    });
    ctx.part("places", "paths of source files, inside the workspace, outside it, and almost inside", |c| {
        let ws = utils::workspace_path::workspace_path();
        c.eq(|| "the path of the workspace ends in a separator".into(), &(ws.ends_with(['/', '\\']) && ws.len() > 1), &true);
        let rests = ["", "a.rs", "a/src/b.rs", "/a.rs", "a b.rs", "./a.rs", "../a.rs", ws];
        for rest in rests {
            let inside = format!("{ws}{rest}");
            c.eq(|| format!("{inside} is inside"), &utils::workspace_path::relative_src_file_path(&inside), &rest);
            for cut in 0..=ws.len() {
                for outside in [format!("{}{rest}", &ws[..cut]), format!("{}{rest}", &ws[cut..]), format!("x{ws}{rest}"), format!("{}X{rest}", &ws[..cut])] {
                    c.evals(1);
                    if !outside.starts_with(ws) {
                        c.eq(|| format!("{outside} is outside"), &utils::workspace_path::relative_src_file_path(&outside), &outside.as_str());
                    }
                }
            }
        }
    });
}
