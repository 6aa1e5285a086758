//! X02: the manager and the signals of the operating system, in a process of their own.
use mc_kit::PartCtx;
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use subsystem::{Manager, ManagerConfig, Subsystem};
use tokio::signal::unix::{SignalKind, signal};

const CHILD: &str = "MC_SUBSYSTEM_SIGNALS";

struct Sys(&'static str);
#[async_trait::async_trait]
impl Subsystem for Sys {
    type Interface = Sys;
    fn interface_ref(&self) -> &Sys {
        self
    }
    fn interface_mut(&mut self) -> &mut Sys {
        self
    }
    async fn shutdown(self) {
        println!("{} down", self.0);
    }
}

/// In the child: run a manager until it ends; "call" and "stop" come in on the standard input.
pub fn child() -> bool {
    let Some(mode) = std::env::var_os(CHILD) else { return false };
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    rt.block_on(async {
        // from here on the signals do not end the process by themselves
        let _own = (signal(SignalKind::terminate()).unwrap(), signal(SignalKind::interrupt()).unwrap());
        let mut config = ManagerConfig::new("m");
        if mode == "on" {
            config = config.enable_signal_handlers();
        }
        let mut man = Manager::new_with_config(config);
        let a = man.add_subsystem("a", Sys("a"));
        man.add_subsystem("b", Sys("b"));
        let trigger = man.make_shutdown_trigger();
        let rt = tokio::runtime::Handle::current();
        std::thread::spawn(move || {
            for line in std::io::stdin().lines() {
                match line.unwrap().as_str() {
                    "call" => println!("answer {:?}", rt.block_on(a.call(|s| s.0)).ok()),
                    _ => trigger.clone().initiate(),
                }
            }
        });
        man.main().await;
        println!("end");
    });
    std::process::exit(0);
}

pub fn run(c: &PartCtx) {
    let signals: [&[&str]; 5] = [&[], &["TERM"], &["INT"], &["TERM", "INT"], &["INT", "TERM"]];
    for mode in ["on", "off"] {
        for sigs in signals {
            if let Err(e) = one(mode, sigs) {
                c.fail(format!("handlers {mode}, signals {sigs:?}"), e);
            }
            c.evals(1);
            c.traces(1);
            c.nontrivial(1);
        }
    }
}

fn one(mode: &str, sigs: &[&str]) -> Result<(), String> {
    let mut ch = Command::new(std::env::current_exe().unwrap()).env(CHILD, mode).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let pid = ch.id().to_string();
    let mut stdin = ch.stdin.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    let out = BufReader::new(ch.stdout.take().unwrap());
    std::thread::spawn(move || {
        for l in out.lines().map_while(Result::ok) {
            let _ = tx.send(l);
        }
    });
    let line = |ms| rx.recv_timeout(Duration::from_millis(ms)).ok();
    let r = (|| {
        let mut say = |s: &str| writeln!(stdin, "{s}").map_err(|e| e.to_string());
        say("call")?;
        let got = line(20_000);
        if got.as_deref() != Some("answer Some(\"a\")") {
            return Err(format!("the first call gave {got:?}"));
        }
        let mut lines = vec![];
        let send = |s: &str| Command::new("kill").args([&format!("-{s}"), &pid]).stderr(Stdio::null()).status().map_err(|e| e.to_string());
        if mode == "on" && !sigs.is_empty() {
            // until the handlers are in place the signal is lost, so it is sent again
            let start = Instant::now();
            let mut i = 0;
            while lines.is_empty() {
                if start.elapsed() > Duration::from_secs(20) {
                    return Err("the signal did not start the shutdown".into());
                }
                send(sigs[i % sigs.len()])?;
                i += 1;
                lines.extend(line(50));
            }
        } else {
            for _ in 0..3 {
                for s in sigs {
                    send(s)?;
                    if let Some(l) = line(30) {
                        return Err(format!("{l:?} after a signal that nobody handles"));
                    }
                }
            }
            say("call")?;
            let got = line(20_000);
            if got.as_deref() != Some("answer Some(\"a\")") {
                return Err(format!("the call after the signals gave {got:?}"));
            }
            say("stop")?;
        }
        while lines.last().is_none_or(|l| l != "end") {
            match line(20_000) {
                Some(l) => lines.push(l),
                None => return Err(format!("after {lines:?} nothing more came")),
            }
        }
        if lines != ["b down", "a down", "end"] {
            return Err(format!("shut down like this: {lines:?}"));
        }
        Ok(())
    })();
    if r.is_err() {
        let _ = ch.kill();
    }
    let st = ch.wait().map_err(|e| e.to_string())?;
    if r.is_ok() && !st.success() {
        return Err(format!("ended with {st}"));
    }
    r
}
