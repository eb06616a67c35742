//! Runs the real client handle of the language server under every schedule of a
//! controlled scheduler and records the executions (spec/LspClient.tla).
use ::std::collections::BTreeSet;
use hclient::client::{Client, ToLspError};
use lsp_server::{Message, RequestId, Response};
use lsp_types::{self as types, notification as nt, request as rq};
use serde_json::{Value, json};
use vcommon::*;

// -- event log of the running execution (plain std primitives: no scheduling point) --
thread_local! {
    static LOG: ::std::cell::RefCell<Vec<Value>> = const { ::std::cell::RefCell::new(vec![]) };
    static WARNS: ::std::cell::RefCell<::std::collections::HashMap<String, u64>> = ::std::cell::RefCell::new(Default::default());
}
fn log(v: Value) {
    LOG.with(|l| l.borrow_mut().push(v));
}
fn me() -> String {
    format!("{:?}", shuttle::thread::current().id())
}

/// Counts warnings per thread: an answer to an unknown id and each timed-out request warn.
struct Counter;
impl tracing::Subscriber for Counter {
    fn enabled(&self, _: &tracing::Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, _: &tracing::span::Attributes<'_>) -> tracing::span::Id {
        tracing::span::Id::from_u64(1)
    }
    fn record(&self, _: &tracing::span::Id, _: &tracing::span::Record<'_>) {}
    fn record_follows_from(&self, _: &tracing::span::Id, _: &tracing::span::Id) {}
    fn event(&self, e: &tracing::Event<'_>) {
        if *e.metadata().level() <= tracing::Level::WARN {
            WARNS.with(|w| *w.borrow_mut().entry(me()).or_insert(0) += 1);
        }
    }
    fn enter(&self, _: &tracing::span::Id) {}
    fn exit(&self, _: &tracing::span::Id) {}
}
fn warns() -> u64 {
    WARNS.with(|w| *w.borrow().get(&me()).unwrap_or(&0))
}

#[derive(Clone, Debug)]
enum Op {
    Req(u8),
    Note(u8),
    Resp(i32, u8),
    Err(i32, u8),
    Once(usize),
    /// answer every request found on the channel so far, once
    AnswerAll,
    AnswerId(i32),
    Tick(u64),
    Cleanup(u64),
    Diag(u8),
    Show(u8),
    LogMsg(u8),
}

fn call(t: usize, op: &str, id: i64, tag: &str, f: impl FnOnce() -> (bool, i64)) {
    log(json!({"e": "call", "t": format!("t{t}"), "op": op, "id": id, "tag": tag}));
    let w0 = warns();
    let (ok, res) = f();
    log(json!({"e": "ret", "t": format!("t{t}"), "ok": ok, "res": res, "warned": warns() - w0}));
}

fn run_op(t: usize, c: &Client, rx: &crossbeam::channel::Receiver<Message>, held: &mut Vec<Message>, op: &Op) {
    match op {
        Op::Req(k) => match k % 2 {
            0 => call(t, "request", 0, "workspace/configuration", || {
                (c.send_request::<rq::WorkspaceConfiguration>(types::ConfigurationParams { items: vec![] }, |_| {}).is_ok(), 0)
            }),
            _ => call(t, "request", 0, "workspace/codeLens/refresh", || (c.send_request::<rq::CodeLensRefresh>((), |_| {}).is_ok(), 0)),
        },
        Op::Note(k) => call(t, "notification", 0, &format!("$/cancelRequest:{k}"), || {
            (c.send_notification::<nt::Cancel>(types::CancelParams { id: types::NumberOrString::Number(*k as i32) }).is_ok(), 0)
        }),
        Op::Diag(k) => call(t, "notification", 0, &format!("textDocument/publishDiagnostics:{k}"), || {
            let u = types::Url::parse(&format!("file:///d{k}.R")).unwrap();
            (c.publish_diagnostics(u, vec![], Some(*k as i32)).is_ok(), 0)
        }),
        Op::Show(k) => call(t, "notification", 0, &format!("window/showMessage:{k}"), || {
            (c.show_message(&format!("m{k}"), types::MessageType::WARNING).is_ok(), 0)
        }),
        Op::LogMsg(k) => call(t, "notification", 0, &format!("window/logMessage:{k}"), || {
            (c.log_message(&format!("m{k}"), types::MessageType::ERROR).is_ok(), 0)
        }),
        Op::Resp(id, k) => call(t, "response", *id as i64, &format!("result:{k}"), || {
            (c.send_response(RequestId::from(*id), json!({"v": k})).is_ok(), 0)
        }),
        Op::Err(id, k) => call(t, "error", *id as i64, &format!("error:-32603:e{k}"), || {
            (c.send_error_response(RequestId::from(*id), anyhow::anyhow!("e{k}").to_lsp_error()).is_ok(), 0)
        }),
        Op::Once(n) => call(t, "once", 0, &format!("notice:{n}"), || match c.notify_unused_fn_threshold_once(*n) {
            Ok(b) => (true, b as i64),
            Err(_) => (false, 0),
        }),
        Op::AnswerAll => {
            while let Ok(m) = rx.try_recv() {
                if let Message::Request(r) = &m {
                    let id: i64 = r.id.to_string().parse().unwrap_or(-1);
                    let rid = r.id.clone();
                    call(t, "answer", id, "", || {
                        c.handle_response(Response { id: rid, result: Some(Value::Null), error: None });
                        (true, 0)
                    });
                }
                held.push(m);
            }
        }
        Op::AnswerId(i) => call(t, "answer", *i as i64, "", || {
            c.handle_response(Response { id: RequestId::from(*i), result: Some(Value::Null), error: None });
            (true, 0)
        }),
        Op::Tick(ms) => {
            vstd::time::advance(*ms);
            log(json!({"e": "tick", "ms": ms}));
        }
        Op::Cleanup(ms) => call(t, "cleanup", *ms as i64, "", || {
            c.cleanup_pending_requests(::std::time::Duration::from_millis(*ms));
            (true, 0)
        }),
    }
}

fn describe(m: &Message) -> (String, i64, String) {
    let num = |id: &RequestId| id.to_string().parse::<i64>().unwrap_or(-1);
    match m {
        Message::Request(r) => ("request".into(), num(&r.id), r.method.clone()),
        Message::Response(r) => match (&r.error, &r.result) {
            (Some(e), None) => ("error".into(), num(&r.id), format!("error:{}:{}", e.code, e.message)),
            (None, Some(v)) => ("response".into(), num(&r.id), format!("result:{}", v["v"])),
            _ => ("both".into(), num(&r.id), String::new()),
        },
        Message::Notification(n) => {
            let p = &n.params;
            let msg = p["message"].as_str().unwrap_or("");
            if n.method == "window/showMessage" && msg.contains("unused_function") {
                // the count, and singular/plural as in "1 `unused_function` diagnostic hidden"
                let count = msg.split_whitespace().next().unwrap_or("").parse::<usize>().unwrap_or(usize::MAX);
                let words: Vec<&str> = msg.split(|c: char| !c.is_alphanumeric()).collect();
                let plural = words.contains(&"diagnostics");
                let singular = words.contains(&"diagnostic");
                let right = if count == 1 { singular && !plural } else { plural && !singular };
                return ("notice".into(), 0, if right { format!("notice:{count}") } else { format!("badly worded: {msg}") });
            }
            let tag = match n.method.as_str() {
                "$/cancelRequest" => p["id"].to_string(),
                "textDocument/publishDiagnostics" => {
                    let v = p["version"].to_string();
                    if p["uri"] == format!("file:///d{v}.R") && p["diagnostics"] == json!([]) { v } else { p.to_string() }
                }
                "window/showMessage" if p["type"] == 2 => msg.trim_start_matches('m').into(),
                "window/logMessage" if p["type"] == 1 => msg.trim_start_matches('m').into(),
                _ => p.to_string(),
            };
            ("notification".into(), 0, format!("{}:{}", n.method, tag))
        }
    }
}

fn scenario(progs: Vec<Vec<Op>>, seen: ::std::sync::Arc<::std::sync::Mutex<BTreeSet<String>>>) {
    LOG.with(|l| l.borrow_mut().clear());
    WARNS.with(|w| w.borrow_mut().clear());
    vstd::time::reset();
    crossbeam::ON_SEND.with(|h| *h.borrow_mut() = Some(Box::new(|| log(json!({"e": "send"})))));
    let (tx, rx) = crossbeam::channel::unbounded();
    let c = Client::new(tx);
    let held: ::std::sync::Arc<::std::sync::Mutex<Vec<Message>>> = Default::default();
    let n = progs.len();
    let hs: Vec<_> = progs
        .into_iter()
        .enumerate()
        .map(|(t, p)| {
            let (c, rx, held) = (c.clone(), rx.clone(), held.clone());
            shuttle::thread::spawn(move || {
                let mut mine = vec![];
                for op in &p {
                    run_op(t + 1, &c, &rx, &mut mine, op);
                }
                held.lock().unwrap().extend(mine);
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    let mut msgs = ::std::mem::take(&mut *held.lock().unwrap());
    while let Ok(m) = rx.try_recv() {
        msgs.push(m);
    }
    // at the end every id is answered once more: outstanding requests are known, others are not
    for id in 0..7 {
        let mut nothing = vec![];
        run_op(n + 1, &c, &rx, &mut nothing, &Op::AnswerId(id));
    }
    crossbeam::ON_SEND.with(|h| *h.borrow_mut() = None);
    let mut tr = LOG.with(|l| l.borrow().clone());
    // messages were taken off the channel in order by at most one thread, then by main
    let mut k = 0;
    for e in tr.iter_mut() {
        if e["e"] == "send" {
            let (kind, id, tag) = describe(&msgs[k]);
            *e = json!({"e": "send", "kind": kind, "id": id, "tag": tag});
            k += 1;
        }
    }
    assert_eq!(k, msgs.len());
    let text: String = tr.iter().map(|e| format!("{e}\n")).collect();
    seen.lock().unwrap().insert(text);
}

fn main() {
    ::std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = ::std::env::args().collect();
    let max: usize = a[2].parse().unwrap();
    let path = &a[3];
    let seed: u64 = a[4].parse().unwrap();
    tracing::subscriber::set_global_default(Counter).unwrap();
    use Op::*;
    let mut scen: Vec<(&str, Vec<Vec<Op>>)> = vec![
        ("2 senders", vec![vec![Req(0)], vec![Req(1)]]),
        ("2 senders x2", vec![vec![Req(0), Req(1)], vec![Req(1), Note(3)]]),
        ("3 notices", vec![vec![Once(1)], vec![Once(2)], vec![Once(0)]]),
        ("repeated notice", vec![vec![Once(5), Once(5)], vec![Once(1), Note(1)]]),
        ("sender and answerer", vec![vec![Req(0), Req(1)], vec![AnswerAll, AnswerAll]]),
        ("answers to unknown ids", vec![vec![Req(0)], vec![AnswerId(1), AnswerId(1), AnswerId(5)]]),
        ("timeouts", vec![vec![Req(0), Tick(10), Req(1)], vec![Cleanup(5), AnswerId(1), AnswerId(2)]]),
        ("exact timeout", vec![vec![Req(0), Tick(5), Cleanup(5), Tick(1), Cleanup(5), AnswerId(1)]]),
        ("plain messages", vec![vec![Note(1), Resp(4, 2)], vec![Err(5, 3), Note(2)]]),
        ("every kind", vec![vec![Diag(1), Diag(2), Show(3), LogMsg(4), Resp(1, 1), Err(2, 2), Req(0), Once(3), Once(1)]]),
        ("one timed out among several", vec![vec![Req(0), Req(1), Tick(7), Req(0), Cleanup(5), Req(1), AnswerId(3), AnswerId(2), AnswerId(1)]]),
    ];
    let mut rng = Rng::new(seed);
    for _ in 0..(max / 1000).clamp(6, 60) {
        let k = rng.range(1, 3);
        let ps = (0..k)
            .map(|_| {
                (0..rng.range(1, 3))
                    .map(|_| match rng.below(10) {
                        0..=2 => Req(rng.below(2) as u8),
                        3 => Note(rng.below(9) as u8),
                        4 => Once(rng.below(3)),
                        5 | 6 => AnswerId(rng.range(1, 4) as i32),
                        7 => Tick(rng.range(1, 9) as u64),
                        8 => Cleanup(rng.range(1, 9) as u64),
                        _ => Err(rng.below(5) as i32, rng.below(5) as u8),
                    })
                    .collect()
            })
            .collect();
        scen.push(("random", ps));
    }
    let mut w = ::std::fs::File::create(path).unwrap();
    use ::std::io::Write;
    let (mut total, mut distinct, mut complete) = (0usize, 0usize, 0usize);
    for (name, progs) in scen {
        let seen: ::std::sync::Arc<::std::sync::Mutex<BTreeSet<String>>> = Default::default();
        let (s2, p2) = (seen.clone(), progs.clone());
        let count = ::std::sync::Arc::new(::std::sync::atomic::AtomicUsize::new(0));
        let c2 = count.clone();
        let r = guarded(move || {
            shuttle::check_dfs(
                move || {
                    c2.fetch_add(1, ::std::sync::atomic::Ordering::Relaxed);
                    scenario(p2.clone(), s2.clone())
                },
                Some(max),
            )
        });
        if let Result::Err(p) = r {
            bad(format!("crash or deadlock under some schedule: {p}"), json!({"scenario": name, "programs": format!("{progs:?}"),
                "events": LOG.with(|l| l.borrow().clone())}));
        }
        total += count.load(::std::sync::atomic::Ordering::Relaxed);
        let used = count.load(::std::sync::atomic::Ordering::Relaxed);
        if used >= max {
            // too many schedules to enumerate: sample the rest
            let (s3, p3) = (seen.clone(), progs.clone());
            let r = guarded(move || {
                let sch = shuttle::scheduler::RandomScheduler::new_from_seed(seed, max);
                shuttle::Runner::new(sch, Default::default()).run(move || scenario(p3.clone(), s3.clone()));
            });
            if let Result::Err(p) = r {
                bad(format!("crash or deadlock under some schedule: {p}"), json!({"scenario": name, "programs": format!("{progs:?}"),
                    "events": LOG.with(|l| l.borrow().clone())}));
            }
            total += max;
        } else {
            complete += 1;
        }
        let seen = seen.lock().unwrap();
        distinct += seen.len();
        for t in seen.iter() {
            writeln!(w, "{}", json!({"e": "start", "scenario": name})).unwrap();
            w.write_all(t.as_bytes()).unwrap();
        }
    }
    out(json!({"schedules": total, "distinct": distinct, "complete": complete}));
}
