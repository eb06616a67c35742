//! Runs whole sessions of the real language server under controlled schedules and records
//! what the editor sent, what it received and how the session ended (spec/LspServer.tla).
use ::std::cell::{Cell, RefCell};
use ::std::collections::BTreeMap;
use ::std::num::NonZeroUsize;
use ::std::rc::Rc;
use ::std::sync::atomic::{AtomicUsize, Ordering};
use ::std::sync::{Arc, Mutex};
use hserver::Server;
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{Value, json};
use vcommon::*;

fn text(t: &str) -> String {
    match t {
        "bad" => "f(\n".into(),
        "boom" => "# VERIF_PANIC\nany(is.na(x))\n".into(),
        n => format!("# text {n}\n{}", "any(is.na(x))\n".repeat(n.parse().unwrap())),
    }
}
fn malformed(i: usize) -> Value {
    match i % 4 {
        0 => json!({"bogus": 1}),
        1 => Value::Null,
        2 => json!([1, 2]),
        _ => json!({"textDocument": {"uri": 7}, "contentChanges": "x", "range": {}}),
    }
}
fn message(m: &Value, i: usize, dir: &str) -> Message {
    let uri = format!("file://{dir}/{}.R", m["doc"].as_str().unwrap_or("A"));
    let id = RequestId::from(m["id"].as_i64().unwrap_or(0) as i32);
    let (ver, t) = (m["ver"].as_i64().unwrap_or(0), m["text"].as_str().unwrap_or("0"));
    let doc = json!({"uri": uri});
    let req = |method: &str, params: Value| Message::Request(Request { id: id.clone(), method: method.into(), params });
    let note = |method: &str, params: Value| Message::Notification(Notification { method: method.into(), params });
    match m["k"].as_str().unwrap() {
        "init" => req("initialize", json!({"capabilities": {}})),
        "init-bad" => req("initialize", json!({"capabilities": 5, "rootUri": [1]})),
        "initialized" => note("initialized", json!({})),
        "unknown" => req(["textDocument/hover", "foo/bar", "$/weird", "textDocument/diagnostic", "initialize"][i % 5], json!({"textDocument": doc})),
        "action" => req("textDocument/codeAction", json!({"textDocument": doc, "range": {"start": {"line": 0, "character": 0}, "end": {"line": 100000, "character": 0}}, "context": {"diagnostics": []}})),
        "action-bad" => req("textDocument/codeAction", malformed(i)),
        "shutdown" => req("shutdown", if i % 2 == 0 { Value::Null } else { json!({}) }),
        "exit" => note("exit", Value::Null),
        "open" => note("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "r", "version": ver, "text": text(t)}})),
        "change" => note("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": ver}, "contentChanges": [{"text": text(t)}]})),
        "save" => note("textDocument/didSave", json!({"textDocument": doc})),
        "close" => note("textDocument/didClose", json!({"textDocument": doc})),
        "open-bad" => note("textDocument/didOpen", malformed(i)),
        "change-bad" => note("textDocument/didChange", malformed(i)),
        "save-bad" => note("textDocument/didSave", malformed(i)),
        "close-bad" => note("textDocument/didClose", malformed(i)),
        "note" => note(["$/cancelRequest", "workspace/didChangeConfiguration", "foo/bar"][i % 3], json!({"id": 1})),
        "resp" => Message::Response(Response { id, result: Some(Value::Null), error: None }),
        k => panic!("unknown message kind {k}"),
    }
}
fn describe(m: &Message, kinds: &BTreeMap<i64, String>) -> Option<Value> {
    match m {
        Message::Response(r) => {
            let id: i64 = r.id.to_string().parse().unwrap_or(-1);
            Some(match (&r.error, &r.result) {
                (Some(e), None) => json!({"k": "ans", "id": id, "ok": false, "code": e.code, "n": 0}),
                (None, Some(v)) => {
                    let n = match kinds.get(&id).map(|s| s.as_str()) {
                        Some("action") => v.as_array().map_or(-1, |a| {
                            a.iter().filter(|x| x["title"].as_str().is_some_and(|t| t.starts_with("Fix"))).count() as i64
                        }),
                        Some("init") => if v["capabilities"].is_object() { 0 } else { -1 },
                        _ => if v.is_null() { 0 } else { -1 },
                    };
                    json!({"k": "ans", "id": id, "ok": true, "code": 0, "n": n})
                }
                _ => json!({"k": "ans", "id": id, "ok": false, "code": 0, "n": -1}),
            })
        }
        Message::Notification(n) if n.method == "textDocument/publishDiagnostics" => {
            let p = &n.params;
            let u = p["uri"].as_str().unwrap_or("");
            let doc = u.rsplit('/').next().unwrap_or("").trim_end_matches(".R").to_string();
            Some(json!({"k": "pub", "doc": doc, "ver": p["version"].as_i64().unwrap_or(-1), "n": p["diagnostics"].as_array().map_or(-1, |a| a.len() as i64)}))
        }
        Message::Notification(n) if n.method.starts_with("window/") || n.method.starts_with("$/") => None,
        Message::Notification(n) => Some(json!({"k": "other", "method": n.method})),
        Message::Request(r) => Some(json!({"k": "other", "method": r.method})),
    }
}

fn session(msgs: &[Value], workers: usize, dir: &str, seen: &Mutex<BTreeMap<String, usize>>) {
    vstd::thread::STARTED.with(|s| s.borrow_mut().clear());
    vstd::thread::DIED.with(|s| s.borrow_mut().clear());
    let (ours, theirs) = Connection::memory();
    let Connection { sender: tx, receiver: rx } = ours;
    let left = theirs.receiver.clone(); // what the server did not take
    let got: Rc<RefCell<Vec<Message>>> = Default::default();
    let exited: Rc<Cell<Option<(i32, usize)>>> = Default::default();
    {
        let (rx, got, exited) = (rx.clone(), got.clone(), exited.clone());
        vstd::process::ON_EXIT.with(|h| {
            *h.borrow_mut() = Some(Box::new(move |code| {
                if exited.get().is_none() {
                    while let Some(Ok(m)) = rx.take_ready() {
                        got.borrow_mut().push(m);
                    }
                    exited.set(Some((code, got.borrow().len())));
                }
            }))
        });
    }
    let result: Arc<Mutex<Option<bool>>> = Default::default();
    let r2 = result.clone();
    let server = vstd::thread::spawn(move || {
        let s = Server::new(NonZeroUsize::new(workers).unwrap(), theirs).unwrap();
        let ok = s.run().is_ok();
        *r2.lock().unwrap() = Some(ok);
    });
    for (i, m) in msgs.iter().enumerate() {
        if tx.send(message(m, i, dir)).is_err() {
            break;
        }
    }
    drop(tx);
    let crashed = server.join().is_err();
    // the process lives on until the background work is done
    loop {
        let hs = vstd::thread::STARTED.with(|s| ::std::mem::take(&mut *s.borrow_mut()));
        if hs.is_empty() {
            break;
        }
        for h in hs {
            let _ = h.join();
        }
    }
    let unused = { let mut n = 0; while let Some(Ok(_)) = left.take_ready() { n += 1; } n };
    while let Some(Ok(m)) = rx.take_ready() {
        got.borrow_mut().push(m);
    }
    vstd::process::ON_EXIT.with(|h| *h.borrow_mut() = None);
    let used = msgs.len() - unused;
    let mut outs = got.borrow_mut();
    let end = match (exited.get(), *result.lock().unwrap()) {
        (Some((code, n)), _) => {
            outs.truncate(n);
            if code == 0 { "ok" } else { "err" }
        }
        (None, Some(ok)) => if ok { "ok" } else { "err" },
        (None, None) => "crash",
    };
    let _ = crashed;
    let kinds: BTreeMap<i64, String> = msgs.iter().filter_map(|m| Some((m["id"].as_i64()?, m["k"].as_str()?.to_string()))).collect();
    let out: Vec<Value> = outs.iter().filter_map(|m| describe(m, &kinds)).collect();
    let rec = json!({"msgs": msgs, "out": out, "end": end, "used": used}).to_string();
    *seen.lock().unwrap().entry(rec).or_insert(0) += 1;
}

fn main() {
    let a: Vec<String> = ::std::env::args().collect();
    let (input, output, seed, threads) = (&a[1], &a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<usize>().unwrap());
    let tmp = tempfile::tempdir().unwrap();
    let dir = tmp.path().canonicalize().unwrap().to_string_lossy().into_owned();
    ::std::fs::write(format!("{dir}/jarl.toml"), "[lint]\nselect = [\"any_is_na\"]\n").unwrap();
    ::std::env::set_current_dir(&dir).unwrap();
    quiet_panics();
    let jobs: Arc<Vec<Value>> = Arc::new(lines(input).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let file = Arc::new(Mutex::new(::std::io::BufWriter::new(::std::fs::File::create(output).unwrap())));
    let stats = Arc::new((AtomicUsize::new(0), AtomicUsize::new(0)));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (jobs, next, file, stats, dir) = (jobs.clone(), next.clone(), file.clone(), stats.clone(), dir.clone());
            ::std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
                air_r_parser::ON_PARSE.with(|h| {
                    *h.borrow_mut() = Some(Box::new(|t: &str| {
                        shuttle::thread::yield_now();
                        if t.contains("VERIF_PANIC") {
                            panic!("injected");
                        }
                    }))
                });
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some(job) = jobs.get(i) else { break };
                    let msgs = job["msgs"].as_array().unwrap().clone();
                    let (runs, workers) = (job["runs"].as_u64().unwrap() as usize, job["workers"].as_u64().unwrap() as usize);
                    let seen: Arc<Mutex<BTreeMap<String, usize>>> = Default::default();
                    let mut cfg = shuttle::Config::new();
                    cfg.stack_size = 4 << 20;
                    cfg.failure_persistence = shuttle::FailurePersistence::None;
                    for (j, n) in [(0usize, runs.div_ceil(2)), (1, runs / 2)] {
                        if n == 0 {
                            continue;
                        }
                        let (m2, s2, d2, c2) = (msgs.clone(), seen.clone(), dir.clone(), cfg.clone());
                        let sd = seed.wrapping_mul(1_000_003).wrapping_add(i as u64 * 2 + j as u64);
                        let f = move || {
                            crossbeam::PRIORITY.with(|p| p.set(p.get() + 1));
                            session(&m2, workers, &d2, &s2)
                        };
                        let r = guarded(move || match j {
                            0 => { shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(sd, n), c2).run(f); }
                            _ => { shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(sd, 3, n), c2).run(f); }
                        });
                        if let Err(p) = r {
                            let shown = if p.contains("deadlock") { "the server hangs".to_string() } else { format!("crash: {p}") };
                            bad(format!("{shown} under some schedule"), json!({"msgs": msgs, "detail": p}));
                        }
                        stats.0.fetch_add(n, Ordering::SeqCst);
                    }
                    use ::std::io::Write;
                    let seen = seen.lock().unwrap();
                    stats.1.fetch_add(seen.len(), Ordering::SeqCst);
                    let mut f = file.lock().unwrap();
                    for r in seen.keys() {
                        writeln!(f, "{r}").unwrap();
                    }
                }
            }).unwrap()
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    out(json!({"sessions": jobs.len(), "executions": stats.0.load(Ordering::SeqCst), "distinct": stats.1.load(Ordering::SeqCst)}));
}
