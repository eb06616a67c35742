//! Conformance driver for the document store of the language server
//! (spec/DocSync.tla, spec/DocVec.tla, spec/DocTrace.tla).
#[path = "/repo/crates/jarl-lsp/src/document.rs"]
pub mod document;
/// Store of open documents around the real `TextDocument`. (The real `Session`, which
/// needs the whole linter, is driven by the same traces in the `hserver` package.)
pub struct Session {
    docs: std::collections::HashMap<Url, TextDocument>,
    enc: PositionEncoding,
}
impl Session {
    fn open_document(&mut self, u: Url, d: TextDocument) {
        self.docs.insert(u, d);
    }
    fn update_document(&mut self, u: Url, c: Vec<TextDocumentContentChangeEvent>, v: i32) -> anyhow::Result<()> {
        self.docs.get_mut(&u).ok_or_else(|| anyhow::anyhow!("unknown"))?.apply_changes(c, v, self.enc)
    }
    fn close_document(&mut self, u: Url) -> anyhow::Result<()> {
        self.docs.remove(&u).map(|_| ()).ok_or_else(|| anyhow::anyhow!("unknown"))
    }
    fn get_document(&self, u: &Url) -> Option<&TextDocument> {
        self.docs.get(u)
    }
}

use document::{PositionEncoding, TextDocument};
use lsp_types::{Position, Range, TextDocumentContentChangeEvent, Url};
use serde_json::{Value, json};
use vcommon::*;

fn enc(s: &str) -> PositionEncoding {
    match s {
        "utf8" => PositionEncoding::UTF8,
        "utf16" => PositionEncoding::UTF16,
        _ => PositionEncoding::UTF32,
    }
}
fn pos(v: &Value) -> Position {
    Position::new(v["line"].as_u64().unwrap() as u32, v["ch"].as_u64().unwrap() as u32)
}
fn jpos(p: Position) -> Value {
    json!({"line": p.line, "ch": p.character})
}
fn change(c: &Value, variant: usize) -> TextDocumentContentChangeEvent {
    let text = concretise(&c["text"], variant);
    TextDocumentContentChangeEvent {
        range: if c["full"].as_bool().unwrap() { None } else { Some(Range::new(pos(&c["s"]), pos(&c["e"]))) },
        range_length: None,
        text,
    }
}

/// Apply generated notifications to a real document and compare with the
/// texts the specification allows.
fn replay(path: &str) {
    let mut n = 0usize;
    for v in lines(path) {
        n += 1;
        let variant = n;
        let t0 = concretise(&v["text"], variant);
        let e = enc(v["enc"].as_str().unwrap());
        at(|| v.to_string());
        if v["k"] == "apply" {
            let cs: Vec<_> = v["cs"].as_array().unwrap().iter().map(|c| change(c, variant)).collect();
            let exp: Vec<String> = v["exp"].as_array().unwrap().iter().map(|t| concretise(t, variant)).collect();
            let mut doc = TextDocument::new(t0.clone(), 4);
            let r = guarded(|| doc.apply_changes(cs.clone(), 9, e).is_ok());
            match r {
                Err(p) => bad(format!("applying a change notification crashed: {p}"), v.clone()),
                Ok(ok) => {
                    let (text, ver) = (doc.content().to_string(), doc.version());
                    let nl = text.matches('\n').count() + 1;
                    if exp.is_empty() {
                        if ok {
                            bad("a notification that cannot be applied was accepted", json!({"case": v, "got": text}));
                        } else if text != t0 || ver != 4 {
                            bad("a refused notification changed the document", json!({"case": v, "got": text, "version": ver}));
                        }
                    } else if !ok {
                        bad("a valid notification was refused", v.clone());
                    } else if !exp.contains(&text) {
                        bad("text differs from the editor's", json!({"case": v, "got": text, "expected": exp}));
                    } else if ver != 9 {
                        bad("version differs from the editor's", json!({"case": v, "version": ver}));
                    }
                    if doc.line_count() != nl {
                        bad("line table stale after a notification", json!({"case": v, "text": text, "lines": doc.line_count()}));
                    }
                    // a later lookup: end of the text
                    let lastline = text.rsplit('\n').next().unwrap().len();
                    let r = guarded(|| doc.offset_to_position(text.len(), PositionEncoding::UTF8).ok());
                    if r != Ok(Some(Position::new(nl as u32 - 1, lastline as u32))) {
                        bad("lookup of the end of the text wrong after a notification", json!({"case": v, "text": text, "got": format!("{r:?}")}));
                    }
                }
            }
        } else {
            let doc = TextDocument::new(t0, 1);
            let kind = lsp_types::PositionEncodingKind::from(e);
            let wire = v["wire"].as_str().unwrap();
            if kind.as_str() != wire || serde_json::from_value(v["wire"].clone()).ok().and_then(|k: lsp_types::PositionEncodingKind| PositionEncoding::try_from(&k).ok()) != Some(e) {
                bad("an encoding is negotiated under the wrong name", json!({"enc": v["enc"], "wire": wire, "got": kind.as_str()}));
            }
            for q in v["pos"].as_array().unwrap() {
                let r = guarded(|| doc.position_to_offset(pos(&q["p"]), e).ok());
                let case = || json!({"text": v["text"], "enc": v["enc"], "query": q, "got": format!("{r:?}")});
                match &r {
                    Err(_) => bad("position lookup crashed", case()),
                    Ok(o) => {
                        let has = |k: &str| o.is_some_and(|o| q[k].as_array().unwrap().iter().any(|x| x == &json!(o)));
                        let exact = !q["exact"].as_array().unwrap().is_empty();
                        if exact && !has("exact") || !exact && o.is_some() && !has("near") {
                            bad("position converts to the wrong offset", case());
                        }
                    }
                }
            }
            for q in v["off"].as_array().unwrap() {
                let o = q["o"].as_u64().unwrap() as usize;
                let r = guarded(|| doc.offset_to_position(o, e).ok());
                let case = || json!({"text": v["text"], "enc": v["enc"], "query": q, "got": format!("{r:?}")});
                match &r {
                    Err(_) => bad("offset lookup crashed", case()),
                    Ok(p) => {
                        let has = |k: &str| p.is_some_and(|p| q[k].as_array().unwrap().iter().any(|x| x == &jpos(p)));
                        let exact = !q["exact"].as_array().unwrap().is_empty();
                        if exact && !has("exact") || !exact && p.is_some() && !has("near") {
                            bad("offset converts to the wrong position", case());
                        }
                    }
                }
            }
            // ranges: both ends at once
            let offs: Vec<_> = v["off"].as_array().unwrap().iter().filter(|q| q["exact"].as_array().unwrap().len() == 1).collect();
            for a in &offs {
                for b in &offs {
                    let (x, y) = (a["o"].as_u64().unwrap() as usize, b["o"].as_u64().unwrap() as usize);
                    if x <= y {
                        let r = guarded(|| doc.range_of_text(x, y, e).ok().map(|r| (jpos(r.start), jpos(r.end))));
                        if r != Ok(Some((a["exact"][0].clone(), b["exact"][0].clone()))) {
                            bad("range conversion wrong", json!({"text": v["text"], "enc": v["enc"], "from": x, "to": y, "got": format!("{r:?}")}));
                        }
                    }
                }
            }
        }
    }
    out(json!({"replayed": n}));
}

/// Random sessions on the real session store; every event is logged for DocTrace.
fn record(seed: u64, sessions: usize, ops: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let toks = ["a", "b", "c", "e2", "e3", "e4", "nl", "nl", "cr", "_"];
    let (mut events, mut refused) = (0, 0);
    for s in 0..sessions {
        let en = ["utf8", "utf16", "utf32"][s % 3];
        let e = enc(en);
        let mut sess = Session { docs: Default::default(), enc: e };
        w.put(json!({"event": "start", "enc": en}));
        let urls: Vec<Url> = (1..=3).map(|i| Url::parse(&format!("file:///w/d{i}.R")).unwrap()).collect();
        let gen_text = |rng: &mut Rng, max: usize| -> Vec<&str> { (0..rng.below(max + 1)).map(|_| *rng.pick(&toks)).collect() };
        let str_of = |t: &[&str]| -> String { t.iter().map(|x| conc(x, 0)).collect() };
        let mut ver = 0;
        for _ in 0..ops {
            let ui = rng.below(3);
            let u = urls[ui].clone();
            let un = format!("d{}", ui + 1);
            let cur = sess.get_document(&u).map(|d| d.content().to_string());
            let k = rng.below(20);
            let mut panicked = None;
            let mut ev;
            if cur.is_none() && k < 15 || k == 0 {
                let t = gen_text(&mut rng, 14);
                ver += 1;
                ev = json!({"event": "open", "u": un, "arg": t, "argver": ver, "ok": true});
                let doc = TextDocument::new(str_of(&t), ver);
                sess.open_document(u.clone(), doc);
            } else if k == 1 {
                let r = guarded(|| sess.close_document(u.clone()).is_ok());
                ev = json!({"event": "close", "u": un, "ok": r.clone().unwrap_or(false)});
                panicked = r.err();
            } else if k < 15 || cur.is_none() {
                ver += rng.range(1, 3) as i32;
                // positions are drawn against a shadow that follows the batch, or at random
                let mut shadow: Vec<char> = cur.clone().unwrap_or_default().chars().collect();
                let nb = rng.range(1, 4);
                let mut cs = vec![];
                for _ in 0..nb {
                    let new = gen_text(&mut rng, 4);
                    if rng.chance(1, 14) {
                        shadow = str_of(&new).chars().collect();
                        cs.push(json!({"full": true, "s": {"line":0,"ch":0}, "e": {"line":0,"ch":0}, "text": new}));
                        continue;
                    }
                    let a = rng.below(shadow.len() + 1);
                    let b = (a + rng.below(4)).min(shadow.len());
                    let p = |k: usize| {
                        let line = shadow[..k].iter().filter(|c| **c == '\n').count();
                        let col: usize = shadow[..k].iter().rev().take_while(|c| **c != '\n')
                            .map(|c| match en { "utf8" => c.len_utf8(), "utf16" => c.len_utf16(), _ => 1 }).sum();
                        (line, col)
                    };
                    let (mut s0, mut e0) = (p(a), p(b));
                    match rng.below(24) {
                        0 => s0.1 += 1,
                        1 => e0.1 += 1,
                        2 => e0.1 += 50,
                        3 => e0.0 += 1,
                        4 => std::mem::swap(&mut s0, &mut e0),
                        5 => e0.0 += 30,
                        _ => {}
                    }
                    cs.push(json!({"full": false, "s": {"line":s0.0,"ch":s0.1}, "e": {"line":e0.0,"ch":e0.1}, "text": new}));
                    shadow.splice(a..b, str_of(&new).chars());
                }
                let real: Vec<_> = cs.iter().map(|c| change(c, 0)).collect();
                at(|| format!("{cur:?} {cs:?}"));
                let r = guarded(|| sess.update_document(u.clone(), real, ver).is_ok());
                ev = json!({"event": "change", "u": un, "cs": cs, "argver": ver, "ok": r.clone().unwrap_or(false)});
                if r == Ok(false) { refused += 1 }
                panicked = r.err();
            } else {
                let text = cur.clone().unwrap();
                let d = sess.get_document(&u).unwrap();
                if rng.chance(1, 2) {
                    let p = Position::new(rng.below(text.matches('\n').count() + 2) as u32, rng.below(8) as u32);
                    let r = guarded(|| d.position_to_offset(p, e).ok());
                    ev = json!({"event": "p2o", "u": un, "p": jpos(p), "res": match &r { Ok(Some(o)) => json!(o), _ => json!(-1) }});
                    panicked = r.err();
                } else {
                    let o = rng.below(text.len() + 3);
                    let r = guarded(|| d.offset_to_position(o, e).ok());
                    ev = json!({"event": "o2p", "u": un, "o": o, "ok": matches!(r, Ok(Some(_))),
                                "res": match &r { Ok(Some(p)) => jpos(*p), _ => json!({"line":0,"ch":0}) }});
                    panicked = r.err();
                }
            }
            if let Some(p) = panicked {
                bad(format!("crash in a session: {p}"), json!({"enc": en, "before": cur, "event": ev}));
                break;
            }
            let d = sess.get_document(&u);
            ev["open"] = json!(d.is_some());
            if let Some(d) = d {
                ev["text"] = abstracts(d.content());
                ev["ver"] = json!(d.version());
                ev["lines"] = json!(d.line_count());
            }
            events += 1;
            w.put(ev);
        }
    }
    out(json!({"events": events, "sessions": sessions, "refused": refused}));
}

fn main() {
    quiet_panics();
    watchdog(20);
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "replay-doc" => replay(&a[2]),
        "record-doc" => record(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), &a[5]),
        _ => std::process::exit(3),
    }
}
