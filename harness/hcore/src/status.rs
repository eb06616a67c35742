//! O03: exit statuses and log levels (spec/Status.tla).
use hcore::logging::LogLevel;
use hcore::status::ExitStatus;
use serde_json::json;
use std::process::ExitCode;
use std::str::FromStr;
use vcommon::*;

/// Ends the process the way the command line does.
pub fn exit_as(s: &str) -> ExitCode {
    let e = match s {
        "Success" => ExitStatus::Success,
        "Failure" => ExitStatus::Failure,
        _ => ExitStatus::Error,
    };
    ExitCode::from(e)
}
pub fn log_at(s: &str) {
    let l = LogLevel::from_str(s).unwrap();
    hcore::start_logging(l);
    for target in ["jarl", "other"] {
        macro_rules! ev { ($l:ident, $n:literal) => { if target == "jarl" { tracing::event!(target: "jarl", tracing::Level::$l, "EV jarl {}", $n) } else { tracing::event!(target: "other", tracing::Level::$l, "EV other {}", $n) } } }
        ev!(ERROR, "error");
        ev!(WARN, "warn");
        ev!(INFO, "info");
        ev!(DEBUG, "debug");
        ev!(TRACE, "trace");
    }
}
pub fn levels(seed: u64, n: usize, path: &str) {
    let mut rng = Rng::new(seed);
    let mut w = Out::new(path);
    let mut put = |s: &str| {
        at(|| s.to_string());
        match guarded(|| LogLevel::from_str(s).map(|l| l.to_string().to_lowercase()).unwrap_or("-".into())) {
            Ok(r) => w.put(json!({"s": s, "r": r})),
            Err(p) => bad(format!("crash: {p}"), json!({"level": s})),
        }
    };
    let base = ["error", "warn", "info", "debug", "trace"];
    for s in base { put(s) }
    for s in ["", "Error", "WARN", "warning", "off", "err", " warn", "warn ", "verbose", "0", "é"] { put(s) }
    for _ in 0..n {
        let mut s: Vec<char> = rng.pick(&base).chars().collect();
        let i = rng.below(s.len());
        match rng.below(4) {
            0 => { s.remove(i); }
            1 => s.insert(i, *rng.pick(&['a', ' ', 'r', 'é'])),
            2 => s[i] = *rng.pick(&['a', 'o', 'r', '_']),
            _ => s[i] = s[i].to_ascii_uppercase(),
        }
        put(&s.iter().collect::<String>());
    }
    // the default level and the order of levels
    let all = [LogLevel::Error, LogLevel::Warn, LogLevel::Info, LogLevel::Debug, LogLevel::Trace];
    out(json!({"default": LogLevel::default().to_string().to_lowercase(), "ordered": all.windows(2).all(|w| w[0] < w[1])}));
}
