//! Conformance driver for the stand-alone parts of jarl-core and the command line.
mod directives;
mod description;
mod notebook;
mod paths;
mod rules;
mod status;

fn main() -> std::process::ExitCode {
    let a: Vec<String> = std::env::args().collect();
    vcommon::quiet_panics();
    vcommon::watchdog(20);
    let seed = |i: usize| a[i].parse::<u64>().unwrap();
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    match a[1].as_str() {
        "replay-directives" => directives::replay(&a[2]),
        "record-directives" => directives::record(seed(2), num(3), &a[4]),
        "replay-notebooks" => notebook::replay(&a[2]),
        "record-notebooks" => notebook::record(seed(2), num(3), &a[4]),
        "replay-description" => description::replay(&a[2]),
        "record-description" => description::record(seed(2), num(3), &a[4]),
        "rules" => rules::record(seed(2), num(3), &a[4]),
        "replay-paths" => paths::replay(&a[2], &a[3]),
        "record-paths" => paths::record(seed(2), num(3), &a[4], &a[5]),
        "exit" => return status::exit_as(&a[2]),
        "log" => status::log_at(&a[2]),
        "levels" => status::levels(seed(2), num(3), &a[4]),
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(3)
        }
    }
    std::process::ExitCode::SUCCESS
}
