//! Conformance driver for the whole of jarl-core.
mod chunks;
mod fixes;
mod lint;
mod locate;
mod select;
mod suppress;
mod sprintf;
mod terms;

fn main() -> std::process::ExitCode {
    let a: Vec<String> = std::env::args().collect();
    vcommon::quiet_panics();
    vcommon::watchdog(30);
    let seed = |i: usize| a[i].parse::<u64>().unwrap();
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    match a[1].as_str() {
        "replay-fixes" => fixes::replay(&a[2]),
        "record-fixes" => fixes::record(seed(2), num(3), &a[4]),
        "replay-sprintf" => sprintf::replay(&a[2]),
        "record-sprintf" => sprintf::record(seed(2), num(3), &a[4]),
        "replay-locate" => locate::replay(&a[2]),
        "record-locate" => locate::record(seed(2), num(3), &a[4], &a[5]),
        "replay-suppress" => suppress::replay(&a[2], a[3] == "rmd", &a[4]),
        "record-suppress" => suppress::record(seed(2), num(3), &a[4], a[5] == "rmd"),
        "replay-chunks" => chunks::replay(&a[2]),
        "record-chunks" => chunks::record(seed(2), num(3), &a[4], &a[5]),
        "replay-select" => select::replay(&a[2], &a[3], &a[4]),
        "record-select" => select::record(seed(2), num(3), &a[4], &a[5]),
        "replay-terms" => terms::replay(&a[2], &a[3], &a[4]),
        "record-terms" => terms::record(seed(2), num(3), &a[4], &a[5], &a[6]),
        x => {
            eprintln!("unknown command {x}");
            std::process::exit(3)
        }
    }
    std::process::ExitCode::SUCCESS
}
