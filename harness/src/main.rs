mod edit;
mod judge;
mod obs;
mod observe;
mod parts;
mod proj;
mod props;
mod punct;
mod record;
mod rename;
mod replay;
mod tok;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

static CURRENT: Mutex<Option<(String, Instant)>> = Mutex::new(None);

/// Note the case that is being run, for the watchdog.
pub fn watch(line: &str) {
    *CURRENT.lock().unwrap() = Some((line.to_string(), Instant::now()));
    if PROGRESS.load(Ordering::Relaxed) {
        eprintln!("CASE {line}");
    }
}
static PROGRESS: AtomicBool = AtomicBool::new(false);

/// A case that takes this long will not end: report it and leave.
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        if let Some((line, since)) = &*CURRENT.lock().unwrap() {
            if since.elapsed() > Duration::from_secs(20) {
                eprintln!("HANG {line}");
                std::process::exit(7);
            }
        }
    });
}

fn main() {
    watchdog();
    PROGRESS.store(std::env::var("VH_PROGRESS").is_ok(), Ordering::Relaxed);
    std::panic::set_hook(Box::new(|_| {}));
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let stdin = std::io::stdin();
    let shard: (usize, usize) = arg("--shard").map_or((0, 1), |s| {
        let (a, b) = s.split_once('/').unwrap();
        (a.parse().unwrap(), b.parse().unwrap())
    });
    // reports as printed by TLC (a JSON string that holds the JSON report), or plain lines
    let raw = cmd == "sources";
    let lines = stdin.lock().lines().map(|l| l.unwrap()).filter(move |l| raw || l.starts_with("\"{") || l.starts_with('{'))
        .enumerate().filter(move |(i, _)| i % shard.1 == shard.0).map(|(_, l)| {
            *CURRENT.lock().unwrap() = None;
            if l.starts_with('"') { serde_json::from_str::<String>(&l).unwrap() } else { l }
        });
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    match cmd.as_str() {
        "replay" => replay::main(lines, &mut out, &arg("--prop").unwrap(), arg("--odd").is_some()),
        "edit" => edit::main(lines, &mut out, &arg("--prop").unwrap()),
        "parts" => parts::main(lines, &mut out),
        "punct" => punct::main(lines, &mut out),
        "errors" => punct::errors(lines, &mut out),
        "judge" => judge::main(lines, &mut out, &arg("--prop").unwrap(), arg("--valid").is_some()),
        "record" => record::main(lines, &mut out, arg("--seed").unwrap().parse().unwrap(), arg("--n").unwrap().parse().unwrap(), &arg("--entry").unwrap_or("item".into())),
        "record-one" => record::again(lines, &mut out),
        "sources" => record::sources(lines, &mut out, arg("--max").map_or(2000, |x| x.parse().unwrap())),
        _ => {
            eprintln!("unknown command {cmd:?}");
            std::process::exit(2);
        }
    }
    out.flush().unwrap();
}
