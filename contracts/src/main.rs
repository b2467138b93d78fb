//! Native side of the contracts: directed search for an argument that breaks one, and replay of a recorded one.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    native::main()
}

#[cfg(not(kani))]
mod native {
    use contracts::core::*;
    use std::io::Write;
    use std::time::{Duration, Instant};

    fn hex(v: &[Vec<u8>]) -> String {
        v.iter().map(|x| x.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>().join(",")
    }
    fn unhex(s: &str) -> Vec<Vec<u8>> {
        s.trim().split(',').map(|x| (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()).collect()
    }
    fn esc(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 || c == '\u{7f}' => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o
    }
    pub fn main() {
        if std::env::var("LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
        let a: Vec<String> = std::env::args().collect();
        match a[1].as_str() {
            "replay" => {
                let t = contracts::all_targets().into_iter().find(|t| t.name == a[2]).expect("unknown target");
                let mut s = Src::replaying(unhex(&match a[3].strip_prefix('@') { Some(f) => std::fs::read_to_string(f).unwrap(), None => a[3].clone() }));
                match (t.run)(&mut s) {
                    Verdict::Skip => println!("{{\"verdict\":\"skip\"}}"),
                    Verdict::Held { valid } => println!("{{\"verdict\":\"held\",\"valid\":{valid}}}"),
                    Verdict::Broken(m) => {
                        let args = ARGS.with(|x| x.borrow().clone());
                        println!("{{\"verdict\":\"broken\",\"target\":\"{}\",\"args\":\"{}\",\"why\":\"{}\",\"raw\":\"{}\"}}", t.name, esc(&args), esc(&m), hex(&s.rec));
                    }
                }
            }
            "search" => {
                // search SEED MILLIS DICTFILE LOG(0/1) PREFIX...
                let seed: u64 = a[2].parse().unwrap();
                let millis: u64 = a[3].parse().unwrap();
                let dict: Vec<i128> = std::fs::read_to_string(&a[4]).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
                let log = a[5] == "1";
                let prefixes = &a[6..];
                let ts: Vec<_> = contracts::all_targets().into_iter().filter(|t| prefixes.iter().any(|p| match p.strip_prefix('~') { Some(q) => t.name.ends_with(&format!("::{q}")), None => t.name.starts_with(p.as_str()) })).collect();
                let n = ts.len().max(1);
                let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n).max(1);
                let threads = if log { 1 } else { threads };
                let ts = std::sync::Arc::new(ts);
                let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
                let per = Duration::from_micros(millis * 1000 * threads as u64 / n as u64);
                let mut hs = vec![];
                for _ in 0..threads {
                    let (ts, next, dict) = (ts.clone(), next.clone(), dict.clone());
                    hs.push(std::thread::spawn(move || loop {
                        let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                        if i >= ts.len() {
                            return;
                        }
                        let t = &ts[i];
                        let from = seed.wrapping_mul(0x9E37).wrapping_add(i as u64 * 7919 + 12345);
                        let mut s = Src::random(from, dict.clone());
                        s.log = log.then_some(t.name);
                        let (start, mut ok, mut rej, mut skip, mut broken) = (Instant::now(), 0u64, 0u64, 0u64, None);
                        let mut k = 0u64;
                        while k < 2000 || start.elapsed() < per {
                            if k >= 50 && start.elapsed() > per * 4 + Duration::from_secs(2) {
                                break;
                            }
                            k += 1;
                            s.reset();
                            s.size = [2, 4, 6, 12, 40][(k % 5) as usize];
                            match (t.run)(&mut s) {
                                Verdict::Skip => skip += 1,
                                Verdict::Held { valid: true } => ok += 1,
                                Verdict::Held { valid: false } => rej += 1,
                                Verdict::Broken(m) => {
                                    broken = Some(m);
                                    break;
                                }
                            }
                        }
                        let args = ARGS.with(|x| x.borrow().clone());
                        match broken {
                            Some(m) => println!("{{\"broken\":true,\"target\":\"{}\",\"args\":\"{}\",\"why\":\"{}\",\"raw\":\"{}\",\"tried\":{k},\"from\":\"{from}\"}}", t.name, esc(&args), esc(&m), hex(&s.rec)),
                            None => println!("{{\"broken\":false,\"target\":\"{}\",\"accepted\":{ok},\"rejected\":{rej},\"skipped\":{skip}}}", t.name),
                        }
                    }));
                }
                for h in hs {
                    let _ = h.join();
                }
            }
            "history" => {
                // history TARGET FROM DICTFILE CALLS: the search's calls of one target from its beginning, in a process of
                // their own, until one breaks the contract; then the calls that led there
                let t = contracts::all_targets().into_iter().find(|t| t.name == a[2]).expect("unknown target");
                let dict: Vec<i128> = std::fs::read_to_string(&a[4]).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect();
                let calls: u64 = a[5].parse().unwrap();
                let mut s = Src::random(a[3].parse().unwrap(), dict);
                let mut last = std::collections::VecDeque::new();
                for k in 1..=calls {
                    s.reset();
                    s.size = [2, 4, 6, 12, 40][(k % 5) as usize];
                    let v = (t.run)(&mut s);
                    if last.len() == 4096 { last.pop_front(); }
                    last.push_back(hex(&s.rec));
                    if let Verdict::Broken(m) = v {
                        let args = ARGS.with(|x| x.borrow().clone());
                        let raws: Vec<_> = last.into_iter().collect();
                        println!("{{\"verdict\":\"broken\",\"target\":\"{}\",\"args\":\"{}\",\"why\":\"{}\",\"calls\":{k},\"raws\":\"{}\"}}", t.name, esc(&args), esc(&m), raws.join(" "));
                        return;
                    }
                }
                println!("{{\"verdict\":\"held\"}}");
            }
            "calls" => {
                // calls TARGET FILE: recorded calls one after another, the last of which is judged
                let t = contracts::all_targets().into_iter().find(|t| t.name == a[2]).expect("unknown target");
                let text = std::fs::read_to_string(&a[3]).unwrap();
                let raws: Vec<&str> = text.split_whitespace().collect();
                for (i, raw) in raws.iter().enumerate() {
                    let v = (t.run)(&mut Src::replaying(unhex(raw)));
                    match v {
                        Verdict::Broken(m) if i + 1 == raws.len() => {
                            let args = ARGS.with(|x| x.borrow().clone());
                            println!("{{\"verdict\":\"broken\",\"target\":\"{}\",\"args\":\"{}\",\"why\":\"{}\"}}", t.name, esc(&args), esc(&m));
                            return;
                        }
                        _ => {}
                    }
                }
                println!("{{\"verdict\":\"held\"}}");
            }
            "list" => {
                for t in contracts::all_targets() {
                    println!("{}", t.name)
                }
            }
            _ => panic!("usage"),
        }
    }
}
