//! Runs one harness natively on the solver's values and prints what happened.
//! Input (stdin): lines `HARNESS TIER v0 v1 ...`.  One result line per run.
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn find(name: &str) -> Option<fn()> {
    #[cfg(feature = "lib")]
    if let Some(h) = hlib::TABLE.iter().flat_map(|t| t.iter()).find(|h| h.0 == name) {
        return Some(h.1);
    }
    #[cfg(feature = "cli")]
    if let Some(h) = hcli::harness::TABLE.iter().flat_map(|t| t.iter()).find(|h| h.0 == name) {
        return Some(h.1);
    }
    #[cfg(feature = "py")]
    if let Some(h) = hpy::harness::TABLE.iter().flat_map(|t| t.iter()).find(|h| h.0 == name) {
        return Some(h.1);
    }
    None
}

fn main() {
    let quiet = std::env::var_os("SYM_LOUD").is_none();
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| {
        if let Ok(mut g) = l2.lock() {
            *g = format!("{}", i).replace('\n', " ");
        }
        if !quiet {
            eprintln!("{}", i);
        }
    }));
    let out = std::io::stdout();
    // every run starts in an empty directory of its own
    let dir = std::env::temp_dir().join(format!("hnative-{}", std::process::id()));
    let leave = || {
        std::env::set_current_dir("/").unwrap();
        let _ = std::fs::remove_dir_all(&dir);
    };
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut w = line.split_whitespace();
        let (Some(name), Some(tier)) = (w.next(), w.next()) else { continue };
        let inputs: Vec<u64> = w.map(|x| x.parse().unwrap()).collect();
        let f = find(name).unwrap_or_else(|| panic!("no harness {}", name));
        *sym::native::REPLAY.lock().unwrap_or_else(|p| p.into_inner()) = Some(sym::native::Replay { inputs, tier: tier.parse().unwrap(), ..Default::default() });
        loc.lock().unwrap().clear();
        leave();
        std::fs::create_dir_all(&dir).unwrap();
        std::env::set_current_dir(&dir).unwrap();
        let r = catch_unwind(AssertUnwindSafe(f));
        sym::fault::allow(0);
        sym::native::with(|rp| {
            let mut end = "done".to_string();
            if let Err(e) = r {
                if e.is::<sym::native::AssumeFailed>() {
                    end = "assume".into();
                } else if rp.panic_ok {
                    end = "panic_ok".into();
                } else {
                    end = "panic".into();
                }
            }
            let j = |v: &[u64]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            let m: String = loc.lock().unwrap().chars().map(|c| if c == '"' || c == '\\' || (c as u32) < 32 { '\'' } else { c }).collect();
            writeln!(
                out.lock(),
                "{{\"end\":\"{}\",\"failed\":[{}],\"obs\":[{}],\"diverged\":{},\"used\":{},\"reached\":[{}],\"panic\":\"{}\"}}",
                end,
                j(&rp.failed),
                j(&rp.observed),
                rp.diverged,
                rp.pos,
                j(&rp.reached),
                m
            )
            .unwrap();
            out.lock().flush().unwrap();
        });
    }
    leave();
}
