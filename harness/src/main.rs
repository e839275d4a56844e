#![allow(invalid_runtime_symbol_definitions)]
#![allow(dead_code)]
mod conform;
mod explore;
mod fakemodel;
mod geo;
mod props;
mod sim;
mod sys;
mod wire;
mod world;
use explore::{Space, Stats};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn verif_root() -> String {
    std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into())
}
fn main() {
    explore::init();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let tier = match a.get(3).map(|s| s.as_str()) {
                Some("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            check(&id, tier, a.get(4).map(|s| s.as_str()))
        }
        Some("replay") => replay(a.get(2).map(|s| s.as_str()).unwrap_or("")),
        // one space in one thread, in a fixed order: a history that can be repeated
        Some("history") => {
            let (id, sp) = (a.get(2).cloned().unwrap_or_default(), a.get(4).cloned().unwrap_or_default());
            let tier = if a.get(3).map(|s| s.as_str()) == Some("thorough") { Tier::Thorough } else { Tier::Quick };
            match props::all().into_iter().find(|p| p.id == id).and_then(|p| (p.spaces)(tier).into_iter().find(|s| s.name == sp)) {
                Some(space) => match explore::explore(&space, 1, Instant::now() + Duration::from_secs(250)).violation {
                    Some(v) => {
                        println!("violated after the earlier executions of the space: {}", v.what);
                        1
                    }
                    None => 0,
                },
                None => 2,
            }
        }
        Some("conformance") => conform::main(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(3)),
        Some("list") => {
            for p in props::all() {
                for s in (p.spaces)(Tier::Quick) {
                    println!("{} {} bound {}: {}", p.id, s.name, s.bound, s.what);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough [space] | mc replay FILE | mc list");
            2
        }
    };
    // do not run destructors of parked threads
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(code) }
}
fn check(id: &str, tier: Tier, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        return 2;
    };
    let threads = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let budget = Duration::from_secs(
        std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 420 } else { 3000 }),
    );
    let spaces: Vec<Space> = (p.spaces)(tier).into_iter().filter(|s| only.map(|o| s.name.contains(o)).unwrap_or(true)).collect();
    let mut tot = Stats { complete: true, ..Default::default() };
    let mut per = vec![];
    let mut samples = vec![];
    let n = spaces.len();
    let mut viol = None;
    for (i, sp) in spaces.iter().enumerate() {
        let left = budget.saturating_sub(t0.elapsed());
        let share = left / (n - i) as u32;
        // a space may use what earlier ones left over
        let dl = Instant::now() + share.max(Duration::from_secs(2));
        let ts = Instant::now();
        let o = explore::explore(sp, threads, dl);
        let s = &o.stats;
        per.push(format!(
            "{{\"space\":{},\"choices\":{},\"deviation_bound\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"property_evaluations\":{},\"distinct_outcomes\":{},\"longest_choice_sequence\":{},\"executions_by_deviations\":{{{}}},\"diverged\":{},\"complete\":{},\"wall_s\":{:.2}}}",
            esc(&sp.name), esc(&sp.what), sp.bound, s.executions, s.states, s.transitions, s.checks, s.outcomes, s.max_choices,
            s.by_dev.iter().map(|(d, n)| format!("\"{d}\":{n}")).collect::<Vec<_>>().join(","),
            s.diverged, s.complete, ts.elapsed().as_secs_f64()
        ));
        if s.diverged > 0 {
            println!("note: {} executions behaved differently when repeated after others: the library keeps state across connections", s.diverged);
        }
        println!(
            "{id} {} {:?}: executions={} states={} transitions={} evaluations={} outcomes={} complete={} {:.1}s",
            sp.name, tier, s.executions, s.states, s.transitions, s.checks, s.outcomes, s.complete, ts.elapsed().as_secs_f64()
        );
        for c in s.sample.iter().take(2) {
            samples.push(format!("{{\"space\":{},\"choices\":{:?}}}", esc(&sp.name), c));
        }
        tot.executions += s.executions;
        tot.states += s.states;
        tot.transitions += s.transitions;
        tot.checks += s.checks;
        tot.outcomes += s.outcomes;
        tot.complete &= s.complete;
        if let Some(v) = o.violation {
            let mut ok = None;
            for _ in 0..2 {
                if let Some(w) = explore::confirm(&sp.run, &v.choices, 100) {
                    ok = Some(w);
                    break;
                }
            }
            match ok {
                Some(w) => {
                    viol = Some(explore::Violation { what: w, ..v });
                    break;
                }
                None if history(id, tier, &v.space) => {
                    viol = Some(v);
                    break;
                }
                None => {
                    println!("note: an apparent violation did not reproduce and is not reported: {} {:?}", v.what, v.choices);
                    tot.complete = false;
                }
            }
        }
    }
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n  \"property_evaluations\": {},\n  \"distinct_outcomes\": {},\n  \"how\": {},\n  \"spaces\": [\n   {}\n  ],\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        esc(id),
        esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        tot.states,
        tot.transitions,
        tot.executions,
        tot.complete && viol.is_none(),
        tot.checks,
        tot.outcomes,
        esc("stateless exploration of the real library code: states are nodes of the choice tree, transitions are simulated system calls and control cycles executed by the implementation, every explored trace is a trace of the implementation itself"),
        per.join(",\n   "),
        samples.join(","),
        props::ASSUMPTIONS.iter().chain(p.assumptions.iter()).map(|s| esc(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        viol.is_some() as u32
    );
    let root = verif_root();
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if only.is_none() {
        if let Err(e) = std::fs::write(format!("{root}/evidence/{id}.json"), ev) {
            eprintln!("cannot write evidence: {e}");
            return 2;
        }
    }
    if let Some(v) = viol {
        let _ = std::fs::create_dir_all(format!("{root}/out/replay"));
        let path = format!("{root}/out/replay/{id}.json");
        let txt = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"space\": {},\n \"choices\": {:?},\n \"what\": {}\n}}\n",
            esc(id),
            esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
            esc(&v.space),
            v.choices,
            esc(&v.what)
        );
        let _ = std::fs::write(&path, txt);
        println!("violated: {}", v.what);
        println!("in space {} with choices {:?}", v.space, v.choices);
        println!("VIOLATION property={id} replay={path}");
        return 1;
    }
    0
}
/// Explores a space in a fresh process in a fixed order.
fn history(id: &str, tier: Tier, space: &str) -> bool {
    let t = if tier == Tier::Quick { "quick" } else { "thorough" };
    let me = std::env::current_exe().unwrap_or_default();
    std::process::Command::new(me).args(["history", id, t, space]).status().map(|s| s.code() == Some(1)).unwrap_or(false)
}
fn field(s: &str, k: &str) -> Option<String> {
    let i = s.find(&format!("\"{k}\":"))? + k.len() + 3;
    let r = s[i..].trim_start();
    if let Some(x) = r.strip_prefix('"') {
        x.find('"').map(|e| x[..e].to_string())
    } else if r.starts_with('[') {
        r.find(']').map(|e| r[1..e].to_string())
    } else {
        None
    }
}
fn replay(f: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(f) else {
        eprintln!("cannot read {f}");
        return 2;
    };
    let id = field(&s, "property").unwrap_or_default();
    let tier = if field(&s, "tier").as_deref() == Some("thorough") { Tier::Thorough } else { Tier::Quick };
    let sp = field(&s, "space").unwrap_or_default();
    let ch: Vec<u16> = field(&s, "choices").unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else { return 2 };
    let Some(space) = (p.spaces)(tier).into_iter().find(|x| x.name == sp) else { return 2 };
    match explore::confirm(&space.run, &ch, 100) {
        Some(w) => {
            println!("violated: {w}");
            println!("VIOLATION property={id} replay={f}");
            1
        }
        None if history(&id, tier, &sp) => {
            println!("VIOLATION property={id} replay={f}");
            1
        }
        None => {
            println!("the execution satisfies the property");
            0
        }
    }
}
