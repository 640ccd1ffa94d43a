mod alloc;
mod drive;
mod ink;
mod jsonmut;
mod known;
mod peer;
mod props;
#[cfg_attr(not(bladeink_verif_audit), allow(dead_code))]
mod refs;
mod runner;
mod session;
mod tape;

use runner::{Prop, Tier};
use std::path::Path;
use tape::Tape;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn prop(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property check: {id}");
        std::process::exit(2)
    })
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).map(|x| x.as_str()).unwrap_or("");
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    match s(0) {
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let t = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
            std::process::exit(runner::check(&prop(s(1)), seed, t));
        }
        "worker" => {
            // worker PROP BUILD SEED TIER I N TOTAL DIR
            let p = prop(s(1));
            runner::worker(&p, s(2), n(3), tier(s(4)), n(5), n(6), n(7), Path::new(s(8)), true, a.get(9).map(|_| (n(9), n(10))));
        }
        // one PROP TIER SEED IDX
        "one" => {
            let p = prop(s(1));
            let t = Tape::random(p.id, n(3), n(4));
            runner::one(&p, tier(s(2)), n(4), t, a.get(5).is_some(), false);
        }
        // scan PROP SEED FROM TO [MAXKINDS]
        "scan" => runner::scan(&prop(s(1)), n(2), Tier::Quick, n(3), n(4), if s(5) == "0" { 0 } else { 9 }),
        "serve" => props::serve(),
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(s(1)).expect("replay file")).expect("json");
            let p = prop(v["property"].as_str().unwrap());
            let idx = v["case"].as_u64().unwrap();
            let t = match v["tape"].as_array() {
                Some(x) => Tape::replay(x.iter().map(|y| y.as_u64().unwrap() as u32).collect()),
                None => Tape::random(p.id, v["seed"].as_u64().unwrap(), idx),
            };
            runner::one(&p, tier(v["tier"].as_str().unwrap_or("")), idx, t, true, false);
        }
        // finding PROP FILE
        "finding" => std::process::exit(props::finding(s(1), s(2))),
        "compile" => match drive::compile(&std::fs::read_to_string(s(1)).unwrap()) {
            Ok(j) => println!("{j}"),
            Err(e) => println!("ERROR {e}"),
        },
        // play FILE choice...
        "play" => {
            let src = std::fs::read_to_string(s(1)).unwrap();
            let j = if s(1).ends_with(".json") { src } else { drive::compile(&src).unwrap() };
            let mut d = drive::Play::new(&j, 1).unwrap();
            let mut i = 2;
            loop {
                let t = d.turn();
                println!("{}", t.show());
                if t.end != drive::End::Choices || i >= a.len() {
                    break;
                }
                println!(">>> {}", a[i]);
                d.story.choose_choice_index(n(i) as usize).unwrap();
                i += 1;
            }
        }
        _ => {
            eprintln!("usage: vh check|replay|scan|one ...");
            std::process::exit(2);
        }
    }
}
