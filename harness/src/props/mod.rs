use crate::runner::Prop;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
#[cfg(bladeink_verif_audit)]
pub mod c19;
pub mod c20;

pub fn all() -> Vec<Prop> {
    vec![
        c01::PROP,
        c02::PROP,
        c03::PROP,
        c04::PROP,
        c05::PROP,
        c06::PROP,
        c07::PROP,
        c08::PROP,
        c09::PROP,
        c10::PROP,
        c11::PROP,
        c12::PROP,
        c13::PROP,
        c14::PROP,
        c15::PROP,
        c16::PROP,
        c17::PROP,
        c18::PROP,
        #[cfg(bladeink_verif_audit)]
        c19::PROP,
        c20::PROP,
    ]
}

/// Answers the requests of a check that runs in another build.
pub fn serve() {
    use std::io::{BufRead, Write};
    crate::runner::install_panic_hook();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let Ok(j) = serde_json::from_str::<serde_json::Value>(&line) else { break };
        let a = match j["prop"].as_str() {
            Some("C03") => c03::serve(&j),
            Some("C14") => c14::serve(&j),
            Some("C15") => c15::serve(&j),
            _ => serde_json::Value::Null,
        };
        let mut o = std::io::stdout().lock();
        if o.write_all(format!("{a}\n").as_bytes()).and_then(|_| o.flush()).is_err() {
            break;
        }
    }
}

/// Replays a recorded finding: 0 = it no longer fails, 1 = it fails as recorded, 2 = cannot be replayed
pub fn finding(prop: &str, file: &str) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else { return 2 };
    let Ok(j) = serde_json::from_str::<serde_json::Value>(&text) else { return 2 };
    match prop {
        "C02" => c02::finding(&j),
        _ => 2,
    }
}
