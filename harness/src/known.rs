//! Known findings: /verif/known_findings.txt lists genuine defects that were not
//! repaired; each names an input file under /verif/findings that is replayed here.
use crate::runner::{Prop, bin, run_isolated, verif_dir};

/// Lines `finding: property=<id> input=<file under findings/> <what fails>`.
pub fn replay_known(p: &Prop) -> (Vec<String>, Option<String>) {
    let d = verif_dir();
    let Ok(s) = std::fs::read_to_string(d.join("known_findings.txt")) else { return (vec![], None) };
    let mut out = vec![];
    for l in s.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let prop = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
        let input = it.next().unwrap_or("").strip_prefix("input=").unwrap_or("");
        let what = it.next().unwrap_or("");
        if prop != p.id {
            continue;
        }
        let path = d.join("findings").join(input);
        let (st, _) = run_isolated(&bin("release"), &["finding", p.id, path.to_str().unwrap()]);
        match st.code() {
            Some(0) => {} // no longer fails
            Some(2) => return (out, Some(format!("cannot replay finding {input}"))),
            _ => out.push(format!("KNOWN-FINDING: property={} {what} ({input})", p.id)),
        }
    }
    (out, None)
}
