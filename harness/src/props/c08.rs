//! C08: slicing a continue into time-limited pieces changes nothing.
use super::c02::fail;
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::verif_hooks as vh;
use bladeink::value_type::ValueType;

pub const PROP: Prop = Prop {
    id: "C08",
    rule: "one program and host history run twice: with blocking continues, and with every continue cut into generated slices (virtual clock: pause after n interpreter steps) with refused calls in between; non-trivial = at least three pauses inside lines and two lines compared",
    cases: |t| if t == Tier::Quick { 110_000 } else { 2_500_000 },
    run,
    builds: &["release"],
    peer: None,
};

struct Slicer {
    pauses: u64,
    refused: u64,
}

impl Slicer {
    /// one line by slices; what `cont` would have returned, or a complaint
    fn line(&mut self, t: &mut Tape, s: &mut Session, p: &Prg, save: &Option<String>) -> Result<String, String> {
        let step = t.range(1, 12) as u64;
        loop {
            if t.chance(1, 24) {
                // finish with a blocking call
                vh::set_slice_steps(None);
                return Ok(res(s.story.cont()));
            }
            let n = if t.chance(1, 3) { t.range(0, 3) as u64 } else { step };
            vh::set_slice_steps(Some(n));
            let r = s.story.continue_async(1.0);
            vh::set_slice_steps(None);
            if let Err(e) = r {
                return Ok(format!("err {e}"));
            }
            match s.story.get_current_text() {
                Ok(x) => return Ok(res::<String, String>(Ok(x))),
                Err(_) => {
                    self.pauses += 1;
                    if t.chance(1, 6) {
                        self.forbidden(t, s, p, save)?;
                    }
                }
            }
        }
    }

    fn forbidden(&mut self, t: &mut Tape, s: &mut Session, p: &Prg, save: &Option<String>) -> Result<(), String> {
        let st = &mut s.story;
        let (what, ok): (&str, bool) = match t.below(15) {
            0 => ("choose_choice_index", st.choose_choice_index(0).is_ok()),
            1 | 2 if !p.jumps.is_empty() => ("choose_path_string", st.choose_path_string(t.pick(&p.jumps).as_str(), t.chance(1, 2), None).is_ok()),
            3 | 4 if !p.globals.is_empty() => {
                let i = t.below(p.globals.len());
                match value_for(t, p.types[i], st.get_variable(&p.globals[i])) {
                    Some(v) => ("set_variable", st.set_variable(&p.globals[i], &v).is_ok()),
                    None => ("", false),
                }
            }
            5 => ("switch_flow", st.switch_flow(*t.pick(FLOWS)).is_ok()),
            6 => ("remove_flow", st.remove_flow(if t.chance(1, 2) { s.flow.as_str() } else { FLOWS[0] }).is_ok()),
            7 => ("reset_state", st.reset_state().is_ok()),
            8 => match save {
                Some(j) => ("load_state", st.load_state(j).is_ok()),
                None => ("", false),
            },
            9 => match p.funcs().iter().find(|f| f.params.is_empty()) {
                Some(f) => ("evaluate_function", st.evaluate_function(&f.path, None, &mut String::new()).is_ok()),
                None => ("", false),
            },
            10 if !p.globals.is_empty() => ("observe_variable", st.observe_variable(&p.globals[0], watch("!", &s.log)).is_ok()),
            11 => match &s.observer {
                Some(o) => ("remove_variable_observer", st.remove_variable_observer(o, None).is_ok()),
                None => ("", false),
            },
            12 => ("bind_external_function", st.bind_external_function("nobody", std::rc::Rc::new(std::cell::RefCell::new(Ext { log: s.log.clone(), safe: true, count: 0 })), true).is_ok()),
            13 => match p.exts.first() {
                Some(e) => ("unbind_external_function", st.unbind_external_function(&e.0).is_ok()),
                None => ("", false),
            },
            14 => ("continue_maximally", st.continue_maximally().is_ok()),
            _ => {
                st.switch_to_default_flow();
                ("", false)
            }
        };
        if ok {
            return Err(format!("{what} is accepted in the middle of a time-limited continue"));
        }
        if !what.is_empty() {
            self.refused += 1;
        }
        let _ = ValueType::Int(0);
        Ok(())
    }
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let p = match any_prg(
        t,
        |t| {
            let mut c = swarm(t, &[6, 12, 25]);
            if t.chance(1, 3) {
                with_random(&mut c);
            }
            if t.chance(1, 2) {
                c.externals = t.range(1, 3);
            }
            c
        },
        2,
    ) {
        Ok(p) => p,
        Err(_) => return Out::Skip("program refused by the compiler"),
    };
    ctx.detail = if p.generated { p.src.clone() } else { p.name.clone() };
    let rg = rig(t, &p, true);
    let (Ok(mut a), Ok(mut b)) = (Session::rigged(&p, 11, &rg), Session::rigged(&p, 11, &rg)) else {
        return Out::Skip("story does not load");
    };
    let mut log: Vec<String> = vec![format!("{rg:?}")];
    let w = Weights { save: 1, load: 1, reset: 1, ..HOST };
    let w = if t.chance(1, 2) { PLAY } else { w };
    let mut sl = Slicer { pauses: 0, refused: 0 };
    let mut lines = 0u64;
    let valid = a.story.save_state().ok();
    for _ in 0..t.range(3, 26) {
        let Some(op) = next_op(t, &a, &p, &w) else { break };
        let ra = a.apply(&op);
        if a.out_of_fuel() {
            return Out::Skip("runs away");
        }
        log.push(format!("{op:?} -> {ra}"));
        vh::set_fuel(Some(crate::drive::FUEL));
        let rb = match op {
            Op::Cont => {
                lines += 1;
                sl.line(t, &mut b, &p, &valid)
            }
            Op::Max => {
                let mut text = String::new();
                let mut out = None;
                while b.story.can_continue() {
                    match sl.line(t, &mut b, &p, &valid) {
                        Ok(r) if r.starts_with("ok ") => {
                            lines += 1;
                            text += &b.story.get_current_text().unwrap_or_default()
                        }
                        r => {
                            out = Some(r);
                            break;
                        }
                    }
                }
                out.unwrap_or(Ok(res::<String, String>(Ok(text))))
            }
            _ => Ok(b.apply(&op)),
        };
        vh::set_slice_steps(None);
        let rb = match rb {
            Ok(r) => r,
            Err(m) => return fail(ctx, &log, "accepted in the middle of a line", &m),
        };
        if ra != rb {
            return fail(ctx, &log, "result", &format!("blocking {ra} | sliced {rb}"));
        }
        let (ea, eb) = (settle(a.events()), settle(b.events()));
        if ea != eb {
            return fail(ctx, &log, "callbacks", &format!("blocking {ea:?} | sliced {eb:?}"));
        }
        if let Some((k, d)) = diff(&observe(&mut a.story, &p), &observe(&mut b.story, &p)) {
            return fail(ctx, &log, &format!("state: {k}"), &d);
        }
        if !a.story.has_error() {
            match (save_json(&a.story), save_json(&b.story)) {
                (Ok(x), Ok(y)) => {
                    if let Some(d) = jdiff(&x, &y, "save") {
                        return fail(ctx, &log, "save", &d);
                    }
                }
                (x, y) => {
                    if x.is_ok() != y.is_ok() {
                        return fail(ctx, &log, "save fails", &format!("{x:?} | {y:?}"));
                    }
                }
            }
        } else if !rg.handler && !matches!(op, Op::Reset | Op::Load) && t.chance(1, 2) {
            break;
        }
    }
    ctx.label_n("pauses inside a line", sl.pauses);
    ctx.label_n("calls refused in the middle of a line", sl.refused);
    ctx.label_n("lines compared", lines);
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    Out::Pass { nontrivial: sl.pauses >= 3 && lines >= 2, digest: hash_str(&(p.json + &log.join("\n"))) }
}
