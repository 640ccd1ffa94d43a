//! Plays the same passage of The Intercept from this compiler's story and from the reference one.
use bladeink::story::Story;
use bladeink_compiler::Compiler;

fn play(json: &str) -> Vec<String> {
    let mut s = Story::new(json).unwrap();
    s.choose_path_string("slam_door_shut_and_gone.find_something_to_smash_window", true, None).unwrap();
    let mut out = vec![];
    while s.can_continue() {
        out.push(s.cont().unwrap());
    }
    out.extend(s.get_current_choices().iter().map(|c| c.text.clone()));
    out
}

fn main() {
    let repo = std::env::args().nth(2).unwrap();
    let dir = format!("{repo}/conformance-tests/inkfiles");
    let src = std::fs::read_to_string(format!("{dir}/TheIntercept.ink")).unwrap();
    let reference = std::fs::read_to_string(format!("{dir}/TheIntercept.ink.json")).unwrap();
    let ours = play(&Compiler::new().compile(&src).unwrap());
    let theirs = play(reference.trim_start_matches('\u{feff}'));
    println!("{ours:#?}\n{theirs:#?}");
    assert_eq!(ours, theirs);
}
