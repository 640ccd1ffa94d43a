use bladeink::story::Story;
fn main() {
    let src = "Line one\n- (here) Line two, {here} visit\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    s.cont().unwrap();
    let save = s.save_state().unwrap();
    let mut other = Story::new(&json).unwrap();
    other.load_state(&save).unwrap();
    let (a, b) = (s.cont().unwrap(), other.cont().unwrap());
    println!("{a}{b}");
    assert_eq!(a, b);
    let n = |s: &mut Story| s.get_visit_count_at_path_string("here").unwrap_or(-1);
    assert_eq!(n(&mut s), n(&mut other));
    assert!(other.save_state().is_ok());
}
