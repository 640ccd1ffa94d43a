use bladeink::story::Story;
fn main() {
    let src = "Line one\nLine two\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    s.cont().unwrap();
    s.switch_flow("second").unwrap();
    s.cont().unwrap();
    let save = s.save_state().unwrap();
    let bad = save.replace("\"currentFlowName\":\"second\"", "\"currentFlowName\":\"third\"");
    assert_ne!(save, bad);
    let _ = s.load_state(&bad);
    s.reset_state().unwrap();
    assert_eq!(s.cont().unwrap(), "Line one\n");
}
