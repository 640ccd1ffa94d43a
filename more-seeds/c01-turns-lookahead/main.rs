use bladeink::story::Story;
fn main() {
    // k is entered a second time one turn later, in look-ahead past a finished
    // line, and the line is then joined by glue
    let src = "VAR seen = 0\nVAR n = 0\n-> k\n=== k\n~ n = TURNS_SINCE(-> k)\n<> since {n}\n+ [a]\n- line\n-> again\n=== again\n{seen == 0:\n    ~ seen = 1\n    -> k\n}\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    s.continue_maximally().unwrap();
    s.choose_choice_index(0).unwrap();
    let t = s.continue_maximally().unwrap();
    println!("{t:?}");
    assert!(t.contains("line since 0"));
}
