fn main() {
    let r = bladeink_compiler::Compiler::new().compile("LIST l = a, b\n\u{20ac}// price\nplain // comment\n-> END\n");
    let json = r.unwrap();
    let mut s = bladeink::story::Story::new(&json).unwrap();
    assert_eq!(s.continue_maximally().unwrap(), "\u{20ac}\nplain\n");
}
