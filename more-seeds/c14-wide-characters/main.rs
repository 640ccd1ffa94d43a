use bladeink::story::Story;
fn main() {
    let src = "A clef \u{1d11e} and a face \u{1f600} #\u{1f409}\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).expect("the document loads");
    assert_eq!(s.cont().unwrap(), "A clef \u{1d11e} and a face \u{1f600}\n");
}
