use bladeink::story::Story;
use bladeink_compiler::Compiler;

fn main() {
    let src = "LIST L = a, b, c, d, e\nVAR x = (a, e)\nVAR y = (b, d)\n{x >= y:yes|no}\n-> END\n";
    let mut s = Story::new(&Compiler::new().compile(src).unwrap()).unwrap();
    assert_eq!(s.cont().unwrap(), "no\n");
}
