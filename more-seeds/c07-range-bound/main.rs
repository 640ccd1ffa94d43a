use bladeink::story::Story;
use bladeink_compiler::Compiler;

fn main() {
    let src = "LIST L = a, b, c, d, e\n{LIST_RANGE(LIST_ALL(L), (b), (c, d))}.\n-> END\n";
    let mut s = Story::new(&Compiler::new().compile(src).unwrap()).unwrap();
    assert_eq!(s.cont().unwrap(), "b, c, d.\n");
}
