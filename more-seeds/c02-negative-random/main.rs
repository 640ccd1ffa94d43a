use bladeink::story::Story;
fn main() {
    let src = "LIST L = a, b, c, d, e\n-> loop\n=== loop\n{LIST_RANDOM(LIST_ALL(L))} {RANDOM(1, 1000000)}\n-> loop\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    for _ in 0..200 {
        s.cont().unwrap();
        let save = s.save_state().unwrap();
        let mut o = Story::new(&json).unwrap();
        o.load_state(&save).unwrap();
        // one line further in the copy and in the original
        let copy = o.cont().unwrap();
        assert_eq!(s.cont().unwrap(), copy, "the loaded story plays on differently");
    }
}
