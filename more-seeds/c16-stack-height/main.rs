use bladeink::story::Story;
fn main() {
    let src = "VAR r = 0\n~ r = 5 + talk()\nresult {r}\n-> END\n=== function talk()\nfirst\nsecond\n~ return 2\n=== function other()\n~ return 9\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    let mut lines = vec![s.cont().unwrap()];
    let mut text = String::new();
    let v = s.evaluate_function("other", None, &mut text).unwrap();
    assert_eq!(v.unwrap().get::<i32>(), Some(9));
    while s.can_continue() {
        lines.push(s.cont().unwrap());
    }
    println!("{lines:?}");
    assert_eq!(lines, ["first\n", "second\n", "result 7\n"]);
}
