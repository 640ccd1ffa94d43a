use bladeink::story::Story;
fn main() {
    let src = "start\n{ 1 > 2:\n  ~ temp nowhere = 1\n}\n~ nowhere = 3\nafter\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    let mut errors = 0;
    while s.can_continue() {
        match s.cont() {
            Ok(t) => println!("{t}"),
            Err(e) => {
                println!("{e}");
                errors += 1;
                break;
            }
        }
    }
    assert_eq!(errors, 1, "the missing variable was not reported");
}
