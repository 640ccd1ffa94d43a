use bladeink::story::Story;
fn main() {
    let src = "~ temp t = 5\nstart {t}\n* go\n-> END\n=== k\n{0 == 1:\n    ~ temp t = 1\n}\nk {t}\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    s.cont().unwrap();
    s.choose_path_string("k", true, None).unwrap();
    let t = s.cont().unwrap();
    println!("{t}");
    assert_eq!(t, "k 0\n");
}
