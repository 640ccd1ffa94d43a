use bladeink::story::Story;
use bladeink::value_type::ValueType;
fn main() {
    let src = "start\n-> END\n=== function double(x)\n~ return x * 2\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    let mut text = String::new();
    let r = s.evaluate_function("double", Some(&vec![ValueType::Int(5), ValueType::Int(21)]), &mut text).unwrap();
    assert!(matches!(r, Some(ValueType::Int(42))));
}
