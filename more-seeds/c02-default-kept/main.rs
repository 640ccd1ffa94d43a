use bladeink::story::Story;
use bladeink::value_type::ValueType;
fn main() {
    let src = "VAR x = 1\nfirst\n* go\n- x is {x}\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    s.cont().unwrap();
    let save = s.save_state().unwrap();
    s.set_variable("x", &ValueType::Int(7)).unwrap();
    s.load_state(&save).unwrap();
    s.choose_choice_index(0).unwrap();
    let t = s.continue_maximally().unwrap();
    println!("{t}");
    assert!(t.contains("x is 1"));
}
