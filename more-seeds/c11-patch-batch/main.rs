use bladeink::story::Story;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use std::{cell::RefCell, rc::Rc};
struct Seen(Vec<String>);
impl VariableObserver for Seen {
    fn changed(&mut self, name: &str, v: &ValueType) {
        self.0.push(format!("{name} {:?}", v.get::<i32>()));
    }
}
fn main() {
    let src = "VAR a = 0\nVAR b = 0\n~ a = 1\none\n~ b = 2\n<> two\nthree\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    let o = Rc::new(RefCell::new(Seen(vec![])));
    s.observe_variable("a", o.clone()).unwrap();
    s.observe_variable("b", o.clone()).unwrap();
    let t = s.cont().unwrap();
    let mut seen = o.borrow().0.clone();
    seen.sort();
    println!("{t:?} {seen:?}");
    assert_eq!(seen, ["a Some(1)", "b Some(2)"]);
}
