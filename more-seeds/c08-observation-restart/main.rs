use bladeink::story::Story;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use std::{cell::RefCell, rc::Rc};
struct Seen(Vec<String>);
impl VariableObserver for Seen {
    fn changed(&mut self, name: &str, v: &ValueType) {
        self.0.push(format!("{name} {:?}", v.get::<i32>()));
    }
}
fn main() {
    // one long line: the limit is reached long after the first assignment
    let src = "VAR first = 0\nVAR n = 0\n~ first = 1\n-> work\n=== work\n~ n = n + 1\n{n < 3000: -> work}\nend of line\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    let o = Rc::new(RefCell::new(Seen(vec![])));
    s.observe_variable("first", o.clone()).unwrap();
    let mut slices = 0;
    while s.can_continue() {
        s.continue_async(0.5).unwrap();
        slices += 1;
    }
    println!("{slices} slices, {:?}", o.borrow().0);
    assert!(slices > 1);
    assert_eq!(o.borrow().0.len(), 1);
}
