use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use std::{cell::RefCell, rc::Rc};
struct H(Rc<RefCell<Vec<String>>>);
impl ErrorHandler for H {
    fn error(&mut self, m: &str, k: ErrorType) {
        if k == ErrorType::Warning {
            self.0.borrow_mut().push(m.to_string());
        }
    }
}
fn main() {
    let src = "-> k\n=== k\n{false:\n    ~ temp lost = 1\n}\nOne {lost}\n<> two\n-> END\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    let log = Rc::new(RefCell::new(vec![]));
    s.set_error_handler(Rc::new(RefCell::new(H(log.clone()))));
    while s.can_continue() {
        println!("{:?}", s.cont().unwrap());
    }
    println!("{:?}", log.borrow());
    assert_eq!(log.borrow().len(), 1);
}
