use bladeink::story::Story;
fn main() {
    let src = "-> loop\n=== loop\nround\n* [go] -> loop\n* ->\n  fallback\n  -> loop\n";
    let json = bladeink_compiler::Compiler::new().compile(src).unwrap();
    let mut s = Story::new(&json).unwrap();
    let mut fallbacks = 0;
    for _ in 0..40 {
        if s.can_continue() {
            match s.cont() {
                Ok(t) => fallbacks += (t == "fallback\n") as i32,
                Err(_) => break,
            }
        } else if !s.get_current_choices().is_empty() {
            s.choose_choice_index(0).unwrap();
        } else {
            break;
        }
    }
    assert_eq!(fallbacks, 1);
}
