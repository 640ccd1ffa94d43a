use bladeink::story::Story;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct A;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, SeqCst);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        unsafe { System.dealloc(p, l) }
    }
}
#[global_allocator]
static G: A = A;
fn life(json: &str) {
    let mut s = Story::new(json).unwrap();
    for _ in 0..3 {
        s.continue_maximally().unwrap();
        s.choose_choice_index(0).unwrap();
    }
}
fn main() {
    let json = bladeink_compiler::Compiler::new().compile("-> room\n=== room\nYou are here\n+ [Again] -> other\n=== other\nAnd now here\n+ [Back] -> room\n").unwrap();
    life(&json);
    let before = LIVE.load(SeqCst);
    for _ in 0..20 {
        life(&json);
    }
    let after = LIVE.load(SeqCst);
    println!("{before} bytes before, {after} after");
    assert!(after - before < 2000);
}
