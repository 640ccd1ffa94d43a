fn main() {
    let src = "LIST A = x, y\nLIST B = z, x\nLIST C = w, v, x\nVAR l = (y)\n~ l = (x, z)\n{l}\n-> END\n";
    let first = bladeink_compiler::Compiler::new().compile(src).unwrap();
    for _ in 0..60 {
        assert_eq!(first, bladeink_compiler::Compiler::new().compile(src).unwrap());
    }
    println!("the same every time");
}
