pub mod ast;
pub mod genp;
pub mod interp;
pub mod print;
pub mod value;
pub mod wild;
pub mod style;
