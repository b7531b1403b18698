mod circuit;
mod forge;
mod refvm;
mod vm;
fn main() {
    vh_common::main_for(vec![vm::c01(), vm::c02(), vm::c03(), circuit::c04(), circuit::c05(), circuit::c06()]);
}
