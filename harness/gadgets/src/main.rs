#![feature(once_cell)]
#![allow(dead_code, unused_imports)]
mod ecc;
mod frame;
mod poseidon;
mod sha;
mod sinsemilla;
mod utils;

fn main() {
    #[cfg(feature = "C29")]
    if std::env::args().nth(1).as_deref() == Some("print-zs") {
        return ecc::print_zs();
    }
    vh_common::main_for(vec![
        #[cfg(feature = "C27")]
        poseidon::c27().scaled(2.0, 6.0),
        #[cfg(feature = "C28")]
        sinsemilla::c28(),
        #[cfg(feature = "C29")]
        ecc::c29().scaled(3.0, 4.0),
        #[cfg(feature = "C31")]
        sha::c31(),
        #[cfg(feature = "C30")]
        utils::c30().scaled(8.0, 20.0),
    ]);
}
