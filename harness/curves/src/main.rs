#![feature(once_cell)]
#![allow(dead_code, unused_imports)]
mod curve;
mod ext;
mod fields;
mod pairing;
mod poseidon_ref;

fn main() {
    vh_common::main_for(vec![
        #[cfg(feature = "C20")]
        fields::c20().scaled(6.0, 4.0),
        #[cfg(feature = "C21")]
        fields::c21().scaled(8.0, 4.0),
        #[cfg(feature = "C22")]
        ext::c22().scaled(12.0, 4.0),
        #[cfg(feature = "C23")]
        curve::c23().scaled(7.0, 4.0),
        #[cfg(feature = "C24")]
        curve::c24().scaled(12.0, 4.0),
        #[cfg(feature = "C25")]
        pairing::c25().scaled(5.0, 4.0),
        #[cfg(feature = "C26")]
        poseidon_ref::c26(),
    ]);
}
