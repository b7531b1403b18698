#![feature(once_cell)]
#![allow(dead_code, unused_imports)]
mod algebra;
mod argu;
mod cexpr;
mod keygen;
mod mock;
mod planner;
mod openings;
mod plonk;
mod rcirc;
mod rgen;
mod serial;
mod transcripts;
mod util;

fn main() {
    vh_common::main_for(vec![
        #[cfg(feature = "C09")]
        plonk::c09().scaled(6.0, 4.0),
        #[cfg(feature = "C10")]
        plonk::c10(),
        #[cfg(feature = "C11")]
        mock::c11().scaled(24.0, 12.0),
        #[cfg(feature = "C12")]
        serial::c12().scaled(5.0, 8.0),
        #[cfg(feature = "C13")]
        keygen::c13().scaled(6.0, 3.0),
        #[cfg(feature = "C14")]
        planner::c14().scaled(40.0, 60.0),
        #[cfg(feature = "C15")]
        transcripts::c15(),
        #[cfg(feature = "C16")]
        algebra::c16().scaled(8.0, 4.0),
        #[cfg(feature = "C17")]
        algebra::c17().scaled(8.0, 4.0),
        #[cfg(feature = "C18")]
        openings::c18().scaled(12.0, 15.0),
        #[cfg(feature = "C19")]
        vh_common::Check {
            id: "C19",
            rule: "a fraction with a non-trivial denominator took part, or both operands known",
            assumptions: vec![],
            laws: algebra::c19_laws(),
        }
        .scaled(15.0, 4.0),
        #[cfg(feature = "C32")]
        cexpr::c32().scaled(8.0, 15.0),
        #[cfg(feature = "C33")]
        cexpr::c33().scaled(6.0, 10.0),
    ]);
}
