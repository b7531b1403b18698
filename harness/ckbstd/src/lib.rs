//! Host stand-in for the parts of ckb-std the verifier script uses: witnesses come from a
//! thread-local list, with the error behaviour of the real system call.
use std::cell::RefCell;

thread_local! {
    static WITNESSES: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
    static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
}

pub fn set_witnesses(w: Vec<Vec<u8>>) {
    WITNESSES.with(|x| *x.borrow_mut() = w);
    LOG.with(|x| x.borrow_mut().clear());
}
pub fn log() -> Vec<String> {
    LOG.with(|x| x.borrow().clone())
}

pub mod error {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum SysError {
        IndexOutOfBound,
        ItemMissing,
        LengthNotEnough(usize),
        Encoding,
        Unknown(u64),
    }
}
pub mod ckb_constants {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[repr(u64)]
    pub enum Source {
        Input = 1,
        Output = 2,
        CellDep = 3,
        HeaderDep = 4,
        GroupInput = 0x0100000000000001,
        GroupOutput = 0x0100000000000002,
    }
}
pub mod syscalls {
    pub use super::error::SysError;
    use super::ckb_constants::Source;
    pub fn debug(s: String) {
        super::LOG.with(|x| x.borrow_mut().push(s));
    }
    pub fn load_witness(buf: &mut [u8], offset: usize, index: usize, _source: Source) -> Result<usize, SysError> {
        super::WITNESSES.with(|w| {
            let w = w.borrow();
            let d = w.get(index).ok_or(SysError::IndexOutOfBound)?;
            let d = &d[offset.min(d.len())..];
            let n = d.len().min(buf.len());
            buf[..n].copy_from_slice(&d[..n]);
            if d.len() > buf.len() {
                return Err(SysError::LengthNotEnough(d.len()));
            }
            Ok(n)
        })
    }
}
#[macro_export]
macro_rules! entry {
    ($main:path) => {
        pub fn vh_entry() -> i8 {
            $main()
        }
    };
}
#[macro_export]
macro_rules! default_alloc {
    ($($t:tt)*) => {
        extern crate alloc;
    };
}
