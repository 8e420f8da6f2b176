//! The gadgets of the code under test, as circuits for the model checker.
pub mod gad;
pub mod nums;
pub mod own;
pub mod steps;
pub use gad::*;
pub use nums::*;
pub use own::*;
pub use steps::*;
pub use mc::*;

pub type Fr = validate_btc_header::util::scalar::Fr;

/// Instantiate once, for the fields the checks use.
pub fn instantiate() -> usize {
    fn one<F: XField>() -> usize {
        drive::<F> as *const () as usize ^ corners::<F> as *const () as usize
    }
    fn judge<F: XField>() -> usize {
        Judge::<F>::new as *const () as usize
            ^ Judge::<F>::both as *const () as usize
            ^ Judge::<F>::done as *const () as usize
            ^ conform::<F> as *const () as usize
            ^ accept::<F> as *const () as usize
    }
    judge::<Fr>() ^ one::<Fr>() ^ one::<Pallas>()
}
