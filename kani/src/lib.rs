//! Full-domain harnesses over the repository's own source files (included by path, nothing copied).
#![allow(dead_code, unused_imports, unused_macros, unexpected_cfgs)]
extern crate self as rustfft; // the sources name num_traits through rustfft's re-export
pub use num_traits;
#[cfg(not(feature = "p08"))]
pub mod array { #[path = "/repo/src/array/dtype/mod.rs"] pub mod dtype; }
#[cfg(feature = "p08")]
#[path = "/repo/src/array/mod.rs"] pub mod array;
// named by functions of array/ that no harness reaches
#[cfg(feature = "p08")]
pub use num_complex;
#[cfg(feature = "p08")]
pub struct FftPlanner;
#[cfg(feature = "p08")]
mod unreached {
    pub trait Process { fn process(&self, _: &mut [num_complex::Complex64]) { unimplemented!() } }
    pub struct Plan; impl Process for Plan {}
    impl super::FftPlanner {
        pub fn new() -> Self { unimplemented!() }
        pub fn plan_fft_forward(&mut self, _: usize) -> Plan { unimplemented!() }
        pub fn plan_fft_inverse(&mut self, _: usize) -> Plan { unimplemented!() }
    }
    impl Plan { pub fn process(&self, _: &mut [num_complex::Complex64]) { unimplemented!() } }
    impl crate::array::RumpyArray { pub fn to_vec(&self) -> Vec<f64> { unimplemented!() } }
}
pub mod ops {
    #[path = "/repo/src/ops/kernels/mod.rs"] pub mod kernels;
    #[path = "/repo/src/ops/loops/mod.rs"] pub mod loops;
}
#[cfg(kani)] #[macro_use] mod spec;
#[cfg(all(kani, feature = "p05"))] pub mod p05;
#[cfg(all(kani, feature = "p06"))] pub mod p06;
#[cfg(all(kani, feature = "p07"))] pub mod p07;
#[cfg(all(kani, feature = "p08"))] pub mod p08;
#[cfg(all(kani, feature = "p09"))] pub mod p09;
#[cfg(all(kani, feature = "p11"))] pub mod p11;
#[cfg(all(kani, feature = "p13"))] pub mod p13;
