//! Work counter. In the `fuel` build every executed code edge of the library (and of the generic code of std and tinyvec
//! compiled with it) calls `__sanitizer_cov_trace_pc_guard` in fuel_rt.c, and memmove, memcpy and memset are replaced by
//! counting ones.
pub const ENABLED: bool = cfg!(feature = "fuel");

/// Steps (edges, plus one per 16 bytes moved) used by `f`; more than `budget` ends the process with the current case
/// as the counterexample. Without the `fuel` feature, just `f`.
pub fn spend<R>(budget: u64, f: impl FnOnce() -> R) -> (R, u64) {
    #[cfg(feature = "fuel")]
    {
        let outer = unsafe { rt::vp_fuel_swap(budget) };
        let r = f();
        let left = unsafe { rt::vp_fuel_swap(outer) };
        return (r, budget.wrapping_sub(left));
    }
    #[cfg(not(feature = "fuel"))]
    {
        let _ = budget;
        (f(), 0)
    }
}
#[cfg(feature = "fuel")]
mod rt {
    extern "C" {
        pub fn vp_fuel_swap(n: u64) -> u64;
    }
    #[no_mangle]
    pub extern "C" fn vp_out_of_fuel() {
        crate::engine::finish_abruptly("work: the operation did not finish within its budget of executed steps");
    }
}
