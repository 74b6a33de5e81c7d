//! Contracts of the float views. The real line is computed in f64, the views in f32 up to 16 bits.
use crate::views::*;

fn abs(v: f64) -> f64 { if v < 0.0 { -v } else { v } }

/// `v` read from raw value `raw` of an affine view from `lo` by steps of `step`.
fn on_grid(v: f64, raw: u64, lo: f64, step: f64, tol: f64) -> bool {
    abs(v - (lo + raw as f64 * step)) <= tol
}

macro_rules! view {
    ($name:ident, $S:ident, $n:literal, $lo:expr, $step:expr, $size:literal, $raw:ty, $f:ty, $eps:expr) => {
        pub mod $name {
            use super::*;
            const TOP: u64 = u64::MAX >> (64 - $n);
            fn params() -> (f64, f64, f64) {
                let (lo, step): (f64, f64) = ($lo, $step);
                (lo, step, $eps * (abs(lo) + step * TOP as f64))
            }

            #[kani::proof]
            pub fn get() {
                let (lo, step, tol) = params();
                let raw: $raw = kani::any();
                kani::assume(raw as u64 <= TOP);
                let mut b = [0u8; $size];
                $S::new(&mut b[..]).set_raw_v(raw);
                let v: $f = $S::new(&b[..]).get_v();
                assert!(on_grid(v as f64, raw as u64, lo, step, tol), "the value is on the line from min to max");
            }

            /// any value of the range: the raw value stored is the one of the closest step below
            #[kani::proof]
            pub fn set() {
                let (lo, step, tol) = params();
                let v: $f = kani::any();
                kani::assume(v as f64 >= lo && v as f64 <= lo + step * TOP as f64);
                let mut b = [0u8; $size];
                $S::new(&mut b[..]).set_v(v);
                let raw = $S::new(&b[..]).get_raw_v() as u64;
                let x = lo + raw as f64 * step;
                assert!(abs(x - v as f64) <= step + tol, "a value is stored within one step");
            }
        }
    }
}

view!(range_4, R4, 4, -1.0, 3.0 / 15.0, 1, u8, f32, 1e-5);
view!(range_7, R7, 7, 100.0, 150.0 / 127.0, 2, u8, f32, 1e-5);
view!(range_8, R8, 8, 0.0, 1.0 / 255.0, 1, u8, f32, 1e-5);
view!(range_12, R12, 12, -180.0, 360.0 / 4095.0, 2, u16, f32, 1e-5);
view!(range_16, R16, 16, -10.0, 40.0 / 65535.0, 2, u16, f32, 1e-5);
view!(range_17, R17, 17, 0.0, 10.0 / 131071.0, 3, u32, f64, 1e-12);
view!(range_20, R20, 20, -64.0, 1.0 / 8192.0, 4, u32, f64, 1e-12);
view!(range_32, R32, 32, -1048576.0, 1.0 / 1024.0, 4, u32, f32, 1e-6);
view!(multiplier_7, M7, 7, 0.0, 0.1, 1, u8, f32, 1e-5);
view!(multiplier_8, M8, 8, 0.0, 2.5, 1, u8, f32, 1e-5);
view!(multiplier_16, M16, 16, 0.0, 0.5, 2, u16, f32, 1e-5);
view!(multiplier_24, M24, 24, 0.0, 0.25, 3, u32, f64, 1e-12);
view!(multiplier_32, M32, 32, 0.0, 0.125, 4, u32, f32, 1e-6);
