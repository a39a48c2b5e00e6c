//! The operating system's entropy, replaced by a generated stream inside `with_stream`: thread-local generators of the
//! code under test then produce the same numbers for the same generated seed, so failures replay and shrink.
use std::cell::Cell;

thread_local! { static STREAM: Cell<Option<u64>> = const { Cell::new(None) }; }

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
/// # Safety
/// buf points to len writable bytes
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    match STREAM.with(|s| s.get()) {
        Some(mut s) => {
            for i in 0..len {
                *buf.add(i) = (splitmix(&mut s) >> 24) as u8;
            }
            STREAM.with(|c| c.set(Some(s)));
            len as isize
        }
        None => syscall(318, buf, len, flags as u64) as isize,
    }
}
/// Runs f in a fresh thread whose entropy is the stream of the given seed.
pub fn with_stream<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, move || {
                STREAM.with(|s| s.set(Some(seed)));
                crate::fw::guarded(f)
            })
            .unwrap();
        match h.join().unwrap() {
            Ok(v) => v,
            Err(m) => panic!("{m}"),
        }
    })
}
/// A random stream for the harness' own samplers.
pub struct Rng(pub u64);
impl Rng {
    pub fn u(&mut self) -> f64 {
        (splitmix(&mut self.0) >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn normal(&mut self) -> f64 {
        let (a, b) = (1.0 - self.u(), self.u());
        (-2.0 * a.ln()).sqrt() * (std::f64::consts::TAU * b).cos()
    }
}
