use crate::params::P;
use std::collections::HashMap;
use std::sync::OnceLock;

pub struct Entry {
    pub module: &'static str,
    pub func: &'static str,
    pub free_args: &'static [&'static str],
    pub meth_args: &'static [&'static str],
    pub free: Option<fn(&P) -> f64>,
    /// the method of the module's own object
    pub meth: Option<fn(&P) -> f64>,
    /// the same method, reached through a new object of the whole model
    pub root: Option<fn(&P) -> f64>,
    pub ext: Option<fn(&P) -> f64>,
    /// the method, on a model object that is already there
    pub on: Option<fn(&Obj, &P) -> f64>,
}
static MAP: OnceLock<HashMap<(&'static str, &'static str), &'static Entry>> = OnceLock::new();
pub fn entry(module: &str, func: &str) -> Option<&'static Entry> {
    let m = MAP.get_or_init(|| crate::registry::ENTRIES.iter().map(|e| ((e.module, e.func), e)).collect());
    m.get(&(module, func)).copied()
}
pub fn modules() -> Vec<&'static str> {
    let mut v: Vec<&'static str> = crate::registry::ENTRIES.iter().map(|e| e.module).collect();
    v.dedup();
    v
}
/// the model-object form of a function
pub fn m(module: &str, func: &str) -> fn(&P) -> f64 {
    entry(module, func).unwrap_or_else(|| panic!("no {module} {func}")).meth.unwrap()
}

/// A held model object. Threads share it only if its type says that they may.
pub struct Obj {
    o: Box<dyn std::any::Any>,
    pub shareable: bool,
}
unsafe impl Send for Obj {}
unsafe impl Sync for Obj {}
impl Obj {
    pub fn new(o: Box<dyn std::any::Any>, shareable: bool) -> Obj {
        Obj { o, shareable }
    }
    pub fn get<T: 'static>(&self) -> &T {
        self.o.downcast_ref::<T>().unwrap()
    }
}
pub struct Probe<T>(pub std::marker::PhantomData<T>);
impl<T: Send + Sync> Probe<T> {
    pub fn shareable(&self) -> bool {
        true
    }
}
pub trait NotShareable {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotShareable for &Probe<T> {}
#[macro_export]
macro_rules! obj {
    ($t:ty, $e:expr) => {{
        #[allow(unused_imports)]
        use $crate::reg::NotShareable;
        $crate::reg::Obj::new(Box::new($e), (&$crate::reg::Probe::<$t>(std::marker::PhantomData)).shareable())
    }};
}
#[test]
fn shareable() {
    assert!(crate::obj!(u8, 1u8).shareable);
    assert!(!crate::obj!(std::cell::Cell<u8>, std::cell::Cell::new(1u8)).shareable);
}
