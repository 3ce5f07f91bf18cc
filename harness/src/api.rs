//! Uniform view of the algorithms under test.
use crate::rng::Scripted;
use std::any::Any;

/// `None`: the operation does not exist for this type or in this configuration.
pub trait Dk: Any + Send + Sync {
    fn bytes(&self) -> Option<Vec<u8>> { None }
    fn public(&self) -> Option<Box<dyn Ek>> { None }
    fn dec(&self, ct: &dyn Ct) -> Result<Vec<u8>, String>;
    fn clone_(&self) -> Option<Box<dyn Dk>> { None }
    fn eq_(&self, _o: &dyn Dk) -> Option<bool> { None }
    fn any(&self) -> &dyn Any;
    /// memory of the value before and after it is dropped in place
    fn drop_scan(self: Box<Self>) -> (Vec<u8>, Vec<u8>);
    /// memory before and after an explicit wipe
    fn wipe_scan(self: Box<Self>) -> Option<(Vec<u8>, Vec<u8>)> { None }
}
pub trait Ek: Any + Send + Sync {
    fn bytes(&self) -> Vec<u8>;
    fn enc(&self, rng: &mut Scripted) -> Result<(Box<dyn Ct>, Vec<u8>), String>;
    fn encdet(&self, _m: &[u8]) -> Option<Result<(Box<dyn Ct>, Vec<u8>), String>> { None }
    fn clone_(&self) -> Option<Box<dyn Ek>> { None }
    fn eq_(&self, _o: &dyn Ek) -> Option<bool> { None }
    fn any(&self) -> &dyn Any;
}
pub trait Ct: Any + Send + Sync {
    fn bytes(&self) -> Vec<u8>;
    fn clone_(&self) -> Box<dyn Ct>;
    fn eq_(&self, o: &dyn Ct) -> Option<bool>;
    fn any(&self) -> &dyn Any;
}
pub trait Alg: Send + Sync {
    fn name(&self) -> &'static str;
    fn gen(&self, rng: &mut Scripted) -> (Box<dyn Dk>, Option<Box<dyn Ek>>);
    /// a second way to generate a pair, where there is one
    fn gen2(&self, rng: &mut Scripted) -> Option<(Box<dyn Dk>, Option<Box<dyn Ek>>)> { let _ = rng; None }
    /// with the operating system's generator; two ways
    fn gen_os(&self, _second: bool) -> Option<(Box<dyn Dk>, Option<Box<dyn Ek>>)> { None }
    fn gendet(&self, _seed: &[u8]) -> Option<(Box<dyn Dk>, Box<dyn Ek>)> { None }
    fn load_dk(&self, _b: &[u8]) -> Option<Box<dyn Dk>> { None }
    fn load_ek(&self, b: &[u8]) -> Option<Box<dyn Ek>>;
    fn load_ct(&self, b: &[u8]) -> Option<Box<dyn Ct>>;
    fn wrap(&self, _rng: &mut Scripted, _peer: &[u8], _peer2: &[u8]) -> Option<Vec<(&'static str, Vec<u8>, Vec<u8>)>> { None }
}

/// Moves the value to a fresh heap slot, runs `f` on it there and returns the
/// slot's memory before and after.  The slot is not read as a value again.
pub fn scan_with<T>(v: T, f: impl FnOnce(*mut T)) -> (Vec<u8>, Vec<u8>) {
    let n = core::mem::size_of::<T>();
    let lay = std::alloc::Layout::new::<T>();
    unsafe {
        let p = std::alloc::alloc_zeroed(lay);
        assert!(!p.is_null());
        core::ptr::write(p.cast::<T>(), v);
        let snap = |p: *const u8| (0..n).map(|i| core::ptr::read_volatile(p.add(i))).collect::<Vec<u8>>();
        let before = snap(p);
        f(p.cast::<T>());
        let after = snap(p);
        std::alloc::dealloc(p, lay);
        (before, after)
    }
}
pub fn scan_drop<T>(v: T) -> (Vec<u8>, Vec<u8>) {
    scan_with(v, |p| unsafe { core::ptr::drop_in_place(p) })
}

pub fn algs() -> Vec<Box<dyn Alg>> {
    #[allow(unused_mut)]
    let mut v: Vec<Box<dyn Alg>> = Vec::new();
    #[cfg(feature = "mlkem")]
    crate::mlkem::register(&mut v);
    #[cfg(feature = "xwing")]
    crate::xwing::register(&mut v);
    #[cfg(any(feature = "ec", feature = "x25519"))]
    crate::dh::register(&mut v);
    v
}
