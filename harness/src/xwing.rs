use crate::api::*;
use crate::rng::Scripted;
use kem::{Decapsulate, Encapsulate};
use std::any::Any;
use x_wing::{Ciphertext, DecapsulationKey, EncapsulationKey};

pub struct DkW(pub DecapsulationKey);
pub struct EkW(pub EncapsulationKey);
pub struct CtW(pub Ciphertext);
pub struct A;

impl Dk for DkW {
    fn bytes(&self) -> Option<Vec<u8>> { Some(self.0.as_bytes().to_vec()) }
    fn public(&self) -> Option<Box<dyn Ek>> { Some(Box::new(EkW(self.0.encapsulation_key()))) }
    fn dec(&self, ct: &dyn Ct) -> Result<Vec<u8>, String> {
        let c = ct.any().downcast_ref::<CtW>().expect("harness: ciphertext type");
        self.0.decapsulate(&c.0).map(|k| k.to_vec()).map_err(|e| format!("{e:?}"))
    }
    fn clone_(&self) -> Option<Box<dyn Dk>> { Some(Box::new(DkW(self.0.clone()))) }
    fn any(&self) -> &dyn Any { self }
    fn drop_scan(self: Box<Self>) -> (Vec<u8>, Vec<u8>) { scan_drop(self.0) }
    #[cfg(feature = "xw-zero")]
    fn wipe_scan(self: Box<Self>) -> Option<(Vec<u8>, Vec<u8>)> {
        use zeroize::Zeroize;
        Some(scan_with(self.0, |p| unsafe { (*p).zeroize() }))
    }
}
impl Ek for EkW {
    fn bytes(&self) -> Vec<u8> { self.0.as_bytes().to_vec() }
    fn enc(&self, rng: &mut Scripted) -> Result<(Box<dyn Ct>, Vec<u8>), String> {
        self.0
            .encapsulate(rng)
            .map(|(c, k)| (Box::new(CtW(c)) as Box<dyn Ct>, k.to_vec()))
            .map_err(|e| format!("{e:?}"))
    }
    fn clone_(&self) -> Option<Box<dyn Ek>> { Some(Box::new(EkW(self.0.clone()))) }
    fn eq_(&self, o: &dyn Ek) -> Option<bool> { o.any().downcast_ref::<EkW>().map(|x| x.0 == self.0) }
    fn any(&self) -> &dyn Any { self }
}
impl Ct for CtW {
    fn bytes(&self) -> Vec<u8> { self.0.as_bytes().to_vec() }
    fn clone_(&self) -> Box<dyn Ct> { Box::new(CtW(self.0.clone())) }
    fn eq_(&self, o: &dyn Ct) -> Option<bool> { o.any().downcast_ref::<CtW>().map(|x| x.0 == self.0) }
    fn any(&self) -> &dyn Any { self }
}
impl Alg for A {
    fn name(&self) -> &'static str { "xwing" }
    fn gen(&self, rng: &mut Scripted) -> (Box<dyn Dk>, Option<Box<dyn Ek>>) {
        let (d, e) = x_wing::generate_key_pair(rng);
        (Box::new(DkW(d)), Some(Box::new(EkW(e))))
    }
    fn gen2(&self, rng: &mut Scripted) -> Option<(Box<dyn Dk>, Option<Box<dyn Ek>>)> {
        Some((Box::new(DkW(DecapsulationKey::generate(rng))), None))
    }
    #[cfg(feature = "xw-os")]
    fn gen_os(&self, second: bool) -> Option<(Box<dyn Dk>, Option<Box<dyn Ek>>)> {
        if second {
            return Some((Box::new(DkW(DecapsulationKey::generate_from_os_rng())), None));
        }
        let (d, e) = x_wing::generate_key_pair_from_os_rng();
        Some((Box::new(DkW(d)), Some(Box::new(EkW(e)))))
    }
    fn load_dk(&self, b: &[u8]) -> Option<Box<dyn Dk>> {
        let b: [u8; x_wing::DECAPSULATION_KEY_SIZE] = b.try_into().expect("harness: private key length");
        Some(Box::new(DkW(DecapsulationKey::from(b))))
    }
    fn load_ek(&self, b: &[u8]) -> Option<Box<dyn Ek>> {
        let b: &[u8; x_wing::ENCAPSULATION_KEY_SIZE] = b.try_into().expect("harness: public key length");
        Some(Box::new(EkW(EncapsulationKey::from(b))))
    }
    fn load_ct(&self, b: &[u8]) -> Option<Box<dyn Ct>> {
        let b: &[u8; x_wing::CIPHERTEXT_SIZE] = b.try_into().expect("harness: ciphertext length");
        Some(Box::new(CtW(Ciphertext::from(b))))
    }
}

pub fn register(v: &mut Vec<Box<dyn Alg>>) {
    v.push(Box::new(A));
}
