use crate::api::*;
use crate::rng::Scripted;
use ml_kem::kem::{Decapsulate, DecapsulationKey, Encapsulate, EncapsulationKey};
use ml_kem::{Ciphertext, Encoded, EncodedSizeUser, KemCore};
use std::any::Any;

/// an ML-KEM ciphertext is a plain array
pub struct BytesCt(pub Vec<u8>);
impl Ct for BytesCt {
    fn bytes(&self) -> Vec<u8> { self.0.clone() }
    fn clone_(&self) -> Box<dyn Ct> { Box::new(BytesCt(self.0.clone())) }
    fn eq_(&self, o: &dyn Ct) -> Option<bool> { o.any().downcast_ref::<BytesCt>().map(|x| x.0 == self.0) }
    fn any(&self) -> &dyn Any { self }
}

macro_rules! mlkem {
    ($m:ident, $kem:ty, $p:ty, $name:literal) => {
        mod $m {
            use super::*;
            type K = $kem;
            type D = DecapsulationKey<$p>;
            type E = EncapsulationKey<$p>;
            pub struct DkW(pub D);
            pub struct EkW(pub E);
            pub struct A;
            fn ct_of(c: &dyn Ct) -> Ciphertext<K> {
                let b = c.any().downcast_ref::<BytesCt>().expect("harness: ciphertext type");
                Ciphertext::<K>::try_from(&b.0[..]).expect("harness: ciphertext length")
            }
            impl Dk for DkW {
                fn bytes(&self) -> Option<Vec<u8>> { Some(self.0.as_bytes().to_vec()) }
                fn public(&self) -> Option<Box<dyn Ek>> { Some(Box::new(EkW(self.0.encapsulation_key().clone()))) }
                fn dec(&self, ct: &dyn Ct) -> Result<Vec<u8>, String> {
                    self.0.decapsulate(&ct_of(ct)).map(|k| k.to_vec()).map_err(|e| format!("{e:?}"))
                }
                fn clone_(&self) -> Option<Box<dyn Dk>> { Some(Box::new(DkW(self.0.clone()))) }
                fn eq_(&self, o: &dyn Dk) -> Option<bool> { o.any().downcast_ref::<DkW>().map(|x| x.0 == self.0) }
                fn any(&self) -> &dyn Any { self }
                fn drop_scan(self: Box<Self>) -> (Vec<u8>, Vec<u8>) { scan_drop(self.0) }
            }
            impl Ek for EkW {
                fn bytes(&self) -> Vec<u8> { self.0.as_bytes().to_vec() }
                fn enc(&self, rng: &mut Scripted) -> Result<(Box<dyn Ct>, Vec<u8>), String> {
                    self.0
                        .encapsulate(rng)
                        .map(|(c, k)| (Box::new(BytesCt(c.to_vec())) as Box<dyn Ct>, k.to_vec()))
                        .map_err(|e| format!("{e:?}"))
                }
                #[cfg(any(feature = "ml-det", feature = "xwing"))]
                fn encdet(&self, m: &[u8]) -> Option<Result<(Box<dyn Ct>, Vec<u8>), String>> {
                    use ml_kem::EncapsulateDeterministic;
                    let m = ml_kem::B32::try_from(m).expect("harness: message length");
                    Some(
                        self.0
                            .encapsulate_deterministic(&m)
                            .map(|(c, k)| (Box::new(BytesCt(c.to_vec())) as Box<dyn Ct>, k.to_vec()))
                            .map_err(|e| format!("{e:?}")),
                    )
                }
                fn clone_(&self) -> Option<Box<dyn Ek>> { Some(Box::new(EkW(self.0.clone()))) }
                fn eq_(&self, o: &dyn Ek) -> Option<bool> { o.any().downcast_ref::<EkW>().map(|x| x.0 == self.0) }
                fn any(&self) -> &dyn Any { self }
            }
            impl Alg for A {
                fn name(&self) -> &'static str { $name }
                fn gen(&self, rng: &mut Scripted) -> (Box<dyn Dk>, Option<Box<dyn Ek>>) {
                    let (d, e) = <K as KemCore>::generate(rng);
                    (Box::new(DkW(d)), Some(Box::new(EkW(e))))
                }
                #[cfg(any(feature = "ml-det", feature = "xwing"))]
                fn gendet(&self, s: &[u8]) -> Option<(Box<dyn Dk>, Box<dyn Ek>)> {
                    let d = ml_kem::B32::try_from(&s[..32]).expect("harness: seed length");
                    let z = ml_kem::B32::try_from(&s[32..]).expect("harness: seed length");
                    let (d, e) = <K as KemCore>::generate_deterministic(&d, &z);
                    Some((Box::new(DkW(d)), Box::new(EkW(e))))
                }
                fn load_dk(&self, b: &[u8]) -> Option<Box<dyn Dk>> {
                    let b = Encoded::<D>::try_from(b).expect("harness: private key length");
                    Some(Box::new(DkW(D::from_bytes(&b))))
                }
                fn load_ek(&self, b: &[u8]) -> Option<Box<dyn Ek>> {
                    let b = Encoded::<E>::try_from(b).expect("harness: public key length");
                    Some(Box::new(EkW(E::from_bytes(&b))))
                }
                fn load_ct(&self, b: &[u8]) -> Option<Box<dyn Ct>> { Some(Box::new(BytesCt(b.to_vec()))) }
            }
        }
    };
}
mlkem!(m512, ml_kem::MlKem512, ml_kem::MlKem512Params, "mlkem512");
mlkem!(m768, ml_kem::MlKem768, ml_kem::MlKem768Params, "mlkem768");
mlkem!(m1024, ml_kem::MlKem1024, ml_kem::MlKem1024Params, "mlkem1024");

pub fn register(v: &mut Vec<Box<dyn Alg>>) {
    v.push(Box::new(m512::A));
    v.push(Box::new(m768::A));
    v.push(Box::new(m1024::A));
}
