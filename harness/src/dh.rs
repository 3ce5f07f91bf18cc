use crate::api::*;
use crate::rng::Scripted;
use dhkem::{DhDecapsulator, DhEncapsulator, DhKem};
use kem::{Decapsulate, Encapsulate};
use std::any::Any;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

type Rows = Vec<(&'static str, Vec<u8>, Vec<u8>)>;

fn hash_of<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish().to_be_bytes().to_vec()
}
fn ord_of<T: PartialOrd>(a: &T, b: &T) -> Vec<u8> {
    vec![match a.partial_cmp(b) {
        None => 9,
        Some(core::cmp::Ordering::Less) => 0,
        Some(core::cmp::Ordering::Equal) => 1,
        Some(core::cmp::Ordering::Greater) => 2,
    }]
}
fn ops_of<T: PartialOrd>(a: &T, b: &T) -> Vec<u8> {
    vec![u8::from(a < b), u8::from(a <= b), u8::from(a > b), u8::from(a >= b), u8::from(a == b), u8::from(a != b)]
}

/// counts drops; clones are told apart from originals
struct Counted(std::rc::Rc<std::cell::Cell<u8>>, u8);
impl Drop for Counted {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}
impl Clone for Counted {
    fn clone(&self) -> Self {
        Counted(self.0.clone(), self.1.wrapping_add(1))
    }
}

#[cfg(feature = "dh-zero")]
struct Wiped(u8, u8);
#[cfg(feature = "dh-zero")]
impl zeroize::Zeroize for Wiped {
    fn zeroize(&mut self) {
        self.0 += 1;
        self.1 = !self.1;
    }
}

/// both wrappers around a value type that has every derivable trait
fn generic_rows(a: &[u8], b: &[u8], out: &mut Rows) {
    macro_rules! both {
        ($w:ident, $n:literal) => {{
            let (x, y) = (a.to_vec(), b.to_vec());
            let (wx, wy) = ($w::from(x.clone()), $w::from(y.clone()));
            out.push((concat!($n, " into_inner"), $w::from(x.clone()).into_inner(), x.clone()));
            out.push((concat!($n, " as_ref"), wx.as_ref().clone(), x.clone()));
            out.push((concat!($n, " clone"), wx.clone().into_inner(), x.clone()));
            out.push((concat!($n, " eq"), vec![u8::from(wx == wy), u8::from(wx != wy)], vec![u8::from(x == y), u8::from(x != y)]));
            out.push((concat!($n, " eq self"), vec![u8::from(wx == wx.clone())], vec![1]));
            out.push((concat!($n, " partial_cmp"), ord_of(&wx, &wy), ord_of(&x, &y)));
            out.push((concat!($n, " cmp"), vec![wx.cmp(&wy) as i8 as u8], vec![x.cmp(&y) as i8 as u8]));
            out.push((concat!($n, " ops"), ops_of(&wx, &wy), ops_of(&x, &y)));
            out.push((concat!($n, " max"), wx.clone().max(wy.clone()).into_inner(), x.clone().max(y.clone())));
            out.push((concat!($n, " hash"), hash_of(&wx), hash_of(&x)));
            out.push((concat!($n, " default"), $w::<Vec<u8>>::default().into_inner(), Vec::<u8>::default()));
            let n = u64::from_le_bytes(a[..8].try_into().unwrap());
            let c = $w::from(n);
            let d = c;
            out.push((concat!($n, " copy"), d.into_inner().to_le_bytes().to_vec(), c.into_inner().to_le_bytes().to_vec()));
            out.push((concat!($n, " copy value"), d.into_inner().to_le_bytes().to_vec(), n.to_le_bytes().to_vec()));
            // values without a total order, and unequal to themselves
            let fl = |b: &[u8]| [f64::from_le_bytes(b[..8].try_into().unwrap()), f64::NAN, 0.0, -0.0, f64::INFINITY];
            let (mut got, mut want) = (vec![], vec![]);
            for f in fl(a) {
                for g in fl(b) {
                    let (wf, wg) = ($w::from(f), $w::from(g));
                    got.extend(ord_of(&wf, &wg));
                    got.extend(ops_of(&wf, &wg));
                    want.extend(ord_of(&f, &g));
                    want.extend(ops_of(&f, &g));
                }
            }
            out.push((concat!($n, " unordered"), got, want));
            let (mut wz, mut z) = ($w::from(y.clone()), y.clone());
            wz.clone_from(&wx);
            z.clone_from(&x);
            out.push((concat!($n, " clone_from"), wz.into_inner(), z));
            // what is wrapped is handed on, not copied, and dropped exactly once
            let count = std::rc::Rc::new(std::cell::Cell::new(0u8));
            let mk = || Counted(count.clone(), b[0]);
            let mut got = vec![];
            let w = $w::from(mk());
            got.push(count.get());
            drop(w);
            got.push(count.get());
            let v = $w::from(mk()).into_inner();
            got.extend([count.get(), v.1]);
            drop(v);
            got.push(count.get());
            let w = $w::from(mk());
            let w2 = w.clone();
            drop(w);
            got.extend([count.get(), w2.as_ref().1]);
            drop(w2);
            got.push(count.get());
            out.push((concat!($n, " drops"), got, vec![0, 1, 1, b[0], 2, 3, b[0].wrapping_add(1), 4]));
            #[cfg(feature = "dh-zero")]
            {
                use zeroize::Zeroize;
                let (mut got, mut want) = (vec![], vec![]);
                // values of several sizes and element types
                macro_rules! array {
                    ($t:ty, $len:literal) => {{
                        let mut ar = [0 as $t; $len];
                        for (i, v) in ar.iter_mut().enumerate() {
                            *v = (a[i % a.len()] as $t).wrapping_add(<$t>::MAX - b[i % b.len()] as $t);
                        }
                        let mut w = $w::from(ar);
                        w.zeroize();
                        ar.zeroize();
                        got.extend(w.into_inner().iter().flat_map(|v| v.to_le_bytes()));
                        want.extend(ar.iter().flat_map(|v| v.to_le_bytes()));
                    }};
                }
                array!(u8, 1);
                array!(u8, 24);
                array!(u8, 66);
                array!(u8, 300);
                array!(u16, 7);
                array!(u64, 9);
                array!(u128, 3);
                // the wrapped value's own wiping is what runs, once each time
                let mut w = $w::from(Wiped(0, b[1]));
                w.zeroize();
                got.extend([w.as_ref().0, w.as_ref().1]);
                w.zeroize();
                got.extend([w.as_ref().0, w.as_ref().1]);
                want.extend([1, !b[1], 2, b[1]]);
                out.push((concat!($n, " zeroize"), got, want));
            }
        }};
    }
    both!(DhEncapsulator, "encapsulator");
    both!(DhDecapsulator, "decapsulator");
}

#[cfg(feature = "ec")]
macro_rules! ecdh {
    ($m:ident, $kem:ty, $c:ty, $name:literal) => {
        mod $m {
            use super::*;
            use elliptic_curve::ecdh::EphemeralSecret;
            use elliptic_curve::sec1::ToEncodedPoint;
            use elliptic_curve::PublicKey;
            type K = $kem;
            type C = $c;
            type D = DhDecapsulator<EphemeralSecret<C>>;
            type E = DhEncapsulator<PublicKey<C>>;
            pub struct DkW(pub D);
            pub struct EkW(pub E);
            pub struct CtW(pub PublicKey<C>);
            pub struct A;
            fn sec1(p: &PublicKey<C>, compress: bool) -> Vec<u8> {
                p.to_encoded_point(compress).as_bytes().to_vec()
            }
            fn parse(b: &[u8]) -> Option<PublicKey<C>> { PublicKey::<C>::from_sec1_bytes(b).ok() }
            impl Dk for DkW {
                fn public(&self) -> Option<Box<dyn Ek>> {
                    Some(Box::new(EkW(E::from(PublicKey::<C>::from(self.0.as_ref())))))
                }
                fn dec(&self, ct: &dyn Ct) -> Result<Vec<u8>, String> {
                    let c = ct.any().downcast_ref::<CtW>().expect("harness: ciphertext type");
                    self.0.decapsulate(&c.0).map(|s| s.raw_secret_bytes().to_vec()).map_err(|e| format!("{e:?}"))
                }
                fn any(&self) -> &dyn Any { self }
                fn drop_scan(self: Box<Self>) -> (Vec<u8>, Vec<u8>) { scan_drop(self.0) }
                #[cfg(feature = "dh-zero")]
                fn wipe_scan(self: Box<Self>) -> Option<(Vec<u8>, Vec<u8>)> {
                    use zeroize::Zeroize;
                    Some(scan_with(self.0, |p| unsafe { (*p).zeroize() }))
                }
            }
            impl Ek for EkW {
                fn bytes(&self) -> Vec<u8> { self.0.to_encoded_point(false).as_bytes().to_vec() }
                fn enc(&self, rng: &mut Scripted) -> Result<(Box<dyn Ct>, Vec<u8>), String> {
                    self.0
                        .encapsulate(rng)
                        .map(|(c, s)| (Box::new(CtW(c)) as Box<dyn Ct>, s.raw_secret_bytes().to_vec()))
                        .map_err(|e| format!("{e:?}"))
                }
                fn clone_(&self) -> Option<Box<dyn Ek>> { Some(Box::new(EkW(self.0.clone()))) }
                fn eq_(&self, o: &dyn Ek) -> Option<bool> { o.any().downcast_ref::<EkW>().map(|x| x.0 == self.0) }
                fn any(&self) -> &dyn Any { self }
            }
            impl Ct for CtW {
                fn bytes(&self) -> Vec<u8> { sec1(&self.0, false) }
                fn clone_(&self) -> Box<dyn Ct> { Box::new(CtW(self.0)) }
                fn eq_(&self, o: &dyn Ct) -> Option<bool> { o.any().downcast_ref::<CtW>().map(|x| x.0 == self.0) }
                fn any(&self) -> &dyn Any { self }
            }
            impl Alg for A {
                fn name(&self) -> &'static str { $name }
                fn gen(&self, rng: &mut Scripted) -> (Box<dyn Dk>, Option<Box<dyn Ek>>) {
                    let (d, e) = <K as DhKem>::random_keypair(rng);
                    (Box::new(DkW(d)), Some(Box::new(EkW(e))))
                }
                /// the same pair assembled by hand from the curve's own types
                fn gen2(&self, rng: &mut Scripted) -> Option<(Box<dyn Dk>, Option<Box<dyn Ek>>)> {
                    let s = EphemeralSecret::<C>::random(rng);
                    let p = PublicKey::<C>::from(&s);
                    Some((Box::new(DkW(D::from(s))), Some(Box::new(EkW(E::from(p))))))
                }
                fn load_ek(&self, b: &[u8]) -> Option<Box<dyn Ek>> { parse(b).map(|p| Box::new(EkW(E::from(p))) as Box<dyn Ek>) }
                fn load_ct(&self, b: &[u8]) -> Option<Box<dyn Ct>> { parse(b).map(|p| Box::new(CtW(p)) as Box<dyn Ct>) }
                fn wrap(&self, rng: &mut Scripted, a: &[u8], b: &[u8]) -> Option<Rows> {
                    let (p, q) = (parse(a)?, parse(b)?);
                    let mut out = Rows::new();
                    let (wp, wq) = (E::from(p), E::from(q));
                    out.push(("ek into_inner", sec1(&E::from(p).into_inner(), false), sec1(&p, false)));
                    out.push(("ek as_ref", sec1(wp.as_ref(), false), sec1(&p, false)));
                    out.push(("ek clone", sec1(wp.clone().as_ref(), false), sec1(&p, false)));
                    let cp = wp;
                    out.push(("ek copy", sec1(cp.as_ref(), true), sec1(&p, true)));
                    out.push(("ek point", wp.to_encoded_point(false).as_bytes().to_vec(), sec1(&p, false)));
                    out.push(("ek compressed", wp.to_encoded_point(true).as_bytes().to_vec(), sec1(&p, true)));
                    out.push(("ek eq", vec![u8::from(wp == wq), u8::from(wp != wq)], vec![u8::from(p == q), u8::from(p != q)]));
                    out.push(("ek cmp", ord_of(&wp, &wq), ord_of(&p, &q)));
                    out.push(("ek ops", ops_of(&wp, &wq), ops_of(&p, &q)));
                    out.push(("ek total", vec![wp.cmp(&wq) as i8 as u8], vec![p.cmp(&q) as i8 as u8]));
                    let mut r2 = rng.clone();
                    let mut r3 = rng.clone();
                    let (d, e) = <K as DhKem>::random_keypair(rng);
                    let s = EphemeralSecret::<C>::random(&mut r2);
                    out.push(("pair ek", sec1(e.as_ref(), false), sec1(&PublicKey::<C>::from(&s), false)));
                    out.push(("dk as_ref", sec1(&d.as_ref().public_key(), false), sec1(&s.public_key(), false)));
                    out.push(("dk decapsulate", d.decapsulate(&p).unwrap().raw_secret_bytes().to_vec(), s.diffie_hellman(&p).raw_secret_bytes().to_vec()));
                    let d2 = D::from(EphemeralSecret::<C>::random(&mut r3));
                    out.push(("dk from", d2.decapsulate(&q).unwrap().raw_secret_bytes().to_vec(), s.diffie_hellman(&q).raw_secret_bytes().to_vec()));
                    out.push(("dk into_inner", d2.into_inner().diffie_hellman(&p).raw_secret_bytes().to_vec(), s.diffie_hellman(&p).raw_secret_bytes().to_vec()));
                    generic_rows(a, b, &mut out);
                    Some(out)
                }
            }
        }
    };
}
#[cfg(feature = "p256")]
ecdh!(c_p256, dhkem::NistP256Kem, p256::NistP256, "p256");
#[cfg(feature = "p384")]
ecdh!(c_p384, dhkem::NistP384Kem, p384::NistP384, "p384");
#[cfg(feature = "p521")]
ecdh!(c_p521, dhkem::NistP521Kem, p521::NistP521, "p521");
#[cfg(feature = "k256")]
ecdh!(c_k256, dhkem::Secp256k1Kem, k256::Secp256k1, "k256");

#[cfg(feature = "x25519")]
mod x {
    use super::*;
    use x25519_dalek::{PublicKey, ReusableSecret};
    type K = dhkem::X25519Kem;
    type D = DhDecapsulator<ReusableSecret>;
    type E = DhEncapsulator<PublicKey>;
    pub struct DkW(pub D);
    pub struct EkW(pub E);
    pub struct CtW(pub PublicKey);
    pub struct A;
    fn parse(b: &[u8]) -> Option<PublicKey> { <[u8; 32]>::try_from(b).ok().map(PublicKey::from) }
    impl Dk for DkW {
        fn public(&self) -> Option<Box<dyn Ek>> { Some(Box::new(EkW(E::from(PublicKey::from(self.0.as_ref()))))) }
        fn dec(&self, ct: &dyn Ct) -> Result<Vec<u8>, String> {
            let c = ct.any().downcast_ref::<CtW>().expect("harness: ciphertext type");
            self.0.decapsulate(&c.0).map(|s| s.as_bytes().to_vec()).map_err(|e| format!("{e:?}"))
        }
        fn clone_(&self) -> Option<Box<dyn Dk>> { Some(Box::new(DkW(self.0.clone()))) }
        fn any(&self) -> &dyn Any { self }
        fn drop_scan(self: Box<Self>) -> (Vec<u8>, Vec<u8>) { scan_drop(self.0) }
        #[cfg(feature = "x-zero")]
        fn wipe_scan(self: Box<Self>) -> Option<(Vec<u8>, Vec<u8>)> {
            use zeroize::Zeroize;
            Some(scan_with(self.0, |p| unsafe { (*p).zeroize() }))
        }
    }
    impl Ek for EkW {
        fn bytes(&self) -> Vec<u8> { self.0.as_ref().to_bytes().to_vec() }
        fn enc(&self, rng: &mut Scripted) -> Result<(Box<dyn Ct>, Vec<u8>), String> {
            self.0
                .encapsulate(rng)
                .map(|(c, s)| (Box::new(CtW(c)) as Box<dyn Ct>, s.as_bytes().to_vec()))
                .map_err(|e| format!("{e:?}"))
        }
        fn clone_(&self) -> Option<Box<dyn Ek>> { Some(Box::new(EkW(self.0.clone()))) }
        fn eq_(&self, o: &dyn Ek) -> Option<bool> { o.any().downcast_ref::<EkW>().map(|x| x.0 == self.0) }
        fn any(&self) -> &dyn Any { self }
    }
    impl Ct for CtW {
        fn bytes(&self) -> Vec<u8> { self.0.to_bytes().to_vec() }
        fn clone_(&self) -> Box<dyn Ct> { Box::new(CtW(self.0)) }
        fn eq_(&self, o: &dyn Ct) -> Option<bool> { o.any().downcast_ref::<CtW>().map(|x| x.0 == self.0) }
        fn any(&self) -> &dyn Any { self }
    }
    impl Alg for A {
        fn name(&self) -> &'static str { "x25519" }
        fn gen(&self, rng: &mut Scripted) -> (Box<dyn Dk>, Option<Box<dyn Ek>>) {
            let (d, e) = <K as DhKem>::random_keypair(rng);
            (Box::new(DkW(d)), Some(Box::new(EkW(e))))
        }
        fn gen2(&self, rng: &mut Scripted) -> Option<(Box<dyn Dk>, Option<Box<dyn Ek>>)> {
            let s = ReusableSecret::random_from_rng(rng);
            let p = PublicKey::from(&s);
            Some((Box::new(DkW(D::from(s))), Some(Box::new(EkW(E::from(p))))))
        }
        fn load_ek(&self, b: &[u8]) -> Option<Box<dyn Ek>> { parse(b).map(|p| Box::new(EkW(E::from(p))) as Box<dyn Ek>) }
        fn load_ct(&self, b: &[u8]) -> Option<Box<dyn Ct>> { parse(b).map(|p| Box::new(CtW(p)) as Box<dyn Ct>) }
        fn wrap(&self, rng: &mut Scripted, a: &[u8], b: &[u8]) -> Option<Rows> {
            let (p, q) = (parse(a)?, parse(b)?);
            let mut out = Rows::new();
            let (wp, wq) = (E::from(p), E::from(q));
            out.push(("ek into_inner", E::from(p).into_inner().to_bytes().to_vec(), p.to_bytes().to_vec()));
            out.push(("ek as_ref", wp.as_ref().to_bytes().to_vec(), p.to_bytes().to_vec()));
            out.push(("ek clone", wp.clone().as_ref().to_bytes().to_vec(), p.to_bytes().to_vec()));
            let cp = wp;
            out.push(("ek copy", cp.as_ref().to_bytes().to_vec(), p.to_bytes().to_vec()));
            out.push(("ek eq", vec![u8::from(wp == wq), u8::from(wp != wq)], vec![u8::from(p == q), u8::from(p != q)]));
            out.push(("ek hash", hash_of(&wp), hash_of(&p)));
            let mut r2 = rng.clone();
            let mut r3 = rng.clone();
            let (d, e) = <K as DhKem>::random_keypair(rng);
            let s = ReusableSecret::random_from_rng(&mut r2);
            out.push(("pair ek", e.as_ref().to_bytes().to_vec(), PublicKey::from(&s).to_bytes().to_vec()));
            out.push(("dk as_ref", PublicKey::from(d.as_ref()).to_bytes().to_vec(), PublicKey::from(&s).to_bytes().to_vec()));
            out.push(("dk decapsulate", d.decapsulate(&p).unwrap().to_bytes().to_vec(), s.diffie_hellman(&p).to_bytes().to_vec()));
            out.push(("dk clone", d.clone().decapsulate(&p).unwrap().to_bytes().to_vec(), s.diffie_hellman(&p).to_bytes().to_vec()));
            let d2 = D::from(ReusableSecret::random_from_rng(&mut r3));
            out.push(("dk from", d2.decapsulate(&q).unwrap().to_bytes().to_vec(), s.diffie_hellman(&q).to_bytes().to_vec()));
            out.push(("dk into_inner", d2.into_inner().diffie_hellman(&p).to_bytes().to_vec(), s.diffie_hellman(&p).to_bytes().to_vec()));
            generic_rows(a, b, &mut out);
            Some(out)
        }
    }
}

pub fn register(v: &mut Vec<Box<dyn Alg>>) {
    #[cfg(feature = "p256")]
    v.push(Box::new(c_p256::A));
    #[cfg(feature = "p384")]
    v.push(Box::new(c_p384::A));
    #[cfg(feature = "p521")]
    v.push(Box::new(c_p521::A));
    #[cfg(feature = "k256")]
    v.push(Box::new(c_k256::A));
    #[cfg(feature = "x25519")]
    v.push(Box::new(x::A));
}
