//! internals SCRIPT OUT: calls the internal functions of ml-kem (built with --cfg verif_hooks) and
//! writes one JSON object per trace.  Polynomials are 512 bytes: 256 little-endian u16 coefficients.
use ml_kem::array::typenum::{U1, U10, U11, U12, U2, U3, U4, U5, U256};
use ml_kem::array::Array;
use ml_kem::verif_hooks::*;
use sha3::digest::{Digest, XofReader};
use sha3::Sha3_256;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        write!(s, "{x:02x}").unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}

type Coefs = Array<FieldElement, U256>;
fn coefs(b: &[u8]) -> Coefs {
    assert_eq!(b.len(), 512, "harness: polynomial");
    Array::from_fn(|i| FieldElement(u16::from_le_bytes([b[2 * i], b[2 * i + 1]])))
}
fn raw(c: &Coefs, out: &mut Vec<u8>) {
    for x in c.iter() {
        out.extend_from_slice(&x.0.to_le_bytes());
    }
}
fn poly(b: &[u8]) -> Polynomial {
    Polynomial(coefs(b))
}
fn npoly(b: &[u8]) -> NttPolynomial {
    NttPolynomial(coefs(b))
}
fn of(c: &Coefs) -> Vec<u8> {
    let mut v = vec![];
    raw(c, &mut v);
    v
}
fn arr<N: ml_kem::array::ArraySize>(b: &[u8]) -> Array<u8, N> {
    Array::try_from(b).expect("harness: length")
}

/// A stream of scripted bytes; zeros behind its end.
struct Fake {
    data: Vec<u8>,
    pos: usize,
}
impl XofReader for Fake {
    fn read(&mut self, buf: &mut [u8]) {
        for b in buf {
            *b = self.data.get(self.pos).copied().unwrap_or(0);
            self.pos += 1;
        }
    }
}

macro_rules! vecs {
    ($K:ty, $w:expr) => {{
        let w: &[&str] = $w;
        let k = <$K as ml_kem::array::typenum::Unsigned>::USIZE;
        let nv = |b: &[u8]| -> NttVector<$K> { NttVector(Array::from_fn(|i| npoly(&b[512 * i..512 * (i + 1)]))) };
        let pv = |b: &[u8]| -> PolynomialVector<$K> { PolynomialVector(Array::from_fn(|i| poly(&b[512 * i..512 * (i + 1)]))) };
        let on = |v: &NttVector<$K>| { let mut o = vec![]; for p in v.0.iter() { raw(&p.0, &mut o) } o };
        let op = |v: &PolynomialVector<$K>| { let mut o = vec![]; for p in v.0.iter() { raw(&p.0, &mut o) } o };
        let x = unhex(w[3]);
        let y = || unhex(w[4]);
        assert!(w[0] == "vcbd" || w[0] == "mat" || w[0] == "vdec" || x.len() == 512 * k, "harness: vector");
        match w[0] {
            "vadd" => on(&(&nv(&x) + &nv(&y()))),
            "vpadd" => op(&(pv(&x) + pv(&y()))),
            "vdot" => of(&(&nv(&x) * &nv(&y())).0),
            "vntt" => on(&pv(&x).ntt()),
            "vinv" => op(&nv(&x).ntt_inverse()),
            // (matrix from rho, transposed or not) * vector
            "mat" => on(&(&NttMatrix::<$K>::sample_uniform(&arr(&x), w[2] == "1") * &nv(&y()))),
            "vcomp" => { let mut v = pv(&x); match w[2] { "10" => { v.compress::<U10>(); } "11" => { v.compress::<U11>(); } "4" => { v.compress::<U4>(); } _ => { v.compress::<U5>(); } } op(&v) }
            "vdecomp" => { let mut v = pv(&x); match w[2] { "10" => { v.decompress::<U10>(); } "11" => { v.decompress::<U11>(); } "4" => { v.decompress::<U4>(); } _ => { v.decompress::<U5>(); } } op(&v) }
            "venc" => match w[2] { "10" => Encode::<U10>::encode(&pv(&x)).to_vec(), "11" => Encode::<U11>::encode(&pv(&x)).to_vec(), _ => Encode::<U12>::encode(&nv(&x)).to_vec() },
            "vdec" => match w[2] { "10" => op(&<PolynomialVector<$K> as Encode<U10>>::decode(&arr(&x))),
                                   "11" => op(&<PolynomialVector<$K> as Encode<U11>>::decode(&arr(&x))),
                                   _ => on(&<NttVector<$K> as Encode<U12>>::decode(&arr(&x))) },
            "vcbd" => { let s = arr(&x); let st: u8 = w[4].parse().unwrap();
                        if w[2] == "2" { op(&PolynomialVector::<$K>::sample_cbd::<U2>(&s, st)) } else { op(&PolynomialVector::<$K>::sample_cbd::<U3>(&s, st)) } }
            o => panic!("harness: {o}"),
        }
    }};
}

fn exec(w: &[&str]) -> Vec<u8> {
    let h = |i: usize| unhex(w[i]);
    match w[0] {
        // a row of the operation's table
        "ftab" => {
            let a = FieldElement(w[2].parse().unwrap());
            let mut o = vec![];
            for b in 0..3329u16 {
                let b = FieldElement(b);
                let c = match w[1] { "0" => a + b, "1" => a - b, _ => a * b };
                o.extend_from_slice(&c.0.to_le_bytes());
            }
            o
        }
        // the digest of up to 64 rows of it
        "fall" => {
            let lo: u16 = w[2].parse().unwrap();
            let mut o = Sha3_256::new();
            for a in lo..3329.min(lo + 64) {
                for b in 0..3329u16 {
                    let (a, b) = (FieldElement(a), FieldElement(b));
                    let c = match w[1] { "0" => a + b, "1" => a - b, _ => a * b };
                    o.update(c.0.to_le_bytes());
                }
            }
            o.finalize().to_vec()
        }
        // the digest of products (u + v X)(s + t X) for up to 64 values of s and all of t (divided by gamma in mode 1)
        "sums" => {
            let lo: u16 = w[2].parse().unwrap();
            let x = h(3);
            let at = |i: usize| FieldElement(u16::from_le_bytes([x[2 * i], x[2 * i + 1]]));
            let f = NttPolynomial(Array::from_fn(|i| at(i % 2)));
            let power = |e: u32| (0..e).fold(1u32, |r, _| r * 17 % 3329);
            let inv: Vec<u32> = (0..128u8).map(|i| power(256 - (2 * (i.reverse_bits() >> 1) as u32 + 1))).collect();
            let mut o = Sha3_256::new();
            for s in lo..3329.min(lo + 64) {
                for blk in 0..27usize {
                    let g: Coefs = Array::from_fn(|i| {
                        let t = 3328.min(128 * blk + i / 2) as u32;
                        FieldElement(if i % 2 == 0 { s } else if w[1] == "0" { t as u16 } else { (t * inv[i / 2] % 3329) as u16 })
                    });
                    o.update(of(&(&f * &NttPolynomial(g)).0));
                }
            }
            o.finalize().to_vec()
        }
        // the digest of the (inverse) transforms of all multiples of a power of X
        "units" => {
            let at: usize = w[2].parse().unwrap();
            let mut o = Sha3_256::new();
            for v in 0..3329u16 {
                let f: Coefs = Array::from_fn(|i| FieldElement(if i == at { v } else { 0 }));
                let g = if w[1] == "0" { Polynomial(f).ntt().0 } else { NttPolynomial(f).ntt_inverse().0 };
                let mut b = Vec::with_capacity(512);
                raw(&g, &mut b);
                o.update(&b);
            }
            o.finalize().to_vec()
        }
        "padd" => of(&(&poly(&h(3)) + &poly(&h(4))).0),
        "psub" => of(&(&poly(&h(3)) - &poly(&h(4))).0),
        "smul" => of(&(FieldElement(w[1].parse().unwrap()) * &poly(&h(3))).0),
        "nadd" => of(&(&npoly(&h(3)) + &npoly(&h(4))).0),
        "nmul" => of(&(&npoly(&h(3)) * &npoly(&h(4))).0),
        "ntt" => of(&poly(&h(3)).ntt().0),
        "inv" => of(&npoly(&h(3)).ntt_inverse().0),
        // product in the ring, through the transform
        "ring" => of(&(&poly(&h(3)).ntt() * &poly(&h(4)).ntt()).ntt_inverse().0),
        "comp" | "decomp" => {
            let mut p = poly(&h(3));
            macro_rules! go { ($($n:literal $D:ty),*) => { match w[1] { $($n => { if w[0] == "comp" { p.compress::<$D>(); } else { p.decompress::<$D>(); } })* o => panic!("harness: {o}") } } }
            go!("1" U1, "4" U4, "5" U5, "10" U10, "11" U11);
            of(&p.0)
        }
        "enc" => {
            macro_rules! go { ($($n:literal $D:ty),*) => { match w[1] { $($n => Encode::<$D>::encode(&poly(&h(3))).to_vec(),)* o => panic!("harness: {o}") } } }
            go!("1" U1, "4" U4, "5" U5, "10" U10, "11" U11, "12" U12)
        }
        "dec" => {
            macro_rules! go { ($($n:literal $D:ty),*) => { match w[1] { $($n => of(&<Polynomial as Encode<$D>>::decode(&arr(&h(3))).0),)* o => panic!("harness: {o}") } } }
            go!("1" U1, "4" U4, "5" U5, "10" U10, "11" U11, "12" U12)
        }
        "nenc" => Encode::<U12>::encode(&npoly(&h(3))).to_vec(),
        "ndec" => of(&<NttPolynomial as Encode<U12>>::decode(&arr(&h(3))).0),
        "unif" => of(&NttPolynomial::sample_uniform(&mut Fake { data: h(3), pos: 0 }).0),
        "cbd" => if w[1] == "2" { of(&Polynomial::sample_cbd::<U2>(&arr(&h(3))).0) } else { of(&Polynomial::sample_cbd::<U3>(&arr(&h(3))).0) },
        "prf" => { let b: u8 = w[2].parse().unwrap(); if w[1] == "2" { PRF::<U2>(&arr(&h(3)), b).to_vec() } else { PRF::<U3>(&arr(&h(3)), b).to_vec() } }
        "xof" => {
            // squeezed in pieces
            let mut r = XOF(&arr(&h(3)), w[1].parse().unwrap(), w[2].parse().unwrap());
            let mut o = vec![0u8; 504];
            for c in o.chunks_mut(96) { r.read(c) }
            o
        }
        "hash" => match w[1] {
            "0" => H(h(3)).to_vec(),
            "1" => { let (a, b) = G(&[h(3), h(4)]); [a.to_vec(), b.to_vec()].concat() }
            _ => J(&[h(3), h(4)]).to_vec(),
        },
        _ => match w[1] { "2" => vecs!(U2, w), "3" => vecs!(U3, w), _ => vecs!(U4, w) },
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if let Some(s) = i.payload().downcast_ref::<String>() { if s.starts_with("harness") { eprintln!("{s}"); std::process::exit(3) } }
        if let Some(s) = i.payload().downcast_ref::<&str>() { if s.starts_with("harness") { eprintln!("{s}"); std::process::exit(3) } }
    }));
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[1]).expect("harness: script");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).expect("harness: out"));
    let (mut id, mut ev, mut n) = (None::<String>, Vec::<String>::new(), 0);
    for line in text.lines().chain(std::iter::once("T ")) {
        let w: Vec<&str> = line.split(' ').collect();
        if w[0] == "T" {
            if let Some(id) = &id {
                writeln!(out, "{{\"id\":\"{id}\",\"ev\":[{}]}}", ev.join(",")).unwrap();
            }
            id = Some(w[1].to_string());
            ev.clear();
            n = 0;
            continue;
        }
        n += 1;
        // OP a b x y, with - for what an operation does not take
        let r = catch_unwind(AssertUnwindSafe(|| exec(&w)));
        let (o, res) = match r { Ok(v) => (hex(&v), "ok"), Err(_) => (String::new(), "panic") };
        let num = |i: usize| w.get(i).and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
        let st = |i: usize| w.get(i).map_or("", |s| if *s == "-" { "" } else { *s });
        let y = if w[0] == "vcbd" { "" } else { st(4) };
        let sn = if w[0] == "vcbd" { num(4) } else { 0 };
        ev.push(format!("{{\"op\":\"{}\",\"n\":{n},\"a\":{},\"b\":{},\"s\":{sn},\"x\":\"{}\",\"y\":\"{y}\",\"out\":\"{res}\",\"res\":\"{o}\"}}", w[0], num(1), num(2), st(3)));
    }
}
