//! kemharness SCRIPT OUT: executes a script of API calls against the crates of
//! /repo and writes one JSON object per trace, {"id":..,"ev":[..]}, to OUT.
mod api;
#[cfg(any(feature = "ec", feature = "x25519"))]
mod dh;
#[cfg(feature = "mlkem")]
mod mlkem;
mod rng;
#[cfg(feature = "xwing")]
mod xwing;

use api::*;
use rng::{Mix, Scripted};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(2 * b.len());
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    assert!(s.len() % 2 == 0, "harness: odd hex");
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("harness: hex")).collect()
}

#[derive(Clone)]
enum Obj {
    Dk(usize, Arc<Box<dyn Dk>>),
    Ek(usize, Arc<Box<dyn Ek>>),
    Ct(usize, Arc<Box<dyn Ct>>),
    Ss(Vec<u8>),
}
impl Obj {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Obj::Dk(_, d) => d.bytes().unwrap_or_default(),
            Obj::Ek(_, e) => e.bytes(),
            Obj::Ct(_, c) => c.bytes(),
            Obj::Ss(s) => s.clone(),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Obj::Dk(..) => "dk",
            Obj::Ek(..) => "ek",
            Obj::Ct(..) => "ct",
            Obj::Ss(..) => "ss",
        }
    }
    fn alg(&self) -> usize {
        match self {
            Obj::Dk(a, _) | Obj::Ek(a, _) | Obj::Ct(a, _) => *a,
            Obj::Ss(_) => usize::MAX,
        }
    }
}

#[derive(Clone, Default)]
struct Env {
    objs: HashMap<String, Obj>,
    rngs: BTreeMap<String, Scripted>,
}

/// one event under construction
struct Ev(String);
impl Ev {
    fn new(op: &str, n: usize) -> Self {
        Ev(format!("{{\"op\":\"{op}\",\"n\":{n}"))
    }
    fn s(&mut self, k: &str, v: &str) -> &mut Self {
        self.0.push_str(&format!(",\"{k}\":\"{v}\""));
        self
    }
    fn b(&mut self, k: &str, v: &[u8]) -> &mut Self {
        let h = hex(v);
        self.s(k, &h)
    }
    fn i(&mut self, k: &str, v: usize) -> &mut Self {
        self.0.push_str(&format!(",\"{k}\":{v}"));
        self
    }
    fn t(&mut self, k: &str, v: bool) -> &mut Self {
        self.0.push_str(&format!(",\"{k}\":{v}"));
        self
    }
    fn list(&mut self, k: &str, v: &[String]) -> &mut Self {
        self.0.push_str(&format!(",\"{k}\":[{}]", v.join(",")));
        self
    }
    fn end(mut self) -> String {
        self.0.push('}');
        self.0
    }
}
fn q(s: &str) -> String {
    format!("\"{s}\"")
}

thread_local!(static MSG: RefCell<String> = const { RefCell::new(String::new()) });

/// runs library code; a panic of the library is an outcome, a panic of the
/// harness itself ends the run
fn call<T>(f: impl FnOnce() -> Result<T, String>) -> (&'static str, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => ("ok", Some(x)),
        Ok(Err(_)) => ("err", None),
        Err(_) => {
            let m = MSG.with(|m| m.borrow().clone());
            if m.contains("harness:") {
                eprintln!("{m}");
                std::process::exit(3);
            }
            ("panic", None)
        }
    }
}

fn patches(s: &str) -> Vec<Vec<(usize, u8)>> {
    s.split(';')
        .filter(|x| !x.is_empty())
        .map(|p| {
            if p == "-" {
                return vec![];
            }
            p.split(',')
                .map(|e| {
                    let (a, b) = e.split_once(':').expect("harness: patch");
                    (a.parse().expect("harness: patch"), b.parse().expect("harness: patch"))
                })
                .collect()
        })
        .collect()
}
fn patched(b: &[u8], p: &[(usize, u8)]) -> Vec<u8> {
    let mut v = b.to_vec();
    for (i, x) in p {
        v[*i] ^= x;
    }
    v
}
fn patch_json(ps: &[Vec<(usize, u8)>]) -> Vec<String> {
    ps.iter()
        .map(|p| format!("[{}]", p.iter().map(|(i, x)| format!("{i},{x}")).collect::<Vec<_>>().join(",")))
        .collect()
}

enum Job {
    Enc(usize, Arc<Box<dyn Ek>>, Vec<u8>),
    Dec(usize, Arc<Box<dyn Dk>>, Arc<Box<dyn Ct>>),
    Gen(usize, Vec<u8>),
}

struct Ctx {
    algs: Vec<Box<dyn Alg>>,
}
impl Ctx {
    fn alg(&self, n: &str) -> usize {
        self.algs.iter().position(|a| a.name() == n).unwrap_or_else(|| panic!("harness: algorithm {n}"))
    }
    fn load(&self, kind: &str, a: usize, b: &[u8]) -> Option<Obj> {
        let alg = &self.algs[a];
        match kind {
            "dk" => alg.load_dk(b).map(|x| Obj::Dk(a, Arc::new(x))),
            "ek" => alg.load_ek(b).map(|x| Obj::Ek(a, Arc::new(x))),
            "ct" => alg.load_ct(b).map(|x| Obj::Ct(a, Arc::new(x))),
            _ => panic!("harness: kind"),
        }
    }

    /// A value that is missing because an earlier call unexpectedly failed makes an event
    /// that no action explains.
    fn exec(&self, env: &mut Env, n: usize, w: &[&str], thread: usize) -> Option<String> {
        match catch_unwind(AssertUnwindSafe(|| self.exec_op(env, n, w, thread))) {
            Ok(e) => e,
            Err(p) => {
                let m = MSG.with(|m| m.borrow().clone());
                if !m.contains("nohandle:") {
                    std::panic::resume_unwind(p);
                }
                let mut ev = Ev::new("nohandle", n);
                ev.s("of", w[0]);
                Some(ev.end())
            }
        }
    }

    fn exec_op(&self, env: &mut Env, n: usize, w: &[&str], thread: usize) -> Option<String> {
        let mut ev = Ev::new(w[0], n);
        if thread > 0 {
            ev.i("th", thread);
        }
        let get = |env: &Env, h: &str| env.objs.get(h).unwrap_or_else(|| panic!("nohandle: {h}")).clone();
        macro_rules! dk {
            ($h:expr) => {
                match get(env, $h) {
                    Obj::Dk(a, d) => (a, d),
                    _ => panic!("harness: {} is not a dk", $h),
                }
            };
        }
        macro_rules! ek {
            ($h:expr) => {
                match get(env, $h) {
                    Obj::Ek(a, d) => (a, d),
                    _ => panic!("harness: {} is not an ek", $h),
                }
            };
        }
        macro_rules! ct {
            ($h:expr) => {
                match get(env, $h) {
                    Obj::Ct(a, d) => (a, d),
                    _ => panic!("harness: {} is not a ct", $h),
                }
            };
        }
        match w[0] {
            "rng" => {
                let data = unhex(w[2]);
                let fail = w.get(3).map(|x| x.parse().expect("harness: fail"));
                ev.s("r", w[1]).b("data", &data);
                ev.i("limit", fail.unwrap_or(data.len()).min(data.len()));
                let once = w.get(4) == Some(&"once");
                let lim = fail.unwrap_or(data.len()).min(data.len());
                ev.i("after", if once { data.len() } else { lim });
                env.rngs.insert(w[1].into(), Scripted::new(data, fail, once));
            }
            "gen" | "gen2" | "osgen" | "osgen2" => {
                if w[0].starts_with("os") {
                    ev = Ev::new(&w[0][2..], n);
                    ev.t("os", true);
                }
                let a = self.alg(w[3]);
                let r = env.rngs.get_mut(w[4]).expect("harness: rng");
                let f0 = r.failed;
                ev.s("alg", w[3]).s("r", w[4]).i("p0", r.pos).s("dk", w[1]).s("ek", w[2]);
                let (out, v) = call(|| {
                    match w[0] {
                        "gen" => Ok(Some(self.algs[a].gen(r))),
                        "gen2" => Ok(self.algs[a].gen2(r)),
                        #[cfg(feature = "xw-os")]
                        _ => Ok(Some(rng::os::with_os(r, || self.algs[a].gen_os(w[0] == "osgen2")).expect("harness: os generator"))),
                        #[cfg(not(feature = "xw-os"))]
                        _ => panic!("harness: os generator"),
                    }
                });
                if let Some(None) = v {
                    return None;
                }
                ev.i("p1", r.pos).i("failed", (r.failed - f0) as usize).s("out", out);
                if let Some(Some((d, e))) = v {
                    let (o2, pb) = call(|| {
                        let db = d.bytes().unwrap_or_default();
                        let e = match e {
                            Some(e) => e,
                            None => d.public().expect("harness: public"),
                        };
                        let eb = e.bytes();
                        Ok((db, e, eb))
                    });
                    let Some((db, e, eb)) = pb else {
                        return Some({
                            ev.s("post", o2);
                            ev.end()
                        });
                    };
                    ev.b("dkb", &db).b("ekb", &eb);
                    env.objs.insert(w[1].into(), Obj::Dk(a, Arc::new(d)));
                    env.objs.insert(w[2].into(), Obj::Ek(a, Arc::new(e)));
                }
            }
            "gendet" => {
                let a = self.alg(w[3]);
                let seed = unhex(w[4]);
                ev.s("alg", w[3]).b("seed", &seed).s("dk", w[1]).s("ek", w[2]);
                let (out, v) = call(|| Ok(self.algs[a].gendet(&seed).expect("harness: gendet")));
                ev.s("out", out);
                if let Some((d, e)) = v {
                    ev.b("dkb", &d.bytes().unwrap_or_default()).b("ekb", &e.bytes());
                    env.objs.insert(w[1].into(), Obj::Dk(a, Arc::new(d)));
                    env.objs.insert(w[2].into(), Obj::Ek(a, Arc::new(e)));
                }
            }
            "enc" => {
                let (a, e) = ek!(w[3]);
                let r = env.rngs.get_mut(w[4]).expect("harness: rng");
                let f0 = r.failed;
                ev.s("alg", self.algs[a].name()).s("r", w[4]).i("p0", r.pos).s("ss", w[1]).s("ct", w[2]).s("ek", w[3]);
                let (out, v) = call(|| e.enc(r));
                ev.i("p1", r.pos).i("failed", (r.failed - f0) as usize).s("out", out);
                if let Some((c, s)) = v {
                    ev.b("ctb", &c.bytes()).b("ssb", &s);
                    env.objs.insert(w[1].into(), Obj::Ss(s));
                    env.objs.insert(w[2].into(), Obj::Ct(a, Arc::new(c)));
                }
            }
            "encdet" => {
                let (a, e) = ek!(w[3]);
                let m = unhex(w[4]);
                ev.s("alg", self.algs[a].name()).b("m", &m).s("ss", w[1]).s("ct", w[2]).s("ek", w[3]);
                let (out, v) = call(|| e.encdet(&m).expect("harness: encdet"));
                ev.s("out", out);
                if let Some((c, s)) = v {
                    ev.b("ctb", &c.bytes()).b("ssb", &s);
                    env.objs.insert(w[1].into(), Obj::Ss(s));
                    env.objs.insert(w[2].into(), Obj::Ct(a, Arc::new(c)));
                }
            }
            "dec" => {
                let (a, d) = dk!(w[2]);
                let (_, c) = ct!(w[3]);
                ev.s("alg", self.algs[a].name()).s("ss", w[1]).s("dk", w[2]).s("ct", w[3]);
                let (out, v) = call(|| d.dec(&**c));
                ev.s("out", out);
                if let Some(s) = v {
                    ev.b("ssb", &s);
                    env.objs.insert(w[1].into(), Obj::Ss(s));
                }
            }
            "load" => {
                let a = self.alg(w[3]);
                let b = unhex(w[4]);
                ev.s("kind", w[1]).s("h", w[2]).s("alg", w[3]).b("in", &b);
                self.finish_load(env, &mut ev, w[1], w[2], a, &b);
            }
            // objects made from the bytes of existing ones
            "xor" | "splice" | "alias" | "recode" => {
                let o = get(env, w[2]);
                let mut b = o.bytes();
                match w[0] {
                    "xor" => b = patched(&b, &patches(w[3])[0]),
                    "splice" => {
                        let src = get(env, w[5]).bytes();
                        let (off, len, off2): (usize, usize, usize) =
                            (w[3].parse().unwrap(), w[4].parse().unwrap(), w[6].parse().unwrap());
                        b[off..off + len].copy_from_slice(&src[off2..off2 + len]);
                    }
                    "alias" => {
                        let (off, cnt, start): (usize, usize, usize) =
                            (w[3].parse().unwrap(), w[4].parse().unwrap(), w[5].parse().unwrap());
                        for t in 0..cnt {
                            let i = (start + t) % cnt;
                            let p = off + i / 2 * 3;
                            let (x, y) = (u32::from(b[p]) | u32::from(b[p + 1] & 15) << 8, u32::from(b[p + 1] >> 4) | u32::from(b[p + 2]) << 4);
                            let v = if i % 2 == 0 { x } else { y };
                            if v >= 767 {
                                continue;
                            }
                            let (x, y) = if i % 2 == 0 { (x + 3329, y) } else { (x, y + 3329) };
                            b[p] = x as u8;
                            b[p + 1] = (x >> 8) as u8 | ((y & 15) << 4) as u8;
                            b[p + 2] = (y >> 4) as u8;
                            break;
                        }
                    }
                    _ => {}
                }
                ev.s("kind", o.kind()).s("h", w[1]).s("src", w[2]).s("alg", self.algs[o.alg()].name()).b("in", &b);
                self.finish_load(env, &mut ev, o.kind(), w[1], o.alg(), &b);
            }
            // the bytes of one kind of value read as another kind
            "cast" => {
                let o = get(env, w[2]);
                let b = o.bytes();
                ev.s("kind", w[3]).s("h", w[1]).s("src", w[2]).s("alg", self.algs[o.alg()].name()).b("in", &b);
                self.finish_load(env, &mut ev, w[3], w[1], o.alg(), &b);
            }
            "bytes" => {
                let o = get(env, w[1]);
                let (out, v) = call(|| Ok(o.bytes()));
                ev.s("h", w[1]).s("out", out).b("b", &v.unwrap_or_default());
            }
            "pub" => {
                let (a, d) = dk!(w[2]);
                ev.s("alg", self.algs[a].name()).s("ek", w[1]).s("dk", w[2]);
                let (out, v) = call(|| Ok(d.public().expect("harness: public")));
                ev.s("out", out);
                if let Some(e) = v {
                    ev.b("ekb", &e.bytes());
                    env.objs.insert(w[1].into(), Obj::Ek(a, Arc::new(e)));
                }
            }
            "clone" => {
                let o = get(env, w[2]);
                let (out, v) = call(|| {
                    Ok(match &o {
                        Obj::Dk(a, d) => Obj::Dk(*a, Arc::new(d.clone_().expect("harness: clone"))),
                        Obj::Ek(a, e) => Obj::Ek(*a, Arc::new(e.clone_().expect("harness: clone"))),
                        Obj::Ct(a, c) => Obj::Ct(*a, Arc::new(c.clone_())),
                        Obj::Ss(s) => Obj::Ss(s.clone()),
                    })
                });
                ev.s("h", w[1]).s("src", w[2]).s("out", out);
                if let Some(x) = v {
                    ev.b("b", &x.bytes());
                    env.objs.insert(w[1].into(), x);
                }
            }
            "eq" => {
                let (x, y) = (get(env, w[1]), get(env, w[2]));
                let (out, v) = call(|| {
                    Ok(match (&x, &y) {
                        (Obj::Dk(_, p), Obj::Dk(_, q)) => p.eq_(&***q),
                        (Obj::Ek(_, p), Obj::Ek(_, q)) => p.eq_(&***q),
                        (Obj::Ct(_, p), Obj::Ct(_, q)) => p.eq_(&***q),
                        (Obj::Ss(p), Obj::Ss(q)) => Some(p == q),
                        _ => None,
                    })
                });
                let v = v.flatten();
                if v.is_none() && out == "ok" {
                    return None;
                }
                ev.s("h1", w[1]).s("h2", w[2]).s("out", out).t("res", v.unwrap_or(false));
            }
            "drop" => {
                env.objs.remove(w[1]).expect("nohandle:");
                ev.s("h", w[1]);
            }
            "scan" | "wipe" => {
                let Some(Obj::Dk(a, d)) = env.objs.remove(w[1]) else { panic!("nohandle: scan") };
                let d = Arc::try_unwrap(d).unwrap_or_else(|_| panic!("harness: shared"));
                ev.s("h", w[1]).s("alg", self.algs[a].name());
                let (out, v) = call(|| Ok(if w[0] == "scan" { Some(d.drop_scan()) } else { d.wipe_scan() }));
                let Some((b, c)) = v.flatten() else {
                    if out == "ok" {
                        return None;
                    }
                    ev.s("out", out);
                    return Some(ev.end());
                };
                ev.s("out", out).b("before", &b).b("after", &c);
            }
            "decsweep" | "rejsweep" => {
                let (a, d) = dk!(w[1]);
                let base = get(env, w[2]).bytes();
                let ps = patches(w[3]);
                ev.s("alg", self.algs[a].name()).s("dk", w[1]).s("ct", w[2]).list("pt", &patch_json(&ps));
                let mut ks = vec![];
                for p in &ps {
                    let (_, v) = call(|| {
                        let c = self.algs[a].load_ct(&patched(&base, p)).expect("harness: ct");
                        d.dec(&*c)
                    });
                    ks.push(q(&v.map(|k| hex(&k)).unwrap_or("failed".into())));
                }
                ev.list("ks", &ks);
            }
            "dksweep" => {
                let (a, _) = dk!(w[1]);
                let (base, ct) = (get(env, w[1]).bytes(), ct!(w[2]).1);
                let ps = patches(w[3]);
                ev.s("alg", self.algs[a].name()).s("dk", w[1]).s("ct", w[2]).list("pt", &patch_json(&ps));
                let mut ks = vec![];
                for p in &ps {
                    let (_, v) = call(|| {
                        let d = self.algs[a].load_dk(&patched(&base, p)).expect("harness: dk");
                        d.dec(&**ct)
                    });
                    ks.push(q(&v.map(|k| hex(&k)).unwrap_or("failed".into())));
                }
                ev.list("ks", &ks);
            }
            "encsweep" => {
                let (a, _) = ek!(w[1]);
                let (base, m) = (get(env, w[1]).bytes(), unhex(w[2]));
                let ps = patches(w[3]);
                ev.s("alg", self.algs[a].name()).s("ek", w[1]).b("m", &m).list("pt", &patch_json(&ps));
                let (mut cs, mut ks) = (vec![], vec![]);
                for p in &ps {
                    let (_, v) = call(|| {
                        let e = self.algs[a].load_ek(&patched(&base, p)).ok_or("rejected".to_string())?;
                        match e.encdet(&m) {
                            Some(r) => r,
                            None => e.enc(&mut Scripted::new(m.clone(), None, false)),
                        }
                    });
                    let (c, k) = v.map(|(c, k)| (hex(&c.bytes()), hex(&k))).unwrap_or(("failed".into(), "failed".into()));
                    cs.push(q(&c));
                    ks.push(q(&k));
                }
                ev.list("cs", &cs).list("ks", &ks);
            }
            // equality of h with a patched copy, in both directions, and with itself
            "eqsweep" => {
                let o = get(env, w[1]);
                let base = o.bytes();
                let ps = patches(w[2]);
                ev.s("kind", o.kind()).s("alg", self.algs[o.alg()].name()).s("h", w[1]).list("pt", &patch_json(&ps));
                let mut rs = vec![];
                for p in &ps {
                    let (out, v) = call(|| {
                        let x = self.load(o.kind(), o.alg(), &patched(&base, p)).ok_or("rejected".to_string())?;
                        Ok(match (&o, &x) {
                            (Obj::Dk(_, p), Obj::Dk(_, q)) => (p.eq_(&***q), q.eq_(&***p)),
                            (Obj::Ek(_, p), Obj::Ek(_, q)) => (p.eq_(&***q), q.eq_(&***p)),
                            (Obj::Ct(_, p), Obj::Ct(_, q)) => (p.eq_(&***q), q.eq_(&***p)),
                            _ => (None, None),
                        })
                    });
                    let r = match (out, v) {
                        ("ok", Some((Some(x), Some(y)))) => u8::from(x) + 2 * u8::from(y),
                        ("ok", _) => return None,
                        ("err", _) => 8,
                        _ => 9,
                    };
                    rs.push(r.to_string());
                }
                ev.list("rs", &rs);
            }
            // what decoding and re-encoding patched bytes gives
            "loadsweep" => {
                let o = get(env, w[1]);
                let base = o.bytes();
                let ps = patches(w[2]);
                ev.s("kind", o.kind()).s("alg", self.algs[o.alg()].name()).s("h", w[1]).list("pt", &patch_json(&ps));
                let mut bs = vec![];
                for p in &ps {
                    let (out, v) = call(|| Ok(self.load(o.kind(), o.alg(), &patched(&base, p)).ok_or("rejected".to_string())?.bytes()));
                    let v = v.map(|b| hex(&b));
                    bs.push(q(&v.unwrap_or(if out == "err" { "rejected" } else { "failed" }.into())));
                }
                ev.list("bs", &bs);
            }
            // n honest exchanges through different chains of handling; only the secrets are kept
            "honest" => {
                let a = self.alg(w[1]);
                let cnt: usize = w[2].parse().unwrap();
                let seed: u64 = w[3].parse().unwrap();
                ev.s("alg", w[1]).i("cnt", cnt).s("seed", w[3]);
                let (mut ks, mut kr) = (vec![], vec![]);
                for i in 0..cnt {
                    let (out, v) = call(|| self.honest(a, seed, i as u64));
                    let (s, r) = v.unwrap_or_else(|| (out.into(), "none".into()));
                    ks.push(q(&s));
                    kr.push(q(&r));
                }
                ev.list("ks", &ks).list("kr", &kr);
            }
            // the same calls over and over on many threads at once: every outcome seen of each
            "race" => {
                let ms: u64 = w[1].parse().expect("harness: ms");
                let th: u64 = w[2].parse().expect("harness: threads");
                let jobs: Vec<Job> = w[3..]
                    .iter()
                    .map(|j| {
                        let f: Vec<&str> = j.split(':').collect();
                        match f[0] {
                            "enc" => { let (a, e) = ek!(f[1]); Job::Enc(a, e, unhex(f[2])) }
                            "dec" => { let (a, d) = dk!(f[1]); let (_, c) = ct!(f[2]); Job::Dec(a, d, c) }
                            "gen" => Job::Gen(self.alg(f[1]), unhex(f[2])),
                            _ => panic!("harness: job"),
                        }
                    })
                    .collect();
                let gate = std::sync::Barrier::new(th as usize);
                let ready = std::sync::atomic::AtomicU64::new(0);
                let end = std::time::Duration::from_millis(ms);
                let seen: Vec<Vec<std::collections::BTreeSet<String>>> = std::thread::scope(|sc| {
                    let hs: Vec<_> = (0..th)
                        .map(|t| {
                            let (jobs, gate, ready) = (&jobs, &gate, &ready);
                            std::thread::Builder::new()
                                .stack_size(16 << 20)
                                .spawn_scoped(sc, move || {
                                    let mut m = Mix(0x1234_5678 + t * 7919 + n as u64);
                                    let mut seen = vec![std::collections::BTreeSet::new(); jobs.len()];
                                    gate.wait();
                                    let t0 = std::time::Instant::now();
                                    // as nearly at once as can be
                                    ready.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                    while ready.load(std::sync::atomic::Ordering::Relaxed) < th && t0.elapsed().as_micros() < 500 {
                                        std::hint::spin_loop();
                                    }
                                    let mut i = 0;
                                    // every job once by every thread, and then at random
                                    while i < jobs.len() || t0.elapsed() < end {
                                        let x = m.next();
                                        let j = if i < jobs.len() { (i + t as usize) % jobs.len() } else { (x >> 8) as usize % jobs.len() };
                                        i += 1;
                                        let o = self.job(&jobs[j], x & 1 == 1);
                                        if seen[j].len() < 4 {
                                            seen[j].insert(o);
                                        }
                                    }
                                    seen
                                })
                                .unwrap()
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![["[\"failed\"]".to_string()].into(); jobs.len()])).collect()
                });
                let rows: Vec<String> = jobs
                    .iter()
                    .enumerate()
                    .map(|(j, job)| {
                        let mut all = std::collections::BTreeSet::new();
                        for s in &seen {
                            all.extend(s[j].iter().cloned());
                        }
                        let f: Vec<&str> = w[3 + j].split(':').collect();
                        let a = match job { Job::Enc(a, ..) | Job::Dec(a, ..) | Job::Gen(a, _) => *a };
                        format!(
                            "{{\"k\":{},\"alg\":{},\"x\":{},\"y\":{},\"outs\":[{}]}}",
                            q(f[0]), q(self.algs[a].name()), q(f[1]), q(f[2]), all.into_iter().collect::<Vec<_>>().join(",")
                        )
                    })
                    .collect();
                ev.list("jobs", &rows);
            }
            "wrap" => {
                let a = self.alg(w[1]);
                let (x, y) = (unhex(w[3]), unhex(w[4]));
                let r = env.rngs.get_mut(w[2]).expect("harness: rng");
                ev.s("alg", w[1]).s("r", w[2]).i("p0", r.pos).b("a", &x).b("b", &y);
                let (out, v) = call(|| Ok(self.algs[a].wrap(r, &x, &y)));
                let v = v.flatten();
                if v.is_none() && out == "ok" {
                    return None;
                }
                ev.i("p1", r.pos).s("out", out);
                let rows: Vec<String> = v
                    .unwrap_or_default()
                    .iter()
                    .map(|(n, x, y)| format!("[{},{},{}]", q(n), q(&hex(x)), q(&hex(y))))
                    .collect();
                ev.list("rows", &rows);
            }
            x => panic!("harness: op {x}"),
        }
        Some(ev.end())
    }

    /// the outcome of a job as a JSON list; `fresh`: on a key imported again, if it can be
    fn job(&self, j: &Job, fresh: bool) -> String {
        let (_, v) = call(|| match j {
            Job::Enc(a, e, m) => {
                let b = e.bytes();
                let e2 = if fresh { self.algs[*a].load_ek(&b) } else { None };
                let e: &dyn Ek = match &e2 { Some(x) => &**x, None => &***e };
                let (c, k) = match e.encdet(m) {
                    Some(r) => r?,
                    None => e.enc(&mut Scripted::new(m.clone(), None, false))?,
                };
                Ok(vec![hex(&c.bytes()), hex(&k), hex(&e.bytes())])
            }
            Job::Dec(a, d, c) => {
                let d2 = if fresh { d.bytes().and_then(|b| self.algs[*a].load_dk(&b)) } else { None };
                let d: &dyn Dk = match &d2 { Some(x) => &**x, None => &***d };
                let k = d.dec(&***c)?;
                Ok(vec![hex(&k), hex(&d.bytes().unwrap_or_default())])
            }
            Job::Gen(a, x) => {
                let (d, e) = match self.algs[*a].gendet(x) {
                    Some((d, e)) => (d, Some(e)),
                    None => self.algs[*a].gen(&mut Scripted::new(x.clone(), None, false)),
                };
                let e = e.or_else(|| d.public()).ok_or("public")?;
                Ok(vec![hex(&d.bytes().unwrap_or_default()), hex(&e.bytes())])
            }
        });
        let v: Vec<String> = v.unwrap_or(vec!["failed".into()]).iter().map(|x| q(x)).collect();
        format!("[{}]", v.join(","))
    }

    fn finish_load(&self, env: &mut Env, ev: &mut Ev, kind: &str, h: &str, a: usize, b: &[u8]) {
        let (out, v) = call(|| {
            let x = self.load(kind, a, b).ok_or("rejected".to_string())?;
            let bytes = x.bytes();
            Ok((x, bytes))
        });
        ev.s("out", out);
        if let Some((x, bytes)) = v {
            ev.b("b", &bytes);
            env.objs.insert(h.into(), x);
        }
    }

    /// One exchange; `i` also selects how keys and ciphertext travel.
    fn honest(&self, a: usize, seed: u64, i: u64) -> Result<(String, String), String> {
        let mut m = Mix(seed.wrapping_mul(1_000_003).wrapping_add(i));
        let mut data = m.bytes(4096);
        // unusual randomness now and then: constant, nearly constant or sparse
        let name = self.algs[a].name();
        let nist = !name.starts_with("mlkem") && name != "xwing" && name != "x25519";
        if i % 5 == 4 {
            let c = [0u8, 255, 1, 128, 0x55, 0xaa][(i / 5 % 6) as usize];
            let len = data.len();
            let (lo, hi) = match i / 30 % 4 {
                0 => (0, 32),
                1 => (32, 64),
                2 => (64, 128),
                _ if nist => (128, 160),
                _ => (0, len),
            };
            for x in &mut data[lo..hi] {
                *x = c;
            }
            if i / 120 % 2 == 1 {
                data[(i / 240 % 96) as usize] ^= 1 << (i % 8);
            }
        }
        if name == "p521" {
            // (else hardly any block is a scalar)
            data.iter_mut().step_by(66).for_each(|x| *x &= 1);
        }
        let mut r = Scripted::new(data.clone(), None, false);
        let alg = &self.algs[a];
        let via_det = i % 3 == 1;
        let (mut d, mut e) = match if via_det { alg.gendet(&data[..64]) } else { None } {
            Some((d, e)) => {
                r.pos = 64;
                (d, e)
            }
            None => {
                let (d, e) = match if i % 8 == 6 { alg.gen2(&mut r) } else { None } {
                    Some(x) => x,
                    None => alg.gen(&mut r),
                };
                let e = e.or_else(|| d.public()).expect("harness: ek");
                (d, e)
            }
        };
        let recode_dk = |d: Box<dyn Dk>| d.bytes().and_then(|b| alg.load_dk(&b)).unwrap_or(d);
        let recode_ek = |e: Box<dyn Ek>| alg.load_ek(&e.bytes()).expect("harness: ek");
        let t = i % 7;
        if t & 1 != 0 {
            d = recode_dk(d);
        }
        if t & 2 != 0 {
            e = recode_ek(e);
        }
        if t & 4 != 0 {
            e = d.public().unwrap_or(e);
        }
        if i % 4 == 3 {
            let keep = d;
            d = keep.clone_().unwrap_or(keep);
            e = recode_ek(e.clone_().unwrap_or(e));
        }
        let ek_det = if i % 2 == 1 { e.encdet(&data[64..96]) } else { None };
        let (c, k) = match ek_det {
            Some(x) => x?,
            None => e.enc(&mut r)?,
        };
        let c = alg.load_ct(&c.bytes()).expect("harness: ct").clone_();
        if i % 3 == 2 {
            d = recode_dk(d);
        }
        Ok((hex(&k), hex(&d.dec(&*c)?)))
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let script = std::fs::read_to_string(&args[1]).expect("script");
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[2]).expect("out"));
    std::panic::set_hook(Box::new(|i| {
        let p = i.payload();
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        if m.contains("harness:") {
            eprintln!("{m} at {:?}", i.location());
            std::process::exit(3);
        }
        MSG.with(|c| *c.borrow_mut() = m);
    }));
    let ctx = Ctx { algs: algs() };
    // traces: id and lines
    let mut traces: Vec<(&str, Vec<Vec<&str>>)> = vec![];
    for line in script.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        if w[0] == "T" {
            traces.push((w[1], vec![]));
        } else {
            traces.last_mut().expect("T first").1.push(w);
        }
    }
    let threads: usize = args.get(3).map_or(1, |x| x.parse().unwrap());
    if threads <= 1 {
        for (id, lines) in &traces {
            let s = run_trace(&ctx, id, lines);
            out.write_all(s.as_bytes()).unwrap();
            out.flush().unwrap();
        }
    } else {
        // traces distributed over threads, all running at once
        let results: Vec<(usize, String)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|k| {
                    let (ctx, traces) = (&ctx, &traces);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let mut v = vec![];
                            let mut i = k;
                            while i < traces.len() {
                                v.push((i, run_trace(ctx, traces[i].0, &traces[i].1)));
                                i += threads;
                            }
                            v
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        let mut r = results;
        r.sort();
        for (_, s) in r {
            out.write_all(s.as_bytes()).unwrap();
        }
    }
}

fn run_trace(ctx: &Ctx, id: &str, lines: &[Vec<&str>]) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| run_trace_inner(ctx, id, lines)));
    match r {
        Ok(s) => s,
        Err(_) => {
            let m = MSG.with(|m| m.borrow().clone());
            if m.contains("harness:") {
                eprintln!("trace {id}: {m}");
                std::process::exit(3);
            }
            // the library panicked where no call of it is expected to
            format!("{{\"id\":\"{id}\",\"ev\":[{{\"op\":\"crash\",\"n\":0}}]}}\n")
        }
    }
}

fn run_trace_inner(ctx: &Ctx, id: &str, lines: &[Vec<&str>]) -> String {
    let mut env = Env::default();
    let mut evs: Vec<String> = vec![];
    let mut i = 0;
    while i < lines.len() {
        if lines[i][0] != "par" {
            evs.extend(ctx.exec(&mut env, i + 1, &lines[i], 0));
            i += 1;
            continue;
        }
        // par: the lines up to join are split by their leading thread number
        let mut groups: BTreeMap<usize, Vec<(usize, Vec<&str>)>> = BTreeMap::new();
        i += 1;
        while lines[i][0] != "join" {
            let t: usize = lines[i][0].trim_start_matches('|').parse().expect("harness: thread");
            groups.entry(t).or_default().push((i + 1, lines[i][1..].to_vec()));
            i += 1;
        }
        i += 1;
        let gate = std::sync::Barrier::new(groups.len());
        let base = &env;
        let done: Vec<(Env, Vec<String>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = groups
                .iter()
                .map(|(t, ops)| {
                    let mut e = base.clone();
                    let gate = &gate;
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            gate.wait();
                            let mut v = vec![];
                            for (n, w) in ops {
                                v.extend(ctx.exec(&mut e, *n, w, *t));
                            }
                            (e, v)
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter()
                .map(|h| {
                    h.join().unwrap_or_else(|_| (Env::default(), vec!["{\"op\":\"crash\",\"n\":0}".to_string()]))
                })
                .collect()
        });
        for (e, v) in done {
            for (k, o) in e.objs {
                env.objs.entry(k).or_insert(o);
            }
            for (k, r) in e.rngs {
                let cur = env.rngs.entry(k).or_insert_with(|| r.clone());
                if r.pos > cur.pos {
                    *cur = r;
                }
            }
            evs.extend(v);
        }
    }
    let mut s = format!("{{\"id\":\"{id}\",\"ev\":[");
    s.push_str(&evs.join(","));
    s.push_str("]}\n");
    s
}
