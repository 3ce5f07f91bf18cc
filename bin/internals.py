"""C09, C10, C11: the internals of ml-kem, and the same facts through the public interface."""
import craft
from vlib import *

Q = 3329
EXT = [0, 1, 2, 3327, 3328, 1664, 1665, 832, 833, 2496, 2497]


def N(quick, thorough):
    return thorough if THOROUGH else quick


def hp(p): return b"".join(x.to_bytes(2, "little") for x in p).hex()
def const(v): return [v] * 256


def rpoly(c, kind, m=Q):
    """a polynomial with coefficients below m: random, extreme, sparse, ..."""
    r = c.rnd
    if kind == "rand":
        return [r.randrange(m) for _ in range(256)]
    if kind == "ext":
        return [r.choice([x % m for x in EXT] + [m - 1, m - 1, 0]) for _ in range(256)]
    if kind == "max":
        return [m - 1] * 256
    if kind == "alt":
        a, b = r.choice([0, 1, m - 1]), r.randrange(m)
        return [a if i % 2 else b for i in range(256)]
    if kind == "unit":
        p = [0] * 256
        p[r.randrange(256)] = r.choice([1, m - 1, r.randrange(m)])
        return p
    if kind == "block":
        n = 2 ** r.randrange(1, 8)
        return [(m - 1 if (i // n) % 2 else r.randrange(2)) for i in range(256)]
    raise KeyError(kind)


KINDS = ["rand", "ext", "max", "alt", "unit", "block"]


def inv(x): return pow(x, Q - 2, Q)
GAMMA = [pow(17, 2 * int(format(i, "07b")[::-1], 2) + 1, Q) for i in range(128)]


def two_products(c, x):
    """(a, b, d, e) below q with a*b + d*e = x, or None"""
    m = Q - 1
    for _ in range(60):
        a = c.rnd.randrange(max(1, x // (2 * m) - 200), Q) if x > m else c.rnd.randrange(1, Q)
        d = c.rnd.randrange(max(1, min(m, x // (2 * m))), Q)
        g = __import__("math").gcd(a, d)
        if g != 1:
            continue
        b0 = x * pow(a, -1, d) % d if d > 1 else 0
        lo = max(0, -(-(x - m * d) // a))
        b = b0 + (-(-(lo - b0) // d)) * d if lo > b0 else b0
        if b <= m and x - a * b >= 0 and (x - a * b) // d <= m:
            return a, b, d, (x - a * b) // d
    return None


def threshold_products(c, count):
    """pairs (f, g) whose component products, before reduction, sit on multiples of q"""
    tops = list(range(1, 2 * (Q - 1) ** 2 // Q + 1))
    c.rnd.shuffle(tops)
    tops = [2 * (Q - 1) ** 2 // Q, 2 * (Q - 1) ** 2 // Q - 1, 1, 2] + tops
    out, it = [], iter(tops * 4)
    for _ in range(count):
        f, g = [0] * 256, [0] * 256
        for i in range(128):
            x = next(it) * Q + c.rnd.choice([-1, 0, 1, -2, 1])
            s = two_products(c, min(x, 2 * (Q - 1) ** 2))
            if s is None:
                s = (Q - 1,) * 4
            a, b, d, e = s
            if c.rnd.random() < 0.5:      # c1 = a0 b1 + a1 b0
                f[2 * i], g[2 * i + 1], f[2 * i + 1], g[2 * i] = a, b, d, e
            else:                         # c0 = a0 b0 + a1 (b1 gamma)
                f[2 * i], g[2 * i], f[2 * i + 1], g[2 * i + 1] = a, b, d, e * inv(GAMMA[i]) % Q
        out.append((f, g))
    return out


def start(c):
    """the internals harness, or None when this tree does not offer the internals under these names"""
    try:
        return build("hooks", "release", True, "internals"), build("hooks", "dev", True, "internals")
    except BuildFailed as e:
        log("the internals are not reachable under the names the harness uses: public interface only\n" + str(e)[-600:])
        c.assume.append("internal functions not reachable in this tree (harness does not build): only the public interface was exercised")
        return None


def lemmas(c):
    cfg = "LemmasAll.cfg" if THOROUGH else "Lemmas.cfg"
    rc, out, st = tlc("Lemmas.tla", cfg, c.work)
    if rc != 0:
        raise ToolError("Lemmas: " + out[-2000:])
    c.cov["lemma_states"] = st[1]
    c.cov["states"] += st[1]
    c.cov["transitions"] += st[0]


def finish(c, exes, s):
    for prof, exe in zip(("release", "dev"), exes):
        c.conform(exe, s, tag=prof, module="InternalTrace.tla", cfg="InternalTrace.cfg")


def C09(c):
    lemmas(c)
    exes = start(c)
    s = Script()
    # the tables of + - *: some rows in full, all of them by their digests
    for op in (0, 1, 2):
        t = s.trace("C09-table%d" % op)
        for a in EXT:
            t("ftab", op, a)
    for lo in range(0, Q, 64):
        for op in (0, 1, 2):
            s.trace("C09-rows%d-%d" % (op, lo))("fall", op, lo)
    for at in (sorted(set([0, 1, 2, 63, 64, 127, 128, 129, 254, 255] + c.rnd.sample(range(256), 38))) if not THOROUGH else range(256)):
        for dir in (0, 1):
            s.trace("C09-multiples%d-%d" % (at, dir))("units", dir, at)
    # sums of two products before their reduction: (u, v) fixed, all the pairs of other factors
    pairs = [(Q - 1, 1), (Q - 1, Q - 2)] + [(Q - 1, Q - 1 - d) for d in N((3, 8, 20, 39), range(2, 40))]
    pairs += [(c.rnd.randrange(3000, Q), c.rnd.randrange(3000, Q)) for _ in range(N(2, 12))]
    for i, (u, v) in enumerate(pairs):
        for lo in range(0, Q, 64):
            for mode in (0, 1):
                s.trace("C09-sums%d-%d-%d" % (i, lo, mode))("sums", mode, lo, u.to_bytes(2, "little").hex() + v.to_bytes(2, "little").hex())
    for i in range(N(16, 120)):
        t = s.trace("C09-poly%d" % i)
        for kf in KINDS:
            kg = c.rnd.choice(KINDS)
            f, g = hp(rpoly(c, kf)), hp(rpoly(c, kg))
            for op in ("padd", "psub", "nadd", "nmul"):
                t(op, 0, 0, f, g)
            t("smul", c.rnd.choice(EXT + [3303]), 0, f)("ntt", 0, 0, f)("inv", 0, 0, g)
    # every unit vector, in both directions
    for ch in range(0, 256, 16):
        t = s.trace("C09-unit%d" % ch)
        for i in range(ch, ch + 16):
            for v in (1, Q - 1, 1665):
                p = [0] * 256
                p[i] = v
                t("ntt", 0, 0, hp(p))("inv", 0, 0, hp(p))
    # products through the transform against the product in the ring
    for i in range(N(16, 100)):
        t = s.trace("C09-ring%d" % i)
        t("ring", 0, 0, hp(rpoly(c, KINDS[i % 6])), hp(rpoly(c, c.rnd.choice(KINDS))))
        t("ring", 0, 0, hp(const(Q - 1 - i % 2)), hp(rpoly(c, "ext")))
    for i, (f, g) in enumerate(threshold_products(c, N(110, 200))):
        t = s.trace("C09-threshold%d" % i)
        t("nmul", 0, 0, hp(f), hp(g))("nmul", 0, 0, hp(g), hp(f))
    for k in (2, 3, 4):
        for i in range(N(6, 60)):
            t = s.trace("C09-vec%d-%d" % (k, i))
            v = ["".join(hp(rpoly(c, "max" if i == 0 else c.rnd.choice(KINDS))) for _ in range(k)) for _ in range(2)]
            for op in ("vadd", "vpadd", "vdot"):
                t(op, k, 0, v[0], v[1])
            t("vntt", k, 0, v[0])("vinv", k, 0, v[1])
            for tr in (0, 1):
                t("mat", k, tr, c.rand(32).hex(), v[tr])
    if exes:
        finish(c, exes, s)
    public(c, "C09")


def C10(c):
    exes = start(c)
    s = Script()
    for d in (1, 4, 5, 10, 11):
        t = s.trace("C10-comp%d" % d)
        vals = list(range(Q)) + [0] * (256 * 14 - Q)
        for off in (0, 5):        # every value, at two positions
            for i in range(0, len(vals), 256):
                ch = vals[i:i + 256]
                t("comp", d, 0, hp(ch[off:] + ch[:off]))
        t = s.trace("C10-decomp%d" % d)
        vals = list(range(2 ** d)) * max(1, 256 // 2 ** d)
        for off in (0, 3):
            for i in range(0, len(vals), 256):
                ch = vals[i:i + 256]
                t("decomp", d, 0, hp(ch[off:] + ch[:off]))
    for d in (1, 4, 5, 10, 11, 12):
        m = Q if d == 12 else 2 ** d
        for ch in range(0, 256, 32):
            t = s.trace("C10-pos%d-%d" % (d, ch))
            # each position alone, with single bits, against zero and full neighbours
            for i in range(ch, ch + 32):
                for v, bg in ((m - 1, 0), (0, m - 1), (1, 0), (1 << (d - 1), 0), (c.rnd.randrange(m), c.rnd.randrange(m))):
                    p = [bg] * 256
                    p[i] = v % m
                    t("enc", d, 0, hp(p))
                    if d == 12:
                        t("nenc", 0, 0, hp(p))
                b = bytearray(32 * d)
                for j in range(d):
                    bit = i * d + j
                    b2 = bytearray(b)
                    b2[bit // 8] |= 1 << (bit % 8)
                    t("dec", d, 0, bytes(b2).hex())
                if d == 12:
                    for v in (Q - 1, Q, Q + 1, 4095, c.rnd.randrange(Q, 4096)):
                        b2 = bytearray(b)
                        for j in range(12):
                            if v >> j & 1:
                                b2[(12 * i + j) // 8] |= 1 << ((12 * i + j) % 8)
                        t("ndec", 0, 0, bytes(b2).hex())("dec", 12, 0, bytes(b2).hex())
        t = s.trace("C10-random%d" % d)
        for i in range(N(30, 300)):
            t("enc", d, 0, hp(rpoly(c, c.rnd.choice(KINDS), m)))("dec", d, 0, c.rand(32 * d).hex())
    # every 12-bit value
    t = s.trace("C10-twelve")
    for i in range(0, 4096, 256):
        x = sum((i + j) << (12 * j) for j in range(256)).to_bytes(384, "little").hex()
        t("ndec", 0, 0, x)("dec", 12, 0, x)
    for k in (2, 3, 4):
        du = 11 if k == 4 else 10
        for i in range(N(4, 40)):
            t = s.trace("C10-vec%d-%d" % (k, i))
            v = "".join(hp(rpoly(c, c.rnd.choice(KINDS))) for _ in range(k))
            w = "".join(hp(rpoly(c, c.rnd.choice(KINDS), 2 ** du)) for _ in range(k))
            t("vcomp", k, du, v)("vdecomp", k, du, w)("venc", k, du, w)("venc", k, 12, v)
            t("vdec", k, du, c.rand(32 * du * k).hex())("vdec", k, 12, c.rand(384 * k).hex())
    if exes:
        finish(c, exes, s)
    public(c, "C10")


def stream_of(c, cands, tail=b""):
    """packs 12-bit candidates into bytes"""
    if len(cands) % 2:
        cands = cands + [c.rnd.randrange(Q)]
    out = bytearray()
    for a, b in zip(cands[::2], cands[1::2]):
        out += bytes([a & 255, (a >> 8) | ((b & 15) << 4), b >> 4])
    return bytes(out) + tail


def reject_patterns(c):
    """candidate lists with at least 256 acceptable values"""
    r = c.rnd
    ok = lambda: r.choice([r.randrange(Q), r.randrange(Q), Q - 1, 0, 3328, 2048])
    bad = lambda: r.choice([Q, Q + 1, 4095, 3330, 3584, r.randrange(Q, 4096)])
    out = []
    # a single rejection, or a run of them, anywhere; runs across the ends of squeezed blocks and buffers
    for at in list(range(0, 12)) + [55, 56, 57, 62, 63, 64, 65, 66, 110, 111, 112, 113, 126, 127, 128, 129, 190, 191, 192, 193, 224, 223] + list(range(244, 258)):
        for n in (1, 2, 3, 64, 65):
            out.append([ok() for _ in range(at)] + [bad() for _ in range(n)] + [ok() for _ in range(260)])
    # all combinations of accept/reject on six consecutive candidates at various places
    for at in (0, 1, 60, 61, 250, 251):
        for m in range(64):
            out.append([ok() for _ in range(at)] + [bad() if m >> j & 1 else ok() for j in range(6)] + [ok() for _ in range(262)])
    # alternating; only first or only second numbers acceptable; long runs; densities
    out.append([x for _ in range(260) for x in (ok(), bad())])
    out.append([x for _ in range(260) for x in (bad(), ok())])
    for n in (63, 64, 65, 127, 128, 256, 512, 1000):
        out.append([bad() for _ in range(n)] + [ok() for _ in range(260)])
        out.append([ok() for _ in range(255)] + [bad() for _ in range(n)] + [ok() for _ in range(8)])
    for _ in range(N(60, 600)):
        p, cand, good = r.choice([0.05, 0.19, 0.5, 0.8, 0.95]), [], 0
        while good < 262:
            if r.random() < p:
                cand.append(bad())
            else:
                cand.append(ok())
                good += 1
        out.append(cand)
    # values at the limit
    out.append([Q - 1, Q] * 260)
    out.append([Q, Q - 1] * 260)
    out.append([Q - 1] * 260)
    out.append([0] * 260)
    out.append([(i * 16 + 15) % Q for i in range(260)])
    return out


def reader(c):
    """the model of the buffered sampler: exhaustive for small numbers; streams from it for the real ones"""
    rc, out, st = tlc("Reader.tla", "Reader.cfg", c.work)
    if rc != 0:
        raise ToolError("Reader: " + out[-2000:])
    c.cov["states"] += st[1]
    c.cov["transitions"] += st[0]
    rc, out, _ = tlc("Reader.tla", "ReaderGen.cfg", c.work, workers=1,
                     extra=["-simulate", "num=%d" % N(120, 1500), "-depth", "8000", "-seed", str(SEED * 31 + 7)])
    pats = [json.loads(json.loads(l)[7:]) for l in out.splitlines() if l.startswith('"STREAM ')]
    if rc != 0 or not pats:
        raise ToolError("Reader streams: " + out[-2000:])
    lo, hi = [0, 1, 255, 256, 1664, 3327, 3328], [3329, 3330, 3583, 3584, 4094, 4095]
    r = c.rnd
    out = []
    for p in pats:
        near = r.random() < 0.5
        def low(): return r.choice(lo) if near else r.randrange(Q)
        def high(): return r.choice(hi) if near else r.randrange(Q, 4096)
        out.append([x for t in p for x in (low() if t & 2 else high(), low() if t & 1 else high())])
    log("reader: %d states; %d streams of %d to %d candidates" % (st[1], len(out), min(map(len, out)), max(map(len, out))))
    return out


def C11(c):
    exes = start(c)
    s = Script()
    for i, p in enumerate(reader(c)):
        # the stream ends right there, or goes on with candidates of either kind
        s.trace("C11-reader%d" % i)("unif", 0, 0, stream_of(c, p, c.rand(96) if i % 3 else bytes([255 * (i % 2)]) * 300).hex())
    pats = reject_patterns(c)
    for ch in range(0, len(pats), 12):
        t = s.trace("C11-uniform%d" % ch)
        for p in pats[ch:ch + 12]:
            t("unif", 0, 0, stream_of(c, p, c.rand(c.rnd.choice([0, 3, 96]))).hex())
    # every candidate value in both places
    t = s.trace("C11-values")
    for i in range(0, 4096, 128):
        v = [i + j for j in range(128)]
        t("unif", 0, 0, stream_of(c, v + [c.rnd.randrange(Q) for _ in range(260)]).hex())
        t("unif", 0, 0, stream_of(c, [c.rnd.randrange(Q)] + v + [c.rnd.randrange(Q) for _ in range(261)]).hex())
    for eta in (2, 3):
        t = s.trace("C11-cbd%d" % eta)
        n = 64 * eta
        # every value of the bits of one coefficient, everywhere
        for v in range(2 ** (2 * eta)):
            t("cbd", eta, 0, sum(v << (2 * eta * i) for i in range(256)).to_bytes(n, "little").hex())
        for i in range(8):
            t("cbd", eta, 0, bytes([1 << i] * n).hex())
        for i in range(N(60, 400)):
            t("cbd", eta, 0, c.rand(n).hex())
        for bit in [c.rnd.randrange(8 * n) for _ in range(40)]:
            t("cbd", eta, 0, (1 << bit).to_bytes(n, "little").hex())
        t = s.trace("C11-prf%d" % eta)
        for b in range(256):
            t("prf", eta, b, c.rand(32).hex())
        for x in corners(32):
            t("prf", eta, c.rnd.randrange(256), x.hex())
        for k in (2, 3, 4):
            t = s.trace("C11-vcbd%d-%d" % (eta, k))
            for st in (0, k, 2 * k, 250):
                t("vcbd", k, eta, c.rand(32).hex(), st)
    t = s.trace("C11-xof")
    for i in range(5):
        for j in range(5):
            t("xof", i, j, c.rand(32).hex())
    for x in corners(32):
        t("xof", 255, 254, x.hex())("hash", 0, 0, x.hex())("hash", 1, 0, x.hex(), c.rand(32).hex())("hash", 2, 0, x.hex(), c.rand(100).hex())
    for l in (1, 33, 135, 136, 137, 271, 272, 273, 800, 1184, 1568):
        t("hash", 0, 0, c.rand(l).hex())
    for l in (768, 1088, 1568):
        t("hash", 2, 0, c.rand(32).hex(), c.rand(l).hex())
    for k in (2, 3, 4):
        t = s.trace("C11-matrix%d" % k)
        for tr in (0, 1):
            for col in range(k):
                v = "".join(hp(const(0) if j != col else [1 if i % 2 == 0 else 0 for i in range(256)]) for j in range(k))
                t("mat", k, tr, c.rand(32).hex(), v)
    if exes:
        finish(c, exes, s)
    public(c, "C11")


def long_rhos(c, k, tries, keep):
    """seeds whose matrix needs the most candidates (or a rejection in special places)"""
    import hashlib
    best = []
    for _ in range(tries):
        rho = c.rand(32)
        worst = 0
        for i in range(k):
            for j in range(k):
                b = hashlib.shake_128(rho + bytes([j, i])).digest(504)
                good = 0
                for n in range(0, 504, 3):
                    good += (b[n] | (b[n + 1] & 15) << 8) < Q
                    good += (b[n + 1] >> 4 | b[n + 2] << 4) < Q
                worst = max(worst, 336 - good)
        best.append((worst, rho))
    best.sort(reverse=True)
    return [r for _, r in best[:keep]]


def public(c, pid):
    """the same facts where only the public interface shows them"""
    from props import ek_coefs, HOWS
    exe = build("mlkem,ml-det")
    s = Script()
    for a in ML:
        k, kk = K[a], 384 * K[a]
        rhos = long_rhos(c, k, N(150, 1500), N(12, 100)) if pid == "C11" else []
        for i in range(N(16, 200)):
            t = s.trace("%s-%s-%d" % (pid, a, i))
            t("gendet", "D", "E", a, c.rand(64).hex())("encdet", "K", "C", "E", c.rand(32).hex())("dec", "S", "D", "C")
            rho = rhos[i] if i < len(rhos) else c.rand(32)
            t("load", "ek", "X", a, (ek_coefs(c, a, HOWS[i % len(HOWS)]) + rho).hex())
            t("encdet", "K2", "C2", "X", c.rand(32).hex())("encdet", "K3", "C3", "X", c.rand(32).hex())
            t("load", "dk", "Y", a, (ek_coefs(c, a, HOWS[(i + 1) % len(HOWS)]) + ek_coefs(c, a, "any") + c.rand(96)).hex())
            t("load", "ct", "Z", a, (bytes([c.rnd.choice([0, 255, 85])]) * CTS[a] if i % 5 == 0 else c.rand(CTS[a])).hex())
            t("dec", "S2", "Y", "Z")("dec", "S3", "Y", "C")
    c.conform(exe, s, tag="public")


CHECKS = {
    "C09": ("exploration", "the whole tables of + - * (digests), all multiples of powers of X transformed (digests), products over all pairs of factors for several fixed ones (digests), unit vectors, products at multiples of q before reduction, extremes; non-trivial: distinct operands", C09),
    "C10": ("exploration", "every value of every width at several positions, every bit position, random; non-trivial: distinct operands", C10),
    "C11": ("exploration", "acceptance/rejection patterns of scripted streams, noise bit patterns, index bytes; non-trivial: distinct streams", C11),
}
