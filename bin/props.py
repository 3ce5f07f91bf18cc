"""One function per property: which executions are recorded and judged."""
import concurrent.futures

import craft
from vlib import *
from behave import behaviours, modelled, streams

FULL = "mlkem,ml-det,xwing,alldh"
# the same scripts in several configurations
MLV = ["mlkem,ml-det", "mlkem,ml-det,ml-std", "mlkem,ml-det,ml-zero"]
XWV = ["mlkem,ml-det,xwing", "mlkem,ml-det,ml-std,ml-zero,xwing,xw-zero,xw-os"]
FULLV = [FULL, FULL + ",xw-zero,x-zero,ml-zero,ml-std"]
ORDER = {"p256": 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
         "p384": 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
         "p521": 0x01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
         "k256": 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141}

FIELD_P = {"p256": 2**256 - 2**224 + 2**192 + 2**96 - 1, "p384": 2**384 - 2**128 - 2**96 + 2**32 - 1, "p521": 2**521 - 1, "k256": 2**256 - 2**32 - 977}
CURVE_AB = {"p256": (-3, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b),
            "p384": (-3, 0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef),
            "p521": (-3, 0x0051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00),
            "k256": (0, 7)}


def st2(limit=14):
    """two generators, the second soon exhausted"""
    return streams(("a", limit), ("b", 5))


def N(quick, thorough):
    return thorough if THOROUGH else quick


# ---------------------------------------------------------------- material
def seeds(c, n, ncorner):
    """(d, z) pairs: corners, related, random"""
    out, cs = [], corners()
    for i in range(ncorner):
        out.append((cs[i % len(cs)], cs[(i * 5 + i // len(cs)) % len(cs)]))
    while len(out) < n:
        d, z = c.rand(32), c.rand(32)
        k = len(out) % 6
        if k == 1 and out:
            d = flip(out[-1][0], c.rnd.randrange(256))      # related d
        elif k == 2 and out:
            d, z = out[-1][0], flip(out[-1][1], c.rnd.randrange(256))   # same d, other z
        elif k == 3:
            z = d
        elif k == 4:
            d = bytes(31) + bytes([c.rnd.randrange(256)])
        out.append((d, z))
    return out


def corpus(name):
    """(algorithm, d, m) of the exchanges searched for in advance, one per line"""
    with open(os.path.join(VERIF, "corpus", name + ".txt")) as f:
        rows = [l.split() for l in f if l[:1] not in "#\n"]
    return [(r[0], r[-2], r[-1]) for r in rows]


def small_points(a):
    """multiples of the generator of a with zero bytes at an end of a coordinate"""
    return [int(k) for b, _, k in corpus("points") if b == a]


def msg(c, i):
    cs = corners()
    return cs[i] if i < len(cs) else c.rand(32)


def scalar(a, v):
    """v as a field-size big-endian block"""
    return (v % ORDER[a]).to_bytes(FIELD[a], "big")


def draw(c, a):
    """the bytes one key generation or DH encapsulation of a draws"""
    if a in NIST:
        return scalar(a, c.rnd.randrange(1, ORDER[a]))
    return c.rand(32)


def gen_len(a): return 64 if a in ML else FIELD.get(a, 32)
def enc_len(a): return 32 if a in ML else 64 if a == "xwing" else FIELD[a]


def gen_draw(c, a):
    return draw(c, a) if a in NIST else c.rand(gen_len(a))


def enc_draw(c, a):
    return draw(c, a) if a in NIST else c.rand(enc_len(a))


def ek_coefs(c, a, how):
    """an encapsulation key whose coefficients are unusual"""
    k, r = K[a], c.rnd
    n = 256 * k
    co = {"max": lambda i: 4095, "q": lambda i: 3329, "q-1": lambda i: 3328, "zero": lambda i: 0, "one": lambda i: 1,
          "over": lambda i: r.randrange(3329, 4096), "any": lambda i: r.randrange(4096), "canon": lambda i: r.randrange(3329),
          "mixed": lambda i: r.choice([0, 1, 1664, 1665, 3328, 3329, 3330, 4095]),
          "alt": lambda i: 3328 if i % 2 else 0,
          "last": lambda i: 4095 if i % 256 == 255 else r.randrange(3329),
          "first": lambda i: 3329 if i % 256 == 0 else r.randrange(3329)}[how]
    v = [co(i) for i in range(n)]
    return b"".join(craft.enc(12, v[256 * i:256 * i + 256]) for i in range(k))


HOWS = ["max", "q", "q-1", "zero", "one", "over", "any", "canon", "mixed", "alt", "last", "first"]


def bit_patches(positions, bits=range(8)):
    return ["%d:%d" % (p, 1 << b) for p in positions for b in bits]


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def sweep(t, op, args, pts):
    t(op, *args, ";".join(pts))


# ---------------------------------------------------------------- C01
def C01(c):
    exe = variants(MLV)
    s = Script()
    per, m = N((6000, 12), (12000, 60))
    for a in ML:
        for i in range(m):
            s.trace("C01-%s-bulk%d" % (a, i))("honest", a, per, c.rnd.randrange(1 << 40))
        for i, (d, z) in enumerate(seeds(c, N(40, 400), 12)):
            t = s.trace("C01-%s-%d" % (a, i))
            t("rng", "R", (d + z + c.rand(128)).hex())
            t("gen", "D", "E", a, "R")("enc", "K1", "C1", "E", "R")("dec", "S1", "D", "C1")("eq", "K1", "S1")
            # handed on: cloned, exported, imported, public key taken from the private key, repeatedly
            t("recode", "D2", "D")("pub", "E2", "D2")("clone", "E3", "E2")("recode", "E4", "E3")
            t("enc", "K2", "C2", "E4", "R")("clone", "C3", "C2")("recode", "C4", "C3")
            t("dec", "S2", "D2", "C4")("dec", "S3", "D", "C2")("dec", "S4", "D2", "C1")("dec", "S5", "D", "C1")
            t("recode", "D3", "D2")("clone", "D4", "D3")("dec", "S6", "D4", "C2")("dec", "S7", "D4", "C1")
            t("eq", "D", "D4")("eq", "E", "E4")("drop", "D")("drop", "E")("dec", "S8", "D2", "C4")
            m0 = msg(c, i)
            t("encdet", "K5", "C5", "E2", m0.hex())("dec", "S9", "D4", "C5")
    for a in ML:
        for i in range(N(18, 90)):
            s.traces.append(mlsame(c, "C01-%s-same%d" % (a, i), a, i))
    for i, (a, _, d) in enumerate(corpus("rare")):
        t = s.trace("C01-%s-rare%d" % (a, i))
        t("gendet", "D", "E", a, d + c.rand(32).hex())("encdet", "K", "C", "E", c.rand(32).hex())("dec", "S", "D", "C")("eq", "S", "K")
    for i, (a, d, m1) in enumerate(corpus("noise")):
        t = s.trace("C01-%s-noise%d" % (a, i))
        t("gendet", "D", "E", a, d + "00" * 32)("encdet", "K1", "C1", "E", m1)("dec", "S1", "D", "C1")("eq", "K1", "S1")
        t("recode", "D2", "D")("pub", "E2", "D2")("recode", "C2", "C1")("dec", "S2", "D2", "C2")
        t("encdet", "K3", "C3", "E2", m1)("dec", "S3", "D", "C3")
    c.conform(exe, s, threads=8)
    modelled(c, exe, [([a], N(5, 6), 1, st2()) for a in N(["mlkem768"], ML)],
             [([a], N(12, 16), 1, st2(), N(60, 600)) for a in ML],
             [(["mlkem768"], 5, 2, st2())] + N([], [([a], 6, 2, st2()) for a in ML]))


# ---------------------------------------------------------------- C02
def C02(c):
    exe = variants(MLV)
    s = Script()
    n = N(2500, 12000)
    for a in ML:
        for i, (d, z) in enumerate(seeds(c, n, 24)):
            t = s.trace("C02-%s-%d" % (a, i))
            x = (d + z).hex()
            if i % 2 == 0:
                t("rng", "R", x + c.rand(8).hex())
                t("gen", "D", "E", a, "R")
            else:
                t("gendet", "D", "E", a, x)
            if i % 5 == 0:
                t("pub", "P", "D")("eq", "P", "E")("bytes", "D")("bytes", "E")
                t("gendet", "D2", "E2", a, x)("eq", "D", "D2")("eq", "E", "E2")
    for i, (a, _, d) in enumerate(corpus("rare")):
        s.trace("C02-%s-rare%d" % (a, i))("gendet", "D", "E", a, d + c.rand(32).hex())("bytes", "E")
    c.conform(exe, s)


# ---------------------------------------------------------------- C03
def C03(c):
    exe = variants(MLV)
    s = Script()
    n = N(160, 2000)
    for a in ML:
        for i in range(n):
            t = s.trace("C03-%s-honest%d" % (a, i))
            t("gendet", "D", "E", a, c.rand(64).hex())
            ms = [msg(c, 2 * i), msg(c, 2 * i + 1)]
            t("encdet", "K", "C", "E", ms[0].hex())
            t("rng", "R", ms[1].hex() + c.rand(5).hex())("enc", "K2", "C2", "E", "R")
            t("alias", "E2", "E", 0, 256 * K[a], c.rnd.randrange(256 * K[a]))("encdet", "K3", "C3", "E2", ms[0].hex())("eq", "K", "K3")
        for how in HOWS:
            for i in range(N(8, 80)):
                t = s.trace("C03-%s-%s%d" % (a, how, i))
                rho = msg(c, i) if i < 2 else c.rand(32)
                t("load", "ek", "E", a, (ek_coefs(c, a, how) + rho).hex())
                t("encdet", "K", "C", "E", msg(c, i).hex())("recode", "E2", "E")("encdet", "K2", "C2", "E2", msg(c, i).hex())
                t("rng", "R", c.rand(32).hex())("enc", "K3", "C3", "E2", "R")
        for i in range(N(40, 400)):
            t = s.trace("C03-%s-bytes%d" % (a, i))
            b = bytes([c.rnd.choice([0, 255, 1, 13])]) * eks(a) if i < 4 else c.rand(eks(a))
            t("load", "ek", "E", a, b.hex())("encdet", "K", "C", "E", c.rand(32).hex())
        # one key, many messages; one message, many related keys
        for i in range(N(4, 24)):
            t = s.trace("C03-%s-sweep%d" % (a, i))
            t("gendet", "D", "E", a, c.rand(64).hex())
            pos = [c.rnd.randrange(eks(a)) for _ in range(30)] + list(range(eks(a) - 32, eks(a)))
            sweep(t, "encsweep", ("E", c.rand(32).hex()), ["-"] + ["%d:%d" % (p, 1 << c.rnd.randrange(8)) for p in pos])
            base = c.rand(32)
            for j in range(N(24, 60)):
                t("encdet", "K%d" % j, "C%d" % j, "E", flip(base, c.rnd.randrange(256)).hex())
    for a in ML:
        fields(c, s, "C03", a, N(32, 300))
        for i in range(N(9, 90)):
            s.traces.append(mlsame(c, "C03-%s-same%d" % (a, i), a, i))
    for i, (a, _, d) in enumerate(corpus("rare")):
        t = s.trace("C03-%s-rare%d" % (a, i))
        t("gendet", "D", "E", a, d + "00" * 32)("encdet", "K", "C", "E", c.rand(32).hex())
        t("load", "ek", "F", a, (ek_coefs(c, a, "any") + craft.G(bytes.fromhex(d) + bytes([K[a]]))[0]).hex())("encdet", "K2", "C2", "F", c.rand(32).hex())
    c.conform(exe, s)


# ---------------------------------------------------------------- C04
def crafted(c, a, target, h=None):
    """(dk, ct) where decryption meets exactly the noisy polynomial `target`"""
    while True:
        dk, ek = craft.keygen(a, c.rand(32), c.rand(32))
        m = craft.bits_of(target)
        ct, _ = craft.encaps(a, ek, m, h)
        s = craft.secret_for(a, ct, target)
        if s is not None:
            return s + ek + (h if h is not None else craft.H(ek)) + c.rand(32), ct


def threshold_targets(c):
    """every value of the noisy polynomial, and many at the decision thresholds"""
    vals = list(range(craft.Q))
    out = [vals[i:i + 256] for i in range(0, craft.Q, 256)]
    out[-1] = out[-1] + vals[:256 - len(out[-1])]
    edge = [832, 833, 2496, 2497, 831, 834, 2495, 2498, 0, 3328, 1664, 1665]
    out += [[v] * 256 for v in edge]
    for _ in range(N(10, 200)):
        out.append([c.rnd.choice(edge) for _ in range(256)])
    return out


def C04(c):
    exe = variants(MLV)
    s = Script()
    for a in ML:
        kk = 384 * K[a]
        cts = CTS[a]
        for i, tg in enumerate(threshold_targets(c)):
            dk, ct = crafted(c, a, tg)
            t = s.trace("C04-%s-noise%d" % (a, i))
            t("load", "dk", "D", a, dk.hex())("load", "ct", "C", a, ct.hex())("dec", "S", "D", "C")
            # the same with one coefficient carried over the threshold
            j = c.rnd.randrange(256)
            tg2 = list(tg)
            tg2[j] = c.rnd.choice([833, 2496] if craft.comp(1, tg[j]) == 0 else [832, 2497])
            s2 = craft.secret_for(a, ct, tg2)
            t("load", "dk", "D2", a, (s2 + dk[kk:]).hex())("dec", "S2", "D2", "C")
        # the stored hash decides
        for i in range(N(20, 200)):
            d, z, m = c.rand(32), c.rand(32), c.rand(32)
            dk, ek = craft.keygen(a, d, z)
            h = corners()[i % 12] if i % 2 else flip(craft.H(ek), c.rnd.randrange(256))
            ct, _ = craft.encaps(a, ek, m, h)
            ct0, _ = craft.encaps(a, ek, m)
            dk2 = dk[:2 * kk + 32] + h + z
            t = s.trace("C04-%s-hash%d" % (a, i))
            t("load", "dk", "D", a, dk2.hex())("load", "ct", "C", a, ct.hex())("dec", "S", "D", "C")
            t("load", "ct", "C0", a, ct0.hex())("dec", "S0", "D", "C0")("recode", "D2", "D")("dec", "S1", "D2", "C")
            t("pub", "E", "D2")("encdet", "K", "C2", "E", m.hex())("dec", "S3", "D2", "C2")
        # honest exchanges, other encodings of the same key, foreign ciphertexts
        for i in range(N(60, 800)):
            t = s.trace("C04-%s-honest%d" % (a, i))
            t("gendet", "D", "E", a, c.rand(64).hex())("gendet", "D0", "E0", a, c.rand(64).hex())
            t("encdet", "K", "C", "E", msg(c, i).hex())("encdet", "K0", "C0", "E0", msg(c, i).hex())
            t("dec", "S", "D", "C")("dec", "S0", "D", "C0")("dec", "S1", "D0", "C")
            t("alias", "D1", "D", 0 if i % 2 else kk, 256 * K[a], c.rnd.randrange(256 * K[a]))("dec", "S2", "D1", "C")("dec", "S3", "D1", "C0")
            # parts of two keys and two ciphertexts
            part = [(0, kk), (kk, kk), (2 * kk, 32), (2 * kk + 32, 32), (2 * kk + 64, 32)][i % 5]
            t("splice", "D2", "D", part[0], part[1], "D0", part[0])("dec", "S4", "D2", "C")("dec", "S5", "D2", "C0")
            du = 32 * DU[a] * K[a]
            t("splice", "C2", "C", 0, du, "C0", 0)("dec", "S6", "D", "C2")("dec", "S7", "D0", "C2")
        for i in range(N(27, 270)):
            s.traces.append(mlsame(c, "C04-%s-same%d" % (a, i), a, i))
        fields(c, s, "C04", a, N(32, 300))
        # anything at all
        for i in range(N(60, 1500)):
            t = s.trace("C04-%s-any%d" % (a, i))
            dk = bytes([c.rnd.choice([0, 255, 13, 240])]) * dks(a) if i % 10 == 0 else c.rand(dks(a))
            if i % 4 == 1:
                dk = ek_coefs(c, a, c.rnd.choice(HOWS)) + ek_coefs(c, a, c.rnd.choice(HOWS)) + c.rand(96)
            ct = bytes([c.rnd.choice([0, 255, 1])]) * cts if i % 7 == 0 else c.rand(cts)
            t("load", "dk", "D", a, dk.hex())("load", "ct", "C", a, ct.hex())("dec", "S", "D", "C")
            t("pub", "E", "D")("encdet", "K", "C2", "E", c.rand(32).hex())("dec", "S2", "D", "C2")
        # a change anywhere in the ciphertext: the comparison is over all of it
        for i in range(N(1, 6)):
            x, m = c.rand(64).hex(), c.rand(32).hex()
            pts = ["%d:%d" % (p, 1 << c.rnd.randrange(8)) for p in range(cts)] + ["%d:%d" % (p, c.rnd.randrange(1, 256)) for p in range(cts)]
            pts += reject_patches(c, cts, 32 * DU[a] * K[a])
            for j, ch in enumerate(chunks(pts, 1000)):
                t = s.trace("C04-%s-ct%d-%d" % (a, i, j))
                t("gendet", "D", "E", a, x)("encdet", "K", "C", "E", m)
                sweep(t, "rejsweep", ("D", "C"), ["-"] + ch)
        # a change anywhere in the private key
        for i in range(N(2, 12)):
            t = s.trace("C04-%s-dk%d" % (a, i))
            t("gendet", "D", "E", a, c.rand(64).hex())("encdet", "K", "C", "E", c.rand(32).hex())
            pos = [c.rnd.randrange(2 * kk) for _ in range(40)] + list(range(2 * kk, 2 * kk + 96))
            sweep(t, "dksweep", ("D", "C"), ["-"] + ["%d:%d" % (p, 1 << c.rnd.randrange(8)) for p in pos])
    for i, (a, _, d) in enumerate(corpus("rare")):
        t = s.trace("C04-%s-rare%d" % (a, i))
        t("gendet", "D", "E", a, d + c.rand(32).hex())("encdet", "K", "C", "E", c.rand(32).hex())("dec", "S", "D", "C")("xor", "B", "C", "%d:%d" % (c.rnd.randrange(CTS[a]), 1 << c.rnd.randrange(8)))("dec", "S2", "D", "B")
    c.conform(exe, s)


def mlsame(c, name, a, i):
    """ML-KEM values that occur in two roles at once"""
    t = Trace(name)
    k = K[a]
    kk, cts = 384 * k, CTS[a]
    d = msg(c, i) if i % 5 == 0 else c.rand(32)
    z = [d, c.rand(32), flip(d, c.rnd.randrange(256)), bytes(32)][i % 4]
    dk, ek = craft.keygen(a, d, z)
    rho, h = ek[kk:], craft.H(ek)
    # the message is the key's d, z, rho, hash, what is derived from them, or the shared secret of another message
    m0 = c.rand(32)
    ct0, k0 = craft.encaps(a, ek, m0)
    ms = [d, z, rho, h, craft.G(d + bytes([k]))[1], craft.J(z + ct0), k0, craft.G(m0 + h)[1], craft.H(m0)]
    t("gendet", "D", "E", a, (d + z).hex())
    for j, m in enumerate([ms[i % 9], ms[(i + 4) % 9], m0]):
        t("encdet", "K%d" % j, "C%d" % j, "E", m.hex())("dec", "S%d" % j, "D", "C%d" % j)("eq", "S%d" % j, "K%d" % j)
    # the generator hands out the key's own values
    t("rng", "R", (z + d + ms[i % 9] + rho + h).hex())("gen", "D2", "E2", a, "R")("enc", "K3", "C3", "E2", "R")("dec", "S3", "D2", "C3")("enc", "K4", "C4", "E", "R")("dec", "S4", "D", "C4")("dec", "S5", "D2", "C4")
    # private keys whose parts repeat: s = t, z = hash, z = rho, all the same
    cur = "D"
    for j, (o, l, o2) in enumerate([(0, kk, kk), (kk, kk, 0), (2 * kk + 64, 32, 2 * kk + 32), (2 * kk + 64, 32, 2 * kk), (2 * kk + 32, 32, 2 * kk + 64), (2 * kk, 32, 2 * kk + 64)]):
        t("splice", "P%d" % j, "D", o, l, "D", o2)("pub", "Q%d" % j, "P%d" % j)("dec", "U%d" % j, "P%d" % j, "C2")
        t("encdet", "V%d" % j, "W%d" % j, "Q%d" % j, ms[(i + j) % 9].hex())("dec", "X%d" % j, "P%d" % j, "W%d" % j)("eq", "P%d" % j, "D")
    # ciphertexts that are parts of keys, or whose two parts repeat each other
    du = 32 * DU[a] * k
    src = (dk + ek + dk + ek)[i % 64:]
    t("load", "ct", "Y", a, src[:cts].hex())("dec", "SY", "D", "Y")
    t("splice", "Y2", "C2", du, cts - du, "C2", 0)("dec", "SY2", "D", "Y2")("splice", "Y3", "C2", 0, du // k, "C2", du // k)("dec", "SY3", "D", "Y3")
    t("splice", "Y4", "C2", 0, 32, "D", 2 * kk + 64)("dec", "SY4", "D", "Y4")
    # a public key that is rho over and over, or t = the packed rho
    t("load", "ek", "F", a, ((rho * (kk // 32)) + rho).hex())("encdet", "KF", "CF", "F", rho.hex())("dec", "SF", "D", "CF")
    return t


def patterned(c, a, i):
    """a private key whose fields are constant, or copies of each other, or honest"""
    r, kk = c.rnd, 384 * K[a]
    dk, ek = craft.keygen(a, c.rand(32), c.rand(32))
    f = {"s": dk[:kk], "t": ek[:kk], "rho": ek[kk:], "h": craft.H(ek), "z": dk[-32:]}
    names = ["s", "t", "rho", "h", "z"]
    const = [bytes([b]) for b in (0, 255, 1, 0x55, 0x80)]

    def put(n, how):
        size = len(f[n])
        if how < 5:
            f[n] = const[how] * size
        elif how == 5:
            f[n] = c.rand(size)
        else:
            o = f[r.choice([x for x in names if x != n])]
            f[n] = (o * (1 + size // len(o)))[:size]
    if i < 25:          # one field, one constant
        put(names[i // 5], i % 5)
    else:
        for n in r.sample(names, r.choice([1, 2, 2, 3, 5])):
            put(n, r.randrange(8) if i % 2 else 6)
    return b"".join(f[n] for n in names)


def canonical_hash(a, ek):
    """the hash of a public key as it is after import"""
    return craft.H(b"".join(craft.enc(12, [x % 3329 for x in craft.dec(12, ek[384 * i:384 * i + 384])]) for i in range(K[a])) + ek[-32:])


def fields(c, s, pid, a, count):
    """patterned keys of all kinds, exported, imported, compared, used"""
    kk = 384 * K[a]
    for i in range(count):
        b = patterned(c, a, i)
        ek = b[kk:2 * kk + 32]
        t = s.trace("%s-%s-fields%d" % (pid, a, i))
        t("load", "dk", "D", a, b.hex())("load", "ek", "E", a, ek.hex())("recode", "D2", "D")("recode", "E2", "E")("bytes", "D2")("bytes", "E2")
        t("pub", "P", "D")("eq", "P", "E")("eq", "D", "D2")
        m = [c.rand(32), bytes(32), b[-64:-32], b[-32:], ek[-32:], canonical_hash(a, ek), b"\xff" * 32, b[:32]][i % 8]
        t("encdet", "K", "C", "E", m.hex())("encdet", "KP", "CP", "P", m.hex())("rng", "R", m.hex())("enc", "KR", "CR", "E2", "R")
        t("dec", "S", "D", "C")("dec", "S2", "D2", "C")("load", "ct", "X", a, (bytes(CTS[a]) if i % 3 == 0 else b"\xff" * CTS[a] if i % 3 == 1 else (b + b)[:CTS[a]]).hex())
        t("dec", "SX", "D2", "X")


# ---------------------------------------------------------------- C05
def reject_patches(c, n, du_bytes):
    """changes of an n-byte ciphertext that a sloppy comparison could miss"""
    r = c.rnd
    out = []
    for i in range(n):                      # the same change twice, at various distances: xor and sums cancel
        j = (i + r.choice([1, 2, 4, 8, 16, 32, 64, 96, 128, 136, 256, 320, n // 2, n // 3 + 1])) % n
        if i != j:
            v = r.randrange(1, 256)
            out.append("%d:%d,%d:%d" % (i, v, j, v))
    for _ in range(n // 4):                 # a few bytes with total xor 0
        a, b, d = r.sample(range(n), 3)
        x, y = r.randrange(1, 256), r.randrange(1, 256)
        out.append("%d:%d,%d:%d,%d:%d" % (a, x, b, y, d, x ^ y) if x != y else "%d:%d" % (a, x))
    for st in list(range(0, n, 32)):        # whole blocks
        out.append(",".join("%d:%d" % (k, r.randrange(1, 256)) for k in range(st, min(n, st + 32))))
        out.append(",".join("%d:255" % k for k in range(st, min(n, st + 32))))
    out.append(",".join("%d:%d" % (k, r.randrange(1, 256)) for k in range(n)))
    out.append(",".join("%d:255" % k for k in range(n)))
    out.append(",".join("%d:1" % k for k in range(n)))
    out.append(",".join("%d:128" % k for k in range(n)))
    out.append(",".join("%d:%d" % (k, r.randrange(1, 256)) for k in range(du_bytes)))
    out.append(",".join("%d:%d" % (k, r.randrange(1, 256)) for k in range(du_bytes, n)))
    return out


def C05(c):
    exe = variants(MLV)
    s = Script()
    for a in ML:
        n = CTS[a]
        du = 32 * DU[a] * K[a]
        for rep in range(N(1, 12)):
            x, m = c.rand(64).hex(), c.rand(32).hex()
            pts = bit_patches(range(n)) + ["%d:%d" % (p, v) for p in range(n) for v in (255, c.rnd.randrange(1, 256))]
            pts += reject_patches(c, n, du)
            for i, ch in enumerate(chunks(pts, 1500)):
                t = s.trace("C05-%s-%d-%d" % (a, rep, i))
                t("gendet", "D", "E", a, x)("encdet", "K", "C", "E", m)
                sweep(t, "rejsweep", ("D", "C"), ["-"] + ch + ["-"])
        # the rejection key: repeatable, its own for each ciphertext and each z, leaves later results alone
        for i in range(N(40, 400)):
            d, z = c.rand(32), c.rand(32)
            t = s.trace("C05-%s-order%d" % (a, i))
            t("gendet", "D", "E", a, (d + z).hex())("gendet", "D2", "E2", a, (d + flip(z, c.rnd.randrange(256))).hex())
            t("gendet", "F", "EF", a, c.rand(64).hex())
            t("encdet", "K", "C", "E", msg(c, i).hex())("encdet", "KF", "CF", "EF", msg(c, i).hex())
            v = 1 << c.rnd.randrange(8)
            p, p2 = c.rnd.randrange(n), c.rnd.randrange(n)
            t("xor", "B", "C", "%d:%d" % (p, v))("xor", "B2", "C", "%d:%d" % (p2, 255))
            t("load", "ct", "Z", a, (bytes([i % 256]) * n).hex())
            t("dec", "S1", "D", "B")("dec", "S2", "D", "C")("dec", "S3", "D", "B")("dec", "S4", "D", "B2")("dec", "S5", "D", "CF")
            t("dec", "S6", "D2", "B")("dec", "S7", "D2", "C")("dec", "S8", "D", "Z")("dec", "S9", "D2", "Z")("dec", "S10", "D", "C")
            t("eq", "S1", "S3")("eq", "S1", "S6")("eq", "S2", "S10")("eq", "S2", "S7")("eq", "S1", "S4")
            t("recode", "D3", "D")("dec", "S11", "D3", "B")("eq", "S11", "S1")("clone", "D4", "D3")("dec", "S12", "D4", "CF")
            t("dec", "S13", "F", "C")("dec", "S14", "F", "CF")
            t("splice", "M", "C", 0, du, "CF", 0)("dec", "S15", "D", "M")("dec", "S16", "F", "M")
            t("splice", "M2", "C", du, n - du, "CF", du)("dec", "S17", "D", "M2")
            t("splice", "M3", "C", 32, 64, "C", 64)("dec", "S18", "D", "M3")
        # keys from constant or repeating seeds, and honest keys imported with such a z
        for i in range(N(24, 240)):
            t = s.trace("C05-%s-seeds%d" % (a, i))
            k1 = corners()[i % 12]
            d, z = [(c.rand(32), k1), (k1, c.rand(32)), (k1, k1), (x1 := c.rand(32), x1)][i // 12 % 4 if i >= 12 else 0]
            dk, ek = craft.keygen(a, d, z)
            if i % 3 == 2:
                dk = dk[:-32] + [craft.H(ek), ek[-32:], dk[:32]][i // 3 % 3]
            t("gendet", "D", "E", a, (d + z).hex())("load", "dk", "D2", a, dk.hex())("encdet", "K", "C", "E", [c.rand(32), k1, d, z][i % 4].hex())
            pts = ["%d:%d" % (c.rnd.randrange(n), 1 << c.rnd.randrange(8)) for _ in range(12)] + ["%d:255" % x for x in (0, n - 1, du, du - 1)]
            sweep(t, "rejsweep", ("D", "C"), pts)
            sweep(t, "rejsweep", ("D2", "C"), pts)
            t("load", "ct", "Z", a, (k1 * (n // 32)).hex())("dec", "S1", "D", "Z")("dec", "S2", "D2", "Z")("dec", "S3", "D", "C")
    c.conform(exe, s)
    modelled(c, exe, [([a], N(5, 6), 2, st2()) for a in N(["mlkem512"], ML)],
             [([a], N(12, 16), 4, st2(), N(60, 600)) for a in ML],
             [(["mlkem512"], 6, N(1, 2), st2())] + N([], [(["mlkem1024"], 7, 1, st2()), (["mlkem768"], 5, 4, st2())]))


# ---------------------------------------------------------------- C06
def C06(c):
    exe = variants(MLV)
    s = Script()
    step = N(8, 1)
    for a in ML:
        k = K[a]
        for kind, parts, tail in (("ek", 1, 32), ("dk", 2, 96)):
            nco = 256 * k * parts
            # 4096/step images in which every position takes every residue class of values
            items = list(range(0, 4096, step))
            for ci, ch in enumerate(chunks(items, N(64, 128))):
                t = s.trace("C06-%s-%s-values%d" % (a, kind, ci))
                size = 384 * k * parts + tail
                t("load", kind, "B", a, bytes(size).hex())
                pts = []
                for v in ch:
                    mulr = c.rnd.choice([1, 3, 5, 7, 11])
                    v0 = v + (c.rnd.randrange(step) if step > 1 else 0)
                    co = [(v0 + mulr * i) % 4096 for i in range(nco)]
                    if kind == "dk":
                        b = b"".join(craft.enc(12, co[256 * i:256 * i + 256]) for i in range(2 * k))
                    else:
                        b = b"".join(craft.enc(12, co[256 * i:256 * i + 256]) for i in range(k))
                    pts.append(",".join("%d:%d" % (i, x) for i, x in enumerate(b) if x) or "-")
                sweep(t, "loadsweep", ("B",), pts)
            # single positions, values around q; every bit of the rest
            t = s.trace("C06-%s-%s-single" % (a, kind))
            t("gendet", "D", "E", a, c.rand(64).hex())
            h = "E" if kind == "ek" else "D"
            size = eks(a) if kind == "ek" else dks(a)
            raw = [384 * k, eks(a)] if kind == "ek" else [768 * k, dks(a)]
            sweep(t, "loadsweep", (h,), ["-"] + bit_patches(range(raw[0], raw[1])) + bit_patches(range(0, raw[0], N(7, 1)), [c.rnd.randrange(8), c.rnd.randrange(8)]))
            for i, v in enumerate([3328, 3329, 3330, 4095, 4094, 1664, 1665, 0, 2048, 3327]):
                t = s.trace("C06-%s-%s-at%d" % (a, kind, v))
                t("load", kind, "B", a, bytes(size).hex())
                pts = []
                for j in [0, 1, 2, 127, 128, 254, 255] + [c.rnd.randrange(256 * k * parts) for _ in range(N(20, 200))]:
                    p = 3 * (j // 2)
                    w = [(p, v & 255), (p + 1, v >> 8)] if j % 2 == 0 else [(p + 1, (v & 15) << 4), (p + 2, v >> 4)]
                    pts.append(",".join("%d:%d" % x for x in w if x[1]) or "-")
                sweep(t, "loadsweep", ("B",), pts)
        for i in range(N(40, 600)):
            t = s.trace("C06-%s-use%d" % (a, i))
            t("gendet", "D", "E", a, c.rand(64).hex())("bytes", "D")("bytes", "E")
            t("recode", "D2", "D")("recode", "E2", "E")("eq", "D", "D2")("eq", "E", "E2")
            t("alias", "D3", "D", 384 * k * (i % 2), 256 * k, c.rnd.randrange(256 * k))("alias", "E3", "E", 0, 256 * k, c.rnd.randrange(256 * k))
            t("eq", "D", "D3")("eq", "E", "E3")("bytes", "D3")("bytes", "E3")
            m = c.rand(32).hex()
            t("encdet", "K", "C", "E3", m)("encdet", "K2", "C2", "E2", m)("eq", "C", "C2")("recode", "C3", "C")
            t("dec", "S", "D3", "C3")("dec", "S2", "D2", "C2")("eq", "S", "K")
            t("pub", "P", "D3")("eq", "P", "E")("bytes", "P")
        for i in range(N(25, 400)):
            t = s.trace("C06-%s-any%d" % (a, i))
            t("load", "ek", "E", a, (c.rand(eks(a)) if i % 3 else bytes([255 - i]) * eks(a)).hex())
            t("load", "dk", "D", a, (c.rand(dks(a)) if i % 3 else bytes([255 - i]) * dks(a)).hex())
            t("recode", "E2", "E")("recode", "D2", "D")("bytes", "E2")("bytes", "D2")("pub", "P", "D2")("recode", "P2", "P")
        fields(c, s, "C06", a, N(48, 400))
        for i in range(N(9, 90)):
            s.traces.append(mlsame(c, "C06-%s-same%d" % (a, i), a, i))
    c.conform(exe, s)
    modelled(c, exe, [([a], N(5, 6), 2, st2()) for a in N(["mlkem1024"], ML)],
             [([a], N(10, 14), 3, st2(), N(40, 400)) for a in ML])


# ---------------------------------------------------------------- C07
ALL = ML + ["xwing"] + DH


def bad_block(c, a, i):
    """a field-size block that is no scalar"""
    n = ORDER[a]
    top = (1 << (8 * FIELD[a])) - 1
    v = [0, n, n + 1, top, n + c.rnd.randrange(1, 1 << 64), top - 1][i % 6]
    return v.to_bytes(FIELD[a], "big")


def stream(c, a, kinds):
    """generator bytes for a list of 'g'/'e' draws; NIST draws come with rejected blocks"""
    out = b""
    for i, k in enumerate(kinds):
        if a in NIST:
            for j in range(c.rnd.choice([0, 0, 1, 2])):
                out += bad_block(c, a, c.rnd.randrange(6))
        out += gen_draw(c, a) if k == "g" else enc_draw(c, a)
    return out


def C07(c):
    exe = variants(FULLV)
    s = Script()
    for a in ALL:
        slow = a in NIST
        for i in range(N(12 if slow else 60, 60 if slow else 800)):
            t = s.trace("C07-%s-%d" % (a, i))
            kinds = "gege" + "e" * (i % 3) + "g"
            data = stream(c, a, kinds)
            if a not in NIST and i % 6 == 0:
                data = bytes([c.rnd.randrange(256)]) * len(data)
            t("rng", "R", (data + c.rand(i % 7 * 10)).hex())
            g = 0
            for j, k in enumerate(kinds):
                if k == "g":
                    t("gen2" if a != "xwing" and a not in ML and j % 2 else "gen", "D%d" % j, "E%d" % j, a, "R")
                    g = j
                else:
                    t("enc", "K%d" % j, "C%d" % j, "E%d" % g, "R")("dec", "S%d" % j, "D%d" % g, "C%d" % j)
            if a == "xwing":
                t("rng", "R2", data.hex())("gen2", "DD", "EE", a, "R2")
        # two generators with the same bytes, used in turn; one generator for many algorithms
        t = s.trace("C07-%s-two" % a)
        x, y = stream(c, a, "gee"), stream(c, a, "ge")
        t("rng", "R", x.hex())("rng", "Q", x.hex())("rng", "P", y.hex())
        t("gen", "D", "E", a, "R")("gen", "D2", "E2", a, "Q")("eq", "E", "E2")
        t("enc", "K", "C", "E", "R")("gen", "DP", "EP", a, "P")("enc", "K2", "C2", "E2", "Q")("eq", "C", "C2")("eq", "K", "K2")
        t("enc", "K3", "C3", "E", "Q")("enc", "KP", "CP", "EP", "P")("enc", "K4", "C4", "E2", "R")("eq", "C3", "C4")("eq", "C3", "C")
        # each bit of the randomness matters, and only where it belongs
        t = s.trace("C07-%s-bits" % a)
        base = gen_draw(c, a)
        eb = enc_draw(c, a)
        bits = c.rnd.sample(range(8 * len(eb)), N(3 if slow else 12, 10 if slow else 60)) + ([] if slow else [8 * 31, 8 * 31 + 7, 0])
        t("rng", "R", base.hex())("gen", "D", "E", a, "R")
        for j, b in enumerate(bits):
            if a == "p521" and b < 16:
                continue
            e2 = flip(eb, b)
            if slow and not 0 < int.from_bytes(e2, "big") < ORDER[a]:
                continue
            t("rng", "Q%d" % j, (e2 + eb).hex())("enc", "K%d" % j, "C%d" % j, "E", "Q%d" % j)("dec", "S%d" % j, "D", "C%d" % j)
    for i in range(N(6, 40)):
        t = s.trace("C07-mixed-%d" % i)
        algs = [c.rnd.choice(ALL) for _ in range(8)]
        t("rng", "R", b"".join(stream(c, a, "ge") for a in algs).hex())
        for j, a in enumerate(algs):
            t("gen", "D%d" % j, "E%d" % j, a, "R")("enc", "K%d" % j, "C%d" % j, "E%d" % j, "R")
    c.conform(exe, s)
    s2 = Script()
    a = "xwing"
    for i in range(N(60, 600)):
        # the operating system's generator in the place of the caller's
        t = s2.trace("C07-os-%d" % i)
        x, y = c.rand(32 * 4 + i % 5), c.rand(300)
        t("rng", "OS", x.hex())("rng", "R", y.hex())
        t("osgen" if i % 2 else "osgen2", "D", "E", a, "OS")("enc", "K", "C", "E", "R")("osgen2" if i % 3 else "osgen", "D2", "E2", a, "OS")("gen", "D3", "E3", a, "R")
        t("dec", "S", "D", "C")("enc", "K2", "C2", "E2", "R")("dec", "S2", "D2", "C2")("enc", "K3", "C3", "E3", "R")("osgen", "D4", "E4", a, "OS")("dec", "S3", "D3", "C3")("pub", "P", "D4")("eq", "P", "E4")
    c.conform(build("mlkem,ml-det,xwing,xw-os"), s2, tag="os")
    modelled(c, exe, [([a], 5, 1, st2(5)) for a in ("mlkem512", "xwing", "x25519")] + N([], [(["mlkem768", "xwing"], 5, 1, st2(5)), (["xwing"], 6, 1, st2(5))]),
             [([a], N(10, 14), 1, st2(8), N(6 if a in NIST else 20, 40 if a in NIST else 200)) for a in ALL] + [(["mlkem512", "xwing", "x25519", "p256"], 16, 1, st2(12), N(20, 200))])


# ---------------------------------------------------------------- C08
def C08(c):
    exe = variants(FULLV)
    s = Script()
    for a in ALL:
        slow = a in NIST
        gl, el = gen_len(a), enc_len(a)
        glims = list(range(gl)) if not slow or THOROUGH else sorted(set([0, 1, gl // 2, gl - 1] + c.rnd.sample(range(gl), 4)))
        elims = list(range(el)) if not slow or THOROUGH else sorted(set([0, 1, el // 2, el - 1] + c.rnd.sample(range(el), 4)))
        for ci, ch in enumerate(chunks(glims, 16)):
            t = s.trace("C08-%s-gen%d" % (a, ci))
            for l in ch:
                # the first draw fails after l bytes; and after one good operation
                g = gen_draw(c, a)
                t("rng", "R%d" % l, (g + g).hex(), l)("gen", "D", "E", a, "R%d" % l)
                t("rng", "Q%d" % l, (g + g).hex(), gl + l)("gen", "D", "E", a, "Q%d" % l)("gen", "D2", "E2", a, "Q%d" % l)
            # a healthy generator afterwards
            t("rng", "H", stream(c, a, "ge").hex())("gen", "D3", "E3", a, "H")("enc", "K", "C", "E3", "H")("dec", "S", "D3", "C")
            # the failed generator keeps failing
            t("gen", "D4", "E4", a, "R%d" % ch[0])("enc", "K4", "C4", "E3", "R%d" % ch[-1])
        for ci, ch in enumerate(chunks(elims, 16)):
            t = s.trace("C08-%s-enc%d" % (a, ci))
            t("rng", "H", stream(c, a, "gee").hex())("gen", "D", "E", a, "H")("enc", "K0", "C0", "E", "H")
            for l in ch:
                g = enc_draw(c, a)
                t("rng", "R%d" % l, (g + g).hex(), l)("enc", "K", "C", "E", "R%d" % l)
                t("rng", "Q%d" % l, (g + g).hex(), el + l)("enc", "K1", "C1", "E", "Q%d" % l)("enc", "K2", "C2", "E", "Q%d" % l)
                if l % 5 == 0:
                    t("dec", "S0", "D", "C0")
            t("enc", "K3", "C3", "E", "H")("dec", "S3", "D", "C3")("dec", "S0", "D", "C0")("eq", "S0", "K0")
        # a generator that fails once and works again: asking it again is no way out
        for ci, ch in enumerate(chunks([0, 1, gl // 2, gl - 1] + c.rnd.sample(range(gl), N(2, 12)), 6)):
            t = s.trace("C08-%s-genonce%d" % (a, ci))
            for l in ch:
                g = b"".join(gen_draw(c, a) for _ in range(6))
                t("rng", "R", g.hex(), l, "once")("gen", "D", "E", a, "R")("gen", "D1", "E1", a, "R")
                t("rng", "Q", g.hex(), gl + l, "once")("gen", "D2", "E2", a, "Q")("gen", "D3", "E3", a, "Q")("enc", "K", "C", "E2", "Q")("dec", "S", "D2", "C")
        for ci, ch in enumerate(chunks([0, 1, el // 2, el - 1] + c.rnd.sample(range(el), N(2, 12)), 6)):
            t = s.trace("C08-%s-enconce%d" % (a, ci))
            t("rng", "H", stream(c, a, "ge").hex())("gen", "D", "E", a, "H")
            for l in ch:
                g = b"".join(enc_draw(c, a) for _ in range(6))
                t("rng", "R", g.hex(), l, "once")("enc", "K", "C", "E", "R")("enc", "K1", "C1", "E", "R")("dec", "S", "D", "C1")
                t("rng", "Q", g.hex(), el + l, "once")("enc", "K2", "C2", "E", "Q")("enc", "K3", "C3", "E", "Q")("enc", "K4", "C4", "E", "Q")
        if slow:
            # failure while the sampler is retrying
            for i in range(N(3, 20)):
                t = s.trace("C08-%s-retry%d" % (a, i))
                b = b"".join(bad_block(c, a, i + j) for j in range(1 + i % 3))
                t("rng", "R", (b + draw(c, a)).hex(), len(b) + c.rnd.randrange(FIELD[a]))("gen", "D", "E", a, "R")
                t("rng", "R2", (b + draw(c, a)).hex(), len(b))("gen", "D", "E", a, "R2")
                t("rng", "H", (b + draw(c, a)).hex())("gen", "D", "E", a, "H")
                t("rng", "R3", (b + draw(c, a)).hex(), len(b) + c.rnd.randrange(FIELD[a]))("enc", "K", "C", "E", "R3")
    c.conform(exe, s)
    # the operating system's generator fails
    s2 = Script()
    for l in range(0, 32, 1):
        t = s2.trace("C08-os%d" % l)
        t("rng", "OS", c.rand(96).hex(), l)("osgen" if l % 2 else "osgen2", "D", "E", "xwing", "OS")("osgen", "D1", "E1", "xwing", "OS")
        t("rng", "OS2", c.rand(96).hex(), 32 + l)("osgen", "D2", "E2", "xwing", "OS2")("osgen2" if l % 2 else "osgen", "D3", "E3", "xwing", "OS2")
        t("rng", "R", c.rand(96).hex())("gen", "D4", "E4", "xwing", "R")("enc", "K", "C", "E2", "R")("dec", "S", "D2", "C")
    c.conform(build("mlkem,ml-det,xwing,xw-os"), s2, tag="os")
    modelled(c, exe, [([a], 5, 1, st2(3)) for a in ("mlkem768", "xwing", "x25519")] + N([], [(["mlkem768"], 6, 1, st2(3)), (["xwing"], 6, 1, st2(3))]),
             [([a], N(10, 14), 1, streams(("a", 3, 30), ("b", 1), ("c", 6), ("d", 2, 5)), N(6 if a in NIST else 20, 40 if a in NIST else 200)) for a in ALL])


# ---------------------------------------------------------------- C12
def C12(c):
    exe = variants(FULLV)
    s = Script()
    fast = ML + ["xwing", "x25519"]
    for i in range(N(24, 200)):
        s.traces.append(history(c, "C12-history-%d" % i, N(60, 120), fast if i % 3 else ALL))
    for i in range(N(12, 100)):
        s.traces.append(threads(c, "C12-threads-%d" % i, fast if i % 2 else ["mlkem512", "xwing", "p256", "x25519"]))
    for a in ML + ["xwing"]:
        for i in range(N(8, 60)):
            s.traces.append(related(c, "C12-related-%s-%d" % (a, i), a))
    c.conform(exe, s, tag="serial")
    # every trace again, in the opposite order and all on threads at once
    s2 = Script()
    s2.traces = s.traces[::-1]
    c.conform(exe, s2, threads=8, tag="parallel")
    s3 = Script()
    for i in range(N(1, 4)):
        for a in ML + ["xwing", "x25519"]:
            s3.traces.append(race(c, "C12-race-%s-%d" % (a, i), [a] * 2, N(800, 5000)))
        for a in ML:
            s3.traces.append(race(c, "C12-race6-%s-%d" % (a, i), [a] * 6, N(800, 5000)))
        s3.traces.append(race(c, "C12-racemix-%d" % i, ML + ["xwing", "x25519", "p256"], N(1500, 8000)))
        s3.traces.append(race(c, "C12-racemix2-%d" % i, ALL, N(1000, 8000)))
    c.conform(exe[0], s3, tag="race")
    # and long runs on one thread: more than 2^16 calls of one kind
    s4 = Script()
    for a in ["mlkem512", "mlkem768", "x25519"]:
        for i, kinds in enumerate(["dec:D:C", "dec:D:C2", "enc", "enc dec:D:C2 dec:D:C", "gen"]):
            t = s4.trace("C12-long-%s-%d" % (a, i))
            r = gen_draw(c, a) + enc_draw(c, a) * 2
            t("rng", "R", r.hex())("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")
            if a == "x25519":
                t("enc", "K2", "C2", "E", "R")
            else:
                t("xor", "C2", "C", "%d:%d" % (c.rnd.randrange(CTS[a]), c.rnd.randrange(1, 256)))
            js = ["enc:E:" + enc_draw(c, a).hex() if k == "enc" else "gen:%s:%s" % (a, gen_draw(c, a).hex()) if k == "gen" else k for k in kinds.split()]
            t("race", N(4000, 20000), 1, *js)("dec", "S", "D", "C")("dec", "S2", "D", "C2")
    c.conform(exe[0], s4, tag="long", threads=5)
    cold(c, exe[0], N(480, 6000))
    modelled(c, exe, [(["mlkem512", "mlkem768"], N(5, 6), 1, st2())] + N([], [(["mlkem512", "xwing"], 6, 1, st2()), (["x25519", "xwing"], 6, 1, st2())]),
             [(["mlkem512", "mlkem768"], 16, 3, st2(), N(30, 300)), (["mlkem768", "xwing"], 16, 3, st2(), N(30, 300)), (["x25519", "xwing", "mlkem1024"], 18, 3, st2(), N(30, 300))])


def history(c, name, n, algs):
    """random calls on a few keys of several algorithms"""
    t = Trace(name)
    r = c.rnd
    D, C, used = {}, {}, []
    al = r.sample(algs, min(3, len(algs)))
    t("rng", "R", b"".join(stream(c, a, "ge") for a in [r.choice(al)]).hex())
    rn = [0]

    def rng(a, kind):
        rn[0] += 1
        data = stream(c, a, kind)
        lim = [] if r.random() < 0.85 else [r.randrange(len(data))]
        t("rng", "R%d" % rn[0], data.hex(), *lim)
        return "R%d" % rn[0], not lim

    h = 0
    for step in range(n):
        a = r.choice(al)
        h += 1
        op = r.random()
        if not D.get(a) or op < 0.12:
            R, ok = rng(a, "g")
            t("gen", "D%d" % h, "E%d" % h, a, R)
            if ok:
                D.setdefault(a, []).append((h, h))
        elif op < 0.4 or not C.get(a):
            d, e = r.choice(D[a])
            R, ok = rng(a, "e")
            t("enc", "K%d" % h, "C%d" % h, "E%d" % e, R)
            if ok:
                C.setdefault(a, []).append(h)
        elif op < 0.75:
            t("dec", "S%d" % h, "D%d" % r.choice(D[a])[0], "C%d" % r.choice(C[a]))
        elif op < 0.85 and a not in NIST:
            p = r.randrange(CTS.get(a, 32))
            t("xor", "C%d" % h, "C%d" % r.choice(C[a]), "%d:%d" % (p, r.randrange(1, 256)))
            C[a].append(h)
        elif op < 0.9 and a not in DH:
            d, e = r.choice(D[a])
            t("recode", "D%d" % h, "D%d" % d)("pub", "E%d" % h, "D%d" % d)
            D[a].append((h, h))
        elif op < 0.95 and a not in DH:
            d, e = r.choice(D[a])
            t("xor", "D%d" % h, "D%d" % d, "%d:%d" % (r.randrange(dks(a)), r.randrange(1, 256)))("pub", "E%d" % h, "D%d" % h)
            D[a].append((h, h))
        elif a not in NIST:
            d, e = r.choice(D[a])
            t("clone", "D%d" % h, "D%d" % d)("clone", "E%d" % h, "E%d" % e)("drop", "D%d" % d)
            D[a] = [x for x in D[a] if x[0] != d] + [(h, h)]
        else:
            t("eq", "E%d" % r.choice(D[a])[1], "E%d" % r.choice(D[a])[1])
    for a in D:
        for d, e in D[a]:
            t("bytes", "E%d" % e)
            for ct in C.get(a, [])[:3]:
                t("dec", "Z", "D%d" % d, "C%d" % ct)
    return t


def threads(c, name, algs):
    """several threads on shared and on own keys"""
    t = Trace(name)
    a = c.rnd.choice(algs)
    n = 4
    t("rng", "R", stream(c, a, "gee").hex())("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")("enc", "K0", "C0", "E", "R")
    for k in range(1, n + 1):
        t("rng", "R%d" % k, stream(c, a, "egeee").hex())
    if a not in NIST:
        t("xor", "B", "C", "%d:%d" % (c.rnd.randrange(CTS.get(a, 32)), c.rnd.randrange(1, 255)))
    t("par")
    for k in range(1, n + 1):
        p = "|%d" % k
        bad = "C0" if a in NIST or k % 2 else "B"
        t(p, "dec", "S%d" % k, "D", bad)(p, "enc", "K%d" % k, "C%d" % k, "E", "R%d" % k)(p, "dec", "T%d" % k, "D", "C%d" % k)
        t(p, "gen", "D%d" % k, "E%d" % k, a, "R%d" % k)(p, "enc", "L%d" % k, "M%d" % k, "E%d" % k, "R%d" % k)
        t(p, "dec", "U%d" % k, "D%d" % k, "M%d" % k)(p, "dec", "V%d" % k, "D", "M%d" % k)(p, "dec", "W%d" % k, "D", "C")
        t(p, "enc", "N%d" % k, "O%d" % k, "E", "R%d" % k)(p, "dec", "X%d" % k, "D", "O%d" % k)
    t("join")
    for k in range(1, n + 1):
        t("dec", "Y%d" % k, "D", "C%d" % k)("eq", "Y%d" % k, "K%d" % k)("dec", "Z%d" % k, "D%d" % (k % n + 1), "M%d" % (k % n + 1))
    t("dec", "ZZ", "D", "C")("eq", "ZZ", "K")
    return t


def race(c, name, algs, ms, th=16):
    """the same few calls over and over on many threads at once"""
    t = Trace(name)
    jobs = []
    for i, a in enumerate(algs):
        t("rng", "R%d" % i, stream(c, a, "gee").hex())
        t("gen", "D%d" % i, "E%d" % i, a, "R%d" % i)("enc", "K%d" % i, "C%d" % i, "E%d" % i, "R%d" % i)("enc", "L%d" % i, "B%d" % i, "E%d" % i, "R%d" % i)
        if a not in NIST:
            t("xor", "X%d" % i, "C%d" % i, "%d:%d" % (c.rnd.randrange(CTS.get(a, 32)), c.rnd.randrange(1, 128)))
            jobs += ["dec:D%d:X%d" % (i, i)] if i % 2 else []
        jobs += ["enc:E%d:%s" % (i, enc_draw(c, a).hex()), "dec:D%d:C%d" % (i, i)]
        if i % 3 == 0:
            jobs += ["gen:%s:%s" % (a, gen_draw(c, a).hex())]
        if i and algs[i - 1] == a:
            jobs += ["dec:D%d:C%d" % (i, i - 1)]
    t("race", ms, th, *jobs)
    # and nothing is left behind
    for i, a in enumerate(algs):
        t("dec", "S", "D%d" % i, "B%d" % i)("bytes", "E%d" % i)
    return t


def cold(c, exe, n):
    """the very first calls of a process, on many threads at once: n processes"""
    algs = ML + ["xwing"] + DH
    keys = {}
    for a in ML:
        d, z, m = c.rand(32), c.rand(32), c.rand(32)
        dk, ek = craft.keygen(a, d, z)
        keys[a] = dk, ek, craft.encaps(a, ek, m)[0]
    ts = []
    for i in range(n):
        a = algs[i % 4] if i % 3 else algs[i // 3 % len(algs)]
        t = Trace("C12-cold-%s-%d" % (a, i))
        how = i // 3 % 4
        if how == 0 or a in DH:
            jobs = ["gen:%s:%s" % (a, gen_draw(c, a).hex()) for _ in range(1 + i % 2)]
        elif how == 1:
            jobs = ["gen:%s:%s" % (x, gen_draw(c, x).hex()) for x in c.rnd.sample(ML + ["xwing", "x25519"], 3)]
        elif a == "xwing":
            t("load", "dk", "D", a, c.rand(32).hex())("load", "ek", "E", a, (keys["mlkem768"][1] + c.rand(32)).hex())("load", "ct", "C", a, (keys["mlkem768"][2] + c.rand(32)).hex())
            jobs = ["dec:D:C"] if how == 2 else ["enc:E:" + enc_draw(c, a).hex(), "dec:D:C"]
        else:
            dk, ek, ct = keys[a]
            t("load", "dk", "D", a, dk.hex())("load", "ct", "C", a, ct.hex())("load", "ek", "E", a, ek.hex())
            jobs = ["dec:D:C"] if how == 2 else ["enc:E:" + enc_draw(c, a).hex()] if i % 2 else ["enc:E:" + enc_draw(c, a).hex(), "dec:D:C"]
        t("race", 0, [8, 4, 2][i % 3 if i % 7 else 0], *jobs)
        ts.append(t)

    def one(t):
        s = Script()
        s.traces = [t]
        op = run_harness(exe, s, c.work, tag="cold-" + t.id)
        with open(op) as fh:
            line = fh.read()
        os.remove(op)
        return line
    with concurrent.futures.ThreadPoolExecutor(2) as pool:
        got = [pool.submit(one, t) for t in ts]
        try:
            lines = [g.result() for g in got]
        except Violation as v:
            c.violation(v.what, v.replay, exe)
    op = os.path.join(c.work, "cold.ndjson")
    with open(op, "w") as fh:
        fh.writelines(lines)
    st, bad = judge(op, c.work)
    c.account(op, st)
    c.cov["cold_processes"] = n
    if bad:
        c.violation("trace %(trace)s, event %(event)s (%(op)s), the first calls of a process: %(why)s" % bad, next(t for t in ts if t.id == bad["trace"]), exe)


def related(c, name, a):
    """keys that share everything but one part, used in turn"""
    t = Trace(name)
    r = c.rnd
    t("rng", "R", stream(c, a, "gg").hex())("gen", "D0", "E0", a, "R")("gen", "DX", "EX", a, "R")
    ms = [enc_draw(c, a) for _ in range(3)]

    def use(h, e=True):
        for j, m in enumerate(ms):
            t("rng", "Q%s%d" % (h, j), m.hex())("enc", "K%s%d" % (h, j), "C%s%d" % (h, j), "E" + h, "Q%s%d" % (h, j))
    use("0")
    if a in ML:
        kk = 384 * K[a]
        parts = {"s": (0, kk), "t": (kk, kk), "rho": (2 * kk, 32), "h": (2 * kk + 32, 32), "z": (2 * kk + 64, 32)}
    else:
        parts = {"seed": (0, 16), "seed2": (16, 16), "first": (0, 1), "last": (31, 1)}
    names = list(parts)
    r.shuffle(names)
    for nm in names:
        off, ln = parts[nm]
        t("splice", "D" + nm, "D0", off, ln, "DX", off)("pub", "E" + nm, "D" + nm)
        use(nm)
    # and keys that a checksum of a part cannot tell apart: halves exchanged, equal changes twice
    off, ln = (parts[r.choice(["rho", "h", "z", "t", "s"])] if a in ML else (0, 32))
    t("splice", "Dw", "D0", off, ln // 2, "D0", off + ln // 2)("splice", "Dswap", "Dw", off + ln // 2, ln // 2, "D0", off)("pub", "Eswap", "Dswap")
    v, st = r.randrange(1, 256), r.choice([1, 2, 4, 8, 16])
    p = off + r.randrange(ln - st)
    t("xor", "Dtwice", "D0", "%d:%d,%d:%d" % (p, v, p + st, v))("pub", "Etwice", "Dtwice")
    names += ["swap", "twice"]
    use("swap")
    use("twice")
    # and keys that differ in a single bit of one part
    for nm, (off, ln) in parts.items():
        p = r.choice([off, off + ln - 1, off + r.randrange(ln)])
        t("xor", "Dbit" + nm, "D0", "%d:%d" % (p, 1 << r.randrange(8)))("pub", "Ebit" + nm, "Dbit" + nm)
        names.append("bit" + nm)
        use("bit" + nm)
    alln = ["0"] + names
    for _ in range(14):
        x, y, j = r.choice(alln), r.choice(alln), r.randrange(3)
        t("dec", "S", "D" + x, "C%s%d" % (y, j))
    for x in alln:
        t("dec", "S", "D" + x, "C%s0" % x)("bytes", "E" + x)
    if a in ML:
        t("splice", "EE", "E0", kk, 32, "EX", kk)("rng", "QE", ms[0].hex())("enc", "KE", "CE", "EE", "QE")
        t("rng", "QF", ms[0].hex())("enc", "KF", "CF", "E0", "QF")("eq", "KF", "K00")
    return t


# ---------------------------------------------------------------- C13
OWN = ["p256,dh-zero", "p384,dh-zero", "p521,dh-zero", "k256,dh-zero", "x25519,dh-zero", "xwing,xw-zero", "mlkem,ml-zero,ml-det"]
BUILDS = [(f, "release") for f in MLV + XWV + FULLV + ["mlkem,ml-det,xwing,xw-os", FULL + ",xw-zero,x-zero,ml-zero", FULL + ",x-zero", "mlkem,ml-det,xwing"] + OWN] + \
         [("mlkem,ml-det,xwing", "dev")]
CONFIGS = [("mlkem", "release"), ("mlkem", "dev"), ("mlkem,ml-det", "release"), ("mlkem,ml-std", "release"), ("mlkem,ml-zero", "release"),
           ("mlkem,ml-std,ml-zero", "release"), ("mlkem,ml-det,ml-std,ml-zero", "dev"), ("mlkem,ml-det,ml-std,ml-zero", "release"),
           ("xwing", "release"), ("xwing", "dev"), ("xwing,xw-zero", "release"), ("xwing,xw-os", "release"), ("xwing,xw-os,xw-zero", "dev"),
           ("alldh", "release"), ("alldh", "dev"), ("alldh,x-zero", "release"),
           ("p256", "release"), ("p384", "release"), ("p521", "release"), ("k256", "release"), ("x25519", "release"), ("x25519,dh-zero", "dev"),
           (FULL + ",xw-zero,x-zero,ml-zero,ml-std", "release")]


def config_script(c, feats):
    s = Script()
    fs = feats.split(",")
    algs = (ML if "mlkem" in fs else []) + (["xwing"] if "xwing" in fs else []) + [a for a in DH if a in fs or "alldh" in fs]
    for a in algs:
        r = random.Random("C13/%s/%d" % (a, SEED))        # the same calls in every configuration
        cc = type("M", (), {"rnd": r, "rand": staticmethod(lambda n, r=r: bytes(r.getrandbits(8) for _ in range(n)))})
        slow = a in NIST
        for i in range(N(3 if slow else 10, 6 if slow else 80)):
            t = s.trace("C13-%s-%d" % (a, i))
            t("rng", "R", stream(cc, a, "ggee").hex())("gen", "D", "E", a, "R")("gen2" if a != "xwing" else "gen", "D2", "E2", a, "R")
            if a in ML or a == "xwing":
                t.lines[-1] = t.lines[-1].replace("gen2", "gen")
            t("enc", "K", "C", "E", "R")("enc", "K2", "C2", "E2", "R")("dec", "S", "D", "C")("dec", "S2", "D", "C2")("dec", "S3", "D2", "C")
            if a not in DH:
                p = r.randrange(CTS[a])
                t("xor", "B", "C", "%d:%d" % (p, r.randrange(1, 256)))("dec", "S4", "D", "B")("recode", "D3", "D")("dec", "S5", "D3", "B")("pub", "P", "D3")
                t("load", "ek", "EA", a, cc.rand(eks(a)).hex())("load", "dk", "DA", a, cc.rand(dks(a)).hex())
                t("rng", "Q", stream(cc, a, "ee").hex())("enc", "KA", "CA", "EA", "Q")("dec", "SA", "DA", "CA")("load", "ct", "CX", a, cc.rand(CTS[a]).hex())("dec", "SX", "DA", "CX")
                t("eq", "E", "EA")("clone", "DC", "D")("drop", "D")("dec", "SC", "DC", "C")
            elif a == "x25519":
                t("load", "ek", "EA", a, cc.rand(32).hex())("rng", "Q", cc.rand(32).hex())("enc", "KA", "CA", "EA", "Q")("dec", "SA", "D", "CA")
            else:
                t("rng", "Q", (bad_block(cc, a, i) + draw(cc, a)).hex())("enc", "KA", "CA", "E", "Q")("dec", "SA", "D", "CA")
            t("rng", "F", stream(cc, a, "g").hex(), r.randrange(gen_len(a)))("gen", "DF", "EF", a, "F")
            if a == "xwing" and "xw-os" in fs:
                t("rng", "OS", cc.rand(64).hex())("osgen", "DO", "EO", a, "OS")("osgen2", "DP", "EP", a, "OS")
            if a in ML and ("ml-det" in fs or "xwing" in fs):
                t("gendet", "DG", "EG", a, cc.rand(64).hex())("encdet", "KG", "CG", "EG", cc.rand(32).hex())("dec", "SG", "DG", "CG")
        # unusual values
        for i in range(N(6 if slow else 24, 12 if slow else 120)):
            t = s.trace("C13-%s-odd%d" % (a, i))
            if a in ML:
                x = msg(cc, i % 12) + msg(cc, (i * 5 + i // 12) % 12)
                m = msg(cc, (i * 7) % 12)
                t("rng", "R", (x + m + cc.rand(32)).hex())("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")("dec", "S", "D", "C")
                how = HOWS[i % len(HOWS)]
                t("load", "ek", "F", a, (ek_coefs(cc, a, how) + msg(cc, i % 12)).hex())("enc", "K1", "C1", "F", "R")("eq", "E", "F")("recode", "F2", "F")("eq", "F", "F2")
                kk = 384 * K[a]
                t("load", "dk", "G", a, (ek_coefs(cc, a, HOWS[(i + 3) % len(HOWS)]) + ek_coefs(cc, a, how) + msg(cc, i % 12) + msg(cc, (i + 1) % 12) + msg(cc, (i * 5) % 12)).hex())
                t("dec", "S1", "G", "C1")("dec", "S2", "G", "C")("pub", "P", "G")("rng", "Q", cc.rand(32).hex())("enc", "K2", "C2", "P", "Q")("dec", "S3", "G", "C2")("clone", "G2", "G")("eq", "G", "G2")
                t("alias", "E1", "E", 0, 256 * K[a], i)("eq", "E", "E1")("rng", "Q2", cc.rand(32).hex())("enc", "K3", "C3", "E1", "Q2")("dec", "S4", "D", "C3")
                t("splice", "D1", "D", 2 * kk + 32, 32, "D", 2 * kk)("dec", "S5", "D1", "C3")("pub", "P1", "D1")("eq", "P1", "E")
                t("load", "ct", "X", a, (bytes([[0, 255, 1][i % 3]]) * CTS[a]).hex())("dec", "S6", "D", "X")
                if "ml-det" in fs or "xwing" in fs:
                    s.traces.append(mlsame(cc, "C13-%s-same%d" % (a, i), a, i))
            elif a == "xwing":
                x = bytes.fromhex(LOW25519[i % len(LOW25519)])
                t("load", "dk", "D", a, msg(cc, i % 12).hex())("pub", "E", "D")("load", "ek", "F", a, (ek_coefs(cc, "mlkem768", HOWS[i % len(HOWS)]) + cc.rand(32) + x).hex())
                t("rng", "R", (msg(cc, (i * 5) % 12) + msg(cc, (i * 7) % 12) + cc.rand(192)).hex())("enc", "K", "C", "E", "R")("enc", "K1", "C1", "F", "R")("dec", "S", "D", "C")("dec", "S1", "D", "C1")
                t("load", "ct", "X", a, (cc.rand(1088) + x).hex())("splice", "Y", "C", 1088, 32, "X", 1088)("dec", "S2", "D", "Y")("dec", "S3", "D", "X")
                t("eq", "E", "F")("eq", "C", "Y")("recode", "F2", "F")("eq", "F2", "F")("xor", "F3", "F", "1215:128")("eq", "F3", "F")("enc", "K2", "C2", "F3", "R")
                s.traces.append(coincidences(cc, "C13-xwing-same%d" % i, i))
            elif a == "x25519":
                x = LOW25519[i % len(LOW25519)]
                t("rng", "R", (msg(cc, i % 12) + msg(cc, (i * 5) % 12) + cc.rand(64)).hex())("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")("dec", "S", "D", "C")
                t("load", "ek", "F", a, x)("enc", "K1", "C1", "F", "R")("load", "ct", "X", a, x)("dec", "S1", "D", "X")("wrap", a, "R", x, x)
            else:
                es = edge_scalars(a)
                k = small_points(a)[i % 4]
                sk = r.randrange(1, ORDER[a])
                e = k * pow(sk, -1, ORDER[a])
                t("rng", "R", b"".join([scalar(a, sk), scalar(a, e), scalar(a, es[i % len(es)]), scalar(a, r.randrange(1, ORDER[a])), bad_block(cc, a, i), draw(cc, a)]).hex())
                t("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")("dec", "S", "D", "C")("gen2", "D2", "E2", a, "R")("enc", "K2", "C2", "E2", "R")("dec", "S2", "D2", "C2")("dec", "S3", "D", "C2")
                t("cast", "X", "E2", "ct")("dec", "S4", "D", "X")("recode", "F", "E2")("enc", "K3", "C3", "F", "R")
    return s


def configurations(c):
    """every configuration of the model, per crate"""
    rc, out, st = tlc("Config.tla", "Config.cfg", c.work, workers=1, heap="1g")
    if rc != 0:
        raise ToolError("Config: " + out[-3000:])
    c.cov["states"] += st[1]
    c.cov["transitions"] += st[0]
    sets = {}
    for line in out.splitlines():
        if line.startswith('"CONFIG '):
            o = json.loads(json.loads(line)[7:])
            sets.setdefault(o["crate"], []).append(sorted(o["on"]))
    return sets


def C13(c):
    # every combination of features compiles
    os.makedirs(c.work, exist_ok=True)
    sets = configurations(c)
    pool = concurrent.futures.ThreadPoolExecutor(8)
    jobs = [(k, pool.submit(compiles, k, v)) for k, v in sets.items()]
    done, exes = {}, []
    for f, p in CONFIGS:
        try:
            exes.append((f, p, build(f, p)))
        except BuildFailed as e:
            if not exes:
                raise
            log(e)
            c.violation("does not build with features %s (%s), but does with %s" % (f, p, exes[0][0]), None)
    for k, j in jobs:
        bad = j.result()
        if len(bad) == len(sets[k]):
            raise BuildFailed("%s: %s" % (k, bad[0][1][-2000:]))
        for fs, err in bad:
            what = "|".join(sorted(set(re.findall(r"^error(?:\[E\d+\])?: (?!could not compile|aborting)(.*)$", err, re.M))))
            # (the elliptic-curve crate was built without its sec1 module)
            cause = "sec1" if re.search(r"^error.*\bsec1\b", err, re.M) else what
            if not c.known_finding("%s[%s]: %s" % (k, ",".join(fs), cause), ""):
                c.violation("%s does not compile with features [%s], but does with [%s]: %s" % (k, ",".join(fs), ",".join(next(x for x in sets[k] if x not in [b[0] for b in bad])), what), None)
    c.cov["feature_sets_compiled"] = sum(len(v) for v in sets.values())
    s0, total = None, 0
    merged = os.path.join(c.work, "merged.ndjson")
    where = {}
    with open(merged, "w") as out:
        for f, p, exe in exes:
            s = config_script(c, f)
            by = {t.id: t for t in s.traces}
            try:
                op = run_harness(exe, s, c.work, tag="cfg")
            except Violation as v:
                c.violation("%s in configuration %s %s" % (v.what, f, p), v.replay, exe)
            for line in open(op):
                total += 1
                o = json.loads(line)
                key = json.dumps(o["ev"])
                if key in done:      # judged once is enough: the same events
                    continue
                done[key] = (f, p)
                o["id"] += "@%d" % len(done)
                where[o["id"]] = (by[o["id"].rsplit("@", 1)[0]], f, p, exe)
                out.write(json.dumps(o) + "\n")
    st, bad = judge(merged, c.work)
    c.account(merged, st)
    c.cov["traces_validated_against_impl"] = total
    c.cov["configurations"] = ["%s %s" % (f, p) for f, p in CONFIGS]
    c.cov["different_traces"] = len(done)
    if bad:
        t, f, p, exe = where[bad["trace"]]
        c.violation("configuration %s %s: trace %s, event %s (%s): %s" % (f, p, bad["trace"], bad["event"], bad["op"], bad["why"]), t, exe)


# ---------------------------------------------------------------- C14
def C14(c):
    exe = build(FULL + ",xw-zero,x-zero,ml-zero")
    s = Script()
    for a in ML:
        k = K[a]
        for i in range(N(6, 30)):
            t = s.trace("C14-%s-%d" % (a, i))
            dk, ek = craft.keygen(a, c.rand(32), c.rand(32))
            tail = ek + craft.H(ek)
            # private keys that differ in their secrets only, made in every way
            t("load", "dk", "D0", a, dk.hex())
            t("load", "dk", "D1", a, (ek_coefs(c, a, c.rnd.choice(HOWS)) + tail + c.rand(32)).hex())
            t("load", "dk", "D2", a, (ek_coefs(c, a, "any") + tail + b"\xff" * 32).hex())
            t("load", "dk", "D3", a, (bytes(384 * k) + tail + bytes(32)).hex())
            t("clone", "D4", "D0")("recode", "D5", "D0")
            t("pub", "E", "D0")("encdet", "K", "C", "E", c.rand(32).hex())("dec", "S", "D0", "C")("dec", "S1", "D1", "C")
            for h in ["D3", "D0", "D1", "D2", "D4", "D5"]:
                t("scan", h)
            # generated keys: the same public part, different z
            d = c.rand(32)
            t("gendet", "G0", "E0", a, (d + c.rand(32)).hex())("gendet", "G1", "E1", a, (d + c.rand(32)).hex())
            t("rng", "R", (d + c.rand(32)).hex())("gen", "G2", "E2", a, "R")("clone", "G3", "G2")
            t("encdet", "K2", "C2", "E0", c.rand(32).hex())("dec", "S2", "G0", "C2")("dec", "S3", "G1", "C")
            for h in ["G1", "G0", "G3", "G2"]:
                t("scan", h)
    for a in ["xwing"] + DH:
        for i in range(N(6, 30)):
            t = s.trace("C14-%s-%d" % (a, i))
            t("rng", "R", stream(c, a, "gggggeee").hex())
            for j in range(4):
                t("gen" if j % 2 or a == "xwing" else "gen2", "D%d" % j, "E%d" % j, a, "R")
            t("enc", "K", "C", "E0", "R")("dec", "S", "D0", "C")("dec", "S1", "D1", "C")
            hs = ["D0", "D1", "D2", "D3"]
            if a == "xwing":
                t("gen2", "D4", "E4", a, "R")("clone", "D5", "D0")("recode", "D6", "D0")("load", "dk", "D7", a, (b"\xff" * 32).hex())("load", "dk", "D8", a, bytes(32).hex())
                hs += ["D4", "D5", "D6", "D7", "D8"]
            if a == "x25519":
                t("clone", "D4", "D0")
                hs += ["D4"]
            for h in hs:
                t("scan" if (i + int(h[1:])) % 2 == 0 else "wipe", h)
    # secrets with zeros, repetitions and other patterns in them
    def patterns(n):
        for j in range(n):
            yield bytes([0 if x == j else 1 + c.rnd.randrange(255) for x in range(n)])
        for j in [1, 2, 3, 4, 7, 8, 15, 16, n - 8, n - 4, n - 2, n - 1]:
            yield bytes(j) + c.rand(n - j)
            yield c.rand(j) + bytes(n - j)
        yield c.rand(n // 2) * 2
        yield c.rand(8) * (n // 8)
        yield c.rand(1) * n
        yield bytes([255]) * n
    for a in ["xwing", "x25519"]:
        for i, x in enumerate(patterns(32)):
            t = s.trace("C14-%s-pattern%d" % (a, i))
            # a second one with another value at every place where there is something to see
            y = bytes([b ^ (1 + c.rnd.randrange(255)) for b in x])
            t("rng", "R", (x + y + c.rand(64)).hex())("gen", "D0", "E0", a, "R")("gen", "D1", "E1", a, "R")
            if i % 3 == 0:
                t("enc", "K", "C", "E0", "R")("dec", "S", "D0", "C")
            if i % 3 == 1:
                t("clone", "D2", "D0")("scan", "D2")
            t("scan" if i % 2 else "wipe", "D0")("scan", "D1")
    for a in NIST:
        f, n = FIELD[a], ORDER[a]
        vals = [1, 2, 255, 256, 1 << 63, 1 << 64, (1 << 64) - 1, (1 << 128) + 1, n - 1, n - 2, n >> 1, n >> 65 << 65, (n >> 1) ^ (n >> 1 & 0xffffffffffffffff)]
        vals += [c.rnd.randrange(1, n) & ~(((1 << 64) - 1) << (64 * j)) or 1 for j in range((f + 7) // 8)]
        vals += [c.rnd.randrange(1, 1 << (8 * j)) for j in range(1, f - 1, N(5, 1))]
        for i, v in enumerate(vals):
            t = s.trace("C14-%s-pattern%d" % (a, i))
            t("rng", "R", (scalar(a, v) + scalar(a, c.rnd.randrange(1, n))).hex())("gen" if i % 2 else "gen2", "D0", "E0", a, "R")("gen", "D1", "E1", a, "R")
            t("scan" if i % 3 else "wipe", "D0")("scan", "D1")
    for a in ML:
        k = K[a]
        pub = craft.keygen(a, c.rand(32), c.rand(32))[1]
        pub += craft.H(pub)
        for i, z in enumerate(patterns(32)):
            if i % N(3, 1) and not THOROUGH and i < 32:
                continue
            t = s.trace("C14-%s-pattern%d" % (a, i))
            co = [0 if c.rnd.random() < [0, 0.5, 0.9, 0.02][i % 4] else c.rnd.randrange(1, 3329) for _ in range(256 * k)]
            j = c.rnd.randrange(k)
            if i % 5 == 0:
                co[256 * j:256 * j + 256] = [0] * 256
            b = b"".join(craft.enc(12, co[256 * x:256 * x + 256]) for x in range(k))
            t("load", "dk", "D0", a, (b + pub + z).hex())("load", "dk", "D1", a, (ek_coefs(c, a, "canon") + pub + bytes([v ^ (1 + c.rnd.randrange(255)) for v in z])).hex())
            t("clone", "D2", "D0")
            for h in ["D0", "D2", "D1"] if i % 2 else ["D1", "D0", "D2"]:
                t("scan", h)
    c.conform(exe, s)
    # private keys with a history: whatever was done before, nothing is left
    behaviours(c, [([a], N(10, 14), 2, st2(), N(30, 300)) for a in ML + ["xwing"]] + [([a], 8, 1, st2(), N(20, 200)) for a in DH], exe, erase=True)
    c.assume.append("memory is inspected at the place where the value lived; copies the compiler leaves elsewhere are outside the property")
    # the dhkem feature alone, without the curve crates' own zeroize features
    for f in OWN:
        exe = build(f)
        s = Script()
        a = f.split(",")[0]
        if a == "mlkem":
            for a in ML:
                t = s.trace("C14-own-%s" % a)
                dk, ek = craft.keygen(a, c.rand(32), c.rand(32))
                t("load", "dk", "D0", a, dk.hex())("load", "dk", "D1", a, (ek_coefs(c, a, "canon") + ek + craft.H(ek) + c.rand(32)).hex())("scan", "D0")("scan", "D1")
        else:
            t = s.trace("C14-own-%s" % a)
            t("rng", "R", stream(c, a, "ggg").hex())
            for j in range(3):
                t("gen", "D%d" % j, "E%d" % j, a, "R")
            for j in range(3):
                t("scan", "D%d" % j)
        op = run_harness(exe, s, c.work, tag="own")
        st, bad = judge(op, c.work)
        c.account(op, st)
        if bad and not c.known_finding("%s:%s" % (f, bad["op"]), ""):
            c.violation("features %s: trace %s, event %s (%s): %s" % (f, bad["trace"], bad["event"], bad["op"], bad["why"]), s.traces[0], exe)


# ---------------------------------------------------------------- C15 C16 C17
LOW25519 = ["00" * 32, "01" + "00" * 31, "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
            "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157", "ec" + "ff" * 30 + "7f", "ed" + "ff" * 30 + "7f",
            "ee" + "ff" * 30 + "7f", "cdeb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b880",
            "4c9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f11d7", "d9" + "ff" * 31, "da" + "ff" * 31, "db" + "ff" * 31,
            "ff" * 32, "f0" + "ff" * 30 + "7f", "00" * 31 + "80", "09" + "00" * 30 + "80", "f6" + "ff" * 30 + "7f", "ff" * 31 + "7f",
            "02" + "00" * 31, "ed" + "ff" * 31]


def C15(c):
    exe = variants(XWV)
    s = Script()
    a = "xwing"
    for i in range(N(400, 6000)):
        t = s.trace("C15-honest%d" % i)
        seed = msg(c, i)
        e1 = c.rand(64) if i % 4 else msg(c, i // 4) + msg(c, i // 4 + 5)
        if i % 2:
            t("rng", "R", (seed + e1 + c.rand(64)).hex())("gen" if i % 4 == 1 else "gen2", "D", "E", a, "R")
        else:
            t("load", "dk", "D", a, seed.hex())("pub", "E", "D")("rng", "R", (e1 + c.rand(64)).hex())
        t("enc", "K", "C", "E", "R")("dec", "S", "D", "C")
        if i % 5 == 0:
            t("recode", "E2", "E")("enc", "K2", "C2", "E2", "R")("dec", "S2", "D", "C2")
    pool = [bytes.fromhex(x) for x in LOW25519]
    for i in range(N(120, 1500)):
        t = s.trace("C15-odd%d" % i)
        t("load", "dk", "D", a, msg(c, i).hex())("pub", "E", "D")
        # public keys with any ML-KEM part and low-order, non-canonical or any X25519 part
        how = HOWS[i % len(HOWS)]
        m = ek_coefs(c, "mlkem768", how) + c.rand(32) if i % 3 else c.rand(1184)
        x = pool[i % len(pool)] if i % 2 else c.rand(32)
        t("load", "ek", "F", a, (m + x).hex())
        for j in range(2):
            t("rng", "Q%d" % j, (c.rand(32) + (c.rand(32) if j else msg(c, i))).hex())("enc", "K%d" % j, "C%d" % j, "F", "Q%d" % j)
            t("dec", "S%d" % j, "D", "C%d" % j)
        # an honest ML-KEM part with such an X25519 part, and the other way round
        t("rng", "R", c.rand(64).hex())("enc", "K", "C", "E", "R")
        t("load", "ct", "X", a, (c.rand(1088) + pool[(i * 7 + 3) % len(pool)]).hex())("dec", "SX", "D", "X")
        t("splice", "Y", "C", 1088, 32, "X", 1088)("dec", "SY", "D", "Y")("splice", "Z", "C", 0, 1088, "X", 0)("dec", "SZ", "D", "Z")
        t("load", "ct", "W", a, (bytes([c.rnd.choice([0, 255, 1])]) * 1120 if i % 3 == 0 else c.rand(1120)).hex())("dec", "SW", "D", "W")
        # an honest public key half with an odd other half
        t("splice", "G", "E", 1184, 32, "F", 1184)("rng", "T", c.rand(64).hex())("enc", "KG", "CG", "G", "T")("dec", "SG", "D", "CG")
        t("splice", "G2", "E", 0, 1184, "F", 0)("rng", "U", c.rand(64).hex())("enc", "KH", "CH", "G2", "U")("dec", "SH", "D", "CH")
    for i, (b, _, d) in enumerate(corpus("rare")):
        t = s.trace("C15-rare%d" % i)
        t("load", "ek", "E", a, (ek_coefs(c, "mlkem768", "canon") + craft.G(bytes.fromhex(d) + bytes([K[b]]))[0] + c.rand(32)).hex())
        t("rng", "R", c.rand(64).hex())("enc", "K", "C", "E", "R")
    for i in range(N(40, 300)):
        s.traces.append(coincidences(c, "C15-same%d" % i, i))
    for i, p in enumerate(pool):
        t = s.trace("C15-low%d" % i)
        t("load", "dk", "D", a, c.rand(32).hex())("pub", "E", "D")("rng", "R", c.rand(64).hex())("enc", "K", "C", "E", "R")
        cur = "C"
        t("load", "ct", "P", a, (bytes(1088) + p).hex())("splice", "Q", "C", 1088, 32, "P", 1088)("dec", "S", "D", "Q")
        t("load", "ek", "EP", a, (bytes(1184) + p).hex())("splice", "EQ", "E", 1184, 32, "EP", 1184)("rng", "R2", c.rand(64).hex())("enc", "K2", "C2", "EQ", "R2")("dec", "S2", "D", "C2")
    c.conform(exe, s)


def coincidences(c, name, i):
    """X-Wing values that occur in two roles at once"""
    a = "xwing"
    t = Trace(name)
    seed = msg(c, i) if i % 5 == 0 else c.rand(32)
    sk_x = craft.shake128(seed, 96)[64:]
    m, e = c.rand(32), c.rand(32)
    # the sender draws the receiver's X25519 secret, its seed, or twice the same
    d = [m + sk_x, seed + e, m + seed, m + m, sk_x + sk_x, seed + sk_x, craft.shake128(seed, 64), craft.shake128(seed, 96)[32:]][i % 8]
    t("load", "dk", "D", a, seed.hex())("pub", "E", "D")("rng", "R", (d + c.rand(64)).hex())("enc", "K", "C", "E", "R")("dec", "S", "D", "C")
    t("enc", "K2", "C2", "E", "R")("dec", "S2", "D", "C2")
    # the receiver's public key comes back as the sender's, as it is or in another encoding; parts of keys as ciphertexts
    t("load", "ct", "Z", a, (bytes(1088) + bytes([9]) + bytes(31)).hex())
    t("splice", "X1", "C2", 1088, 32, "E", 1184)("dec", "SX1", "D", "X1")("splice", "X2", "Z", 1088, 32, "E", 1184)("dec", "SX2", "D", "X2")
    t("xor", "X3", "X1", "1119:128")("dec", "SX3", "D", "X3")
    t("splice", "X4", "C2", 1088, 32, "Z", 1088)("dec", "SX4", "D", "X4")
    t("splice", "X5", "C2", 0, 1088, "E", 0)("dec", "SX5", "D", "X5")("splice", "X6", "C2", 0, 1088, "E", 128)("splice", "X6", "X6", 1088, 32, "C2", 0)("dec", "SX6", "D", "X6")
    t("splice", "X7", "C2", 1088, 32, "D", 0)("dec", "SX7", "D", "X7")
    # public keys whose X25519 part is the base point, their own rho, the ephemeral key or somebody's seed
    t("splice", "E1", "E", 1184, 32, "Z", 1088)("splice", "E2", "E", 1184, 32, "E", 1152)("splice", "E3", "E", 1184, 32, "C", 1088)("splice", "E4", "E", 1184, 32, "D", 0)
    for j in range(1, 5):
        t("rng", "Q%d" % j, ([d, m + e][j % 2] + c.rand(64)).hex())("enc", "L%d" % j, "M%d" % j, "E%d" % j, "Q%d" % j)("dec", "T%d" % j, "D", "M%d" % j)
    return t


def C16(c):
    exe = variants(XWV)
    s = Script()
    a = "xwing"
    for i in range(N(12, 60)):
        s.trace("C16-bulk%d" % i)("honest", a, N(200, 800), c.rnd.randrange(1 << 40))
    for rep in range(N(1, 6)):
        seed, eb = c.rand(32).hex(), c.rand(64).hex()
        pts = bit_patches(range(1088, 1120)) + bit_patches(range(0, 1088), [c.rnd.randrange(8)])
        pts += reject_patches(c, 1120, 1088)[:: N(4, 1)]
        pts += ["%d:%d,%d:%d" % (p, 1, 1088 + p % 32, 1) for p in range(0, 1088, N(20, 3))]
        for i, ch in enumerate(chunks(pts, 240)):
            t = s.trace("C16-ct%d-%d" % (rep, i))
            t("load", "dk", "D", a, seed)("pub", "E", "D")("rng", "R", eb)("enc", "K", "C", "E", "R")
            sweep(t, "decsweep", ("D", "C"), ["-"] + ch + ["-"])
        for i, ch in enumerate(chunks(bit_patches(range(32)), 64)):
            t = s.trace("C16-dk%d-%d" % (rep, i))
            t("load", "dk", "D", a, seed)("pub", "E", "D")("rng", "R", eb)("enc", "K", "C", "E", "R")
            sweep(t, "dksweep", ("D", "C"), ["-"] + ch)
        for i, ch in enumerate(chunks(bit_patches(range(1184, 1216)) + bit_patches(range(1152, 1184), [0, 7]) + bit_patches(range(0, 1152, N(12, 2)), [c.rnd.randrange(8)]), 120)):
            t = s.trace("C16-ek%d-%d" % (rep, i))
            t("load", "dk", "D", a, seed)("pub", "E", "D")
            sweep(t, "encsweep", ("E", eb), ["-"] + ch)
    # changed public keys, then the unchanged private key, and parts of two exchanges
    for i in range(N(60, 600)):
        t = s.trace("C16-mix%d" % i)
        t("rng", "R", (c.rand(64) + c.rand(128)).hex())("gen", "D", "E", a, "R")("gen", "D2", "E2", a, "R")
        t("enc", "K", "C", "E", "R")("enc", "K2", "C2", "E2", "R") if i % 2 else t("enc", "K", "C", "E", "R")("rng", "T", c.rand(64).hex())("enc", "K2", "C2", "E", "T")
        t("dec", "S", "D", "C")("dec", "S2", "D2", "C2")("dec", "S3", "D", "C2")("dec", "S4", "D2", "C")
        t("splice", "M", "C", 0, 1088, "C2", 0)("dec", "SM", "D", "M")("dec", "SM2", "D2", "M")
        t("splice", "X", "C", 1088, 32, "C2", 1088)("dec", "SX", "D", "X")
        t("splice", "EM", "E", 0, 1184, "E2", 0)("rng", "Q", c.rand(128).hex())("enc", "KM", "CM", "EM", "Q")("dec", "SMM", "D", "CM")("dec", "SMN", "D2", "CM")
        t("splice", "EX", "E", 1184, 32, "E2", 1184)("enc", "KX", "CX", "EX", "Q")("dec", "SXX", "D", "CX")("dec", "SXY", "D2", "CX")
    for i in range(N(24, 120)):
        s.traces.append(coincidences(c, "C16-same%d" % i, i))
    c.conform(exe, s, threads=8)
    modelled(c, exe, [(["xwing"], N(5, 6), 2, st2())], [(["xwing"], N(12, 16), 4, st2(), N(150, 1500))],
             [(["xwing"], 6, N(1, 2), st2())] + N([], [(["xwing"], 7, 1, st2()), (["xwing"], 5, 4, st2())]))


def C17(c):
    exe = variants(XWV)
    s = Script()
    a = "xwing"
    for i in range(N(2, 10)):
        for kind, size in (("dk", 32), ("ct", 1120), ("ek", 1216)):
            pos = range(size)
            pts = bit_patches(pos, range(8) if kind == "dk" or THOROUGH else [c.rnd.randrange(8), c.rnd.randrange(8)])
            base = c.rand(size) if kind != "ek" else ek_coefs(c, "mlkem768", "canon") + c.rand(64)
            for ci, ch in enumerate(chunks(pts, 600)):
                t = s.trace("C17-%s-%d-%d" % (kind, i, ci))
                t("load", kind, "B", a, base.hex())
                sweep(t, "loadsweep", ("B",), ["-"] + ch)
    for i in range(N(60, 600)):
        t = s.trace("C17-any%d" % i)
        b = bytes([c.rnd.choice([0, 255, 127, 128])])
        t("load", "ek", "E", a, (c.rand(1216) if i % 5 else b * 1216).hex())("recode", "E2", "E")("bytes", "E2")("eq", "E", "E2")
        t("load", "ct", "C", a, (c.rand(1120) if i % 5 else b * 1120).hex())("recode", "C2", "C")("bytes", "C2")("eq", "C", "C2")
        t("load", "dk", "D", a, (c.rand(32) if i % 5 else b * 32).hex())("recode", "D2", "D")("bytes", "D2")
        t("dec", "S", "D", "C")("dec", "S2", "D2", "C2")("eq", "S", "S2")
        t("rng", "R", c.rand(64).hex())("enc", "K", "C3", "E2", "R")
    for i in range(N(100, 1000)):
        t = s.trace("C17-use%d" % i)
        t("rng", "R", c.rand(32 + 64 * 3).hex())("gen", "D", "E", a, "R")("recode", "D2", "D")("recode", "E2", "E")("pub", "P", "D2")("eq", "P", "E2")("eq", "E", "E2")
        t("enc", "K", "C", "E2", "R")("recode", "C2", "C")("eq", "C", "C2")("dec", "S", "D2", "C2")("dec", "S1", "D", "C")("eq", "S", "K")
        t("clone", "D3", "D2")("clone", "E3", "E2")("clone", "C3", "C2")("dec", "S3", "D3", "C3")("enc", "K4", "C4", "E3", "R")("dec", "S4", "D", "C4")
        t("alias", "EA", "E", 0, 768, c.rnd.randrange(768))("eq", "EA", "E")("enc", "K5", "C5", "EA", "R")("dec", "S5", "D", "C5")
        # layout: the ML-KEM part on its own
        if i % 2:
            t("bytes", "E")("bytes", "C")("bytes", "D")
    c.conform(exe, s)
    modelled(c, exe, [(["xwing"], N(5, 6), 1, st2())], [(["xwing"], N(10, 14), 2, st2(), N(100, 1000))])


# ---------------------------------------------------------------- C18 C19
def edge_scalars(a):
    n = ORDER[a]
    b = n.bit_length()
    out = [1, 2, 3, 4, 5, 7, 8, 15, 16, 17, n - 1, n - 2, n - 3, n // 2, n // 2 + 1, (n - 1) // 3, 1 << (b - 1), (1 << (b - 1)) - 1, (1 << (b - 1)) + 1, 1 << (b // 2),
           (1 << (b // 2)) - 1, n - (1 << (b // 2)), 0x5555555555555555 << (b - 70), 0xaaaaaaaa << 20, 255, 256, 1 << 64, (1 << 128) - 1]
    return [x for x in out if 0 < x < n]


def extreme_points(a, n):
    """points of the curve with the n smallest and n largest x there are, either y"""
    p, ca, b = FIELD_P[a], CURVE_AB[a][0], CURVE_AB[a][1]
    out = []
    for xs in (range(p), range(p - 1, 0, -1)):
        k = 0
        for x in xs:
            r = (x * x * x + ca * x + b) % p
            y = pow(r, (p + 1) // 4, p)
            if y * y % p == r:
                out.append((x, y if k % 2 else p - y if y else 0))
                k += 1
            if k == n:
                break
    return out


def C18(c):
    exe = variants(FULLV)
    s = Script()
    for a in NIST:
        es = edge_scalars(a)
        for i in range(N(40, 300)):
            t = s.trace("C18-%s-%d" % (a, i))
            sk = es[i % len(es)] if i < len(es) else c.rnd.randrange(1, ORDER[a])
            e = es[(i * 11 + 5) % len(es)] if i % 3 == 0 else c.rnd.randrange(1, ORDER[a])
            pre = bad_block(c, a, i) if i % 4 == 1 else b""
            t("rng", "R", (pre + scalar(a, sk) + scalar(a, e) + scalar(a, sk)).hex())
            t("gen" if i % 2 else "gen2", "D", "E", a, "R")("enc", "K", "C", "E", "R")("dec", "S", "D", "C")("eq", "S", "K")
            if i % 4 == 0:
                # own key as peer: the secret squared
                t("cast", "X", "E", "ct")("dec", "SX", "D", "X")
                t("enc", "K2", "C2", "E", "R")("dec", "S2", "D", "C2")
        # ephemeral secrets that are the receiver's own, its negative, double, half, inverse
        n = ORDER[a]
        for i in range(N(12, 48)):
            sk = es[(i // 6) % len(es)] if i >= 6 and i % 2 else c.rnd.randrange(1, n)
            e = [n - sk, 2 * sk % n, sk * pow(2, -1, n) % n, pow(sk, -1, n), n - pow(sk, -1, n), sk][i % 6]
            t = s.trace("C18-%s-kin%d" % (a, i))
            t("rng", "R", (scalar(a, sk) + scalar(a, e) + scalar(a, c.rnd.randrange(1, n))).hex())("gen", "D", "E", a, "R")
            t("enc", "K", "C", "E", "R")("dec", "S", "D", "C")("enc", "K2", "C2", "E", "R")("dec", "S2", "D", "C2")
        # peers from outside: any valid point, its negative, points with extreme coordinates
        for i in range(N(10, 80)):
            t = s.trace("C18-%s-peer%d" % (a, i))
            t("rng", "R", b"".join(scalar(a, x) for x in (c.rnd.randrange(1, ORDER[a]), es[i % len(es)], c.rnd.randrange(1, ORDER[a]))).hex())
            t("gen", "D", "E", a, "R")("gen", "D2", "E2", a, "R")("cast", "C", "E2", "ct")("dec", "S", "D", "C")
            t("recode", "F", "E2")("enc", "K", "C1", "F", "R")("dec", "S1", "D2", "C1")("eq", "S1", "K")("dec", "S2", "D", "C1")
        # peers whose x is the smallest and the largest there are
        for i, (x, y) in enumerate(extreme_points(a, N(16, 60))):
            t = s.trace("C18-%s-extreme%d" % (a, i))
            p = (b"\x04" + x.to_bytes(FIELD[a], "big") + y.to_bytes(FIELD[a], "big")).hex()
            t("rng", "R", b"".join(scalar(a, v) for v in (c.rnd.randrange(1, ORDER[a]), es[i % len(es)], c.rnd.randrange(1, ORDER[a]), c.rnd.randrange(1, ORDER[a]))).hex())
            t("gen", "D", "E", a, "R")("gen", "D2", "E2", a, "R")("load", "ct", "C", a, p)("load", "ek", "F", a, p)
            t("dec", "S", "D", "C")("dec", "S2", "D2", "C")("enc", "K", "C1", "F", "R")("enc", "K2", "C2", "F", "R")
        # coordinates with zero bytes at their ends, of a public key, of what is sent and of the secret itself
        for i, k in enumerate(small_points(a)):
            sk = c.rnd.randrange(1, ORDER[a])
            e = k * pow(sk, -1, ORDER[a])
            t = s.trace("C18-%s-zeros%d" % (a, i))
            t("rng", "R", b"".join(scalar(a, x) for x in (sk, e, k, ORDER[a] - k, small_points(a)[i - 1] * pow(k, -1, ORDER[a]), k + 1)).hex())
            t("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")("dec", "S", "D", "C")("eq", "S", "K")
            t("gen", "D2", "E2", a, "R")("gen", "D3", "E3", a, "R")("cast", "C2", "E2", "ct")("cast", "C3", "E3", "ct")("dec", "S2", "D", "C2")("dec", "S3", "D", "C3")
            t("recode", "F2", "E2")("enc", "K4", "C4", "F2", "R")("dec", "S4", "D2", "C4")("enc", "K5", "C5", "E", "R")("dec", "S5", "D", "C5")
    a = "x25519"
    pool = [bytes.fromhex(x) for x in LOW25519]
    for i in range(N(300, 4000)):
        t = s.trace("C18-x25519-%d" % i)
        sk = msg(c, i)
        e = msg(c, i // 2) if i % 3 == 0 else c.rand(32)
        t("rng", "R", (sk + e + c.rand(32)).hex())("gen" if i % 2 else "gen2", "D", "E", a, "R")("enc", "K", "C", "E", "R")("dec", "S", "D", "C")("eq", "S", "K")
        p = pool[i % len(pool)] if i % 2 else c.rand(32)
        t("load", "ek", "F", a, p.hex())("enc", "K2", "C2", "F", "R")("load", "ct", "X", a, p.hex())("dec", "S2", "D", "X")
        t("clone", "D2", "D")("dec", "S3", "D2", "C")("dec", "S4", "D", "C2")
    for i in range(N(8, 40)):
        t = s.trace("C18-x25519-kin%d" % i)
        sk = c.rand(32)
        t("rng", "R", (sk + [sk, bytes([sk[0] ^ 7]) + sk[1:], sk[:31] + bytes([sk[31] ^ 192])][i % 3] + c.rand(32)).hex())
        t("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")("dec", "S", "D", "C")("cast", "X", "E", "ct")("dec", "SX", "D", "X")("enc", "K2", "C2", "E", "R")("dec", "S2", "D", "C2")
    # and many ordinary exchanges
    for a, n in N([("p256", 400), ("k256", 400), ("p384", 150), ("p521", 60), ("x25519", 3000)], [("p256", 6000), ("k256", 6000), ("p384", 2000), ("p521", 800), ("x25519", 60000)]):
        for i in range(8):
            s.trace("C18-%s-bulk%d" % (a, i))("honest", a, n, c.rnd.randrange(1 << 40))
    c.conform(exe, s, threads=8)
    modelled(c, exe, [([a], 5, 1, st2()) for a in N(["x25519"], ["x25519", "p256"])],
             [([a], N(10, 14), 3, st2(), N(8 if a in NIST else 80, 60 if a in NIST else 800)) for a in DH],
             [(["x25519"], 6, N(2, 3), st2())] + N([], [(["p256"], 7, 2, st2()), (["x25519", "k256"], 6, 2, st2())]))


def points(c, a, n):
    """encodings of n valid public keys, obtained from the code under test"""
    exe = build(FULL)
    s = Script()
    t = s.trace("pts")
    es = [x for p in zip(small_points(a), edge_scalars(a)) for x in p] if a in NIST else []
    for i in range(n):
        sc = scalar(a, es[i // 2] if i % 2 == 0 and i // 2 < len(es) else c.rnd.randrange(1, ORDER[a])) if a in NIST else c.rand(32)
        t("rng", "R%d" % i, sc.hex())("gen", "D%d" % i, "E%d" % i, a, "R%d" % i)
    op = run_harness(exe, s, c.work, tag="pts-" + a)
    return [bytes.fromhex(e["ekb"]) for e in json.loads(open(op).read())["ev"] if e["op"] == "gen" and e["out"] == "ok"]


def C19(c):
    exe = variants([FULL + ",x-zero", FULL])
    s = Script()
    for a in DH:
        n = N(12, 40)
        pts = points(c, a, n)
        pool = [bytes.fromhex(x) for x in LOW25519] if a == "x25519" else []
        if a in NIST:      # negatives: the other y
            p = FIELD_P[a]
            f = FIELD[a]
            pool = [x[:1 + f] + (p - int.from_bytes(x[1 + f:], "big")).to_bytes(f, "big") for x in pts[:4]]
        allp = pts + pool
        for i in range(N(24, 120)):
            x = allp[i % len(allp)]
            y = x if i % 5 == 0 else allp[(i * 7 + 1 + i // 3) % len(allp)] if i % 5 != 1 else (pool[i % len(pool)] if pool else x)
            t = s.trace("C19-%s-%d" % (a, i))
            t("rng", "R", (stream(c, a, "g") + c.rand(3)).hex())("wrap", a, "R", x.hex(), y.hex())
    c.conform(exe, s)


# ---------------------------------------------------------------- C20
def C20(c):
    exe = variants(FULLV)
    s = Script()
    for a in ML + ["xwing"]:
        for kind in ("ek", "dk", "ct"):
            if (a == "xwing" and kind == "dk") or (a in ML and kind == "ct"):
                continue
            size = {"ek": eks(a), "dk": dks(a), "ct": CTS[a]}[kind]
            pts = bit_patches(range(size), range(8) if THOROUGH else [c.rnd.randrange(8)]) + bit_patches(range(size - 32, size))
            pts += reject_patches(c, size, size // 2)[:: N(6, 1)]
            if kind == "ek" and a == "xwing" or kind == "ct":
                # other encodings of the same X25519 value
                pts += ["%d:128" % (size - 1), "%d:128,%d:1" % (size - 1, size - 32)]
            for ci, ch in enumerate(chunks(pts, 400)):
                t = s.trace("C20-%s-%s-%d" % (a, kind, ci))
                r = gen_draw(c, a) + enc_draw(c, a)
                t("rng", "R", r.hex())("gen", "D", "E", a, "R")("enc", "K", "C", "E", "R")
                sweep(t, "eqsweep", ({"ek": "E", "dk": "D", "ct": "C"}[kind],), ["-"] + ch)
        # the same around keys and ciphertexts whose parts are constant or repeat
        for i in range(N(24, 240)):
            t = s.trace("C20-%s-fields%d" % (a, i))
            fill = bytes([[0, 255, 0x55, 0x80, 1, 13][(i // 4) % 6]])
            if a in ML:
                b = patterned(c, a, i if i < 9 else 25 + i)
                kk = 384 * K[a]
                vals = [("dk", b, [0, 2 * kk + 32, 2 * kk + 64, kk, 2 * kk]), ("ek", [b[kk:2 * kk + 32], b[kk:2 * kk] + fill * 32, fill * kk + c.rand(32), fill * (kk + 32)][i % 4], [0, kk])]
                if i % 4 == 3:
                    vals[0] = ("dk", fill * dks(a), vals[0][2])
            else:
                m, x = ek_coefs(c, "mlkem768", ["canon", "zero", "max", "one"][i % 4]), [c.rand(32), fill * 32, bytes.fromhex(LOW25519[i % len(LOW25519)])][i // 2 % 3]
                vals = [("ek", m + (fill * 32 if i % 2 else x) + x, [0, 1152, 1184]), ("ct", (fill * 1088 if i % 3 else x * 34) + x, [0, 1056, 1088])]
            for kind, val, offs in vals:
                t("load", kind, "B" + kind, a, val.hex())
                sweep(t, "eqsweep", ("B" + kind,), ["-"] + ["%d:%d" % (o + c.rnd.randrange(32), 1 << c.rnd.randrange(8)) for o in offs for _ in range(6)] +
                      ["%d:%d" % (c.rnd.randrange(len(val)), 1 << c.rnd.randrange(8)) for _ in range(20)])
    # small X25519 values have a second encoding
    for i in range(19):
        for hi in (0, 128):
            t = s.trace("C20-xwing-alias%d-%d" % (i, hi))
            low = bytes([i]) + bytes(31)
            other = bytes([237 + i]) + b"\xff" * 30 + bytes([0x7f | hi]) if i < 19 else low
            m, cm = ek_coefs(c, "mlkem768", "canon") + c.rand(32), c.rand(1088)
            t("load", "ek", "E", "xwing", (m + low).hex())("load", "ek", "F", "xwing", (m + other).hex())("eq", "E", "F")("eq", "F", "E")("eq", "E", "E")
            t("load", "ct", "C", "xwing", (cm + low).hex())("load", "ct", "B", "xwing", (cm + other).hex())("eq", "C", "B")("eq", "B", "C")
    # equal whichever way obtained
    for a in ML + ["xwing"]:
        for i in range(N(30, 300)):
            t = s.trace("C20-%s-same%d" % (a, i))
            g = gen_draw(c, a)
            t("rng", "R", (g + enc_draw(c, a)).hex())("rng", "Q", g.hex())("gen", "D", "E", a, "R")("gen", "D2", "E2", a, "Q")("enc", "K", "C", "E", "R")
            t("recode", "D3", "D")("recode", "E3", "E")("clone", "D4", "D3")("clone", "E4", "E3")("pub", "P", "D4")("recode", "C2", "C")
            for x, y in (("D", "D2"), ("D", "D3"), ("D4", "D2"), ("E", "E2"), ("E", "E3"), ("E4", "P"), ("P", "E"), ("C", "C2")):
                t("eq", x, y)("eq", y, x)
            g2 = flip(g, c.rnd.randrange(8 * len(g)))
            t("rng", "Q2", g2.hex())("gen", "DX", "EX", a, "Q2")("eq", "D", "DX")("eq", "E", "EX")("eq", "EX", "E")("eq", "DX", "D")
            t("alias", "EA", "E", 0, 256 * (K[a] if a in ML else 3), c.rnd.randrange(512))("eq", "EA", "E")("eq", "E", "EA")
            # keys do not mix
            t("dec", "S", "DX", "C")("dec", "S2", "D2", "C")
    # ciphertexts sent under another parameter set or to another key
    for i in range(N(20, 200)):
        t = s.trace("C20-mix%d" % i)
        x = c.rand(64).hex()
        m = c.rand(32).hex()
        for a in ML:
            t("gendet", "D" + a, "E" + a, a, x)("encdet", "K" + a, "C" + a, "E" + a, m)("dec", "S" + a, "D" + a, "C" + a)
        for a in ML:
            for b in ML:
                t("eq", "K" + a, "K" + b)
        t("gendet", "F", "EF", "mlkem768", c.rand(64).hex())("dec", "SF", "F", "Cmlkem768")("eq", "SF", "Kmlkem768")
    c.conform(exe, s)
    modelled(c, exe, [(["mlkem512", "mlkem768"], N(5, 6), 1, st2())] + N([], [(["xwing"], 6, 2, st2())]),
             [([a], N(12, 16), 4, st2(), N(40, 400)) for a in ML + ["xwing"]],
             [(["mlkem512", "mlkem768"], 5, 2, st2())] + N([], [(["mlkem512", "mlkem768"], 6, 1, st2()), (["mlkem512", "xwing"], 6, 1, st2()), (["mlkem768"], 6, 2, st2())]))


# ---------------------------------------------------------------- C21
def C21(c):
    for prof, n in (("dev", N(60, 1500)), ("release", N(30, 1500))):
        exe = build("mlkem,ml-det,xwing", prof)
        s = Script()
        fills = [0, 255, 0x0f, 0xf0, 0x7f, 0x80, 13, 0xd0]
        for a in ML:
            for i in range(n):
                t = s.trace("C21-%s-%s-%d" % (prof, a, i))
                pick = lambda size: bytes([fills[i % 8]]) * size if c.rnd.random() < 0.2 else c.rand(size)
                if i % 3 == 0:
                    dk = ek_coefs(c, a, HOWS[i // 3 % len(HOWS)]) + ek_coefs(c, a, HOWS[i // 7 % len(HOWS)]) + pick(96)
                    ek = ek_coefs(c, a, HOWS[i // 5 % len(HOWS)]) + pick(32)
                else:
                    dk, ek = pick(dks(a)), pick(eks(a))
                t("load", "dk", "D", a, dk.hex())("load", "ek", "E", a, ek.hex())("load", "ct", "C", a, pick(CTS[a]).hex())
                t("dec", "S", "D", "C")("encdet", "K", "C2", "E", pick(32).hex())("dec", "S2", "D", "C2")
                t("pub", "P", "D")("rng", "R", pick(32).hex())("enc", "K3", "C3", "P", "R")("dec", "S3", "D", "C3")
                t("gendet", "G", "EG", a, pick(64).hex())("dec", "S4", "G", "C")("recode", "D2", "D")("eq", "D", "D2")("bytes", "D")("bytes", "E")
        for i in range(n):
            t = s.trace("C21-%s-xwing-%d" % (prof, i))
            pick = lambda size: bytes([fills[i % 8]]) * size if c.rnd.random() < 0.3 else c.rand(size)
            x = bytes.fromhex(LOW25519[i % len(LOW25519)]) if i % 2 else pick(32)
            t("load", "dk", "D", "xwing", pick(32).hex())("load", "ek", "E", "xwing", (pick(1184) + x).hex())("load", "ct", "C", "xwing", (pick(1088) + x).hex())
            t("dec", "S", "D", "C")("rng", "R", pick(64).hex())("enc", "K", "C2", "E", "R")("dec", "S2", "D", "C2")("pub", "P", "D")
            t("eq", "P", "E")("eq", "C", "C2")("bytes", "D")("recode", "E2", "E")
        for a in ML:
            fields(c, s, "C21-" + prof, a, N(32, 300))
        # crafted keys drive the sums to their extremes
        for a in ML:
            for i, tg in enumerate(threshold_targets(c)[:: N(3, 1)]):
                dk, ct = crafted(c, a, tg)
                t = s.trace("C21-%s-%s-noise%d" % (prof, a, i))
                t("load", "dk", "D", a, dk.hex())("load", "ct", "C", a, ct.hex())("dec", "S", "D", "C")
        # streams that are unusually long, short or hard to use
        for i, (a, _, d) in enumerate(corpus("rare")):
            t = s.trace("C21-%s-rare%d" % (prof, i))
            t("gendet", "D", "E", a, d + "00" * 32)("encdet", "K", "C", "E", c.rand(32).hex())("dec", "S", "D", "C")
        # and many ordinary ones
        for a in ML + ["xwing"]:
            for i in range(8):
                s.trace("C21-%s-%s-bulk%d" % (prof, a, i))("honest", a, N(600, 8000), c.rnd.randrange(1 << 40))
        c.conform(exe, s, threads=8, tag=prof)
        # DH: every byte string is a public key for X25519; others import or are refused
        exe = build("alldh", prof)
        s = Script()
        for a in DH:
            for i in range(N(12, 100)):
                t = s.trace("C21-%s-%s-%d" % (prof, a, i))
                t("rng", "R", stream(c, a, "gee").hex())("gen", "D", "E", a, "R")
                b = c.rand(32) if a == "x25519" else b"\x04" + c.rand(2 * FIELD[a])
                t("load", "ek", "F", a, b.hex())("load", "ct", "G", a, b.hex())("enc", "K", "C", "E", "R")("dec", "S", "D", "C")
                if a == "x25519":
                    t("enc", "K2", "C2", "F", "R")("dec", "S2", "D", "G")
                else:
                    t("cast", "P", "E", "ct")("dec", "S3", "D", "P")
        c.conform(exe, s, tag=prof + "-dh")


CHECKS = {
    "C01": ("model_checking", "honest exchanges through varying chains of clone, export, import; non-trivial: distinct secrets", C01),
    "C02": ("exploration", "key generations from corner, related and random seeds through both entry points; non-trivial: distinct keys", C02),
    "C03": ("exploration", "encapsulations to honest, non-canonical, extreme and arbitrary public keys; non-trivial: distinct ciphertexts", C03),
    "C04": ("exploration", "decapsulations with honest, spliced, arbitrary and crafted private keys; non-trivial: distinct secrets", C04),
    "C05": ("model_checking", "every bit of a ciphertext changed, cancelling multi-byte changes, swaps; non-trivial: distinct changed ciphertexts", C05),
    "C06": ("model_checking", "imports of all 12-bit values and of changed bytes; non-trivial: distinct imported strings", C06),
    "C07": ("model_checking", "sequences of randomised calls on scripted generators with consumption recorded; non-trivial: distinct results", C07),
    "C08": ("fault_enumeration", "generator failure at every byte (NIST groups, quick: sampled bytes) of key generation and encapsulation; non-trivial: distinct outcomes", C08),
    "C12": ("model_checking", "random call histories, related keys, threads, orders; non-trivial: distinct results", C12),
    "C13": ("exploration", "the same calls in every configuration; non-trivial: distinct results", C13),
    "C14": ("exploration", "memory of private keys after drop and wipe; non-trivial: distinct snapshots", C14),
    "C15": ("exploration", "X-Wing calls on honest, low-order, non-canonical and arbitrary values; non-trivial: distinct results", C15),
    "C16": ("model_checking", "single-bit and combined changes of X-Wing ciphertexts and keys; non-trivial: distinct changes", C16),
    "C17": ("model_checking", "X-Wing imports and exports; non-trivial: distinct strings", C17),
    "C18": ("model_checking", "DH exchanges with edge scalars, rejected blocks and odd peers; non-trivial: distinct results", C18),
    "C19": ("exploration", "operations on wrapped and bare keys; non-trivial: distinct rows", C19),
    "C20": ("model_checking", "comparisons of values that differ anywhere or nowhere; non-trivial: distinct pairs", C20),
    "C21": ("exploration", "arbitrary and extreme bytes in checked and optimised builds; non-trivial: distinct results", C21),
}

import internals
CHECKS.update(internals.CHECKS)
