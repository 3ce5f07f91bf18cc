"""ML-KEM arithmetic used to craft inputs.  It decides nothing: every expected
result comes from the specification."""
import hashlib

Q = 3329
PAR = {"mlkem512": (2, 3, 10, 4), "mlkem768": (3, 2, 10, 4), "mlkem1024": (4, 2, 11, 5)}


def H(x): return hashlib.sha3_256(x).digest()
def G(x): d = hashlib.sha3_512(x).digest(); return d[:32], d[32:]
def J(x): return hashlib.shake_256(x).digest(32)
def shake128(x, n): return hashlib.shake_128(x).digest(n)


def rev7(i): return int(format(i, "07b")[::-1], 2)


ZETA = [pow(17, rev7(i), Q) for i in range(128)]
GAMMA = [pow(17, 2 * rev7(i) + 1, Q) for i in range(128)]


def ntt(f):
    f, k, ln = list(f), 1, 128
    while ln >= 2:
        for st in range(0, 256, 2 * ln):
            z = ZETA[k]; k += 1
            for j in range(st, st + ln):
                t = z * f[j + ln] % Q
                f[j + ln] = (f[j] - t) % Q
                f[j] = (f[j] + t) % Q
        ln //= 2
    return f


def intt(f):
    f, k, ln = list(f), 127, 2
    while ln <= 128:
        for st in range(0, 256, 2 * ln):
            z = ZETA[k]; k -= 1
            for j in range(st, st + ln):
                t = f[j]
                f[j] = (t + f[j + ln]) % Q
                f[j + ln] = z * (f[j + ln] - t) % Q
        ln *= 2
    return [x * 3303 % Q for x in f]


def mul(f, g):
    h = [0] * 256
    for i in range(128):
        a, b, c, d = f[2 * i], f[2 * i + 1], g[2 * i], g[2 * i + 1]
        h[2 * i] = (a * c + b * d * GAMMA[i]) % Q
        h[2 * i + 1] = (a * d + b * c) % Q
    return h


def inv(f):
    """inverse in the NTT domain, or None"""
    h = [0] * 256
    for i in range(128):
        a, b = f[2 * i], f[2 * i + 1]
        n = (a * a - GAMMA[i] * b * b) % Q
        if n == 0:
            return None
        n = pow(n, Q - 2, Q)
        h[2 * i], h[2 * i + 1] = a * n % Q, -b * n % Q
    return h


def add(f, g): return [(a + b) % Q for a, b in zip(f, g)]
def sub(f, g): return [(a - b) % Q for a, b in zip(f, g)]


def enc(d, f):
    x = 0
    for i, c in enumerate(f):
        x |= c << (d * i)
    return x.to_bytes(32 * d, "little")


def dec(d, b):
    x = int.from_bytes(b, "little")
    m = (1 << d) - 1
    return [(x >> (d * i)) & m for i in range(256)]


def comp(d, x): return ((2 * x << d) + Q) // (2 * Q) % (1 << d)
def decomp(d, y): return (2 * Q * y + (1 << d)) >> (d + 1)


def sample(seed):
    n, out = 840, []
    while True:
        b, out = hashlib.shake_128(seed).digest(n), []
        for i in range(0, n - 2, 3):
            for c in (b[i] | (b[i + 1] & 15) << 8, b[i + 1] >> 4 | b[i + 2] << 4):
                if c < Q:
                    out.append(c)
        if len(out) >= 256:
            return out[:256]
        n += 168


def cbd(eta, b):
    x = int.from_bytes(b, "little")
    out, m = [], (1 << eta) - 1
    for i in range(256):
        v = x >> (2 * eta * i)
        out.append((bin(v & m).count("1") - bin(v >> eta & m).count("1")) % Q)
    return out


def prf(eta, s, n): return hashlib.shake_256(s + bytes([n])).digest(64 * eta)


def keygen(a, d, z):
    k, e1, _, _ = PAR[a]
    rho, sig = G(d + bytes([k]))
    A = [[sample(rho + bytes([j, i])) for j in range(k)] for i in range(k)]
    s = [ntt(cbd(e1, prf(e1, sig, i))) for i in range(k)]
    t = []
    for i in range(k):
        acc = ntt(cbd(e1, prf(e1, sig, k + i)))
        for j in range(k):
            acc = add(acc, mul(A[i][j], s[j]))
        t.append(acc)
    ek = b"".join(enc(12, x) for x in t) + rho
    return b"".join(enc(12, x) for x in s) + ek + H(ek) + z, ek


def encrypt(a, ek, m, r):
    k, e1, du, dv = PAR[a]
    t = [[c % Q for c in dec(12, ek[384 * i:384 * i + 384])] for i in range(k)]
    rho = ek[384 * k:]
    y = [ntt(cbd(e1, prf(e1, r, i))) for i in range(k)]
    u, v = [], [0] * 256
    for i in range(k):
        acc = [0] * 256
        for j in range(k):
            acc = add(acc, mul(sample(rho + bytes([i, j])), y[j]))
        u.append(add(intt(acc), cbd(2, prf(2, r, k + i))))
        v = add(v, mul(t[i], y[i]))
    mu = [(m[i // 8] >> (i % 8) & 1) * 1665 for i in range(256)]
    v = add(add(intt(v), cbd(2, prf(2, r, 2 * k))), mu)
    return b"".join(enc(du, [comp(du, x) for x in p]) for p in u) + enc(dv, [comp(dv, x) for x in v])


def encaps(a, ek, m, h=None):
    K, r = G(m + (h if h is not None else H(ek)))
    return encrypt(a, ek, m, r), K


def secret_for(a, ct, target):
    """s (NTT domain, bytes) such that v' - s u' = target for the ciphertext ct, or None"""
    k, _, du, dv = PAR[a]
    u0 = ntt([decomp(du, x) for x in dec(du, ct[:32 * du])])
    v = [decomp(dv, x) for x in dec(dv, ct[32 * du * k:])]
    i0 = inv(u0)
    if i0 is None:
        return None
    return enc(12, mul(ntt(sub(v, target)), i0)) + bytes(384 * (k - 1))


def bits_of(target):
    m = 0
    for i, w in enumerate(target):
        m |= comp(1, w) << i
    return m.to_bytes(32, "little")
