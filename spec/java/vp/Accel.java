package vp;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.tool.EvalControl;
import tlc2.tool.TLCState;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.IntervalValue;
import tlc2.util.Context;
import tlc2.value.impl.OpLambdaValue;
import tlc2.value.impl.OpValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Accelerators for operators that TLC would otherwise evaluate from their TLA+ definitions:
 * Keccak!KeccakF and Sponge; MLKEM!ByteDecode, ByteEncode, Compress, Decompress, Accepted, SampleNTT,
 * SamplePolyCBD, NTT, NTTInv, MultiplyNTTs, PolyAdd, PolySub; Tables!RowsDigest, SumsDigest, UnitsDigest; BigNum!AddMod, SubMod, MulMod, PowMod; Curves!PtMul, X25519;
 * Bytes!Bytes, Patched (definitions: the same names with the suffix Def), and Pure!Pure.  The module Accel.tla compares each with its definition at the start of every run.
 */
public class Accel implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {Accel.class};
    }

    private static int[] ints(final Value v, final int n) {
        final int[] out = new int[n];
        final Value[] vals;
        if (v instanceof FcnRcdValue) {
            vals = ((FcnRcdValue) v).values;
        } else {
            final Value f = v.toTuple();
            vals = f != null ? ((TupleValue) f).elems : ((FcnRcdValue) v.toFcnRcd()).values;
        }
        if (vals.length != n) {
            throw new RuntimeException("Accel: expected " + n + " values, got " + vals.length);
        }
        for (int i = 0; i < n; i++) {
            out[i] = ((IntValue) vals[i]).val;
        }
        return out;
    }

    private static int size(final Value v) {
        if (v instanceof FcnRcdValue) {
            return ((FcnRcdValue) v).values.length;
        }
        final Value f = v.toTuple();
        return f != null ? ((TupleValue) f).elems.length : ((FcnRcdValue) v.toFcnRcd()).values.length;
    }

    private static final int[] ROT = {
        0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14
    };

    // round constants from the LFSR of FIPS 202, 3.2.5
    private static final long[] RC = new long[24];

    static {
        int r = 1;
        for (int i = 0; i < 24; i++) {
            for (int j = 0; j <= 6; j++) {
                if ((r & 1) != 0) {
                    RC[i] |= 1L << ((1 << j) - 1);
                }
                r = (r << 1) ^ (((r >> 7) & 1) * 0x171);
            }
        }
    }

    private static long[] permute(final long[] a) {
        final long[] c = new long[5];
        for (int round = 0; round < 24; round++) {
            for (int x = 0; x < 5; x++) {
                c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            }
            for (int i = 0; i < 25; i++) {
                a[i] ^= c[(i + 4) % 5] ^ Long.rotateLeft(c[(i + 1) % 5], 1);
            }
            final long[] b = new long[25];
            for (int i = 0; i < 25; i++) {
                final int x = i % 5;
                final int y = i / 5;
                b[y + 5 * ((2 * x + 3 * y) % 5)] = Long.rotateLeft(a[i], ROT[i]);
            }
            for (int i = 0; i < 25; i++) {
                final int y = i / 5 * 5;
                a[i] = b[i] ^ (~b[y + (i + 1) % 5] & b[y + (i + 2) % 5]);
            }
            a[0] ^= RC[round];
        }
        return a;
    }

    @TLAPlusOperator(identifier = "KeccakF", module = "Keccak", warn = false)
    public static Value keccakF(final Value s) {
        final int[] in = ints(s, 100);
        long[] a = new long[25];
        for (int i = 0; i < 25; i++) {
            a[i] = ((long) in[4 * i]) | ((long) in[4 * i + 1] << 16) | ((long) in[4 * i + 2] << 32)
                | ((long) in[4 * i + 3] << 48);
        }
        a = permute(a);
        final Value[] out = new Value[100];
        for (int i = 0; i < 100; i++) {
            out[i] = IntValue.gen((int) ((a[i / 4] >>> (16 * (i % 4))) & 0xffff));
        }
        return new FcnRcdValue(new IntervalValue(0, 99), out);
    }

    private static BigInteger big(final Value v) {
        final int n = size(v);
        final int[] b = ints(v, n);
        final byte[] be = new byte[n];
        for (int i = 0; i < n; i++) {
            be[n - 1 - i] = (byte) b[i];
        }
        return new BigInteger(1, be);
    }

    private static Value unbig(final BigInteger x, final int n) {
        final byte[] be = x.toByteArray();
        final Value[] out = new Value[n];
        for (int i = 0; i < n; i++) {
            out[i] = IntValue.gen(i < be.length ? be[be.length - 1 - i] & 0xff : 0);
        }
        return new TupleValue(out);
    }

    @TLAPlusOperator(identifier = "AddMod", module = "BigNum", warn = false)
    public static Value addMod(final Value a, final Value b, final Value p) {
        return unbig(big(a).add(big(b)).mod(big(p)), size(p));
    }

    @TLAPlusOperator(identifier = "SubMod", module = "BigNum", warn = false)
    public static Value subMod(final Value a, final Value b, final Value p) {
        return unbig(big(a).subtract(big(b)).mod(big(p)), size(p));
    }

    @TLAPlusOperator(identifier = "MulMod", module = "BigNum", warn = false)
    public static Value mulMod(final Value a, final Value b, final Value p) {
        return unbig(big(a).multiply(big(b)).mod(big(p)), size(p));
    }

    @TLAPlusOperator(identifier = "PowMod", module = "BigNum", warn = false)
    public static Value powMod(final Value a, final Value e, final Value p) {
        return unbig(big(a).modPow(big(e), big(p)), size(p));
    }

    // ---------------------------------------------------------------- ML-KEM
    private static final int Q = 3329;
    private static final int[] ZETA = new int[128];
    private static final int[] GAMMA = new int[128];

    private static int pow17(final int e) {
        int r = 1;
        for (int i = 0; i < e; i++) {
            r = r * 17 % Q;
        }
        return r;
    }

    static {
        for (int i = 0; i < 128; i++) {
            final int rev = Integer.reverse(i) >>> 25;
            ZETA[i] = pow17(rev);
            GAMMA[i] = pow17(2 * rev + 1);
        }
    }

    private static Value poly(final int[] f) {
        final Value[] out = new Value[256];
        for (int i = 0; i < 256; i++) {
            out[i] = IntValue.gen(f[i]);
        }
        return new FcnRcdValue(new IntervalValue(0, 255), out);
    }

    private static Value seq(final int[] b) {
        final Value[] out = new Value[b.length];
        for (int i = 0; i < b.length; i++) {
            out[i] = IntValue.gen(b[i]);
        }
        return new TupleValue(out);
    }

    private static int num(final Value v) {
        return ((IntValue) v).val;
    }

    @TLAPlusOperator(identifier = "ByteDecode", module = "MLKEM", warn = false)
    public static Value byteDecode(final IntValue dv, final Value bv) {
        final int d = dv.val;
        final int[] b = ints(bv, 32 * d);
        final int[] f = new int[256];
        for (int i = 0; i < 256 * d; i++) {
            f[i / d] |= ((b[i / 8] >> (i % 8)) & 1) << (i % d);
        }
        if (d == 12) {
            for (int i = 0; i < 256; i++) {
                f[i] %= Q;
            }
        }
        return poly(f);
    }

    @TLAPlusOperator(identifier = "ByteEncode", module = "MLKEM", warn = false)
    public static Value byteEncode(final IntValue dv, final Value fv) {
        final int d = dv.val;
        final int[] f = ints(fv, 256);
        final int[] b = new int[32 * d];
        for (int i = 0; i < 256 * d; i++) {
            b[i / 8] |= ((f[i / d] >> (i % d)) & 1) << (i % 8);
        }
        return seq(b);
    }

    @TLAPlusOperator(identifier = "Compress", module = "MLKEM", warn = false)
    public static Value compress(final IntValue dv, final Value fv) {
        final int[] f = ints(fv, 256);
        for (int i = 0; i < 256; i++) {
            f[i] = ((2 * f[i] << dv.val) + Q) / (2 * Q) & ((1 << dv.val) - 1);
        }
        return poly(f);
    }

    @TLAPlusOperator(identifier = "Decompress", module = "MLKEM", warn = false)
    public static Value decompress(final IntValue dv, final Value fv) {
        final int[] f = ints(fv, 256);
        for (int i = 0; i < 256; i++) {
            f[i] = (2 * Q * f[i] + (1 << dv.val)) >> (dv.val + 1);
        }
        return poly(f);
    }

    @TLAPlusOperator(identifier = "Accepted", module = "MLKEM", warn = false)
    public static Value accepted(final Value bv) {
        final int[] b = ints(bv, size(bv));
        final int[] out = new int[2 * (b.length / 3)];
        int n = 0;
        for (int i = 0; i + 2 < b.length; i += 3) {
            final int c1 = b[i] | (b[i + 1] & 15) << 8;
            final int c2 = b[i + 1] >> 4 | b[i + 2] << 4;
            if (c1 < Q) {
                out[n++] = c1;
            }
            if (c2 < Q) {
                out[n++] = c2;
            }
        }
        return seq(java.util.Arrays.copyOf(out, n));
    }

    @TLAPlusOperator(identifier = "SamplePolyCBD", module = "MLKEM", warn = false)
    public static Value cbd(final IntValue ev, final Value bv) {
        final int eta = ev.val;
        final int[] b = ints(bv, 64 * eta);
        final int[] f = new int[256];
        for (int i = 0; i < 256; i++) {
            int v = Q;
            for (int j = 0; j < 2 * eta; j++) {
                final int p = 2 * eta * i + j;
                final int bit = (b[p / 8] >> (p % 8)) & 1;
                v += j < eta ? bit : -bit;
            }
            f[i] = v % Q;
        }
        return poly(f);
    }

    @TLAPlusOperator(identifier = "NTT", module = "MLKEM", warn = false)
    public static Value ntt(final Value fv) {
        return poly(forward(ints(fv, 256)));
    }

    private static int[] forward(final int[] f) {
        int k = 1;
        for (int len = 128; len >= 2; len /= 2) {
            for (int start = 0; start < 256; start += 2 * len) {
                final int z = ZETA[k++];
                for (int j = start; j < start + len; j++) {
                    final int t = z * f[j + len] % Q;
                    f[j + len] = (f[j] + Q - t) % Q;
                    f[j] = (f[j] + t) % Q;
                }
            }
        }
        return f;
    }

    @TLAPlusOperator(identifier = "NTTInv", module = "MLKEM", warn = false)
    public static Value nttInv(final Value fv) {
        return poly(backward(ints(fv, 256)));
    }

    private static int[] backward(final int[] f) {
        int k = 127;
        for (int len = 2; len <= 128; len *= 2) {
            for (int start = 0; start < 256; start += 2 * len) {
                final int z = ZETA[k--];
                for (int j = start; j < start + len; j++) {
                    final int t = f[j];
                    f[j] = (t + f[j + len]) % Q;
                    f[j + len] = z * ((f[j + len] + Q - t) % Q) % Q;
                }
            }
        }
        for (int i = 0; i < 256; i++) {
            f[i] = f[i] * 3303 % Q;
        }
        return f;
    }

    @TLAPlusOperator(identifier = "MultiplyNTTs", module = "MLKEM", warn = false)
    public static Value mulNtt(final Value fv, final Value gv) {
        final int[] f = ints(fv, 256);
        final int[] g = ints(gv, 256);
        final int[] h = new int[256];
        for (int i = 0; i < 128; i++) {
            h[2 * i] = (f[2 * i] * g[2 * i] + f[2 * i + 1] * g[2 * i + 1] % Q * GAMMA[i]) % Q;
            h[2 * i + 1] = (f[2 * i] * g[2 * i + 1] + f[2 * i + 1] * g[2 * i]) % Q;
        }
        return poly(h);
    }

    @TLAPlusOperator(identifier = "PolyAdd", module = "MLKEM", warn = false)
    public static Value polyAdd(final Value fv, final Value gv) {
        final int[] f = ints(fv, 256);
        final int[] g = ints(gv, 256);
        for (int i = 0; i < 256; i++) {
            f[i] = (f[i] + g[i]) % Q;
        }
        return poly(f);
    }

    @TLAPlusOperator(identifier = "PolySub", module = "MLKEM", warn = false)
    public static Value polySub(final Value fv, final Value gv) {
        final int[] f = ints(fv, 256);
        final int[] g = ints(gv, 256);
        for (int i = 0; i < 256; i++) {
            f[i] = (f[i] + Q - g[i]) % Q;
        }
        return poly(f);
    }

    // ---------------------------------------------------------------- sponge
    private static long[] absorb(final int[] m, final int rate, final int suffix) {
        final long[] a = new long[25];
        final int blocks = m.length / rate + 1;
        final int[] p = java.util.Arrays.copyOf(m, blocks * rate);
        p[m.length] = suffix;
        p[p.length - 1] ^= 0x80;
        long[] st = a;
        for (int b = 0; b < blocks; b++) {
            for (int i = 0; i < rate; i++) {
                st[i / 8] ^= (long) p[b * rate + i] << (8 * (i % 8));
            }
            st = permute(st);
        }
        return st;
    }

    @TLAPlusOperator(identifier = "Sponge", module = "Keccak", warn = false)
    public static Value sponge(final Value mv, final IntValue rv, final IntValue sv, final IntValue ov) {
        final int rate = rv.val;
        long[] st = absorb(ints(mv, size(mv)), rate, sv.val);
        final int[] out = new int[ov.val];
        for (int i = 0; i < out.length; i++) {
            if (i > 0 && i % rate == 0) {
                st = permute(st);
            }
            out[i] = (int) (st[i % rate / 8] >>> (8 * (i % 8))) & 255;
        }
        return seq(out);
    }

    @TLAPlusOperator(identifier = "SampleNTT", module = "MLKEM", warn = false)
    public static Value sampleNtt(final Value seed) {
        long[] st = absorb(ints(seed, size(seed)), 168, 31);
        final int[] f = new int[256];
        int n = 0;
        while (true) {
            for (int t = 0; t < 168; t += 3) {
                final int[] b = new int[3];
                for (int j = 0; j < 3; j++) {
                    b[j] = (int) (st[(t + j) / 8] >>> (8 * ((t + j) % 8))) & 255;
                }
                final int c1 = b[0] | (b[1] & 15) << 8;
                final int c2 = b[1] >> 4 | b[2] << 4;
                if (n < 256 && c1 < Q) {
                    f[n++] = c1;
                }
                if (n < 256 && c2 < Q) {
                    f[n++] = c2;
                }
            }
            if (n == 256) {
                return poly(f);
            }
            st = permute(st);
        }
    }

    // ---------------------------------------------------------------- tables
    /** SHA3-256 over 16-bit little-endian numbers, as they come */
    private static final class Digest {
        private final long[] st = new long[25];
        private int at;
        private long[] cur = st;

        void put(final int r) {
            cur[at / 8] ^= (long) r << (8 * (at % 8));
            at += 2;
            if (at == 136) {
                cur = permute(cur);
                at = 0;
            }
        }

        Value done() {
            cur[at / 8] ^= 6L << (8 * (at % 8));
            cur[16] ^= 0x80L << 56;
            cur = permute(cur);
            final int[] out = new int[32];
            for (int i = 0; i < 32; i++) {
                out[i] = (int) (cur[i / 8] >>> (8 * (i % 8))) & 255;
            }
            return seq(out);
        }
    }

    @TLAPlusOperator(identifier = "RowsDigest", module = "Tables", warn = false)
    public static Value rowsDigest(final IntValue ov, final IntValue lov, final IntValue rv) {
        final Digest d = new Digest();
        for (int a = lov.val; a < lov.val + rv.val; a++) {
            for (int b = 0; b < Q; b++) {
                d.put(ov.val == 0 ? (a + b) % Q : ov.val == 1 ? (a + Q - b) % Q : a * b % Q);
            }
        }
        return d.done();
    }

    @TLAPlusOperator(identifier = "SumsDigest", module = "Tables", warn = false)
    public static Value sumsDigest(final IntValue uv, final IntValue vv, final IntValue lov, final IntValue rv, final IntValue mv) {
        final int u = uv.val, v = vv.val, mode = mv.val;
        final int[] inv = new int[128];
        for (int i = 0; i < 128; i++) {
            inv[i] = BigInteger.valueOf(GAMMA[i]).modInverse(BigInteger.valueOf(Q)).intValue();
        }
        final Digest d = new Digest();
        for (int s = lov.val; s < lov.val + rv.val; s++) {
            for (int blk = 0; blk * 128 < Q; blk++) {
                for (int i = 0; i < 128; i++) {
                    final int w = Math.min(128 * blk + i, Q - 1);
                    final int t = mode == 0 ? w : w * inv[i] % Q;
                    d.put((u * s + v * t % Q * GAMMA[i]) % Q);
                    d.put((u * t + v * s) % Q);
                }
            }
        }
        return d.done();
    }

    @TLAPlusOperator(identifier = "UnitsDigest", module = "Tables", warn = false)
    public static Value unitsDigest(final IntValue dv, final IntValue av, final IntValue lov, final IntValue rv) {
        final Digest d = new Digest();
        for (int v = lov.val; v < lov.val + rv.val; v++) {
            final int[] f = new int[256];
            f[av.val] = v;
            for (final int r : dv.val == 0 ? forward(f) : backward(f)) {
                d.put(r);
            }
        }
        return d.done();
    }

    // ---------------------------------------------------------------- groups
    private static final BigInteger P25519 = BigInteger.ONE.shiftLeft(255).subtract(BigInteger.valueOf(19));
    private static final BigInteger A24 = BigInteger.valueOf(121665);

    private static BigInteger m(final BigInteger x) {
        return x.mod(P25519);
    }

    @TLAPlusOperator(identifier = "X25519", module = "Curves", warn = false)
    public static Value x25519(final Value scalar, final Value u) {
        BigInteger k = big(scalar);
        for (final int i : new int[] {0, 1, 2, 255}) {
            k = k.clearBit(i);
        }
        k = k.setBit(254);
        final BigInteger x1 = m(big(u).clearBit(255));
        BigInteger x2 = BigInteger.ONE, z2 = BigInteger.ZERO, x3 = x1, z3 = BigInteger.ONE;
        for (int t = 254; t >= 0; t--) {
            final boolean s = k.testBit(t);
            if (s) {
                BigInteger h = x2; x2 = x3; x3 = h;
                h = z2; z2 = z3; z3 = h;
            }
            final BigInteger a = x2.add(z2), b = x2.subtract(z2), c = x3.add(z3), d = x3.subtract(z3);
            final BigInteger aa = m(a.multiply(a)), bb = m(b.multiply(b)), e = aa.subtract(bb);
            final BigInteger da = m(d.multiply(a)), cb = m(c.multiply(b));
            x3 = m(da.add(cb).pow(2));
            z3 = m(x1.multiply(m(da.subtract(cb).pow(2))));
            x2 = m(aa.multiply(bb));
            z2 = m(e.multiply(aa.add(m(A24.multiply(e)))));
            if (s) {
                BigInteger h = x2; x2 = x3; x3 = h;
                h = z2; z2 = z3; z3 = h;
            }
        }
        return unbig(m(x2.multiply(z2.modPow(P25519.subtract(BigInteger.TWO), P25519))), 32);
    }

    private static Value field(final Value rec, final String name) {
        return ((tlc2.value.impl.RecordValue) rec.toRcd()).select(new StringValue(name));
    }

    private static BigInteger[] dbl(final BigInteger[] p, final BigInteger a, final BigInteger mod) {
        if (p == null || p[1].signum() == 0) {
            return null;
        }
        final BigInteger s = p[0].multiply(p[0]).multiply(BigInteger.valueOf(3)).add(a)
            .multiply(p[1].shiftLeft(1).modInverse(mod)).mod(mod);
        return third(p, p[0], s, mod);
    }

    private static BigInteger[] third(final BigInteger[] p, final BigInteger x2, final BigInteger s, final BigInteger mod) {
        final BigInteger x = s.multiply(s).subtract(p[0]).subtract(x2).mod(mod);
        return new BigInteger[] {x, s.multiply(p[0].subtract(x)).subtract(p[1]).mod(mod)};
    }

    @TLAPlusOperator(identifier = "PtMul", module = "Curves", warn = false)
    public static Value ptMul(final Value c, final Value kv, final Value pv) {
        final int len = num(field(c, "len"));
        final BigInteger mod = big(field(c, "p")), a = big(field(c, "a")), k = big(kv);
        final boolean inf = field(pv, "inf").equals(tlc2.value.impl.BoolValue.ValTrue);
        final BigInteger[] p = inf ? null : new BigInteger[] {big(field(pv, "x")), big(field(pv, "y"))};
        BigInteger[] r = null;
        for (int t = k.bitLength() - 1; t >= 0; t--) {
            r = dbl(r, a, mod);
            if (k.testBit(t) && p != null) {
                if (r == null) {
                    r = p;
                } else if (!r[0].equals(p[0])) {
                    r = third(r, p[0], p[1].subtract(r[1]).multiply(p[0].subtract(r[0]).modInverse(mod)).mod(mod), mod);
                } else {
                    r = r[1].equals(p[1]) ? dbl(r, a, mod) : null;
                }
            }
        }
        final util.UniqueString[] names = {util.UniqueString.of("inf"), util.UniqueString.of("x"), util.UniqueString.of("y")};
        final Value none = new TupleValue(new Value[0]);
        return new tlc2.value.impl.RecordValue(names, r == null
            ? new Value[] {tlc2.value.impl.BoolValue.ValTrue, none, none}
            : new Value[] {tlc2.value.impl.BoolValue.ValFalse, unbig(r[0], len), unbig(r[1], len)}, false);
    }

    @TLAPlusOperator(identifier = "Patched", module = "Bytes", warn = false)
    public static Value patched(final Value bv, final Value pv) {
        final int[] b = ints(bv, size(bv));
        final int[] p = ints(pv, size(pv));
        for (int i = 0; i < p.length; i += 2) {
            b[p[i]] ^= p[i + 1];
        }
        return seq(b);
    }

    /** Pure!Pure(op(_), x) = op(x), evaluated without reference to any state. */
    @TLAPlusOperator(identifier = "Pure", module = "Pure", warn = false)
    public static Value pure(final OpValue op, final Value x) {
        x.deepNormalize();
        final OpLambdaValue o = (OpLambdaValue) op;
        final OpLambdaValue free = new OpLambdaValue(
            o.opDef, o.tool, Context.Empty, TLCState.Empty, TLCState.Empty, EvalControl.Clear);
        final Value v = free.eval(new Value[] {x}, EvalControl.Clear);
        v.deepNormalize();
        return v;
    }

    private static int digit(final char c) {
        final int d = Character.digit(c, 16);
        if (d < 0 || c >= 'A' && c <= 'F') {
            throw new RuntimeException("Accel: not a hexadecimal digit: " + c);
        }
        return d;
    }

    @TLAPlusOperator(identifier = "Bytes", module = "Bytes", warn = false)
    public static Value bytes(final StringValue v) {
        final String s = v.val.toString();
        final Value[] out = new Value[s.length() / 2];
        for (int i = 0; i < out.length; i++) {
            out[i] = IntValue.gen(16 * digit(s.charAt(2 * i)) + digit(s.charAt(2 * i + 1)));
        }
        return new TupleValue(out);
    }
}
