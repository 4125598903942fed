package vp.props;

import java.util.HashSet;
import java.util.Set;
import vp.core.Ctx;
import vp.sut.T;

/** A finite domain of distinct keys of a type, drawn per case; key(i) makes equal-but-not-identical objects. */
final class Dom {
    /** A user-defined key: equality by id, hash code chosen freely. */
    static final class CKey implements Comparable<CKey> {
        final int id;
        final int hash;

        CKey(final int id, final int hash) {
            this.id = id;
            this.hash = hash;
        }

        @Override
        public boolean equals(final Object o) {
            return o instanceof CKey && ((CKey) o).id == id;
        }

        @Override
        public int hashCode() {
            return hash;
        }

        @Override
        public int compareTo(final CKey o) {
            return id < o.id ? Integer.MIN_VALUE : id > o.id ? Integer.MAX_VALUE : 0; // all that is promised is the sign
        }

        @Override
        public String toString() {
            return "CKey" + id + "#" + hash;
        }
    }

    final T type;
    final int n;
    final String kind;
    private final int mode;
    private final long seed;
    private final int shift;
    private final long off;
    private final Object[] keys;
    /** Told about every representative made, if any. */
    Reach reach;

    private Dom(final T type, final int n, final String kind, final int mode, final long seed, final int shift,
            final long off, final boolean nulls, final boolean comparable) {
        this.type = type;
        this.kind = kind;
        this.mode = mode;
        this.seed = seed;
        this.shift = shift;
        this.off = off;
        if (type.bits() > 0) {
            this.n = type.bits() >= 31 ? n : Math.min(n, 1 << type.bits());
            this.keys = null;
            return;
        }
        if (type == T.Bool) {
            this.n = 2;
            this.keys = new Object[] {false, true};
            return;
        }
        final Object[] out = new Object[n];
        final Set<Object> seen = new HashSet<>();
        int m = 0;
        if (nulls) {
            out[m++] = null;
            seen.add(null);
        }
        for (long j = 0; m < n && j < 4L * n + 16; j++) {
            final Object k = candidate(j, comparable);
            final Object c = canon(k);
            if (c != BAD && seen.add(c)) {
                out[m++] = k;
            }
        }
        this.n = m;
        this.keys = out;
    }

    private static final Object BAD = new Object();

    /** Draws a domain of up to max keys. */
    static Dom draw(final Ctx c, final T type, final int max) {
        return draw(c, type, max, false);
    }

    /** comparable: all keys of a Generic domain must be mutually comparable (no mixing of classes). */
    static Dom draw(final Ctx c, final T type, final int max, final boolean comparable) {
        final int mode = c.weighted(4, 3, 3, 2, 2);
        final int shift = mode == 2 ? c.pick(Math.max(1, type.bits() == 0 ? 20 : type.bits())) : 0;
        final long off = mode == 1 || mode == 2 ? c.range(-3, 3) : 0;
        final long seed = mode == 4 ? c.bits64() | 1 : 0;
        final boolean nulls = type.isRef() && c.chance(1, 3);
        final String[] kinds = {"dense", "around0", "strided", "extremes", "random"};
        return new Dom(type, Math.max(1, max), kinds[mode], mode, seed, shift, off, nulls, comparable);
    }

    /** A large domain whose keys do not all fall into a few hash buckets. */
    static Dom spread(final Ctx c, final T type, final int max, final boolean comparable) {
        final int mode = c.oneOf(0, 4, type.bits() > 0 ? 1 : 4);
        final long off = mode == 1 ? c.range(-3, 3) : 0;
        final long seed = mode == 4 ? c.bits64() | 1 : 0;
        final String[] kinds = {"dense", "around0", "strided", "extremes", "random"};
        return new Dom(type, Math.max(1, max), kinds[mode], mode, seed, 0, off, type.isRef() && c.bool(), comparable);
    }

    private long raw(final long i, final int bits) {
        final long mask = bits == 64 ? -1L : (1L << bits) - 1;
        switch (mode) {
            case 0:
                return i;
            case 1:
                return off + ((i & 1) == 0 ? i / 2 : -(i / 2) - 1);
            case 2: { // rotate left: a bijection that puts small numbers into the same buckets
                final long v = (i + off) & mask;
                final int sh = shift % bits;
                return (v << sh) | (sh == 0 ? 0 : v >>> (bits - sh));
            }
            case 3: { // MIN, MAX, MIN+1, MAX-1, ... (and 0, -1 in between)
                final long min = 1L << (bits - 1);
                final long q = i >> 2;
                switch ((int) (i & 3)) {
                    case 0: return min + q;
                    case 1: return min - 1 - q;
                    case 2: return q;
                    default: return -1 - q;
                }
            }
            default: { // odd multiplication and xor-shift modulo 2^bits: bijective
                long v = (i * (seed | 1)) & mask;
                v ^= v >>> (bits / 2 + 1);
                v = (v * 0x9E3779B97F4A7C15L) & mask;
                return v ^ (seed >>> 7 & mask);
            }
        }
    }

    private Object candidate(final long j, final boolean comparable) {
        switch (type) {
            case Float:
                switch (mode) {
                    case 0: return (float) j;
                    case 1: return (j & 1) == 0 ? j / 4f : -j / 4f;
                    case 2: return Float.intBitsToFloat((int) raw(j, 32));
                    case 3: return specialFloat(j);
                    default: return Float.intBitsToFloat((int) raw(j, 32));
                }
            case Double:
                switch (mode) {
                    case 0: return (double) j;
                    case 1: return (j & 1) == 0 ? j / 4d : -j / 4d;
                    case 2: return Double.longBitsToDouble(raw(j, 64));
                    case 3: return specialDouble(j);
                    default: return Double.longBitsToDouble(raw(j, 64));
                }
            case String:
                switch (mode) {
                    case 0: return "k" + j;
                    case 1: return j == 0 ? "" : (j & 1) == 0 ? "K" + j / 2 : "k" + j / 2;
                    case 2: { // many strings with one hash code
                        final StringBuilder b = new StringBuilder();
                        for (int t = 0; t < 13; t++) {
                            b.append((j >> t & 1) == 0 ? "Aa" : "BB");
                        }
                        return b.toString();
                    }
                    case 3: return unicode(j);
                    default: return Long.toString(raw(j, 64), 36);
                }
            default: // Generic
                final int m = comparable && mode == 4 ? 0 : mode;
                switch (m) {
                    case 0: return (int) j + 1000;
                    case 1: return new CKey((int) j, (int) (j % 3) - 1);
                    case 2: return new CKey((int) j, (int) (j << shift));
                    case 3: return "s" + j;
                    default:
                        switch ((int) (j % 5)) {
                            case 0: return (int) j;
                            case 1: return (long) (j - 1);
                            case 2: return "g" + j;
                            case 3: return new CKey((int) j, (int) raw(j, 32));
                            default: return java.util.List.of("L", j);
                        }
                }
        }
    }

    static float specialFloat(final long j) {
        final float[] f = {0f, 1f, -1f, Float.MAX_VALUE, -Float.MAX_VALUE, Float.MIN_VALUE, -Float.MIN_VALUE,
            Float.POSITIVE_INFINITY, Float.NEGATIVE_INFINITY, Float.MIN_NORMAL, 0.1f, 1e10f, -1e-10f, 16777216f,
            -0f, Float.intBitsToFloat(1), Float.intBitsToFloat(0x7f7fffff)};
        return j < f.length ? f[(int) j] : Math.scalb(1f + (j % 97) / 97f, (int) (j % 250) - 125);
    }

    static double specialDouble(final long j) {
        final double[] f = {0d, 1d, -1d, Double.MAX_VALUE, -Double.MAX_VALUE, Double.MIN_VALUE, -Double.MIN_VALUE,
            Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Double.MIN_NORMAL, 0.1, 1e10, -1e-10, 1e-11,
            9007199254740992d, -0d, 1 + 1e-15};
        return j < f.length ? f[(int) j] : Math.scalb(1d + (j % 97) / 97d, (int) (j % 2000) - 1000);
    }

    static String unicode(final long j) {
        final String[] a = {"", "\u0000", "\uD83D\uDE00", "\uD83D\uDE01", "\uFB01", "\u00e9", "e\u0301", "\uFFFF", " ", "a",
            "A", "aa", "aA", "\u0130", "i", "\u0131", "\u00DF", "SS", "ss", "\u03C3", "\u03C2", "\u03A3"};
        return j < a.length ? a[(int) j] : a[(int) (j % a.length)] + a[(int) (j / a.length % a.length)] + j;
    }

    /** A fresh representative of key i. */
    Object key(final int i) {
        final Object k = fresh(i);
        if (reach != null) {
            reach.ever(k);
        }
        return k;
    }

    private Object fresh(final int i) {
        if (type.bits() > 0) {
            return type.integral(raw(i, type.bits()));
        }
        final Object k = keys[i];
        if (k instanceof String) {
            return new String((String) k);
        }
        if (k instanceof CKey) {
            return new CKey(((CKey) k).id, ((CKey) k).hash);
        }
        if (k instanceof Float && (Float) k == 0f) {
            return (i & 1) == 0 ? 0f : -0f;
        }
        if (k instanceof Double && (Double) k == 0d) {
            return (i & 1) == 0 ? 0d : -0d;
        }
        return k;
    }

    /** Canonical form: equal exactly when the keys are the same under default equality. */
    static Object canon(final Object k) {
        if (k instanceof Float) {
            final float f = (Float) k;
            return Float.isNaN(f) ? BAD : f == 0f ? (Object) 0f : k;
        }
        if (k instanceof Double) {
            final double d = (Double) k;
            return Double.isNaN(d) ? BAD : d == 0d ? (Object) 0d : k;
        }
        return k;
    }

    // ---------------------------------------------------------------- values
    /** A value by number: 0 is the default, small numbers are special values. */
    static Object value(final T t, final int id) {
        switch (t) {
            case Bool: return (id & 1) != 0;
            case Byte:
            case Short:
            case Char:
            case Int:
            case Long:
                switch (id) {
                    case 0: return t.integral(0);
                    case 1: return t.integral(1);
                    case 2: return t.integral(-1);
                    case 3: return t.integral(1L << (t.bits() - 1));
                    case 4: return t.integral((1L << (t.bits() - 1)) - 1);
                    default: return t.integral(id * 0x9E3779B97F4A7C15L >>> 3);
                }
            case Float: return id == 5 ? Float.NaN : id < 17 ? specialFloat(id) : id / 8f;
            case Double: return id == 5 ? Double.NaN : id < 17 ? specialDouble(id) : id / 8d;
            case String: return id == 0 ? null : id == 1 ? "" : new String("v" + id);
            default: return id == 0 ? null : id % 3 == 0 ? (Object) ("g" + id) : id % 3 == 1
                    ? (Object) Integer.valueOf(id) : new CKey(id, id & 3);
        }
    }

    static Object value(final Ctx c, final T t) {
        return value(t, c.skew(200));
    }

    /** Same stored value: bit-identical for numbers, the same reference for objects. */
    static boolean sameValue(final T t, final Object a, final Object b) {
        return t.isRef() ? a == b : Ctx.same(a, b);
    }
}
