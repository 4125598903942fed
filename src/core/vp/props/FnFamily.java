package vp.props;

import vp.core.Ctx;
import vp.sut.Fn;
import vp.sut.T;

/** A consistent pair of hash and equality functions given by a canonical form. */
final class FnFamily implements Fn {
    final String name;
    final Dom dom;
    private final T t;
    private final int family;
    private final int hash;
    private RuntimeException refusal;
    private Object refused;
    private int comparisons = -1;

    private FnFamily(final String name, final Dom dom, final T t, final int family, final int hash) {
        this.name = name;
        this.dom = dom;
        this.t = t;
        this.family = family;
        this.hash = hash;
    }

    static FnFamily draw(final Ctx c, final T t, final int n) {
        final Dom d = Dom.draw(c, t, n);
        final int family = c.pick(4);
        final int hash = c.pick(6);
        return new FnFamily("family " + family + ", hash " + hash, d, t, family, hash);
    }

    /** The class of a key under these functions. */
    Object canon(final Object k) {
        if (k == null) {
            return null;
        }
        switch (t) {
            case Float: {
                final float f = (Float) k;
                switch (family) {
                    case 0: return Float.floatToIntBits(f);
                    case 1: return (int) Math.floor(f);
                    case 2: return Float.isNaN(f) ? "NaN" : (Object) (f == 0 ? 0 : Float.floatToIntBits(f));
                    default: return f < 0 ? -1 : f == 0 ? 0 : 1;
                }
            }
            case Double: {
                final double f = (Double) k;
                switch (family) {
                    case 0: return Double.doubleToLongBits(f);
                    case 1: return (long) Math.floor(f / 2);
                    case 2: return Double.isNaN(f) ? "NaN" : (Object) (f == 0 ? 0L : Double.doubleToLongBits(f));
                    default: return (float) f;
                }
            }
            case String: {
                final String s = (String) k;
                switch (family) {
                    case 0: return s;
                    case 1: return lower(s);
                    case 2: return s.length();
                    default: return s.isEmpty() ? "" : s.substring(s.length() - 1);
                }
            }
            default:
                switch (family) {
                    case 0: return k;
                    case 1: return k.toString();
                    case 2: return k.getClass().getName() + (k.toString().length() % 3);
                    default: return k.toString().substring(k.toString().length() - 1);
                }
        }
    }

    private static String lower(final String s) {
        final StringBuilder b = new StringBuilder();
        for (char ch : s.toCharArray()) {
            b.append(Character.toLowerCase(Character.toUpperCase(ch)));
        }
        return b.toString();
    }

    /** From now on the hash function throws x for keys of one class, or the equality function throws it at its n-th call. */
    void refuse(final RuntimeException x, final Object canonical, final int n) {
        refusal = x;
        refused = canonical;
        comparisons = n;
    }

    void accept() {
        refusal = null;
        comparisons = -1;
    }

    @Override
    public int code(final Object k) {
        final Object ck = canon(k);
        if (refusal != null && comparisons < 0 && Ctx.same(ck, refused)) {
            throw refusal;
        }
        final int h = ck == null ? 0 : ck.hashCode();
        switch (hash) {
            case 0: return h;
            case 1: return 0;
            case 2: return -1;
            case 3: return Integer.MIN_VALUE | (h & 1);
            case 4: return h << 20;
            default: return -h;
        }
    }

    @Override
    public boolean eq(final Object a, final Object b) {
        if (refusal != null && comparisons >= 0) {
            if (comparisons == 0) {
                throw refusal;
            }
            comparisons--;
        }
        return Ctx.same(canon(a), canon(b));
    }
}
