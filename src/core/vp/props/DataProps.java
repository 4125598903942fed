package vp.props;

import com.bytefacets.collections.exception.RangeCheckException;
import java.lang.reflect.Array;
import java.util.ArrayList;
import java.util.Comparator;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.ArraySut;
import vp.sut.SortSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.U;

/** Array helpers, chunk stores and sorts: C20-C22 and C28. */
final class DataProps {
    static final String[] ALL = T.names(true);

    static Prop get(final String id) {
        final String[] none = {};
        switch (id) {
            case "C20":
                return new Prop(id, 1, "a case is one helper call on a generated array; non-trivial when the array is not empty and the call copied, "
                        + "grew or filled part of it", none, Part.of("calls", ALL, 500000, 15000000, DataProps::arrays),
                        Part.all("growth past 2^30 elements", 1, DataProps::hugeArray), Part.all("growth past 2^30 elements in a child JVM", 1, Child::arrays));
            case "C21":
                return new Prop(id, 1, "a case is a history of sets and gets on one store; non-trivial when it grew while holding values",
                        new String[] {"indexes up to a few million"}, Part.of("histories", ALL, 200000, 4000000, (c, s) -> store(c, s, false)), Part.of("large", Large.STORED, 88, 1500, (c, s) -> Large.store(c, s, false)));
            case "C22":
                return new Prop(id, 1, "a case is a history of sets and gets on one store; non-trivial when it grew while holding values",
                        new String[] {"addressable rows up to a few hundred thousand"}, Part.of("histories", ALL, 200000, 4000000, (c, s) -> store(c, s, true)), Part.of("large", Large.STORED, 88, 1500, (c, s) -> Large.store(c, s, true)));
            case "C28":
                return new Prop(id, 1, "a case is one sort of a generated range; non-trivial when the range had at least 7 elements and was not already sorted",
                        none, Part.of("sorts", HashProps.MAPS, 260000, 8000000, DataProps::sort), Part.of("large", HashProps.MAPS, 90, 1800, Large::sort),
                        Part.of("adversarial", Large.HARD, 16, 160, Large::hardSort));
            default:
                return null;
        }
    }

    // ------------------------------------------------------------------ arrays
    private static final Class<?>[] COMPONENTS = {Object.class, String.class, Integer.class, Comparable.class, Object[].class};

    private static Object element(final Ctx c, final T t, final Class<?> comp) {
        if (t != T.Generic || comp == Object.class) {
            return Dom.value(c, t);
        }
        final int i = c.skew(50);
        if (i == 0) {
            return null;
        }
        return comp == Integer.class ? Integer.valueOf(i + 1000) : comp == Object[].class ? (Object) new Object[i % 3] : "e" + i;
    }

    private static Object array(final Ctx c, final T t, final ArraySut s, final Class<?> comp, final int n) {
        final Object a = t == T.Generic ? Array.newInstance(comp, n) : newArray(t, n);
        for (int i = 0; i < n; i++) {
            Array.set(a, i, element(c, t, comp));
        }
        return a;
    }

    private static Object newArray(final T t, final int n) {
        switch (t) {
            case Bool: return new boolean[n];
            case Byte: return new byte[n];
            case Short: return new short[n];
            case Char: return new char[n];
            case Int: return new int[n];
            case Long: return new long[n];
            case Float: return new float[n];
            case Double: return new double[n];
            case String: return new String[n];
            default: return new Object[n];
        }
    }

    static Object[] boxed(final Object a) {
        final Object[] out = new Object[Array.getLength(a)];
        for (int i = 0; i < out.length; i++) {
            out[i] = Array.get(a, i);
        }
        return out;
    }

    static void arrays(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final ArraySut s = U.make(subject + "ArrayAdapter");
        final Class<?> comp = t == T.Generic ? c.oneOf(COMPONENTS) : null;
        final int n = c.weighted(1, 6, 3) == 0 ? 0 : c.bool() ? c.range(0, 9) : c.range(0, 70);
        final int call = c.pick(12);
        final Object def = element(c, t, comp == null ? Object.class : comp);
        if (call < 2) {
            if (call == 0) {
                final Object r = comp != null && c.bool() ? s.createTyped(comp, n) : s.create(n);
                c.op("create", n);
                same(c, t, boxed(r), filled(n, t.def()), "create");
                if (comp != null && n > 0 && r.getClass().getComponentType() != Object.class) {
                    c.that(r.getClass().getComponentType() == comp, "create made an array of %s", r.getClass().getComponentType().getName());
                }
            } else {
                c.op("create", n, def);
                // documented: filled when the value is not (equal to) the default, so -0.0 may give 0.0
                final boolean zero = Ctx.same(Dom.canon(def), Dom.canon(t.def()));
                final Object[] got = boxed(s.create(n, def));
                if (zero) {
                    c.that(got.length == n, "create gives %s elements, expected %s", got.length, n);
                    for (Object o : got) {
                        c.that(Ctx.same(Dom.canon(o), Dom.canon(def)), "create with %s gives %s", def, o);
                    }
                } else {
                    same(c, t, got, filled(n, def), "create with a default");
                }
            }
            if (n > 0) {
                c.nontrivial();
            }
            return;
        }
        final Object a = array(c, t, s, comp, n);
        final Object[] before = boxed(a);
        final int m = c.weighted(2, 3, 3, 1) == 0 ? c.range(0, 4) : c.bool() ? Math.max(0, n + c.range(-3, 3)) : c.range(0, 200);
        switch (call) {
            case 2: {
                final int from = c.range(0, n);
                final int len = c.range(0, n - from);
                c.op("fill", before, def, from, len);
                s.fill(a, def, from, len);
                final Object[] want = before.clone();
                for (int i = from; i < from + len; i++) {
                    want[i] = def;
                }
                same(c, t, boxed(a), want, "fill of [" + from + ", " + (from + len) + ")");
                if (len > 0 && len < n) {
                    c.nontrivial();
                }
                return;
            }
            case 3:
                c.op("fill", before, def);
                s.fill(a, def);
                same(c, t, boxed(a), filled(n, def), "fill");
                return;
            case 4:
                c.op("resize", before, m);
                copied(c, t, a, before, s.resize(a, m), m, t.def(), "resize");
                break;
            case 5:
                c.op("copyOf", before, m);
                copied(c, t, a, before, s.copyOf(a, m), m, t.def(), "copyOf");
                break;
            case 6:
                c.op("copyOf", before, m, def);
                copied(c, t, a, before, s.copyOf(a, m, def), m, def, "copyOf with a default");
                break;
            case 7:
                c.op("ensureSize", before, m);
                ensured(c, t, a, before, s.ensureSize(a, m), m, t.def(), "ensureSize");
                break;
            case 8:
                c.op("ensureSize", before, m, def);
                ensured(c, t, a, before, s.ensureSize(a, m, def), m, def, "ensureSize with a default");
                break;
            case 9:
                c.op("ensureEntry", before, m);
                ensured(c, t, a, before, s.ensureEntry(a, m), m + 1, t.def(), "ensureEntry");
                break;
            case 10:
                c.op("ensureEntry", before, m, def);
                ensured(c, t, a, before, s.ensureEntry(a, m, def), m + 1, def, "ensureEntry with a default");
                break;
            default: { // chains of growth
                Object cur = a;
                Object[] want = before;
                final boolean entry = c.bool();
                int k = 0;
                while (c.more(4) && Array.getLength(cur) < 3000) {
                    final int q = c.weighted(3, 1) == 0 ? Array.getLength(cur) + c.range(-1, 3) : c.range(0, 300);
                    if (q < 0) {
                        continue;
                    }
                    final Object d = c.bool() ? def : null;
                    final boolean with = d != null || (t.isRef() && c.bool());
                    c.op(entry ? "ensureEntry" : "ensureSize", want, q);
                    final Object next = entry ? with ? s.ensureEntry(cur, q, d) : s.ensureEntry(cur, q)
                            : with ? s.ensureSize(cur, q, d) : s.ensureSize(cur, q);
                    ensured(c, t, cur, want, next, entry ? q + 1 : q, with ? d : t.def(), entry ? "ensureEntry" : "ensureSize");
                    if (Array.getLength(next) > 0 && k < 30) {
                        final int at = c.pick(Array.getLength(next));
                        Array.set(next, at, element(c, t, comp == null ? Object.class : comp));
                    }
                    cur = next;
                    want = boxed(cur);
                    k++;
                }
            }
        }
        if (n > 0 && m != n) {
            c.nontrivial();
        }
    }

    private static Object[] filled(final int n, final Object v) {
        final Object[] out = new Object[n];
        java.util.Arrays.fill(out, v);
        return out;
    }

    private static void same(final Ctx c, final T t, final Object[] got, final Object[] want, final String what) {
        c.that(got.length == want.length, what + " gives %s elements, expected %s", got.length, want.length);
        for (int i = 0; i < got.length; i++) {
            c.that(Dom.sameValue(t, got[i], want[i]), what + ": element %s is %s, expected %s", i, got[i], want[i]);
        }
    }

    private static void copied(final Ctx c, final T t, final Object a, final Object[] before, final Object r, final int m, final Object def, final String what) {
        final Object[] want = filled(m, def);
        System.arraycopy(before, 0, want, 0, Math.min(m, before.length));
        same(c, t, boxed(r), want, what);
        if (r != a) {
            same(c, t, boxed(a), before, "the source of " + what);
        }
        if (t == T.Generic) {
            c.that(r.getClass() == a.getClass(), what + " of %s gives %s", a.getClass().getSimpleName(), r.getClass().getSimpleName());
        }
    }

    private static void ensured(final Ctx c, final T t, final Object a, final Object[] before, final Object r, final int size, final Object def, final String what) {
        if (before.length >= size) {
            c.that(r == a, what + " copied an array that is large enough (%s for %s)", before.length, size);
            same(c, t, boxed(a), before, what);
            return;
        }
        final int len = Array.getLength(r);
        c.that(len >= size && len >= 2 * before.length, what + " gives length %s for %s from %s", len, size, before.length);
        c.that(len < 2 * Math.max(1, size), what + " gives length %s for %s from %s", len, size, before.length);
        copied(c, t, a, before, r, len, def, what);
    }

    static void hugeArray(final Ctx c, final String subject) {
        final ArraySut s = U.make("ByteArrayAdapter");
        final int n = (1 << 30) + 5;
        final byte[] a = new byte[n];
        a[0] = 3;
        a[n - 1] = 7;
        c.op("ensureEntry(byte[" + n + "], " + n + ")");
        final byte[] r = (byte[]) s.ensureEntry(a, n);
        c.that(r.length > n && r[0] == 3 && r[n - 1] == 7 && r[n] == 0, "grown to %s", r.length);
        c.nontrivial();
    }

    // ------------------------------------------------------------------ stores
    static void store(final Ctx c, final String subject, final boolean matrix) {
        final T t = T.of(subject);
        final int chunk = c.weighted(4, 3, 1) == 0 ? c.range(matrix ? 2 : 1, 9) : c.bool() ? (1 << c.range(1, 8)) + c.range(-1, 1) : c.range(2, 600);
        final int ck = Math.max(matrix ? 2 : 1, chunk);
        final int init = c.weighted(4, 3) == 0 ? c.range(matrix ? 1 : 0, 10) : c.range(1, 300);
        final int nf = matrix ? c.weighted(4, 2) == 0 ? c.range(1, 6) : c.range(1, 40) : 1;
        final StoreSut s;
        if (matrix) {
            c.op("new " + subject + "ChunkMatrixStore", init, ck, nf);
            s = U.make(subject + "ChunkMatrixStoreAdapter", init, ck, nf);
            c.that(s.capacity() >= init, "capacity %s of a store of initial size %s", s.capacity(), init);
        } else {
            c.op("new " + subject + "ChunkStore", init, ck);
            s = U.make(subject + "ChunkStoreAdapter", init, ck);
        }
        final Map<Long, Object> m = new HashMap<>();
        final List<Long> keys = new ArrayList<>();
        int cap = s.capacity();
        int top = -1;
        int next = 20;
        int budget = c.thorough ? 3_000_000 : 400_000;
        while (c.more(c.thorough ? 60 : 30)) {
            switch (c.weighted(12, 4, 4, 3, 2, 3)) {
                case 0:
                case 1: {
                    int row = row(c, cap, top, nf, budget);
                    final int k = c.weighted(5, 1) == 0 ? 1 : 1 + c.skew(60);
                    final int step = c.oneOf(1, 1, -1, 2, 7);
                    for (int i = 0; i < k && row >= 0 && (long) row * nf < budget; i++, row += step) {
                        final int f = c.pick(nf);
                        final Object v = c.weighted(1, 4) == 0 ? Dom.value(c, t) : Dom.value(t, next++);
                        c.op("set", row, f, v);
                        s.set(row, f, v);
                        final long key = (long) row << 8 | f;
                        if (m.put(key, v) == null) {
                            keys.add(key);
                        }
                        top = Math.max(top, row);
                        final int now = s.capacity();
                        c.that(now >= cap, "capacity went from %s to %s", cap, now);
                        c.that(now > top, "capacity is %s after setting row %s", now, top);
                        if (now > cap && m.size() > 1) {
                            c.nontrivial();
                        }
                        cap = now;
                        check(c, t, s, m, row, f);
                    }
                    break;
                }
                case 2: { // neighbours and anything else
                    final int row = row(c, cap, top, nf, Integer.MAX_VALUE / 2);
                    check(c, t, s, m, row, c.pick(nf));
                    break;
                }
                case 3:
                    if (!keys.isEmpty()) {
                        final long key = keys.get(c.pick(keys.size()));
                        final int row = (int) (key >> 8);
                        check(c, t, s, m, row, (int) (key & 255));
                        if (row > 0) {
                            check(c, t, s, m, row - 1, (int) (key & 255));
                        }
                        check(c, t, s, m, row + 1, c.pick(nf));
                    }
                    break;
                case 4: {
                    final int bad = c.oneOf(-1, -2, Integer.MIN_VALUE, -ck, -c.range(1, 5000));
                    c.op("negative", bad);
                    c.throwsX(1, IndexOutOfBoundsException.class, "get(" + bad + ")", () -> s.get(bad, 0));
                    if (!matrix) {
                        c.throwsX(1, IndexOutOfBoundsException.class, "set(" + bad + ")", () -> s.set(bad, 0, Dom.value(t, 6)));
                    }
                    break;
                }
                default:
                    if (matrix) {
                        refused(c, t, s, nf, cap, m);
                    }
            }
        }
        c.op("compare");
        c.that(s.capacity() >= cap, "capacity went from %s to %s", cap, s.capacity());
        for (long key : keys) {
            check(c, t, s, m, (int) (key >> 8), (int) (key & 255));
        }
        final int lim = (int) Math.min(cap + 3L, c.thorough ? 3000 : 400);
        for (int r = 0; r < lim; r++) {
            for (int f = 0; f < nf; f++) {
                check(c, t, s, m, r, f);
            }
        }
        for (int r = Math.max(lim, cap - 50); r < cap + 3; r++) {
            check(c, t, s, m, r, nf - 1);
            check(c, t, s, m, r, 0);
        }
    }

    private static int row(final Ctx c, final int cap, final int top, final int nf, final int budget) {
        final int max = Math.max(1, budget / nf - 100);
        switch (c.weighted(6, 4, 4, 2, 1)) {
            case 0: return c.pick(Math.min(max, 20));
            case 1: return Math.min(max, Math.max(0, cap + c.range(-2, 2)));
            case 2: return c.pick(Math.min(max, Math.max(1, top + 2)));
            case 3: return c.pick(Math.min(max, 2000));
            default: return c.skew(max);
        }
    }

    private static void check(final Ctx c, final T t, final StoreSut s, final Map<Long, Object> m, final int row, final int f) {
        final long key = (long) row << 8 | f;
        final Object want = m.containsKey(key) ? m.get(key) : t.def();
        final Object got = s.get(row, f);
        c.that(Dom.sameValue(t, got, want), "get(%s, %s) = %s, expected %s", row, f, got, want);
    }

    /** Fields out of range, and rows whose cells cannot be addressed. */
    private static void refused(final Ctx c, final T t, final StoreSut s, final int nf, final int cap, final Map<Long, Object> m) {
        if (c.bool()) {
            final int f = c.oneOf(-1, nf, nf + 1, Integer.MAX_VALUE, Integer.MIN_VALUE);
            final int row = c.pick(Math.max(1, cap));
            c.op("field out of range", row, f);
            c.throwsX(1, RangeCheckException.class, "get(" + row + ", " + f + ")", () -> s.get(row, f));
            c.throwsX(1, RangeCheckException.class, "set(" + row + ", " + f + ")", () -> s.set(row, f, Dom.value(t, 6)));
        } else {
            // least row that cannot be addressed, and rows whose cell number wraps to a small one
            final long least = (Integer.MAX_VALUE + 1L) / nf;
            long row = c.oneOf(least, (1L << 32) / nf + c.range(-2, 40), (2L << 32) / nf + c.range(-2, 40), (1L << 32) / nf / 2 + c.range(-2, 40), (long) Integer.MAX_VALUE,
                    (long) Integer.MAX_VALUE - c.range(0, 40));
            if (row > Integer.MAX_VALUE || (row + 1) * nf <= Integer.MAX_VALUE) {
                row = Integer.MAX_VALUE;
            }
            final int r = (int) row;
            final int f = c.pick(nf);
            c.op("row beyond what can be addressed", r, f);
            c.throwsX(1, RuntimeException.class, "set(" + r + ", " + f + ")", () -> s.set(r, f, Dom.value(t, 6)));
            check(c, t, s, m, r, f);
            c.label("unaddressable");
        }
        c.eq(1, s.capacity(), cap, "capacity after a refused call");
    }

    // ------------------------------------------------------------------ sorts
    static final class Pair {
        final Object k;
        final Object v;
        final boolean kr;
        final boolean vr;

        Pair(final Object k, final Object v, final boolean kr, final boolean vr) {
            this.k = k;
            this.v = v;
            this.kr = kr;
            this.vr = vr;
        }

        @Override
        public boolean equals(final Object o) {
            final Pair p = (Pair) o;
            return (kr ? k == p.k : k.equals(p.k)) && (vr ? v == p.v : v.equals(p.v));
        }

        @Override
        public int hashCode() {
            return (kr ? System.identityHashCode(k) : k.hashCode()) * 31 + (vr ? System.identityHashCode(v) : v.hashCode());
        }
    }

    static void sort(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final SortSut s = U.make(p[0] + p[1] + "CompanionSortAdapter");
        final int len;
        switch (c.weighted(3, 3, 4, 3, 1)) {
            case 0: len = c.range(0, 9); break;
            case 1: len = c.range(5, 20); break;
            case 2: len = c.range(20, 60); break;
            case 3: len = c.range(38, 130); break;
            default: len = c.range(100, c.thorough ? 2500 : 700);
        }
        final int before = c.weighted(1, 2) == 0 ? 0 : c.range(0, 12);
        final int after = c.weighted(1, 2) == 0 ? 0 : c.range(0, 12);
        final int extra = c.weighted(2, 1) == 0 ? 0 : c.range(0, 5); // the companion array may be longer
        final Dom dom = Dom.draw(c, kt, c.weighted(2, 2, 2) == 0 ? c.range(1, 4) : c.bool() ? c.range(2, 20) : Math.max(2, len), true);
        final int[] pat = pattern(c, len, dom.n);
        final int n = before + len + after;
        final Object[] keys = new Object[n];
        final Object[] vals = new Object[n + extra];
        for (int i = 0; i < n; i++) {
            keys[i] = dom.key(i >= before && i < before + len ? pat[i - before] : c.pick(dom.n));
            if (kt.isFloating() && pat.length > 0 && i % 17 == 3 && (pat[0] & 1) == 1) {
                keys[i] = kt == T.Float ? (Object) Float.NaN : (Object) Double.NaN;
            }
        }
        for (int i = 0; i < n + extra; i++) {
            vals[i] = Dom.value(vt, i + 6);
        }
        final Comparator<Object> nat = kt.natural();
        final Comparator<Object> abs = kt.absolute();
        final int w = c.weighted(4, 3, 2, 2, 3, 1);
        String name = w == 0 ? "Asc" : w == 1 ? "Desc" : w == 2 && abs != null ? "AbsAsc" : w == 3 && abs != null ? "AbsDesc" : null;
        final Comparator<Object> cmp;
        if (name != null) {
            cmp = w == 0 ? nat : w == 1 ? nat.reversed() : w == 2 ? abs : abs.reversed();
        } else if (w == 5) {
            name = null;
            cmp = (a, b) -> 0;
        } else {
            final int mod = 1 + c.pick(6);
            cmp = c.bool() ? (a, b) -> Integer.compare(HeapProps.Machine.hash(a) % mod, HeapProps.Machine.hash(b) % mod) * 7
                    : (a, b) -> 100 * Integer.signum(nat.compare(b, a));
        }
        final Object ks = s.keys(keys);
        final Object vs = s.values(vals);
        c.op("arrays", keys, vals);
        if (c.chance(1, 12)) {
            final long bad = c.pick(8);
            final int off = bad == 0 ? -1 : bad == 1 ? n + 1 : bad == 2 ? Integer.MAX_VALUE : bad == 3 ? 1 : bad == 4 ? n : bad == 5 ? Integer.MIN_VALUE : bad == 6 ? c.range(0, n) : 5;
            final int ln = bad == 0 ? 1 : bad == 1 ? 0 : bad == 2 ? c.oneOf(1, Integer.MAX_VALUE) : bad == 3 ? n : bad == 4 ? 1 : bad == 5 ? c.oneOf(0, Integer.MIN_VALUE) : bad == 6 ? -1 : Integer.MAX_VALUE;
            c.op("sort of a bad range", off, ln, n);
            c.throwsX(1, IllegalArgumentException.class, "sort(" + off + ", " + ln + ") of " + n + " elements", () -> s.sort(ks, vs, off, ln, cmp));
            same(c, kt, boxed(ks), keys, "keys after a refused sort");
            same(c, vt, boxed(vs), vals, "companions after a refused sort");
            c.label("refused");
            return;
        }
        if (c.chance(1, 40) && n > 0) { // a companion array that is too short
            final Object[] shorter = java.util.Arrays.copyOf(vals, c.pick(n));
            final Object vs2 = s.values(shorter);
            c.op("sort with a short companion array", 0, n, shorter.length);
            c.throwsX(1, IllegalArgumentException.class, "sort with " + shorter.length + " companions of " + n, () -> s.sort(ks, vs2, 0, n, cmp));
            same(c, kt, boxed(ks), keys, "keys after a refused sort");
            same(c, vt, boxed(vs2), shorter, "companions after a refused sort");
            return;
        }
        c.op("sort", before, len, name == null ? "custom" : name);
        if (name != null && c.bool()) {
            s.sort(ks, vs, before, len, name);
        } else {
            s.sort(ks, vs, before, len, (a, b) -> {
                c.pause();
                return cmp.compare(a, b);
            });
        }
        final Object[] k2 = boxed(ks);
        final Object[] v2 = boxed(vs);
        final Map<Pair, Integer> count = new HashMap<>();
        boolean sorted = true;
        for (int i = before; i < before + len; i++) {
            count.merge(new Pair(keys[i], vals[i], kt.isRef(), vt.isRef()), 1, Integer::sum);
            sorted &= i == before || cmp.compare(keys[i - 1], keys[i]) <= 0;
        }
        for (int i = 0; i < v2.length; i++) {
            if (i >= before && i < before + len) {
                if (i > before) {
                    c.that(cmp.compare(k2[i - 1], k2[i]) <= 0, "%s at %s comes before %s", k2[i - 1], i - 1, k2[i]);
                }
                final Integer left = count.merge(new Pair(k2[i], v2[i], kt.isRef(), vt.isRef()), -1, Integer::sum);
                c.that(left >= 0, "the pair (%s, %s) at %s was not in the range, or not as often", k2[i], v2[i], i);
            } else {
                c.that(i >= n || Dom.sameValue(kt, k2[i], keys[i]), "element %s outside the range changed to %s", i, i < n ? k2[i] : null);
                c.that(Dom.sameValue(vt, v2[i], vals[i]), "companion %s outside the range changed to %s", i, v2[i]);
            }
        }
        if (len >= 7 && !sorted) {
            c.nontrivial();
        }
        if (len > 40) {
            c.label("over 40");
        }
    }

    /** Indexes into a domain of d keys. */
    private static int[] pattern(final Ctx c, final int len, final int d) {
        final int[] x = new int[len];
        final int kind = c.pick(9);
        final int a = c.range(1, Math.max(1, d));
        for (int i = 0; i < len; i++) {
            switch (kind) {
                case 0: x[i] = c.pick(d); break;
                case 1: x[i] = (int) ((long) i * d / Math.max(1, len)); break;
                case 2: x[i] = (int) ((long) (len - 1 - i) * d / Math.max(1, len)); break;
                case 3: x[i] = i % a; break;
                case 4: x[i] = Math.min(i, len - 1 - i) % d; break;
                case 5: x[i] = a - 1; break;
                case 6: x[i] = (int) ((long) i * d / Math.max(1, len)); break;
                case 7: x[i] = c.pick(5) == 0 ? c.pick(d) : a - 1; break;
                default: x[i] = i < len / 2 ? i % d : (len - i) * a % d;
            }
        }
        if (kind == 6 && len > 1) {
            for (int i = c.pick(6); i >= 0; i--) {
                final int p = c.pick(len);
                final int q = c.pick(len);
                final int tmp = x[p];
                x[p] = x[q];
                x[q] = tmp;
            }
        }
        return x;
    }
}
