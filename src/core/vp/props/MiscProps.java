package vp.props;

import com.bytefacets.collections.CapacityCalculator;
import com.bytefacets.collections.NumUtils;
import com.bytefacets.collections.exception.InitializationException;
import com.bytefacets.collections.exception.ResizeException;
import java.util.ArrayList;
import java.util.List;
import java.util.function.Supplier;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.DequeSut;
import vp.sut.HashSut;
import vp.sut.HeapSut;
import vp.sut.HydraSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.U;
import vp.sut.VectorSut;

/** Properties over all collections: references (C11), capacities (C39), constructors (C40). */
final class MiscProps {
    static final String[] REFS = {"String", "Generic"};
    static final String[] ALL = T.names(true);
    static final String[] NUM = T.names(false);

    static String[] refPairs() {
        return java.util.Arrays.stream(T.pairs()).filter(s -> s.contains("String") || s.contains("Generic")).toArray(String[]::new);
    }

    static Prop get(final String id) {
        switch (id) {
            case "C11":
                return new Prop(id, Reach.REACH, "a case is a history over a collection holding uniquely identifiable objects, whose object graph is walked "
                        + "reflectively after every step; non-trivial when some object handed in earlier was no longer held at a walk",
                        new String[] {HashProps.ASSUME, "putValueAt at unused map entries and custom functions that capture elements are outside the generated domain"},
                        Part.of("sets", REFS, 8000, 200000, MiscProps::reachHash),
                        Part.of("maps", refPairs(), 24000, 600000, MiscProps::reachHash),
                        Part.of("deque", REFS, 10000, 250000, SeqProps::deque),
                        Part.of("hydra", REFS, 10000, 250000, SeqProps::hydra),
                        Part.of("vector", REFS, 5000, 120000, SeqProps::vector),
                        Part.of("heap", refPairs(), 24000, 600000, (c, s) -> new HeapProps.Machine(c, s).run()));
            case "C39":
                return new Prop(id, HashMachine.CAP, "a case is a range of ints enumerated, or a history on a set, map or heap; non-trivial when "
                        + "all ints of the range were checked, or the collection grew",
                        new String[] {HashProps.ASSUME, "capacities above about a million entries are reached only through the arithmetic itself"},
                        Part.all("growth to the limit", 1, Child::limit),
                        Part.all("nextPowerOf2", 1024, MiscProps::power),
                        Part.all("calculateNewCapacity", 512, MiscProps::newCapacity),
                        Part.of("refused capacities", new String[] {"all"}, 200000, 4000000, MiscProps::noCapacity),
                        Part.of("sets", NUM, 20000, 400000, MiscProps::capHash),
                        Part.of("maps", T.pairs(), 40000, 900000, MiscProps::capHash),
                        Part.of("heap", T.pairs(), 40000, 900000, (c, s) -> new HeapProps.Machine(c, s).run()),
                        Part.of("large heap", Large.PAIRS, 24, 600, Large::heap),
                        HashProps.huge(66, 900, p -> p.copy = 3));
            case "C40":
                return new Prop(id, 1, "a case constructs one collection and, when the configuration is valid, uses it; non-trivial when the configuration "
                        + "is invalid, at a boundary, or the collection had to grow beyond what was asked for",
                        new String[] {"valid configurations needing more than about 64 MB are only shown not to be rejected"},
                        Part.all("capacities to the limit", 1, Child::accepted),
                        Part.of("nodes", new String[] {"Snowflake"}, 20000, 400000, SnowProps::nodes),
                        Part.of("sets", NUM, 40000, 800000, MiscProps::hash),
                        Part.of("maps", T.pairs(), 60000, 1200000, MiscProps::hash),
                        Part.of("deque", ALL, 20000, 400000, MiscProps::deque),
                        Part.of("hydra", ALL, 20000, 400000, MiscProps::hydra),
                        Part.of("vector", ALL, 20000, 400000, MiscProps::vector),
                        Part.of("matrix", ALL, 30000, 600000, MiscProps::matrix),
                        Part.of("store", ALL, 20000, 400000, MiscProps::store),
                        Part.of("heap", T.pairs(), 40000, 800000, MiscProps::heap));
            default:
                return null;
        }
    }

    // ------------------------------------------------------------------ C11 and C39 over sets and maps
    private static void reachHash(final Ctx c, final String subject) {
        final HashMachine.Profile p = new HashMachine.Profile();
        p.put = 24;
        p.clear = 3;
        p.free = 6;
        p.reserve = 4;
        p.iterate = 6;
        p.forEach = 4;
        p.copy = 3;
        p.maxDomain = 120;
        new HashMachine(c, subject, p).run();
    }

    private static void capHash(final Ctx c, final String subject) {
        final HashMachine.Profile p = new HashMachine.Profile();
        p.add = 30;
        p.bulkAdd = 8;
        p.copy = 3;
        p.clear = 2;
        p.reserve = 6;
        new HashMachine(c, subject, p).run();
    }

    // ------------------------------------------------------------------ C39 arithmetic
    private static void power(final Ctx c, final String s) {
        final int lo = (int) (c.index << 20);
        final int hi = lo + (1 << 20);
        c.op("nextPowerOf2 over", lo + 1, hi);
        int want = 1;
        while (want < lo + 1) {
            want <<= 1;
        }
        for (int v = lo + 1; v <= hi; v++) {
            if (v > want) {
                want <<= 1;
            }
            if (NumUtils.nextPowerOf2(v) != want) {
                c.fail(-1L, "nextPowerOf2(%s) = %s, expected %s", v, NumUtils.nextPowerOf2(v), want);
            }
        }
        c.inputs(1 << 20);
        c.nontrivial();
    }

    static final int MAX = 1 << 29;

    /** Capacities that cannot be doubled: not positive, or with a double that is not an int. */
    private static void noCapacity(final Ctx c, final String s) {
        final int v;
        switch (c.weighted(3, 3, 2)) {
            case 0: v = c.range(-(1 << 30), 0); break;
            case 1: v = c.range(1 << 30, Integer.MAX_VALUE); break;
            default: v = c.oneOf(0, -1, -2, -(1 << 30), 1 << 30, Integer.MAX_VALUE, (1 << 30) + 1, Integer.MAX_VALUE - 1);
        }
        final int th = c.oneOf(v, 1, 0, MAX, v - 1);
        c.op("calculateNewCapacity", v, th);
        c.throwsX(-1L, ResizeException.class, "growing from a capacity that cannot be doubled", () -> CapacityCalculator.calculateNewCapacity("owner", v, th));
        c.nontrivial();
    }

    private static void newCapacity(final Ctx c, final String s) {
        final int lo = (int) (c.index << 20);
        final int hi = lo + (1 << 20);
        final Object owner = new Object();
        c.op("calculateNewCapacity over", lo + 1, hi);
        for (int v = lo + 1; v <= hi; v++) {
            if (v == MAX) {
                for (int th : new int[] {1, MAX / 2, MAX - 1, MAX / 4 * 3}) {
                    c.eq(-1L, CapacityCalculator.calculateNewCapacity(owner, MAX, th), MAX, "calculateNewCapacity", MAX, th);
                }
                c.throwsX(-1L, ResizeException.class, "growing past the limit", () -> CapacityCalculator.calculateNewCapacity(owner, MAX, MAX));
                continue;
            }
            final int want = Math.min(2 * v, MAX);
            final int got = CapacityCalculator.calculateNewCapacity(owner, v, (v & 3) == 0 ? v : (v & 3) == 1 ? v - 1 : v / 2);
            if (got != want) {
                c.fail(-1L, "calculateNewCapacity(%s) = %s, expected %s", v, got, want);
            }
        }
        c.inputs(1 << 20);
        c.nontrivial();
    }

    // ------------------------------------------------------------------ C40
    private static int badInt(final Ctx c, final int below) {
        switch (c.pick(5)) {
            case 0: return below - 1;
            case 1: return Integer.MIN_VALUE;
            case 2: return below - 1 - c.skew(100);
            case 3: return Integer.MIN_VALUE + c.skew(100000);
            default: return Math.min(below - 1, (int) c.bits64() | 0x80000000);
        }
    }

    private static int goodInt(final Ctx c, final int least, final int most) {
        switch (c.weighted(6, 3, 3, 1)) {
            case 0: return Math.min(most, least + c.skew(40));
            case 1: return Math.max(least, Math.min(most, (1 << c.pick(12)) + c.range(-1, 1)));
            case 2: return least;
            default: return Math.min(most, least + c.skew(1 << 14));
        }
    }

    private static void rejects(final Ctx c, final Class<? extends Throwable> type, final Supplier<Object> s) {
        c.throwsX(-1L, type, "invalid configuration", s::get);
        c.nontrivial();
    }

    private static void hash(final Ctx c, final String subject) {
        final int slash = subject.indexOf('/');
        final T kt = T.of(slash < 0 ? subject : subject.substring(0, slash));
        final T vt = slash < 0 ? null : T.of(subject.substring(slash + 1));
        final String cls = slash < 0 ? subject + "SetAdapter" : subject.replace("/", "") + "MapAdapter";
        final int what = c.weighted(6, 2, 2, 1);
        int cap = goodInt(c, 1, 1 << 14);
        double lf;
        switch (c.weighted(4, 4, 2, 3)) {
            case 0: lf = 0.75; break;
            case 1: lf = c.oneOf(1d, 0.5, 0.25, 0.9, 0.99, 1 - 1e-16, Math.nextDown(1d), 1e-2, 1e-3); break;
            case 2: lf = c.oneOf(Double.MIN_VALUE, Double.MIN_NORMAL, 1e-9, 1e-6, 1e-300); break;
            default: lf = ((c.bits64() >>> 11) + 1) * 0x1p-53;
        }
        boolean bad = what != 0;
        if (what == 1 || what == 3) {
            cap = c.bool() ? badInt(c, 1) : c.oneOf(MAX + 1, MAX + 2, Integer.MAX_VALUE, 1 << 30, (1 << 30) + 1, MAX + 1 + c.skew(1 << 28));
        }
        if (what == 2 || what == 3) {
            lf = c.oneOf(0d, -0d, -1d, Double.NaN, Math.nextUp(1d), 2d, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, -Double.MIN_VALUE,
                    -0.75, 100d, Double.MAX_VALUE, 1.0000001, -Double.MAX_VALUE);
        }
        c.op("new " + cls, cap, lf);
        final int cp = cap;
        final double l = lf;
        if (bad) {
            rejects(c, IllegalArgumentException.class, () -> U.make(cls, cp, l));
            return;
        }
        final HashSut s = U.make(cls, cap, lf);
        c.that(s.size() == 0 && s.isEmpty() && s.capacity() >= cap, "new collection: size %s, capacity %s", s.size(), s.capacity());
        // every add may double the capacity when the load factor is tiny
        final int limit = lf < 1e-3 ? 12 : lf < 0.05 ? 100 : 200;
        final Dom dom = Dom.draw(c, kt, Math.min(limit, lf < 1e-3 ? 1 + c.pick(12) : 1 + Math.min(cap + c.pick(8), 190)));
        final int n = dom.n;
        final java.util.Map<Object, Integer> m = new java.util.HashMap<>();
        for (int i = 0; i < n; i++) {
            c.eq(-1L, s.lookup(dom.key(i)), -1, "lookupEntry before add");
            final int e = vt == null ? s.add(dom.key(i)) : s.put(dom.key(i), Dom.value(vt, i));
            c.that(e >= 0 && m.put(Dom.canon(dom.key(i)), e) == null, "entry %s for key %s", e, i);
        }
        c.eq(-1L, s.size(), n, "size");
        c.that(s.capacity() >= n, "capacity %s with %s keys", s.capacity(), n);
        for (int i = 0; i < n; i++) {
            c.eq(-1L, s.lookup(dom.key(i)), m.get(Dom.canon(dom.key(i))), "lookupEntry", i);
            if (vt != null) {
                final Object v = s.get(dom.key(i));
                c.that(vt.isRef() ? v == null ? Dom.value(vt, i) == null : v.equals(Dom.value(vt, i)) : Dom.sameValue(vt, v, Dom.value(vt, i)), "get(key %s) = %s", i, v);
            }
        }
        final int[] seen = {0};
        s.forEachEntry(e -> seen[0]++);
        c.eq(-1L, seen[0], n, "entries visited");
        for (int i = 0; i < n; i++) {
            c.eq(-1L, s.remove(dom.key(i)), m.get(Dom.canon(dom.key(i))), "remove", i);
        }
        c.that(s.isEmpty(), "not empty after removing all");
        if (cap == 1 || lf == 1 || lf < 1e-2 || n > cap) {
            c.nontrivial();
        }
    }

    /** Values that are easy to tell apart by their number. */
    private static boolean eqv(final Object a, final Object b) {
        return a == null ? b == null : a.equals(b);
    }

    private static void deque(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final boolean bad = c.chance(1, 4);
        final int cap = bad ? badInt(c, 1) : goodInt(c, 1, 1 << 14);
        c.op("new " + subject + "Deque", cap);
        if (bad) {
            rejects(c, IllegalArgumentException.class, () -> U.make(subject + "DequeAdapter", cap));
            return;
        }
        final DequeSut s = U.make(subject + "DequeAdapter", cap);
        c.that(s.size() == 0 && s.isEmpty(), "new deque is not empty");
        final boolean front = c.bool();
        final int n = 1 + Math.min(600, c.skew(2 * cap + 10));
        for (int i = 0; i < n; i++) {
            if (front) {
                s.addFirst(Dom.value(t, i));
            } else {
                s.addLast(Dom.value(t, i));
            }
        }
        c.eq(-1L, s.size(), n, "size");
        final boolean out = c.bool();
        for (int i = 0; i < n; i++) {
            final Object got = out ? s.removeFirst() : s.removeLast();
            c.that(eqv(got, Dom.value(t, front == out ? n - 1 - i : i)), "element %s is %s", i, got);
        }
        if (cap == 1 || n > cap) {
            c.nontrivial();
        }
    }

    private static void hydra(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final boolean bad = c.chance(1, 4);
        final int cap = bad ? badInt(c, 1) : goodInt(c, 1, 1 << 14);
        final int queues = c.oneOf(0, 1, 2, 10, 100);
        c.op("new " + subject + "HydraDeque", queues, cap);
        if (bad) {
            rejects(c, IllegalArgumentException.class, () -> U.make(subject + "HydraDequeAdapter", queues, cap));
            return;
        }
        final HydraSut s = U.make(subject + "HydraDequeAdapter", queues, cap);
        c.that(s.size() == 0 && s.isEmpty(), "new hydra deque is not empty");
        final int lists = 1 + c.pick(4);
        final int n = 1 + Math.min(400, c.skew(2 * cap + 10));
        final int stride = c.oneOf(1, 1, 7, 50);
        for (int i = 0; i < n; i++) {
            s.addLast(i % lists * stride, Dom.value(t, i));
        }
        c.eq(-1L, s.size(), n, "size");
        for (int i = 0; i < n; i++) {
            final Object got = s.removeFirst(i % lists * stride);
            c.that(eqv(got, Dom.value(t, i)), "element %s is %s", i, got);
        }
        c.that(s.isEmpty(), "not empty after removing all");
        if (cap == 1 || n > cap || queues == 0) {
            c.nontrivial();
        }
    }

    private static void vector(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final boolean bad = c.chance(1, 4);
        final int cap = bad ? badInt(c, 1) : goodInt(c, 1, 1 << 14);
        c.op("new " + subject + "Vector", cap);
        if (bad) {
            rejects(c, IllegalArgumentException.class, () -> U.make(subject + "VectorAdapter", cap));
            return;
        }
        final VectorSut s = U.make(subject + "VectorAdapter", cap);
        c.that(s.size() == 0 && s.isEmpty(), "new vector is not empty");
        final int n = 1 + Math.min(600, c.skew(2 * cap + 10));
        for (int i = 0; i < n; i++) {
            s.append(Dom.value(t, i));
        }
        c.eq(-1L, s.size(), n, "size");
        for (int i = 0; i < n; i++) {
            c.that(eqv(s.valueAt(i), Dom.value(t, i)), "element %s is %s", i, s.valueAt(i));
        }
        if (cap == 1 || n > cap) {
            c.nontrivial();
        }
    }

    private static void cells(final Ctx c, final T t, final StoreSut s, final int rows, final int fields) {
        final List<int[]> at = new ArrayList<>();
        final int n = 1 + c.pick(30);
        final java.util.Set<Long> used = new java.util.HashSet<>();
        for (int i = 0; i < n; i++) {
            final int r = c.skew(rows * 2 + 20);
            final int f = c.pick(fields);
            if (used.add((long) r << 32 | f)) {
                at.add(new int[] {r, f, i + 1});
                s.set(r, f, Dom.value(t, i + 1));
            }
        }
        for (int[] x : at) {
            c.that(eqv(s.get(x[0], x[1]), Dom.value(t, x[2])), "cell (%s, %s) is %s", x[0], x[1], s.get(x[0], x[1]));
            c.that(s.capacity() > x[0], "capacity %s with row %s set", s.capacity(), x[0]);
        }
        for (int i = 0; i < 10; i++) {
            final int r = c.skew(rows * 2 + 40);
            final int f = c.pick(fields);
            if (!used.contains((long) r << 32 | f)) {
                c.that(eqv(s.get(r, f), t.def()), "cell (%s, %s), never set, is %s", r, f, s.get(r, f));
            }
        }
    }

    private static void matrix(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int bad = c.weighted(6, 1, 1, 1);
        final int size = bad == 1 ? badInt(c, 1) : goodInt(c, 1, 1 << 12);
        final int chunk = bad == 2 ? badInt(c, 2) : goodInt(c, 2, 1 << 11);
        final int fields = bad == 3 ? badInt(c, 1) : goodInt(c, 1, 40);
        c.op("new " + subject + "ChunkMatrixStore", size, chunk, fields);
        if (bad != 0) {
            rejects(c, InitializationException.class, () -> U.make(subject + "ChunkMatrixStoreAdapter", size, chunk, fields));
            return;
        }
        final StoreSut s = U.make(subject + "ChunkMatrixStoreAdapter", size, chunk, fields);
        c.that(s.capacity() >= size, "capacity %s for initial size %s", s.capacity(), size);
        cells(c, t, s, size, fields);
        if (size == 1 || chunk == 2 || fields == 1 || chunk < fields) {
            c.nontrivial();
        }
    }

    private static void store(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int size = goodInt(c, 1, 1 << 12);
        final int chunk = goodInt(c, 1, 1 << 11);
        c.op("new " + subject + "ChunkStore", size, chunk);
        final StoreSut s = U.make(subject + "ChunkStoreAdapter", size, chunk);
        c.that(s.capacity() >= size, "capacity %s for initial size %s", s.capacity(), size);
        cells(c, t, s, size, 1);
        if (size == 1 || chunk <= 2 || size > chunk) {
            c.nontrivial();
        }
    }

    private static void heap(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final int cap = goodInt(c, 0, 1 << 12);
        c.op("new " + p[0] + p[1] + "Heap", cap);
        final HeapSut s = U.make(p[0] + p[1] + "HeapAdapter", cap);
        c.that(s.size() == 0 && s.isEmpty() && s.capacity() >= cap, "new heap: size %s, capacity %s", s.size(), s.capacity());
        final Dom dom = Dom.draw(c, kt, 1 + c.pick(60), true);
        final int n = 1 + Math.min(150, c.skew(2 * cap + 10));
        final java.util.Map<Integer, Integer> val = new java.util.HashMap<>();
        final List<Object> keys = new ArrayList<>();
        for (int i = 0; i < n; i++) {
            final Object k = dom.key(c.pick(dom.n));
            keys.add(k);
            final int e = s.insert(k, Dom.value(vt, i));
            c.that(e >= 0 && val.put(e, i) == null, "entry %s issued", e);
        }
        keys.sort(kt.natural());
        for (int i = 0; i < n; i++) {
            final int e = s.peek();
            final Object k = s.keyAt(e);
            c.that(kt.natural().compare(k, keys.get(i)) == 0, "the %s-th smallest key is %s, expected %s", i, k, keys.get(i));
            c.that(val.containsKey(e) && eqv(s.valueAt(e), Dom.value(vt, val.get(e))), "value of entry %s is %s", e, s.valueAt(e));
            s.removeAt(e);
        }
        c.that(s.isEmpty(), "not empty after removing all");
        if (cap == 0 || n > cap) {
            c.nontrivial();
        }
    }
}
