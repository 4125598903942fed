package vp.props;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.functional.IntIterator;
import java.util.Arrays;
import java.util.Comparator;
import java.util.HashMap;
import java.util.Map;
import java.util.SplittableRandom;
import java.util.function.IntSupplier;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.DequeSut;
import vp.sut.Fn;
import vp.sut.HashSut;
import vp.sut.HeapSut;
import vp.sut.HydraSut;
import vp.sut.ItSut;
import vp.sut.SortSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.U;
import vp.sut.VectorSut;
import vp.work.Work;

/** C47: the work of the collections' code, counted by instrumentation (see vp.work.Loader), per operation. */
final class WorkProps {
    static Prop get(final String id) {
        if (!id.equals("C47")) {
            return null;
        }
        return new Prop(id, 1, "a case is a history of phases of many operations of one kind; the rounds of loops, calls and array cells allocated, filled or "
                + "copied in the collections' code are counted in each phase; non-trivial when at least 1000 elements were held",
                new String[] {"hash codes are evenly spread"},
                Part.of("indexed sets", HashProps.SETS, 2000, 60000, WorkProps::hash),
                Part.of("indexed maps", HashProps.MAPS, 4000, 120000, WorkProps::hash),
                Part.of("deques", SeqProps.ALL, 3500, 80000, WorkProps::deque),
                Part.of("hydra deques", SeqProps.ALL, 3500, 80000, WorkProps::hydra),
                Part.of("vectors", SeqProps.ALL, 2500, 60000, WorkProps::vector),
                Part.of("heaps", HashProps.MAPS, 4000, 120000, WorkProps::heap),
                Part.of("associations", BiProps.BOTH, 3500, 80000, WorkProps::bi),
                Part.of("stores", SeqProps.ALL, 3500, 80000, WorkProps::store),
                Part.of("sorts", HashProps.MAPS, 4000, 120000, WorkProps::sort));
    }

    private static final double OP = 200;
    private static final double SMALL = 90;
    private static final double CELL = 90;
    private static final double CELLS = 15;
    /** Largest share of a bound ever used: printed to choose the bounds. */
    private static final Map<String, double[]> USED = Boolean.getBoolean("vp.used") ? new java.util.concurrent.ConcurrentSkipListMap<>() : null;


    private static void used(final String what, final double part) {
        if (USED != null) {
            final double[] d = USED.computeIfAbsent(what, w -> new double[1]);
            synchronized (d) {
                if (part > d[0]) {
                    d[0] = part;
                    System.err.printf("%s %.3f%n", what, part);
                }
            }
        }
    }

    private interface Body {
        void run(int i);
    }

    /** Draws the number of operations of a phase. */
    private static int many(final Ctx c) {
        return c.weighted(40, 78, 2) == 2 ? c.range(6000, 40000) : c.weighted(2, 3, 1) == 0 ? c.range(1, 100) : c.bool() ? c.range(100, 1500) : c.range(500, 6000);
    }

    private static int cap(final Ctx c) {
        return c.weighted(3, 2, 1) == 0 ? c.range(1, 4) : c.bool() ? c.range(1, 70) : c.range(1, 3000);
    }

    /**
     * Runs k operations, which may do perOp work each, fixed in all, and where what the collection has room for, or must have, grows, a
     * constant times its new measure.
     */
    private static void phase(final Ctx c, final String what, final int k, final double perOp, final double fixed, final IntSupplier measure, final Body body) {
        final int m0 = measure.getAsInt();
        final long before = Work.get();
        final long cellsBefore = Work.cells();
        for (int i = 0; i < k; i++) {
            body.run(i);
        }
        final long work = Work.get() - before;
        final long cells = Work.cells() - cellsBefore;
        final int m1 = measure.getAsInt();
        final double most = perOp * k + fixed + 200 + (m1 > m0 ? CELL * m1 : 0);
        used(what, work / most);
        c.that(work <= most, "%s: %s operations took %s rounds and cells, which is more than %s (measure %s, before %s)", what, k, work, (long) most, m1, m0);
        // whatever else the operations do, storage is copied only when it doubles
        final double mostCells = CELLS * k + fixed + 200 + (m1 > m0 ? CELL * m1 : 0);
        used(what + " cells", cells / mostCells);
        c.that(cells <= mostCells, "%s: %s operations allocated, filled or copied %s cells, which is more than %s (measure %s, before %s)", what, k, cells,
                (long) mostCells, m1, m0);
    }

    private static double log2(final int n) {
        return Math.log(Math.max(1, n)) / Math.log(2);
    }

    // ------------------------------------------------------------------ hash
    private static void hash(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = p.length > 1 ? T.of(p[1]) : null;
        final int init = cap(c);
        final double lf = c.oneOf(0.75, 1.0, 0.5, 0.9);
        c.op("new " + subject, init, lf);
        final HashSut[] s = new HashSut[1];
        phase(c, "constructor", 1, OP, CELL * init, () -> 0, i -> s[0] = U.make(p[0] + (vt == null ? "SetAdapter" : p[1] + "MapAdapter"), init, lf));
        final Hash g = new Hash(c, kt, vt);
        g.prepare(s[0]);
        final IntSupplier measure = () -> s[0].capacity();
        final int n = g.keys.length;
        int fresh = 0;
        int high = s[0].capacity();
        EntryIterator it = null;
        while (c.more(12)) {
            final int k = many(c);
            final int order = c.pick(3);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"add", "remove", "look up", "removeAt", "reserve and free", "mix", "iterate", "iterate and remove", "forEach", "clear", "copyFrom"};
            final int what = c.weighted(6, 3, 3, 2, 1, 3, 2, 1, 1, 1, 1);
            c.op(names[what], what < 6 ? k : 0, order);
            final HashSut m = s[0];
            final int start = fresh;
            final IntIndex key = i -> order == 0 ? r.nextInt(n) : order == 1 ? (start + i) % n : Math.floorMod(start - i, n);
            fresh = (fresh + (what < 6 ? k : 0)) % n;
            switch (what) {
                case 0:
                    phase(c, "add", k, OP, 0, measure, i -> g.add(m, key.at(i), r));
                    break;
                case 1:
                    phase(c, "remove", k, OP, 0, measure, i -> m.remove(g.keys[key.at(i)]));
                    break;
                case 2:
                    phase(c, "look up", k, OP, 0, measure, i -> g.look(m, key.at(i)));
                    break;
                case 3:
                    phase(c, "removeAt", k, OP, 0, measure, i -> {
                        final int e = m.lookup(g.keys[key.at(i)]);
                        if (e >= 0) {
                            m.removeAt(e);
                        }
                    });
                    break;
                case 4:
                    phase(c, "reserve and free", k, OP, 0, measure, i -> {
                        final int e = m.lookup(g.keys[key.at(i)]);
                        if (e >= 0) {
                            m.reserve(e);
                            m.free(e);
                        }
                    });
                    break;
                case 5:
                    phase(c, "mix", k, OP, 0, measure, i -> {
                        final int x = key.at(i);
                        if (r.nextBoolean()) {
                            g.add(m, x, r);
                        } else {
                            m.remove(g.keys[x]);
                        }
                        m.size();
                        m.isEmpty();
                    });
                    break;
                case 6: {
                    final EntryIterator use = it;
                    final EntryIterator[] got = new EntryIterator[1];
                    phase(c, "iterate", 1, OP, 20.0 * (high + m.size()), measure, i -> {
                        got[0] = m.iterator(use);
                        while (got[0].next()) {
                            got[0].currentEntry();
                        }
                    });
                    it = got[0];
                    break;
                }
                case 7:
                    phase(c, "iterate and remove", 1, OP, 40.0 * (high + m.size()), measure, i -> {
                        final EntryIterator x = m.iterator();
                        while (x.next()) {
                            if (r.nextBoolean()) {
                                x.remove();
                            }
                        }
                    });
                    break;
                case 8:
                    phase(c, "forEach", 1, OP, 40.0 * (high + m.size()), measure, i -> {
                        m.forEachEntry(e -> { });
                        m.forEach(e -> { });
                        if (vt != null) {
                            m.forEachValue(e -> { });
                        }
                    });
                    break;
                case 9:
                    phase(c, "clear", 1, OP, 20.0 * high, measure, i -> m.clear());
                    it = null;
                    break;
                default: {
                    final HashSut o = U.make(p[0] + (vt == null ? "SetAdapter" : p[1] + "MapAdapter"), cap(c), lf);
                    g.prepare(o);
                    high = Math.max(high, o.capacity()); // arrays that are larger than need be are copied, too
                    phase(c, "copyFrom", 1, OP, CELL * high, () -> 0, i -> o.copyFrom(m));
                    s[0] = o;
                    it = null;
                }
            }
            high = Math.max(high, s[0].capacity());
            c.res(s[0].size());
            if (s[0].size() >= 1000) {
                c.nontrivial();
            }
        }
    }

    private interface IntIndex {
        int at(int i);
    }

    /** Keys with evenly spread hash codes. */
    private static final class Hash {
        final T kt;
        final T vt;
        final Object[] keys;
        final Fn fn;

        Hash(final Ctx c, final T kt, final T vt) {
            this.kt = kt;
            this.vt = vt;
            final int want = c.weighted(1, 3) == 0 ? c.range(1, 300) : c.range(200, 8000);
            if (kt.bits() > 0) { // consecutive numbers under the default hash function
                final int most = kt.bits() == 8 ? 128 : kt.bits() == 16 ? 8000 : want;
                keys = new Object[Math.min(want, most)];
                final int off = kt.bits() >= 32 ? c.range(0, 1 << 20) : 0;
                for (int i = 0; i < keys.length; i++) {
                    keys[i] = kt.integral(off + i);
                }
                fn = null;
                return;
            }
            final Dom dom = Dom.spread(c, kt, want, false);
            keys = new Object[dom.n];
            final Map<Object, Integer> code = new HashMap<>();
            for (int i = 0; i < dom.n; i++) {
                keys[i] = dom.key(i);
                code.put(Dom.canon(keys[i]), i);
            }
            fn = new Fn() {
                @Override
                public int code(final Object k) {
                    return code.get(Dom.canon(k));
                }

                @Override
                public boolean eq(final Object a, final Object b) {
                    return Ctx.same(Dom.canon(a), Dom.canon(b));
                }
            };
        }

        void prepare(final HashSut s) {
            if (fn != null) {
                s.setHash(fn);
                s.setEq(fn);
            }
        }

        void add(final HashSut s, final int i, final SplittableRandom r) {
            if (vt == null) {
                s.add(keys[i]);
            } else if (r.nextInt(4) == 0) {
                s.putValueAt(s.add(keys[i]), Dom.value(vt, 20 + i % 100));
            } else {
                s.put(keys[i], Dom.value(vt, 20 + i % 100));
            }
        }

        void look(final HashSut s, final int i) {
            final Object k = keys[i];
            s.contains(k);
            final int e = s.lookup(k);
            if (vt != null) {
                s.getOrDefault(k, vt.def());
                s.valueAtOrDefault(i, vt.def());
            }
            if (e >= 0) {
                s.keyAt(e);
                if (vt != null) {
                    s.get(k);
                    s.valueAt(e);
                }
            }
        }
    }

    // ------------------------------------------------------------------ sequences
    private static void deque(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int init = cap(c);
        c.op("new " + subject + "Deque", init);
        final DequeSut[] h = new DequeSut[1];
        phase(c, "constructor", 1, OP, CELL * init, () -> 0, i -> h[0] = U.make(subject + "DequeAdapter", init));
        final DequeSut s = h[0];
        final int[] peak = {0};
        while (c.more(12)) {
            final int k = many(c);
            final int ends = c.pick(3);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"add", "remove", "add and remove", "look", "forEach", "clear"};
            final int what = c.weighted(5, 3, 3, 2, 1, 1);
            c.op(names[what], what < 4 ? k : 0, ends);
            final Body add = i -> {
                if (ends == 0 ? r.nextBoolean() : ends == 1) {
                    s.addFirst(Dom.value(t, i % 100));
                } else {
                    s.addLast(Dom.value(t, i % 100));
                }
                peak[0] = Math.max(peak[0], s.size());
            };
            final Body drop = i -> {
                if (s.isEmpty()) {
                    return;
                }
                if (ends == 0 ? r.nextBoolean() : ends == 1) {
                    s.removeLast();
                } else {
                    s.removeFirst();
                }
            };
            final IntSupplier measure = () -> peak[0];
            switch (what) {
                case 0:
                    phase(c, "add", k, OP, 0, measure, add);
                    break;
                case 1:
                    phase(c, "remove", k, OP, 0, measure, drop);
                    break;
                case 2:
                    phase(c, "add and remove", k, OP, 0, measure, i -> {
                        add.run(i);
                        drop.run(i);
                    });
                    break;
                case 3:
                    phase(c, "look", k, OP, 0, measure, i -> {
                        if (!s.isEmpty()) {
                            s.peekFirst();
                            s.peekLast();
                        }
                        s.size();
                    });
                    break;
                case 4:
                    phase(c, "forEach", 1, OP, 20.0 * s.size(), measure, i -> s.forEach(x -> { }));
                    break;
                default:
                    phase(c, "clear", 1, OP, 40.0 * Math.max(init, peak[0]), measure, i -> s.clear());
            }
            c.res(s.size());
            if (s.size() >= 1000) {
                c.nontrivial();
            }
        }
    }

    private static void hydra(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int init = cap(c);
        final int queues = c.range(1, 40);
        final int ids = 1 + (c.bool() ? c.pick(4) : c.skew(3000));
        c.op("new " + subject + "HydraDeque", queues, init);
        final HydraSut[] h = new HydraSut[1];
        phase(c, "constructor", 1, OP, CELL * (init + queues), () -> 0, i -> h[0] = U.make(subject + "HydraDequeAdapter", queues, init));
        final HydraSut s = h[0];
        final int[] peak = {0, 0};
        while (c.more(12)) {
            final int k = many(c);
            final int ends = c.pick(3);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"add", "remove", "add and remove", "look", "iterate", "begin to iterate", "clear"};
            final int what = c.weighted(5, 3, 3, 2, 1, 2, 1);
            c.op(names[what], what < 4 || what == 5 ? k : 0, ends);
            final Body add = i -> {
                final int id = r.nextInt(ids);
                if (ends == 0 ? r.nextBoolean() : ends == 1) {
                    s.addFirst(id, Dom.value(t, i % 100));
                } else {
                    s.addLast(id, Dom.value(t, i % 100));
                }
                peak[0] = Math.max(peak[0], s.size());
                peak[1] = Math.max(peak[1], id + 1);
            };
            final Body drop = i -> {
                final int id = r.nextInt(ids);
                if (s.size(id) == 0) {
                    return;
                }
                if (ends == 0 ? r.nextBoolean() : ends == 1) {
                    s.removeLast(id);
                } else {
                    s.removeFirst(id);
                }
            };
            final IntSupplier measure = () -> peak[0] + peak[1];
            switch (what) {
                case 0:
                    phase(c, "add", k, OP, 0, measure, add);
                    break;
                case 1:
                    phase(c, "remove", k, OP, 0, measure, drop);
                    break;
                case 2:
                    phase(c, "add and remove", k, OP, 0, measure, i -> {
                        add.run(i);
                        drop.run(i);
                    });
                    break;
                case 3:
                    phase(c, "look", k, OP, 0, measure, i -> {
                        s.size();
                        s.isEmpty();
                        s.size(r.nextInt(ids + 3) - 1);
                    });
                    break;
                case 4: {
                    final int id = c.pick(ids);
                    phase(c, "iterate", 1, OP, 40.0 * s.size(id), measure, i -> {
                        for (ItSut it = s.iterator(id, null, false); it.hasNext();) {
                            it.next();
                        }
                        for (ItSut it = s.reverseIterator(id, null, false); it.hasNext();) {
                            it.next();
                        }
                    });
                    break;
                }
                case 5:
                    phase(c, "begin to iterate", k, OP, 0, measure, i -> {
                        final ItSut f = s.iterator(r.nextInt(ids), null, true);
                        if (f.hasNext()) {
                            f.next();
                        }
                        final ItSut b = s.reverseIterator(r.nextInt(ids), null, true);
                        if (b.hasNext()) {
                            b.next();
                        }
                    });
                    break;
                default:
                    phase(c, "clear", 1, OP, 30.0 * (Math.max(init, peak[0]) + Math.max(queues, peak[1])), measure, i -> s.clear());
            }
            c.res(s.size());
            if (s.size() >= 1000) {
                c.nontrivial();
            }
        }
    }

    private static void vector(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int init = cap(c);
        c.op("new " + subject + "Vector", init);
        final VectorSut[] h = new VectorSut[1];
        phase(c, "constructor", 1, SMALL, CELL * init, () -> 0, i -> h[0] = U.make(subject + "VectorAdapter", init));
        final VectorSut s = h[0];
        final int[] peak = {0, 0};
        while (c.more(12)) {
            final int k = many(c);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"append", "look", "forEach", "clear", "ensureSize of no more", "ensureSize"};
            final int what = c.weighted(5, 3, 1, 2, 1, 1);
            c.op(names[what], k);
            final IntSupplier measure = () -> peak[0] + peak[1];
            switch (what) {
                case 0:
                    phase(c, "append", k, SMALL, 0, measure, i -> {
                        s.append(Dom.value(t, i % 100));
                        peak[0] = Math.max(peak[0], s.size());
                    });
                    break;
                case 1:
                    phase(c, "look", k, SMALL, 0, measure, i -> {
                        s.isEmpty();
                        if (s.size() > 0) {
                            s.valueAt(r.nextInt(s.size()));
                        }
                    });
                    break;
                case 2:
                    phase(c, "forEach", 1, SMALL, 20.0 * s.size(), measure, i -> s.forEach(x -> { }));
                    break;
                case 3:
                    phase(c, "clear", 1, SMALL, 40.0 * Math.max(init, measure.getAsInt()), measure, i -> s.clear());
                    break;
                case 4: {
                    final int room = Math.max(init, Math.max(peak[0], peak[1]));
                    phase(c, "ensureSize of no more", k, SMALL, 0, measure, i -> s.ensureSize(r.nextInt(room + 1)));
                    break;
                }
                default:
                    phase(c, "ensureSize", 1, SMALL, 0, measure, i -> {
                        s.ensureSize(k);
                        peak[1] = Math.max(peak[1], k);
                    });
            }
            c.res(s.size());
            if (s.size() >= 1000) {
                c.nontrivial();
            }
        }
    }

    private static void store(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final boolean matrix = c.bool();
        final int init = c.bool() ? c.range(1, 10) : c.range(1, 1000);
        final int chunk = 1 << c.range(1, 10);
        final int fields = matrix ? 1 + c.skew(40) : 1;
        c.op("new " + subject + (matrix ? "ChunkMatrixStore" : "ChunkStore"), init, chunk, fields);
        final StoreSut[] h = new StoreSut[1];
        phase(c, "constructor", 1, SMALL, CELL * ((double) init * fields + chunk), () -> 0, i -> h[0] = matrix ? U.make(subject + "ChunkMatrixStoreAdapter", init, chunk, fields)
                : U.make(subject + "ChunkStoreAdapter", init, chunk));
        final StoreSut s = h[0];
        int next = 0;
        while (c.more(12)) {
            final int k = many(c);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final int what = c.weighted(3, 3, 3, 1);
            final String[] names = {"set in order", "set", "get", "set far"};
            c.op(names[what], k);
            final int from = next;
            // growth may copy the references to the chunks, not the chunks
            final double chunks = 4.0 * ((double) (next + k) * fields / chunk + 4);
            final double grown = what == 0 ? chunks * ((double) k * fields / chunk + 2) + 4.0 * k * fields + chunk * 4.0 : what == 3 ? 4.0 * k * fields + chunks + chunk * 4.0 : 0;
            switch (what) {
                case 0:
                    phase(c, "set in order", k, SMALL, grown, () -> 0, i -> s.set(from + i, r.nextInt(fields), Dom.value(t, i % 100)));
                    next += k;
                    break;
                case 1: {
                    final int in = Math.max(1, s.capacity());
                    s.set(in - 1, fields - 1, t.def());
                    phase(c, "set", k, SMALL, 0, () -> 0, i -> s.set(r.nextInt(in), r.nextInt(fields), Dom.value(t, i % 100)));
                    break;
                }
                case 2: {
                    final int in = Math.max(1, 2 * s.capacity());
                    phase(c, "get", k, SMALL, 0, () -> 0, i -> s.get(r.nextInt(in), r.nextInt(fields)));
                    break;
                }
                default:
                    phase(c, "set far", 1, SMALL, grown, () -> 0, i -> s.set(from + k, 0, Dom.value(t, 20)));
                    next += k + 1;
            }
            c.res(s.capacity());
            if (s.capacity() >= 1000) {
                c.nontrivial();
            }
            if (next > 20000) {
                break;
            }
        }
    }

    // ------------------------------------------------------------------ heap
    private static void heap(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final int init = cap(c) - 1;
        c.op("new " + p[0] + p[1] + "Heap", init);
        final HeapSut[] h = new HeapSut[1];
        phase(c, "constructor", 1, OP, CELL * init, () -> 0, i -> h[0] = U.make(p[0] + p[1] + "HeapAdapter", init));
        final HeapSut s = h[0];
        final Dom dom = Dom.draw(c, kt, 1 + c.skew(3000), true);
        final Object[] keys = new Object[dom.n];
        for (int i = 0; i < dom.n; i++) {
            keys[i] = dom.key(i);
        }
        final Comparator<Object> up = kt.natural();
        Arrays.sort(keys, up);
        final boolean own = c.bool();
        if (own) {
            s.setComparator(up);
        }
        final int[] live = new int[100000];
        final int[] n = {0};
        boolean asc = true;
        final IntSupplier measure = s::capacity;
        while (c.more(12)) {
            final int k = many(c);
            final int order = c.pick(3);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"insert", "remove", "reset", "look", "drain", "mix", "setComparator", "forEachEntry", "clear"};
            final int what = c.weighted(6, 3, 3, 2, 2, 3, 1, 1, 1);
            c.op(names[what], what < 6 ? k : 0, order);
            final IntIndex at = i -> order == 0 ? r.nextInt(keys.length) : order == 1 ? (int) ((long) i * keys.length / k) : keys.length - 1 - (int) ((long) i * keys.length / k);
            final double step = SMALL * (log2(Math.min(live.length, n[0] + k)) / 3 + 1);
            final Body insert = i -> {
                if (n[0] < live.length) {
                    live[n[0]++] = i % 2 == 0 ? s.insert(keys[at.at(i)]) : s.insert(keys[at.at(i)], Dom.value(vt, i % 100));
                }
            };
            final Body remove = i -> {
                if (n[0] > 0) {
                    final int j = r.nextInt(n[0]);
                    s.removeAt(live[j]);
                    live[j] = live[--n[0]];
                }
            };
            switch (what) {
                case 0:
                    phase(c, "insert", k, step, 0, measure, insert);
                    break;
                case 1:
                    phase(c, "remove", k, step, 0, measure, remove);
                    break;
                case 2:
                    phase(c, "reset", k, step, 0, measure, i -> {
                        if (n[0] > 0) {
                            s.resetKey(live[r.nextInt(n[0])], keys[at.at(i)]);
                        }
                    });
                    break;
                case 3:
                    phase(c, "look", k, OP, 0, measure, i -> {
                        if (n[0] > 0) {
                            final int e = live[r.nextInt(n[0])];
                            s.keyAt(e);
                            s.valueAt(e);
                            s.valueAtOrDefault(i, vt.def());
                            s.setValueAt(e, Dom.value(vt, i % 100));
                            s.keyAt(s.peek());
                        }
                        s.isValid(i - 2);
                        s.size();
                        s.isEmpty();
                    });
                    break;
                case 4: {
                    final boolean[] gone = new boolean[live.length];
                    phase(c, "drain", Math.min(k, n[0]), step, 0, measure, i -> {
                        final int e = s.peek();
                        s.removeAt(e);
                        gone[e] = true;
                    });
                    int left = 0;
                    for (int j = 0; j < n[0]; j++) {
                        if (!gone[live[j]]) {
                            live[left++] = live[j];
                        }
                    }
                    n[0] = left;
                    break;
                }
                case 5:
                    phase(c, "mix", k, 2 * step, 0, measure, i -> {
                        if (r.nextBoolean()) {
                            insert.run(i);
                        } else {
                            remove.run(i);
                        }
                    });
                    break;
                case 6:
                    asc = !asc;
                    final Comparator<Object> now = asc ? up : up.reversed();
                    phase(c, "setComparator", 1, OP, (n[0] + 1) * step, measure, i -> s.setComparator(now));
                    break;
                case 7:
                    phase(c, "forEachEntry", 1, OP, 30.0 * s.capacity(), measure, i -> s.forEachEntry(e -> { }));
                    break;
                default:
                    phase(c, "clear", 1, OP, 30.0 * s.capacity(), measure, i -> s.clear());
                    n[0] = 0;
            }
            c.res(n[0]);
            c.eq(-1L, s.size(), n[0], "size");
            if (n[0] >= 1000) {
                c.nontrivial();
            }
        }
    }

    // ------------------------------------------------------------------ associations
    private static void bi(final Ctx c, final String subject) {
        final boolean many = subject.startsWith("Many");
        final boolean counts = !subject.endsWith("counts");
        final int leftCap = c.range(0, 40);
        final int rightCap = c.range(0, 40);
        final int mapCap = cap(c);
        c.op("new " + subject, leftCap, rightCap, mapCap);
        final CompactOneToMany[] h = new CompactOneToMany[1];
        phase(c, "constructor", 1, OP, CELL * (leftCap + rightCap + mapCap), () -> 0,
                i -> h[0] = many ? new CompactManyToMany(leftCap, rightCap, mapCap, counts) : new CompactOneToMany(leftCap, mapCap, counts));
        final CompactOneToMany s = h[0];
        final CompactManyToMany m2m = many ? (CompactManyToMany) s : null;
        // few keys on one side and many on the other: the pairs differ in the low bits of their keys
        final int few = 1 + c.pick(3);
        final boolean left = !many || c.bool();
        final int other = c.weighted(1, 3) == 0 ? c.range(1, 300) : c.range(300, 8000);
        final int[] peak = {0, 0};
        final IntSupplier measure = () -> peak[0] + peak[1];
        int fresh = 0;
        while (c.more(12)) {
            final int k = many(c);
            final int order = c.pick(3);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"put", "remove", "removeAt", "reserve and free", "mix", "look", "begin to iterate", "iterate"};
            final int what = c.weighted(6, 3, 3, 1, 3, 2, 2, 2);
            c.op(names[what], what < 7 ? k : 0, order);
            final int start = fresh;
            final IntIndex at = i -> order == 0 ? r.nextInt(other) : order == 1 ? (start + i) % other : Math.floorMod(start - i, other);
            fresh = (fresh + (what < 5 ? k : 0)) % other;
            final int[] pair = new int[2];
            final Body draw = i -> {
                final int y = at.at(i);
                final int x = many ? r.nextInt(few) : y % few; // a right has one left at a time
                pair[0] = left ? x : y;
                pair[1] = left ? y : x;
            };
            final Body put = i -> {
                draw.run(i);
                s.put(pair[0], pair[1]);
                peak[0] = Math.max(peak[0], s.size());
                peak[1] = Math.max(peak[1], Math.max(pair[0], pair[1]) + 1);
            };
            final Body remove = i -> {
                draw.run(i);
                s.remove(pair[0], pair[1]);
            };
            switch (what) {
                case 0:
                    phase(c, "put", k, OP, 0, measure, put);
                    break;
                case 1:
                    phase(c, "remove", k, OP, 0, measure, remove);
                    break;
                case 2:
                    phase(c, "removeAt", k, OP, 0, measure, i -> {
                        draw.run(i);
                        final int e = s.lookupEntry(pair[0], pair[1]);
                        if (e >= 0) {
                            s.removeAt(e);
                        }
                    });
                    break;
                case 3:
                    phase(c, "reserve and free", k, OP, 0, measure, i -> {
                        draw.run(i);
                        final int e = s.lookupEntry(pair[0], pair[1]);
                        if (e >= 0) {
                            s.removeAtAndReserve(e);
                            s.freeReservedEntry(e);
                        }
                    });
                    break;
                case 4:
                    phase(c, "mix", k, OP, 0, measure, i -> {
                        if (r.nextBoolean()) {
                            put.run(i);
                        } else {
                            remove.run(i);
                        }
                    });
                    break;
                case 5:
                    phase(c, "look", k, OP, 0, measure, i -> {
                        draw.run(i);
                        s.contains(pair[0], pair[1]);
                        final int e = s.lookupEntry(pair[0], pair[1]);
                        if (e >= 0) {
                            s.getLeftAt(e);
                            s.getRightAt(e);
                        }
                        s.size();
                        if (counts) {
                            s.withLeft(pair[0]).count();
                            if (many) {
                                m2m.withRight(pair[1]).count();
                            }
                        }
                    });
                    break;
                case 6:
                    phase(c, "begin to iterate", k, OP, 0, measure, i -> {
                        draw.run(i);
                        begin(s.withLeft(pair[0]));
                        if (many) {
                            begin(m2m.withRight(pair[1]));
                        }
                    });
                    break;
                default: {
                    final int n = s.size();
                    phase(c, "iterate", 1, OP, 200.0 * n + 40.0 * Math.max(mapCap, peak[0]), measure, i -> {
                        for (int x = 0; x < few; x++) {
                            if (left) {
                                s.withLeft(x).forEachValue(v -> { });
                                s.withLeft(x).forEachEntry(v -> { });
                            } else {
                                m2m.withRight(x).forEachValue(v -> { });
                                m2m.withRight(x).forEachEntry(v -> { });
                            }
                        }
                        s.forEachEntry(v -> { });
                    });
                }
            }
            c.res(s.size());
            if (s.size() >= 1000) {
                c.nontrivial();
            }
        }
    }

    private static void begin(final Mapping m) {
        final IntIterator v = m.valueIterator();
        if (v.hasNext()) {
            v.next();
        }
        final IntIterator e = m.entryIterator();
        if (e.hasNext()) {
            e.next();
        }
    }

    // ------------------------------------------------------------------ sort
    private static void sort(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final int n = c.weighted(1, 3) == 0 ? c.range(0, 300) : c.range(300, 8000);
        final int off = c.bool() ? 0 : c.pick(n + 1);
        final int len = n - off - (c.bool() ? 0 : c.pick(n - off + 1));
        final Dom dom = Dom.draw(c, kt, c.bool() ? Math.max(1, n) : 1 + c.skew(Math.max(1, n)), true);
        final SplittableRandom r = new SplittableRandom(c.bits64());
        final Object[] keys = new Object[n];
        for (int i = 0; i < n; i++) {
            keys[i] = dom.key(dom.n <= n && dom.n > n / 2 ? i % dom.n : r.nextInt(dom.n));
        }
        final int order = c.pick(5);
        final Comparator<Object> up = kt.natural();
        if (order == 0) {
            for (int i = n; i > 1; i--) {
                final int j = r.nextInt(i);
                final Object x = keys[i - 1];
                keys[i - 1] = keys[j];
                keys[j] = x;
            }
        } else {
            Arrays.sort(keys, order == 2 ? up.reversed() : up);
            for (int i = 0; order == 3 && n > 0 && i < 1 + n / 50; i++) {
                keys[r.nextInt(n)] = dom.key(r.nextInt(dom.n));
            }
            for (int i = 0, times = 1 + r.nextInt(5); order == 4 && n > 1 && i < n / times; i++) { // rotated: ascending, then ascending again
                final int j = (i + n / 2) % n;
                final Object x = keys[i];
                keys[i] = keys[j];
                keys[j] = x;
            }
        }
        final Object[] values = new Object[n];
        for (int i = 0; i < n; i++) {
            values[i] = Dom.value(vt, i % 100);
        }
        final SortSut s = U.make(p[0] + p[1] + "CompanionSortAdapter");
        final Object a = s.keys(keys);
        final Object b = s.values(values);
        c.op("sort " + p[0] + p[1], n, off, len, new String[] {"random", "sorted", "reversed", "nearly sorted", "two runs"}[order]);
        phase(c, "sort", 1, OP, 15.0 * len * (log2(len) + 3), () -> 0, i -> s.sort(a, b, off, len, up));
        if (len >= 1000) {
            c.nontrivial();
        }
    }
}
