package vp.props;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.exception.KeyNotFoundException;
import java.lang.reflect.Array;
import java.util.ArrayList;
import java.util.Comparator;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.NoSuchElementException;
import java.util.Set;
import java.util.SplittableRandom;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.DequeSut;
import vp.sut.Fn;
import vp.sut.HashSut;
import vp.sut.HeapSut;
import vp.sut.HydraSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.TypeSut;
import vp.sut.U;
import vp.sut.VectorSut;

/** Memory (C43) and work (C44) over long histories of a bounded population. */
final class SpaceProps {
    static Prop get(final String id) {
        switch (id) {
            case "C43":
                return new Prop(id, 1, "a case is a history of phases (fill, drain, replace, mix, clear) whose single operations derive from one choice each; "
                        + "non-trivial when more elements were added than ten times the most ever held", new String[0],
                        Part.of("indexed sets", HashProps.SETS, 1800, 40000, (c, s) -> churn(c, new Hash(c, s))),
                        Part.of("indexed maps", HashProps.MAPS, 2700, 60000, (c, s) -> churn(c, new Hash(c, s))),
                        Part.of("deques", SeqProps.ALL, 2000, 50000, (c, s) -> churn(c, new Deq(c, s))),
                        Part.of("hydra deques", SeqProps.ALL, 2000, 50000, (c, s) -> churn(c, new Hyd(c, s))),
                        Part.of("vectors", SeqProps.ALL, 1000, 30000, (c, s) -> churn(c, new Vec(c, s))),
                        Part.of("heaps", HashProps.MAPS, 2700, 60000, (c, s) -> churn(c, new Heap(c, s))),
                        Part.of("associations", BiProps.BOTH, 2000, 50000, (c, s) -> churn(c, new Bi(c, s))),
                        Part.of("stores", SeqProps.ALL, 1500, 40000, (c, s) -> churn(c, new Store(c, s, c.bool()))));
            case "C44":
                return new Prop(id, 1, "a case is a history whose calls of the comparator, hash and equality functions are counted; non-trivial when at least "
                        + "200 elements were held", new String[] {"hash functions spread the keys evenly"},
                        Part.of("heaps", HashProps.MAPS, 2700, 60000, SpaceProps::heapWork),
                        Part.of("indexed sets", new String[] {"Float", "Double", "String", "Generic"}, 1500, 40000, SpaceProps::hashWork),
                        Part.of("indexed maps", COUNTED, 2000, 50000, SpaceProps::hashWork),
                        Part.of("default hash codes", new String[] {"Byte", "Short", "Char", "Int", "Long", "Float", "Double", "String"}, 4000, 100000, SpaceProps::spread));
            default:
                return null;
        }
    }

    private static final String[] COUNTED = counted();

    private static String[] counted() {
        final List<String> l = new ArrayList<>();
        for (String k : new String[] {"Float", "Double", "String", "Generic"}) {
            for (String v : SeqProps.ALL) {
                l.add(k + "/" + v);
            }
        }
        return l.toArray(new String[0]);
    }

    private static int cap(final Ctx c) {
        return c.weighted(3, 2, 1) == 0 ? c.range(1, 4) : c.bool() ? c.range(1, 70) : c.range(1, 600);
    }

    // ------------------------------------------------------------------ C43
    private abstract static class Rig {
        Object raw;
        /** No references in it: arrays can be looked up after every operation. */
        boolean flat;
        /** Most elements the rig may hold. */
        int limit = Integer.MAX_VALUE;

        abstract int size();

        abstract void put(SplittableRandom r);

        abstract void drop(SplittableRandom r);

        abstract void clear();

        /** A query, mostly of what is not there, or a call that is refused. */
        abstract void read(SplittableRandom r);

        /** Whether there is a copy operation. */
        boolean copies() {
            return false;
        }

        /** Goes on with a copy. */
        void copy() {
            throw new UnsupportedOperationException();
        }

        /** An array size sum that a doubling growth policy needs for this many elements at most. */
        abstract double ideal(int peak);

        boolean shrinks() {
            return true;
        }

        boolean doubles() {
            return true;
        }
    }

    private static void churn(final Ctx c, final Rig g) {
        final int most = Math.min(g.limit, c.weighted(3, 2, 1) == 0 ? c.range(1, 12) : c.bool() ? c.range(1, 100) : c.range(50, 700));
        final Set<Object> seen = Reach.set();
        int arrays = 0;
        int others = 0;
        for (Object o : Reach.from(g.raw)) {
            if (counts(o)) {
                seen.add(o);
                arrays += o.getClass().isArray() ? 1 : 0;
                others += o.getClass().isArray() ? 0 : 1;
            }
        }
        final long[] tally = {arrays, others, 0};
        final int arrays0 = arrays;
        int peak = g.size();
        long puts = 0;
        boolean first = true;
        while (c.more(10)) {
            final int what = first ? 0 : g.copies() ? c.weighted(4, 4, 6, 3, 1, 1, 2, 1) : c.weighted(4, 4, 6, 3, 1, 1, 2);
            first = false;
            final int k = c.weighted(3, 2) == 0 ? c.range(1, 3 * most) : c.range(1, 4000);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"fill", "drain", "replace", "mix", "clear", "cycles", "queries", "copies"};
            c.op(names[what], what < 2 ? k % (most + 1) : what < 4 ? k : 0);
            if (what == 4) {
                g.clear();
                watch(c, g, seen, tally);
            } else if (what == 5) { // filled and cleared again and again
                final int times = c.range(5, 40);
                final int upto = c.chance(1, 3) ? most : Math.min(most, 1 + k % 12);
                for (int j = 0; j < times; j++) {
                    while (g.size() < upto) {
                        g.put(r);
                        puts++;
                    }
                    peak = Math.max(peak, g.size());
                    watch(c, g, seen, tally);
                    g.clear();
                    watch(c, g, seen, tally);
                }
            } else if (what == 6) {
                for (int i = 0; i < 1 + k % 100; i++) {
                    try {
                        g.read(r);
                    } catch (IndexOutOfBoundsException | NoSuchElementException | IllegalArgumentException | IllegalStateException | KeyNotFoundException e) {
                        c.label("refused query");
                    }
                }
                watch(c, g, seen, tally);
            } else if (what == 7) { // filled, emptied to some extent and copied again and again
                final int times = c.range(5, 40);
                final int upto = c.chance(1, 3) ? most : Math.min(most, 1 + k % 12);
                final boolean empty = c.bool();
                for (int j = 0; j < times; j++) {
                    while (g.size() < upto) {
                        g.put(r);
                        puts++;
                    }
                    peak = Math.max(peak, g.size());
                    for (int left = empty ? 0 : r.nextInt(upto); g.size() > left; ) {
                        g.drop(r);
                    }
                    g.copy();
                }
                for (Object o : Reach.from(g.raw)) { // copying allocates
                    seen.add(o);
                }
            } else {
                final int target = k % (most + 1);
                for (int i = 0; i < k; i++) {
                    final boolean add;
                    switch (what) {
                        case 0: add = true; break;
                        case 1: add = false; break;
                        case 2: add = (i & 1) == 1; break;
                        default: add = r.nextBoolean();
                    }
                    if (add && g.size() < (what == 0 ? target : most)) {
                        g.put(r);
                        puts++;
                        peak = Math.max(peak, g.size());
                    } else if (!add && g.size() > (what == 1 ? target : 0)) {
                        g.drop(r);
                    } else if (what < 2) {
                        break;
                    }
                    if (g.flat) {
                        watch(c, g, seen, tally);
                    }
                }
                watch(c, g, seen, tally);
            }
            c.res(g.size());
            final double ideal = g.ideal(peak);
            final long slots = slots(g.raw);
            c.that(slots <= 3 * ideal + 128, "%s array slots after a history that never held more than %s elements (about %s needed)", slots, peak, (long) ideal);
            if (g.doubles()) {
                final double per = Math.log(ideal + 2) / Math.log(2) + 4;
                c.that(tally[0] <= arrays0 * (per + 1) + 4, "%s arrays have been allocated over a history that never held more than %s elements", tally[0], peak);
            }
            if (g.flat) {
                c.that(tally[1] <= others + 24, "%s objects have been allocated for a collection of primitives that began with %s", tally[1], others);
            }
        }
        if (puts > 10L * peak && (peak > 1 || !g.shrinks())) {
            c.nontrivial();
        }
    }

    private static int far(final SplittableRandom r, final int near) {
        return r.nextBoolean() ? r.nextInt(near + 1) : r.nextInt(1 << r.nextInt(6, 23));
    }

    private static boolean counts(final Object o) {
        return o.getClass().isArray() || o.getClass().getName().startsWith("com.bytefacets.");
    }

    private static void watch(final Ctx c, final Rig g, final Set<Object> seen, final long[] tally) {
        for (Object o : Reach.from(g.raw)) {
            if (counts(o) || g.flat) {
                if (seen.add(o)) {
                    tally[o.getClass().isArray() ? 0 : 1]++;
                }
            }
        }
    }

    private static long slots(final Object raw) {
        long n = 0;
        for (Object o : Reach.from(raw)) {
            if (o.getClass().isArray()) {
                n += Array.getLength(o);
            }
        }
        return n;
    }

    private static final class Hash extends Rig {
        HashSut s;
        HashSut other;
        final T vt;
        final Dom dom;
        final double lf;
        final int init;
        final List<Integer> live = new ArrayList<>();
        final List<Integer> dead = new ArrayList<>();
        int next = 20;

        Hash(final Ctx c, final String subject) {
            final String[] p = subject.split("/");
            final T kt = T.of(p[0]);
            vt = p.length > 1 ? T.of(p[1]) : null;
            init = cap(c);
            lf = c.oneOf(0.75, 1.0, 0.5, 0.9, 0.25);
            c.op("new " + subject, init, lf);
            s = U.make(p[0] + (vt == null ? "SetAdapter" : p[1] + "MapAdapter"), init, lf);
            other = U.make(p[0] + (vt == null ? "SetAdapter" : p[1] + "MapAdapter"), init, lf);
            dom = Dom.spread(c, kt, 1500, false);
            for (int i = 0; i < dom.n; i++) {
                dead.add(i);
            }
            limit = Math.max(1, dom.n / 2);
            raw = s.raw();
            flat = !kt.isRef() && (vt == null || !vt.isRef());
        }

        @Override
        int size() {
            return live.size();
        }

        private static int take(final List<Integer> l, final int i) {
            final int got = l.get(i);
            l.set(i, l.get(l.size() - 1));
            l.remove(l.size() - 1);
            return got;
        }

        @Override
        void put(final SplittableRandom r) {
            final int i = take(dead, r.nextInt(dead.size()));
            if (vt == null) {
                s.add(dom.key(i));
            } else {
                s.put(dom.key(i), Dom.value(vt, next++));
            }
            live.add(i);
        }

        @Override
        void drop(final SplittableRandom r) {
            final int i = take(live, r.nextInt(live.size()));
            final Object k = dom.key(i);
            switch (r.nextInt(5)) {
                case 0:
                    s.removeAt(s.lookup(k));
                    break;
                case 1: {
                    final int e = s.lookup(k);
                    s.reserve(e);
                    s.free(e);
                    break;
                }
                case 2:
                    if (live.size() < 64) {
                        final int e = s.lookup(k);
                        final EntryIterator it = s.iterator();
                        while (it.next()) {
                            if (it.currentEntry() == e) {
                                it.remove();
                                break;
                            }
                        }
                        break;
                    }
                    s.remove(k);
                    break;
                default:
                    s.remove(k);
            }
            dead.add(i);
        }

        @Override
        boolean copies() {
            return true;
        }

        @Override
        void copy() {
            other.copyFrom(s);
            final HashSut was = s;
            s = other;
            other = was;
            raw = s.raw();
        }

        @Override
        void read(final SplittableRandom r) {
            final Object k = dom.key(r.nextInt(dom.n));
            switch (r.nextInt(7)) {
                case 0: s.lookup(k); break;
                case 1: s.contains(k); break;
                case 2: s.remove(dom.key(dead.get(r.nextInt(dead.size())))); break;
                case 3: s.keyAt(r.nextInt(s.capacity())); break;
                case 4: s.forEachEntry(e -> { }); break;
                case 5:
                    if (vt != null) {
                        s.get(k);
                        s.getOrDefault(k, Dom.value(vt, 30));
                    }
                    break;
                default: {
                    final EntryIterator it = s.iterator();
                    while (it.next()) {
                        it.currentEntry();
                    }
                }
            }
        }

        @Override
        void clear() {
            s.clear();
            dead.addAll(live);
            live.clear();
        }

        @Override
        double ideal(final int peak) {
            return (vt == null ? 3 : 4) * Math.max(2.0 * init, 2 * peak / lf + 4);
        }
    }

    private static final class Deq extends Rig {
        final DequeSut s;
        final T t;
        final int init;
        int next = 20;

        Deq(final Ctx c, final String subject) {
            t = T.of(subject);
            init = cap(c);
            c.op("new " + subject + "Deque", init);
            s = U.make(subject + "DequeAdapter", init);
            raw = s.raw();
            flat = !t.isRef();
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void put(final SplittableRandom r) {
            final Object v = Dom.value(t, next++);
            if (r.nextInt(4) == 0) {
                s.addFirst(v);
            } else {
                s.addLast(v);
            }
        }

        @Override
        void drop(final SplittableRandom r) {
            if (r.nextInt(4) == 0) {
                s.removeLast();
            } else {
                s.removeFirst();
            }
        }

        @Override
        void read(final SplittableRandom r) {
            s.size();
            s.isEmpty();
            s.forEach(v -> { });
        }

        @Override
        void clear() {
            s.clear();
        }

        @Override
        double ideal(final int peak) {
            return Math.max(2.0 * init, 2.0 * (peak + 1));
        }
    }

    private static final class Hyd extends Rig {
        final HydraSut s;
        final T t;
        final int init;
        final int queues;
        final int ids;
        int next = 20;

        Hyd(final Ctx c, final String subject) {
            t = T.of(subject);
            queues = c.range(1, 8);
            init = cap(c);
            ids = 1 + c.skew(30);
            c.op("new " + subject + "HydraDeque", queues, init);
            s = U.make(subject + "HydraDequeAdapter", queues, init);
            raw = s.raw();
            flat = !t.isRef();
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void put(final SplittableRandom r) {
            final Object v = Dom.value(t, next++);
            if (r.nextBoolean()) {
                s.addFirst(r.nextInt(ids), v);
            } else {
                s.addLast(r.nextInt(ids), v);
            }
        }

        @Override
        void drop(final SplittableRandom r) {
            int id = r.nextInt(ids);
            while (s.size(id) == 0) {
                id = (id + 1) % ids;
            }
            if (r.nextBoolean()) {
                s.removeFirst(id);
            } else {
                s.removeLast(id);
            }
        }

        @Override
        void read(final SplittableRandom r) {
            final int id = far(r, ids);
            switch (r.nextInt(4)) {
                case 0: s.size(id); break;
                case 1: s.iterator(id, null, r.nextBoolean()); break;
                case 2: s.reverseIterator(id, null, r.nextBoolean()); break;
                default:
                    if (s.size(id) == 0) {
                        s.removeFirst(id);
                    }
            }
        }

        @Override
        void clear() {
            s.clear();
        }

        @Override
        double ideal(final int peak) {
            return 3 * Math.max(2.0 * init, 2.0 * peak) + 3 * Math.max(queues, 2.0 * ids);
        }
    }

    private static final class Vec extends Rig {
        final VectorSut s;
        final T t;
        final int init;
        int ensured;
        int next = 20;

        Vec(final Ctx c, final String subject) {
            t = T.of(subject);
            init = cap(c);
            c.op("new " + subject + "Vector", init);
            s = U.make(subject + "VectorAdapter", init);
            raw = s.raw();
            flat = !t.isRef();
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void put(final SplittableRandom r) {
            if (r.nextInt(50) == 0) {
                final int n = r.nextInt(1000);
                s.ensureSize(n);
                ensured = Math.max(ensured, n);
            }
            s.append(Dom.value(t, next++));
        }

        @Override
        void drop(final SplittableRandom r) {
            if (r.nextInt(20) == 0) {
                s.clear();
            }
        }

        @Override
        void read(final SplittableRandom r) {
            s.valueAt(r.nextInt(Math.max(1, s.size())));
        }

        @Override
        void clear() {
            s.clear();
        }

        @Override
        double ideal(final int peak) {
            return Math.max(Math.max(init, 2.0 * peak), 2.0 * ensured);
        }
    }

    private static final class Heap extends Rig {
        final HeapSut s;
        final Dom dom;
        final T vt;
        final int init;
        final List<Integer> live = new ArrayList<>();
        int next = 20;

        Heap(final Ctx c, final String subject) {
            final String[] p = subject.split("/");
            final T kt = T.of(p[0]);
            vt = T.of(p[1]);
            init = cap(c) - 1;
            c.op("new " + p[0] + p[1] + "Heap", init);
            s = U.make(p[0] + p[1] + "HeapAdapter", init);
            dom = Dom.spread(c, kt, 100, true);
            raw = s.raw();
            flat = !kt.isRef() && !vt.isRef();
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void put(final SplittableRandom r) {
            final Object k = dom.key(r.nextInt(dom.n));
            live.add(r.nextBoolean() ? s.insert(k) : s.insert(k, Dom.value(vt, next++)));
        }

        @Override
        void drop(final SplittableRandom r) {
            int e;
            if (r.nextBoolean()) {
                e = s.peek();
                live.remove(Integer.valueOf(e));
            } else {
                e = Hash.take(live, r.nextInt(live.size()));
            }
            s.removeAt(e);
        }

        @Override
        void read(final SplittableRandom r) {
            switch (r.nextInt(4)) {
                case 0: s.isValid(far(r, s.size())); break;
                case 1: s.contains(dom.key(r.nextInt(dom.n))); break;
                case 2: s.forEachEntry(e -> { }); break;
                default: s.firstEntry(dom.key(r.nextInt(dom.n)));
            }
        }

        @Override
        void clear() {
            s.clear();
            live.clear();
        }

        @Override
        double ideal(final int peak) {
            return 4 * Math.max(init, 2.0 * peak + 2);
        }
    }

    private static final class Bi extends Rig {
        final CompactOneToMany s;
        final CompactManyToMany m2m;
        final int lefts;
        final int rights;
        final int leftCap;
        final int rightCap;
        final int mapCap;
        final boolean counts;
        final boolean inOrder;
        int seq;
        final List<Long> live = new ArrayList<>();
        final Map<Integer, Integer> leftOf = new HashMap<>();

        Bi(final Ctx c, final String subject) {
            final boolean many = subject.startsWith("Many");
            counts = !subject.endsWith("counts");
            leftCap = c.range(0, 40);
            rightCap = c.range(0, 40);
            mapCap = cap(c);
            c.op("new " + subject, leftCap, rightCap, mapCap);
            m2m = many ? new CompactManyToMany(leftCap, rightCap, mapCap, counts) : null;
            s = many ? m2m : new CompactOneToMany(leftCap, mapCap, counts);
            lefts = 1 + c.skew(600);
            rights = 1 + c.skew(600);
            inOrder = c.bool();
            limit = many ? lefts * rights : rights;
            raw = s;
            flat = true;
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void put(final SplittableRandom r) {
            int l = inOrder ? seq++ % lefts : r.nextInt(lefts);
            int x = inOrder ? seq % rights : r.nextInt(rights);
            while (s.lookupEntry(l, x) >= 0) {
                x = (x + 1) % rights;
                l = x == 0 ? (l + 1) % lefts : l;
            }
            if (m2m == null) {
                final Integer k = leftOf.put(x, l); // a right has one left at a time
                if (k != null) {
                    s.remove(k, x);
                    live.remove(Long.valueOf((long) k << 32 | x));
                }
            }
            s.put(l, x);
            live.add((long) l << 32 | x);
        }

        @Override
        void drop(final SplittableRandom r) {
            final int i = r.nextInt(live.size());
            final long p = live.get(i);
            live.set(i, live.get(live.size() - 1));
            live.remove(live.size() - 1);
            final int l = (int) (p >> 32);
            final int x = (int) p;
            leftOf.remove(x);
            switch (r.nextInt(3)) {
                case 0:
                    s.remove(l, x);
                    break;
                case 1:
                    s.removeAt(s.lookupEntry(l, x));
                    break;
                default: {
                    final int e = s.lookupEntry(l, x);
                    s.removeAtAndReserve(e);
                    s.freeReservedEntry(e);
                }
            }
        }

        @Override
        void read(final SplittableRandom r) {
            final int k = far(r, lefts + rights);
            final Mapping m = m2m == null || r.nextBoolean() ? s.withLeft(k) : m2m.withRight(k);
            switch (r.nextInt(8)) {
                case 0: m.entryIterator(); break;
                case 1: m.valueIterator(); break;
                case 2: m.forEachEntry(e -> { }); break;
                case 3: m.forEachValue(e -> { }); break;
                case 4: s.contains(k, far(r, rights)); break;
                case 5: s.lookupEntry(far(r, lefts), k); break;
                case 6: s.remove(lefts + k, far(r, rights)); break;
                default: m.count();
            }
        }

        @Override
        void clear() {
            while (!live.isEmpty()) {
                drop(new SplittableRandom(1));
            }
        }

        @Override
        double ideal(final int peak) {
            final double entries = Math.max(2.0 * mapCap, 2 * peak / 0.75 + 4);
            return 3 * entries + 2 * 2 * entries + 2 * Math.max(leftCap, 2.0 * lefts + 2) + 2 * Math.max(rightCap, 2.0 * rights + 2);
        }
    }

    private static final class Store extends Rig {
        final StoreSut s;
        final T t;
        final int init;
        final int chunk;
        final int nf;
        int top = -1;

        Store(final Ctx c, final String subject, final boolean matrix) {
            t = T.of(subject);
            init = c.range(1, 60);
            chunk = c.range(2, 64);
            nf = matrix ? c.range(1, 5) : 1;
            c.op("new " + subject + (matrix ? " matrix store" : " store"), init, chunk, nf);
            s = matrix ? U.make(subject + "ChunkMatrixStoreAdapter", init, chunk, nf) : U.make(subject + "ChunkStoreAdapter", init, chunk);
            raw = s.raw();
        }

        @Override
        int size() {
            return top + 1;
        }

        @Override
        void put(final SplittableRandom r) {
            final int row = r.nextInt(top + 2);
            top = Math.max(top, row);
            s.set(row, r.nextInt(nf), Dom.value(t, 20 + r.nextInt(100)));
        }

        @Override
        void drop(final SplittableRandom r) {
            s.set(r.nextInt(top + 1), r.nextInt(nf), t.def());
        }

        @Override
        void read(final SplittableRandom r) {
            s.get(r.nextBoolean() ? r.nextInt(s.capacity()) : far(r, top + 1), r.nextInt(nf));
        }

        @Override
        void clear() {
            for (int i = 0; i <= top; i++) {
                s.set(i, 0, t.def());
            }
        }

        @Override
        double ideal(final int peak) {
            return Math.max(init, peak + 1.0) * nf * 1.5 + 2 * chunk;
        }

        @Override
        boolean shrinks() {
            return false;
        }

        @Override
        boolean doubles() {
            return false;
        }
    }

    // ------------------------------------------------------------------ C44
    private static double log2(final int n) {
        return Math.log(Math.max(1, n)) / Math.log(2);
    }

    private static void heapWork(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final int init = cap(c) - 1;
        c.op("new " + p[0] + p[1] + "Heap", init);
        final HeapSut s = U.make(p[0] + p[1] + "HeapAdapter", init);
        final Dom dom = Dom.draw(c, kt, 1 + c.skew(3000), true);
        final Object[] keys = new Object[dom.n];
        for (int i = 0; i < dom.n; i++) {
            keys[i] = dom.key(i);
        }
        final Comparator<Object> up = kt.natural();
        java.util.Arrays.sort(keys, up);
        final long[] calls = {0};
        final List<Integer> live = new ArrayList<>();
        boolean asc = true;
        s.setComparator(counting(up, calls));
        while (c.more(10)) {
            final int what = c.weighted(4, 3, 3, 1, 1, 1);
            final int k = c.weighted(2, 1) == 0 ? c.range(1, 300) : c.range(1, 3000);
            final int order = c.pick(3);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"insert many", "remove many", "reset many", "look at many", "setComparator", "clear"};
            c.op(names[what], what < 4 ? k : 0);
            for (int i = 0; i < (what < 4 ? k : 1); i++) {
                final int n = live.size();
                calls[0] = 0;
                final Object key = keys[order == 0 ? r.nextInt(keys.length) : order == 1 ? (int) ((long) i * keys.length / k) : keys.length - 1 - (int) ((long) i * keys.length / k)];
                switch (what) {
                    case 0:
                        if (n >= 4000) {
                            break;
                        }
                        live.add(s.insert(key));
                        within(c, "insert", calls[0], 2 * (log2(n + 1) + 3), n);
                        break;
                    case 1: {
                        if (n == 0) {
                            break;
                        }
                        final int e;
                        if (order == 0) {
                            e = Hash.take(live, r.nextInt(n));
                        } else {
                            e = s.peek();
                            live.remove(Integer.valueOf(e));
                        }
                        s.removeAt(e);
                        within(c, "removeAt", calls[0], 6 * (log2(n) + 3), n);
                        break;
                    }
                    case 2:
                        if (n == 0) {
                            break;
                        }
                        s.resetKey(live.get(r.nextInt(n)), key);
                        within(c, "resetKey", calls[0], 6 * (log2(n) + 3), n);
                        break;
                    case 3:
                        if (n == 0) {
                            break;
                        }
                        s.keyAt(s.peek());
                        s.isValid(live.get(r.nextInt(n)));
                        s.valueAt(live.get(r.nextInt(n)));
                        within(c, "peek, getKeyAt, getValueAt and isValidEntry", calls[0], 4, n);
                        break;
                    case 4:
                        asc = !asc;
                        s.setComparator(counting(asc ? up : up.reversed(), calls));
                        within(c, "setComparator", calls[0], 6.0 * (n + 1) * (log2(n + 1) + 3), n);
                        break;
                    default:
                        s.clear();
                        live.clear();
                        within(c, "clear", calls[0], 6.0 * (n + 1) * (log2(n + 1) + 3), n);
                }
            }
            c.res(live.size());
            c.eq(-1L, s.size(), live.size(), "size");
            if (live.size() >= 200) {
                c.nontrivial();
            }
        }
    }

    private static Comparator<Object> counting(final Comparator<Object> f, final long[] calls) {
        return (a, b) -> {
            calls[0]++;
            return f.compare(a, b);
        };
    }

    private static void within(final Ctx c, final String what, final long calls, final double most, final int n) {
        c.that(calls <= most, "%s made %s comparisons in a heap of %s elements", what, calls, n);
    }

    private static void hashWork(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = p.length > 1 ? T.of(p[1]) : null;
        final int init = cap(c);
        final double lf = c.oneOf(0.75, 1.0, 0.5, 0.9);
        c.op("new " + subject, init, lf);
        final HashSut s = U.make(p[0] + (vt == null ? "SetAdapter" : p[1] + "MapAdapter"), init, lf);
        final Dom dom = Dom.spread(c, kt, 2 + c.skew(3000), false);
        final int off = c.weighted(3, 1) == 0 ? 0 : (int) c.bits64();
        final Map<Object, Integer> code = new HashMap<>();
        for (int i = 0; i < dom.n; i++) {
            code.put(Dom.canon(dom.key(i)), off + i);
        }
        final long[] hashes = {0};
        final long[] eqs = {0};
        final Fn fn = new Fn() {
            @Override
            public int code(final Object k) {
                hashes[0]++;
                return code.get(Dom.canon(k));
            }

            @Override
            public boolean eq(final Object a, final Object b) {
                eqs[0]++;
                return Ctx.same(Dom.canon(a), Dom.canon(b));
            }
        };
        s.setHash(fn);
        s.setEq(fn);
        long ops = 0;
        while (c.more(10)) {
            final int what = c.weighted(4, 3, 3, 2, 1);
            final int k = c.weighted(2, 1) == 0 ? c.range(1, 300) : c.range(1, 3000);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            final String[] names = {"add many", "remove many", "look up many", "remove some, add some", "clear"};
            c.op(names[what], what < 4 ? k : 0);
            for (int i = 0; i < (what < 4 ? k : 1); i++) {
                final Object key = dom.key(r.nextInt(dom.n));
                ops++;
                switch (what == 3 ? r.nextInt(2) : what) {
                    case 0:
                        if (vt == null) {
                            s.add(key);
                        } else {
                            s.put(key, Dom.value(vt, 20 + r.nextInt(100)));
                        }
                        break;
                    case 1:
                        if (r.nextInt(3) == 0) {
                            final int e = s.lookup(key);
                            if (e >= 0) {
                                ops++;
                                s.removeAt(e);
                            }
                        } else {
                            s.remove(key);
                        }
                        break;
                    case 4:
                        s.clear();
                        break;
                    default:
                        if (vt == null || r.nextBoolean()) {
                            s.contains(key);
                        } else {
                            s.getOrDefault(key, vt.def());
                        }
                }
            }
            c.res(s.size());
            c.that(eqs[0] <= 4 * ops + 64, "%s operations with evenly spread hash codes made %s calls of the equality function", ops, eqs[0]);
            c.that(hashes[0] <= 10 * ops + 64, "%s operations made %s calls of the hash function", ops, hashes[0]);
            if (s.size() >= 200) {
                c.nontrivial();
            }
        }
    }

    /** Distinct keys mostly have distinct default hash codes. */
    private static void spread(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final Dom dom = t == T.String ? Dom.spread(c, t, 2 + c.skew(4000), false) : Dom.draw(c, t, 2 + c.skew(4000));
        c.op("domain " + dom.kind + " of " + subject, dom.n, dom.key(0), dom.key(dom.n - 1));
        final TypeSut s = U.make(subject + "TypeAdapter");
        final Set<Integer> codes = new java.util.HashSet<>();
        final String prefix = t == T.String && c.bool() ? "p".repeat(c.skew(200)) : null;
        final String suffix = prefix != null ? "s".repeat(c.skew(200)) : null;
        if (prefix != null) {
            c.op("between", prefix, suffix);
        }
        for (int i = 0; i < dom.n; i++) {
            codes.add(s.hash(prefix != null ? prefix + Integer.toString(i * 37, 36) + suffix : dom.key(i)));
        }
        c.that(codes.size() >= dom.n / 4, "%s distinct keys have only %s distinct hash codes", dom.n, codes.size());
        if (dom.n >= 200) {
            c.nontrivial();
        }
    }
}
