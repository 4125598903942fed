package vp.props;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.functional.IntIterator;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Collections;
import java.util.List;
import java.util.SplittableRandom;
import java.util.TreeMap;
import java.util.TreeSet;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.DequeSut;
import vp.sut.Fn;
import vp.sut.HashSut;
import vp.sut.HeapSut;
import vp.sut.HydraSut;
import vp.sut.ItSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.U;
import vp.sut.VectorSut;

/** Sizing arguments are only hints (C49); a cleared collection is as good as a new one (C50). */
final class TwinProps {
    static Prop get(final String id) {
        switch (id) {
            case "C49":
                return new Prop(id, 1, "a case is one history of two collections that were given different sizes and load factors; non-trivial when they were and at "
                        + "least ten elements were held", new String[] {"enumeration orders of sets and maps are not compared"},
                        Part.of("different sizes", SIZED, 60000, 1500000, TwinProps::sized), Part.of("large", LARGE_SIZED, 45, 700, TwinProps::sized));
            case "C50":
                return new Prop(id, 1, "a case is a collection that was used and cleared (up to four times), and from then on has one history with a new one; non-trivial "
                        + "when at least two elements were cleared and at least two added later", new String[] {"enumeration orders of sets and maps are not compared"},
                        Part.of("cleared and new", CLEARED, 60000, 1500000, TwinProps::cleared), Part.of("large", LARGE_CLEARED, 60, 1000, TwinProps::cleared));
            default:
                return null;
        }
    }

    private static final String[] SIZED = {"set", "map", "deque", "hydra", "vector", "heap", "store", "matrix", "one-to-many", "many-to-many", "set", "map"};
    private static final String[] CLEARED = {"set", "map", "deque", "hydra", "vector", "heap", "set", "map", "heap", "hydra"};

    private static final String[] LARGE_SIZED = {"large set", "large map", "large deque", "large hydra", "large vector", "large heap", "large store", "large one-to-many", "large many-to-many"};
    private static final String[] LARGE_CLEARED = {"large set", "large map", "large deque", "large hydra", "large vector", "large heap"};

    private interface Maker {
        Rig make(Ctx c);
    }

    private interface Ask {
        Object ask();
    }

    private static String answer(final Ask q) {
        try {
            return Ctx.show(q.ask());
        } catch (ThreadDeath | OutOfMemoryError e) {
            throw e;
        } catch (Throwable e) {
            return e.getClass().getSimpleName();
        }
    }

    private abstract static class Rig {
        /** A change or question, drawn without a look at how the collection is laid out. */
        abstract Object step(SplittableRandom r);

        abstract int size();

        /** Everything that can be asked, in an order of its own. */
        abstract Object state();

        void clear() {
            throw new UnsupportedOperationException();
        }

        String name = "";
        int big = 300;

        final int bulk(final SplittableRandom r) {
            return r.nextInt(big > 300 ? 2 : 12) == 0 ? r.nextInt(big) : r.nextInt(8);
        }
    }

    private static int sizing(final Ctx c) {
        switch (c.weighted(4, 3, 2, 1)) {
            case 0: return c.range(1, 4);
            case 1: return c.range(5, 40);
            case 2: return c.oneOf(64, 63, 65, 100, 128, 256, 300);
            default: return c.oneOf(1000, 1024, 5000, 1 << 15);
        }
    }

    // ------------------------------------------------------------------ rigs
    private static final class Hash extends Rig {
        final HashSut s;
        final HashSut o; // copied from now and then
        final Dom dom;
        final T vt;
        List<Integer> reserved = new ArrayList<>();
        List<Integer> reservedInO = new ArrayList<>();
        int issued;
        int issuedInO;
        EntryIterator spare;
        int next = 20;

        Hash(final Dom dom, final T vt, final int init, final double lf, final int init2, final double lf2, final Fn f) {
            final String cls = dom.type + (vt == null ? "SetAdapter" : vt + "MapAdapter");
            s = U.make(cls, init, lf);
            o = U.make(cls, init2, lf2);
            if (f != null) {
                s.setHash(f);
                s.setEq(f);
                o.setHash(f);
                o.setEq(f);
            }
            this.dom = dom;
            this.vt = vt;
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void clear() {
            s.clear();
            reserved.clear();
            issued = 0;
        }

        private int add(final Object k, final boolean value) {
            final int e = vt != null && value ? s.put(k, Dom.value(vt, next++)) : s.add(k);
            issued = Math.max(issued, e + 1);
            return e;
        }

        @Override
        Object step(final SplittableRandom r) {
            final int i = r.nextInt(dom.n);
            final Object k = dom.key(i);
            final boolean flag = r.nextBoolean();
            final int any = r.nextInt(1 << 20);
            final int n = bulk(r);
            switch (r.nextInt(22)) {
                case 0: return s.remove(k);
                case 1: {
                    final int e = s.lookup(k);
                    if (e >= 0) {
                        s.removeAt(e);
                    }
                    return e;
                }
                case 2: {
                    final int e = s.lookup(k);
                    if (e >= 0) {
                        s.reserve(e);
                        reserved.add(e);
                    }
                    return e;
                }
                case 3:
                case 4:
                    if (!reserved.isEmpty()) {
                        final int e = reserved.remove(any % reserved.size());
                        s.free(e);
                        return e;
                    }
                    return add(k, flag);
                case 5: {
                    final List<Object> out = new ArrayList<>();
                    for (int j = 0; j < n; j++) {
                        out.add(add(dom.key((i + j) % dom.n), flag));
                    }
                    return out;
                }
                case 6: {
                    final List<Object> out = new ArrayList<>();
                    for (int j = 0; j < n; j++) {
                        out.add(s.remove(dom.key((i + j) % dom.n)));
                    }
                    return out;
                }
                case 7: { // removal through an iterator
                    final int e = s.lookup(k);
                    spare = flag ? s.iterator(spare) : s.iterator();
                    int seen = 0;
                    while (spare.next()) {
                        seen++;
                        if (spare.currentEntry() == e) {
                            spare.remove();
                        }
                    }
                    return seen + " " + e;
                }
                case 8: return slot(any % (issued + 4), flag);
                case 9: {
                    final int e = s.lookup(k);
                    if (vt != null && e >= 0) {
                        s.putValueAt(e, Dom.value(vt, next++));
                    }
                    return e;
                }
                case 10: return vt == null ? s.contains(k) : answer(() -> flag ? s.get(k) : s.getOrDefault(k, Dom.value(vt, 7)));
                case 11: {
                    final TreeSet<String> out = new TreeSet<>();
                    if (flag) {
                        s.forEachEntry(e -> out.add("" + e));
                    } else {
                        s.forEach(x -> out.add(Ctx.show(x)));
                    }
                    return out;
                }
                case 12: return s.size() + " " + s.isEmpty();
                case 13: { // the other one
                    final List<Object> out = new ArrayList<>();
                    for (int j = 0; j < n; j++) {
                        final Object x = dom.key((i + 3 * j) % dom.n);
                        if (j % 4 == 3) {
                            out.add(o.remove(dom.key(any % dom.n)));
                        } else if (vt == null) {
                            out.add(o.add(x));
                        } else {
                            out.add(o.put(x, Dom.value(vt, next++)));
                        }
                        issuedInO = Math.max(issuedInO, o.size());
                    }
                    final int e = o.lookup(k);
                    if (e >= 0 && flag) {
                        o.reserve(e);
                        reservedInO.add(e);
                    }
                    for (int x : reservedInO) {
                        issuedInO = Math.max(issuedInO, x + 1);
                    }
                    o.forEachEntry(x -> issuedInO = Math.max(issuedInO, x + 1));
                    return out;
                }
                case 14:
                    if (any % 4 == 0) {
                        s.copyFrom(o);
                        reserved = new ArrayList<>(reservedInO);
                        issued = issuedInO;
                        return "copied";
                    }
                    return s.lookup(k);
                default: return add(k, flag);
            }
        }

        /** What an entry shows; beyond the storage, what it would show if there were more. */
        private Object slot(final int e, final boolean value) {
            try {
                return vt != null && value ? s.valueAt(e) : s.keyAt(e);
            } catch (IndexOutOfBoundsException x) {
                return vt != null && value ? vt.def() : dom.type.def();
            }
        }

        @Override
        Object state() {
            final TreeMap<Integer, String> out = new TreeMap<>();
            s.forEachEntry(e -> out.put(e, Ctx.show(s.keyAt(e)) + (vt == null ? "" : "=" + Ctx.show(s.valueAt(e)))));
            final TreeMap<Integer, String> out2 = new TreeMap<>();
            for (EntryIterator it = s.iterator(); it.next();) {
                final int e = it.currentEntry();
                out2.put(e, Ctx.show(s.keyAt(e)) + (vt == null ? "" : "=" + Ctx.show(s.valueAt(e))));
            }
            final List<String> held = new ArrayList<>();
            for (int e : reserved) {
                held.add(e + ":" + Ctx.show(s.keyAt(e)) + (vt == null ? "" : "=" + Ctx.show(s.valueAt(e))));
            }
            final List<Integer> looked = new ArrayList<>();
            for (int i = 0; i < Math.min(dom.n, 200); i++) {
                looked.add(s.lookup(dom.key(i)));
            }
            for (int e = issued; e < issued + 3; e++) {
                held.add(e + ":" + Ctx.show(slot(e, false)) + Ctx.show(slot(e, true)));
            }
            return s.size() + " " + out + (out.equals(out2) ? "" : " but iterated " + out2) + held + looked;
        }
    }

    private static final class Deq extends Rig {
        final DequeSut s;
        final T t;
        int next = 20;

        Deq(final T t, final int init) {
            this.t = t;
            s = U.make(t + "DequeAdapter", init);
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void clear() {
            s.clear();
        }

        @Override
        Object step(final SplittableRandom r) {
            final int n = bulk(r);
            final List<Object> out = new ArrayList<>();
            switch (r.nextInt(9)) {
                case 0:
                    for (int j = 0; j < n && !s.isEmpty(); j++) {
                        out.add(s.removeFirst());
                    }
                    return out;
                case 1:
                    for (int j = 0; j < n && !s.isEmpty(); j++) {
                        out.add(s.removeLast());
                    }
                    return out;
                case 2: return answer(s::removeFirst);
                case 3: return answer(s::removeLast);
                case 4: return answer(s::peekFirst) + answer(s::peekLast);
                case 5:
                case 6:
                    for (int j = 0; j < n; j++) {
                        s.addFirst(Dom.value(t, next++));
                    }
                    return null;
                default:
                    for (int j = 0; j < n; j++) {
                        s.addLast(Dom.value(t, next++));
                    }
                    return null;
            }
        }

        @Override
        Object state() {
            final List<Object> out = new ArrayList<>();
            s.forEach(out::add);
            out.add(s.size());
            out.add(s.isEmpty());
            return out;
        }
    }

    private static final class Hyd extends Rig {
        final HydraSut s;
        final T t;
        final int ids;
        int next = 20;
        ItSut[] spare = new ItSut[2];

        Hyd(final T t, final int queues, final int init, final int ids) {
            this.t = t;
            this.ids = ids;
            s = U.make(t + "HydraDequeAdapter", queues, init);
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void clear() {
            s.clear();
        }

        @Override
        Object step(final SplittableRandom r) {
            final int id = r.nextInt(12) == 0 ? r.nextInt(200) : r.nextInt(ids);
            final int n = bulk(r);
            final boolean flag = r.nextBoolean();
            final List<Object> out = new ArrayList<>();
            switch (r.nextInt(9)) {
                case 0:
                    for (int j = 0; j < n && s.size(id) > 0; j++) {
                        out.add(flag ? s.removeFirst(id) : s.removeLast(id));
                    }
                    return out;
                case 1: return answer(() -> s.removeFirst(id));
                case 2: return answer(() -> s.removeLast(id));
                case 3: return list(id, flag);
                case 4: return s.size(id) + " " + s.size() + " " + s.isEmpty();
                case 5:
                case 6:
                    for (int j = 0; j < n; j++) {
                        out.add(s.addFirst(id, Dom.value(t, next++)));
                    }
                    return out;
                default:
                    for (int j = 0; j < n; j++) {
                        out.add(s.addLast((id + j * j) % ids, Dom.value(t, next++)));
                    }
                    return out;
            }
        }

        private List<Object> list(final int id, final boolean forward) {
            final List<Object> out = new ArrayList<>();
            if (forward) {
                spare[0] = s.iterator(id, spare[0], false);
                spare[0].forEach(out::add);
            } else {
                spare[1] = s.reverseIterator(id, spare[1], false);
                while (spare[1].hasNext()) {
                    out.add(spare[1].next());
                }
            }
            return out;
        }

        @Override
        Object state() {
            final List<Object> out = new ArrayList<>();
            for (int id = 0; id < 200; id++) {
                out.add(s.size(id));
                out.add(list(id, true));
                out.add(list(id, false));
            }
            out.add(s.size());
            out.add(s.isEmpty());
            return out;
        }
    }

    private static final class Vec extends Rig {
        final VectorSut s;
        final T t;
        int next = 20;

        Vec(final T t, final int init) {
            this.t = t;
            s = U.make(t + "VectorAdapter", init);
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void clear() {
            s.clear();
        }

        @Override
        Object step(final SplittableRandom r) {
            final int n = bulk(r);
            final int any = r.nextInt(1 << 20);
            switch (r.nextInt(6)) {
                case 0: s.ensureSize(any % (2 * s.size() + 10)); return null;
                case 1: return s.isEmpty() ? null : s.valueAt(any % s.size());
                case 2: return s.size() + " " + s.isEmpty();
                default:
                    for (int j = 0; j < n; j++) {
                        s.append(Dom.value(t, next++));
                    }
                    return null;
            }
        }

        @Override
        Object state() {
            final List<Object> out = new ArrayList<>();
            s.forEach(out::add);
            for (int i = 0; i < s.size(); i++) {
                out.add(s.valueAt(i));
            }
            out.add(s.size());
            out.add(s.isEmpty());
            return out;
        }
    }

    private static final class Heap extends Rig {
        final HeapSut s;
        final Dom dom;
        final T vt;
        int next = 20;
        int issued;
        final List<Integer> live = new ArrayList<>();
        final java.util.HashMap<Integer, Integer> where = new java.util.HashMap<>(); // in live

        Heap(final Dom dom, final T vt, final int init, final String cmp, final boolean defaults) {
            this.dom = dom;
            this.vt = vt;
            s = U.make(dom.type + "" + vt + "HeapAdapter", init);
            if (defaults) {
                s.setDefaultKey(dom.key(0));
                s.setDefaultValue(Dom.value(vt, 3));
            }
            if (cmp != null) {
                s.setComparator(cmp);
            }
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        void clear() {
            s.clear();
            live.clear();
            where.clear();
            issued = 0;
        }

        private int take(final int at) {
            final int e = live.get(at);
            final int last = live.remove(live.size() - 1);
            where.remove(e);
            if (last != e) {
                live.set(at, last);
                where.put(last, at);
            }
            return e;
        }

        private int insert(final Object k, final boolean value) {
            final int e = value ? s.insert(k, Dom.value(vt, next++)) : s.insert(k);
            if (where.put(e, live.size()) != null) {
                throw new IllegalStateException("entry " + e + " issued twice");
            }
            live.add(e);
            issued = Math.max(issued, e + 1);
            return e;
        }

        @Override
        Object step(final SplittableRandom r) {
            final int i = r.nextInt(dom.n);
            final Object k = dom.key(i);
            final int any = r.nextInt(1 << 20);
            final int n = bulk(r);
            final boolean flag = r.nextBoolean();
            final List<Object> out = new ArrayList<>();
            switch (r.nextInt(15)) {
                case 0:
                case 1:
                    for (int j = 0; j < n && !live.isEmpty(); j++) {
                        final int e = take((int) ((any + (long) j * j) % live.size()));
                        s.removeAt(e);
                        out.add(e);
                        out.add(s.isEmpty() ? -1 : s.peek());
                    }
                    return out;
                case 2:
                case 3:
                    for (int j = 0; j < n && !s.isEmpty(); j++) {
                        final int e = s.peek();
                        s.removeAt(e);
                        take(where.get(e));
                        out.add(e);
                    }
                    return out;
                case 4:
                    if (!live.isEmpty()) {
                        s.resetKey(live.get(any % live.size()), k);
                    }
                    return answer(s::peek);
                case 5:
                    if (!live.isEmpty()) {
                        final int e = live.get(any % live.size());
                        if (flag) {
                            s.setValueAt(e, Dom.value(vt, next++));
                        }
                        return Arrays.asList(s.keyAt(e), s.valueAt(e), s.valueAtOrDefault(e, Dom.value(vt, 7)));
                    }
                    return answer(s::peek);
                case 6: return s.contains(k) + " " + s.firstEntry(k);
                case 7:
                    s.forEachEntry(out::add);
                    return out;
                case 8:
                    return slot(any % (issued + 4));
                case 9: return any % 8 == 0 ? change(flag) : s.size() + " " + s.isEmpty();
                default:
                    for (int j = 0; j < n; j++) {
                        out.add(insert(dom.key((i + 7 * j) % dom.n), flag));
                    }
                    return out;
            }
        }

        /** What an entry shows; beyond the storage, what it would show if there were more. */
        private Object slot(final int e) {
            try {
                return Arrays.asList(s.isValid(e), s.keyAt(e), s.valueAt(e));
            } catch (IndexOutOfBoundsException x) {
                return Arrays.asList(s.isValid(e), s.defaultKey(), s.defaultValue());
            }
        }

        private Object change(final boolean up) {
            s.setComparator(up ? "Asc" : "Desc");
            return s.isEmpty() ? -1 : s.peek();
        }

        @Override
        Object state() {
            final List<Object> out = new ArrayList<>();
            s.forEachEntry(e -> {
                out.add(e);
                out.add(s.keyAt(e));
                out.add(s.valueAt(e));
            });
            out.add(s.size());
            out.add(s.isEmpty() ? -1 : s.peek());
            for (int e = 0; e < issued + 3; e++) {
                out.add(slot(e));
            }
            return out;
        }
    }

    private static final class Store extends Rig {
        final StoreSut s;
        final T t;
        final int fields;
        int rows;
        int next = 20;

        Store(final T t, final boolean matrix, final int init, final int chunk, final int fields) {
            this.t = t;
            this.fields = matrix ? fields : 1;
            s = matrix ? U.make(t + "ChunkMatrixStoreAdapter", init, chunk, fields) : U.make(t + "ChunkStoreAdapter", init, chunk);
        }

        @Override
        int size() {
            return rows;
        }

        @Override
        Object step(final SplittableRandom r) {
            final int row = r.nextInt(30) == 0 ? r.nextInt(3000) : r.nextInt(6) == 0 ? r.nextInt(200) : r.nextInt(20);
            final int field = r.nextInt(20) == 0 ? r.nextInt(-2, 12) : r.nextInt(fields);
            if (r.nextInt(3) == 0) {
                return answer(() -> s.get(row, fields == 1 ? 0 : field));
            }
            rows = Math.max(rows, row + 1);
            return answer(() -> {
                s.set(row, fields == 1 ? 0 : field, Dom.value(t, next++));
                return null;
            });
        }

        @Override
        Object state() {
            final List<Object> out = new ArrayList<>();
            for (int i = 0; i < Math.min(rows, 200) + 10; i++) {
                for (int f = 0; f < fields; f++) {
                    out.add(s.get(i, f));
                }
            }
            return out;
        }
    }

    private static final class Bi extends Rig {
        final CompactOneToMany s;
        final CompactManyToMany m;
        final int n;
        final int stride;
        final List<Integer> reserved = new ArrayList<>();

        Bi(final boolean many, final int a, final int b, final int e, final int n, final int stride) {
            m = many ? new CompactManyToMany(a, b, e, true) : null;
            s = many ? m : new CompactOneToMany(a, e, true);
            this.n = n;
            this.stride = stride;
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        Object step(final SplittableRandom r) {
            final int left = r.nextInt(n) * stride;
            final int right = r.nextInt(n);
            final int any = r.nextInt(1 << 20);
            final int k = bulk(r);
            final List<Object> out = new ArrayList<>();
            switch (r.nextInt(14)) {
                case 0:
                case 1: return s.remove(left, right);
                case 2: {
                    final int e = s.lookupEntry(left, right);
                    return e < 0 ? -1 : s.removeAt(e);
                }
                case 3: {
                    final int e = s.lookupEntry(left, right);
                    if (e >= 0) {
                        s.removeAtAndReserve(e);
                        reserved.add(e);
                    }
                    return e;
                }
                case 4:
                    if (!reserved.isEmpty()) {
                        final int e = reserved.remove(any % reserved.size());
                        s.freeReservedEntry(e);
                        return e;
                    }
                    return -1;
                case 5: return values(s.withLeft(left), any % 4);
                case 6: return m == null ? null : values(m.withRight(right), any % 4);
                case 7: return s.contains(left, right) + " " + s.size();
                case 8:
                    for (int j = 0; j < k; j++) {
                        out.add(s.remove((left / stride + j) % n * stride, (right + j * 3) % n));
                    }
                    return out;
                default:
                    for (int j = 0; j < k; j++) {
                        out.add(s.put((left / stride + j * j) % n * stride, (right + j) % n));
                    }
                    return out;
            }
        }

        private Object values(final Mapping p, final int how) {
            final List<Object> out = new ArrayList<>();
            switch (how) {
                case 0: return p.count();
                case 1: p.forEachEntry(out::add); break;
                case 2: p.forEachValue(out::add); break;
                default:
                    for (IntIterator it = p.valueIterator(); it.hasNext();) {
                        out.add(it.next());
                    }
            }
            return out;
        }

        @Override
        Object state() {
            final List<Object> out = new ArrayList<>();
            final List<Integer> entries = new ArrayList<>();
            s.forEachEntry(entries::add);
            Collections.sort(entries);
            for (int e : entries) {
                out.add(e);
                out.add(s.getLeftAt(e));
                out.add(s.getRightAt(e));
            }
            for (int i = 0; i < n; i++) {
                out.add(s.withLeft(i * stride).count());
                out.add(values(s.withLeft(i * stride), 2));
                if (m != null) {
                    out.add(m.withRight(i).count());
                    out.add(values(m.withRight(i), 2));
                }
            }
            return out;
        }
    }

    /** What all collections of a case have in common; the sizes are drawn for each of them. */
    private static Maker maker(final Ctx c, final String subject) {
        final boolean large = subject.startsWith("large ");
        final String kind = large ? subject.substring(6) : subject;
        switch (kind) {
            case "set":
            case "map": {
                final String[] p = c.oneOf(large ? LARGE : kind.equals("set") ? HashProps.SETS : HashProps.MAPS).split("/");
                final T vt = kind.equals("map") ? T.of(p[1]) : null;
                final T kt = T.of(p[0]);
                final int n = large ? c.range(20000, 150000) : c.bool() ? c.range(1, 60) : c.range(50, 800);
                final boolean fn = !large && c.chance(1, 3) && Arrays.asList(HashProps.FN_TYPES).contains(p[0]);
                final FnFamily f = fn ? FnFamily.draw(c, kt, n) : null;
                final Dom dom = fn ? f.dom : !large && c.bool() ? Dom.draw(c, kt, n) : Dom.spread(c, kt, n, false);
                c.op("a " + kind, String.join("/", p), dom.kind, dom.n, fn ? f.name : "");
                return x -> {
                    final int[] size = {sizing(x), sizing(x)};
                    final double[] lf = {HashMachine.LOADS[x.pick(8)], HashMachine.LOADS[x.pick(8)]};
                    final Rig g = new Hash(dom, vt, size[0], lf[0], size[1], lf[1], f);
                    g.name = size[0] + " " + lf[0];
                    x.op("new", size[0], lf[0], "another", size[1], lf[1]);
                    return g;
                };
            }
            case "heap": {
                final String[] p = c.oneOf(large ? LARGE : HashProps.MAPS).split("/");
                final Dom dom = large ? Dom.spread(c, T.of(p[0]), c.range(60, 60000), true) : c.bool() ? Dom.spread(c, T.of(p[0]), c.range(1, 400), true) : Dom.spread(c, T.of(p[0]), c.range(1, 6), true);
                final T vt = T.of(p[1]);
                final String cmp = c.oneOf(null, "Asc", "Desc", "AbsAsc", "AbsDesc");
                final boolean defaults = c.chance(1, 4);
                c.op("a heap", String.join("/", p), dom.kind, dom.n, String.valueOf(cmp), defaults);
                return x -> {
                    final int size = sizing(x) - 1;
                    x.op("new", size);
                    final Rig g = new Heap(dom, vt, size, dom.type == T.Generic ? null : cmp, defaults);
                    g.name = "" + size;
                    return g;
                };
            }
            case "one-to-many":
            case "many-to-many": {
                final int n = large ? c.range(50, 400) : c.range(1, 30);
                final int stride = c.oneOf(1, 64, 1 << 13);
                c.op("a " + kind, n, stride);
                return x -> {
                    final int[] k = {sizing(x), sizing(x), sizing(x)};
                    x.op("new", k[0], k[1], k[2]);
                    final Rig g = new Bi(kind.equals("many-to-many"), k[0], k[1], k[2], n, stride);
                    g.name = Arrays.toString(k);
                    return g;
                };
            }
            default: {
                final T t = T.of(c.oneOf(SeqProps.ALL));
                final int a = c.range(1, 8);
                c.op("a " + kind + " of " + t, a);
                return x -> {
                    final int size = sizing(x);
                    final int other = sizing(x);
                    x.op("new", size, other);
                    final Rig g;
                    switch (kind) {
                        case "deque": g = new Deq(t, size); break;
                        case "hydra": g = new Hyd(t, other, size, a); break;
                        case "vector": g = new Vec(t, size); break;
                        default: g = new Store(t, kind.equals("matrix"), size, 1 + Math.min(other, 1000), a);
                    }
                    g.name = size + " " + other;
                    return g;
                };
            }
        }
    }

    private static final String[] LARGE = {"Int/Int", "Long/Double", "Double/Int", "Int/Generic", "Long/Byte", "Float/Long"};

    private static int count(final Ctx c, final Rig a) {
        return a.big > 300 ? c.range(40, 120) : 1 + c.skew(c.weighted(3, 1) == 0 ? 60 : 300);
    }

    private static void steps(final Ctx c, final Rig a, final Rig b, final int n, final String how) {
        final long seed = c.bits64();
        final SplittableRandom x = new SplittableRandom(seed);
        final SplittableRandom y = new SplittableRandom(seed);
        for (int i = 0; i < n; i++) {
            final String got = answer(() -> a.step(x));
            final String want = answer(() -> b.step(y));
            if (!got.equals(want)) {
                c.fail(1, "step %s of %s gives %s, and %s %s", i, n, got, how, want);
            }
        }
    }

    private static void alike(final Ctx c, final Rig a, final Rig b, final String how) {
        final String got = answer(a::state);
        final String want = answer(b::state);
        if (!got.equals(want)) {
            c.fail(1, "the state is %s, and %s %s", got, how, want);
        }
    }

    static void sized(final Ctx c, final String kind) {
        final Maker m = maker(c, kind);
        final Rig a = m.make(c);
        final Rig b = m.make(c);
        if (kind.startsWith("large ")) {
            a.big = 100000;
            b.big = a.big;
        }
        final int rounds = c.range(1, a.big > 300 ? 2 : 6);
        for (int i = 0; i < rounds; i++) {
            final int n = count(c, a);
            c.op("steps", n);
            steps(c, a, b, n, "with other sizes");
            alike(c, a, b, "with other sizes");
            if (a.size() >= 10 && !a.name.equals(b.name)) {
                c.nontrivial();
            }
            if (i < rounds - 1 && c.chance(1, 6) && !(a instanceof Store) && !(a instanceof Bi)) {
                c.op("clear");
                a.clear();
                b.clear();
                alike(c, a, b, "with other sizes");
            }
        }
        c.inputs(rounds);
    }

    static void cleared(final Ctx c, final String kind) {
        final Maker m = maker(c, kind);
        final Rig a = m.make(c);
        if (kind.startsWith("large ")) {
            a.big = 100000;
        }
        final int rounds = c.range(1, a.big > 300 ? 2 : 4);
        int n = count(c, a);
        c.op("steps", n);
        final SplittableRandom r = new SplittableRandom(c.bits64());
        for (int i = 0; i < n; i++) {
            answer(() -> a.step(r));
        }
        for (int i = 0; i < rounds; i++) {
            final int size = a.size();
            c.op("clear");
            a.clear();
            if (a instanceof Hash) {
                ((Hash) a).o.clear();
                ((Hash) a).reservedInO.clear();
                ((Hash) a).issuedInO = 0;
            }
            final Rig b = m.make(c);
            b.big = a.big;
            align(a, b);
            alike(c, a, b, "of a new one");
            n = count(c, a);
            c.op("steps", n);
            steps(c, a, b, n, "on a new one");
            alike(c, a, b, "of a new one");
            if (size >= 2 && a.size() >= 2) {
                c.nontrivial();
            }
        }
        c.inputs(rounds);
    }

    /** The values drawn next are the same, and so is the comparator. */
    private static void align(final Rig a, final Rig b) {
        if (a instanceof Hash) {
            ((Hash) b).next = ((Hash) a).next;
        } else if (a instanceof Deq) {
            ((Deq) b).next = ((Deq) a).next;
        } else if (a instanceof Hyd) {
            ((Hyd) b).next = ((Hyd) a).next;
        } else if (a instanceof Vec) {
            ((Vec) b).next = ((Vec) a).next;
        } else {
            ((Heap) b).next = ((Heap) a).next;
            ((Heap) a).s.setComparator("Asc");
            ((Heap) b).s.setComparator("Asc");
        }
    }
}
