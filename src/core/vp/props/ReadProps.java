package vp.props;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.NumUtils;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.functional.IntIterator;
import com.bytefacets.collections.id.Snowflake;
import com.bytefacets.collections.sort.IntIntCompanionSort;
import com.bytefacets.collections.types.IntType;
import com.bytefacets.collections.types.Pack;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.time.LocalDate;
import java.time.LocalTime;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.SplittableRandom;
import java.util.concurrent.Callable;
import java.util.concurrent.atomic.AtomicInteger;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.ArraySut;
import vp.sut.DequeSut;
import vp.sut.HashSut;
import vp.sut.HeapSut;
import vp.sut.HydraSut;
import vp.sut.ItSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.TypeSut;
import vp.sut.U;
import vp.sut.VectorSut;

/** Queries change nothing, and any number of threads can make them at once (C45). */
final class ReadProps {
    static Prop get(final String id) {
        if (id.equals("C46")) {
            return new Prop(id, 1, "a case is a collection and a twin with one history; calls that fail are made of the first only; "
                    + "non-trivial when at least one call failed while the collection held at least two elements", new String[] {"call-failed"},
                    Part.of("failing calls", KINDS, 60000, 1500000, (c, s) -> failing(c, s)));
        }
        if (!id.equals("C45")) {
            return null;
        }
        return new Prop(id, 1, "a case is a collection and a twin built by one history, and a list of queries of the first, answered in different orders, between "
                + "changes and by several threads at once; non-trivial when the collection held at least two elements", new String[0],
                Part.of("in any order", KINDS, 40000, 1000000, (c, s) -> ordered(c, s)),
                Part.of("at once", KINDS, 4000, 100000, (c, s) -> atOnce(c, s)));
    }

    private static final String[] KINDS = {"set", "map", "deque", "hydra", "vector", "heap", "store", "matrix", "one-to-many", "many-to-many", "set", "map", "snowflake"};
    private static final ThreadMXBean MX = ManagementFactory.getThreadMXBean();

    private interface Query {
        Object ask() throws Exception;
    }

    /** A collection that random changes and queries are made of. */
    private abstract static class Rig {
        /** One change; its result. */
        abstract Object change(SplittableRandom r);

        /** A query for the state as it is now; atOnce: other threads will ask, too. */
        abstract Query query(SplittableRandom r, boolean atOnce);

        abstract int size();

        /** A call that may fail, with what comes before and after it. */
        abstract Attempt attempt(SplittableRandom r);

        /** Opens an iterator and moves it on; the answer is what it gives from there. */
        Query open(final SplittableRandom r) {
            return () -> null;
        }
    }

    /** Steps: made of both twins; of the first twin, and of the second if it did not fail; of both. */
    private static final class Attempt {
        final String name;
        final Query before;
        final Query call;
        final Query after;

        Attempt(final String name, final Query before, final Query call, final Query after) {
            this.name = name;
            this.before = before;
            this.call = call;
            this.after = after;
        }

        Attempt(final String name, final Query call) {
            this(name, () -> null, call, () -> null);
        }
    }

    /** Thrown by functions of the caller. */
    private static final class Refusal extends RuntimeException {
        Refusal() {
            super("refused", null, false, false);
        }
    }

    /** A key no functions accept. */
    private static final class Bad implements Comparable<Object> {
        private final int hash;
        private final boolean hashed;

        Bad(final int hash, final boolean hashed) {
            this.hash = hash;
            this.hashed = hashed;
        }

        @Override
        public int hashCode() {
            if (!hashed) {
                throw new Refusal();
            }
            return hash;
        }

        @Override
        @SuppressWarnings("EqualsWhichDoesntCheckParameterClass")
        public boolean equals(final Object o) {
            throw new Refusal();
        }

        @Override
        public int compareTo(final Object o) {
            throw new Refusal();
        }

        @Override
        public String toString() {
            return "Bad";
        }
    }

    private static java.util.function.Consumer<Object> throwing(final int at) {
        final int[] n = {at};
        return v -> {
            if (n[0]-- == 0) {
                throw new Refusal();
            }
        };
    }

    private static java.util.function.IntConsumer throwingInt(final int at) {
        final int[] n = {at};
        return v -> {
            if (n[0]-- == 0) {
                throw new Refusal();
            }
        };
    }

    private static Query voided(final Runnable r) {
        return () -> {
            r.run();
            return null;
        };
    }

    /** An index outside 0..n-1. */
    private static int outside(final SplittableRandom r, final int n) {
        switch (r.nextInt(6)) {
            case 0: return -1;
            case 1: return n;
            case 2: return n + 1 + r.nextInt(100);
            case 3: return Integer.MAX_VALUE;
            case 4: return Integer.MIN_VALUE;
            default: return -2 - r.nextInt(100);
        }
    }

    private static String answer(final Query q) {
        try {
            return Ctx.show(q.ask());
        } catch (ThreadDeath | OutOfMemoryError e) {
            throw e;
        } catch (Throwable e) {
            return e.getClass().getSimpleName();
        }
    }

    private static String result(final Rig g, final SplittableRandom r) {
        return answer(() -> g.change(r));
    }

    // ------------------------------------------------------------------ rigs
    private static final class Hash extends Rig {
        final HashSut s;
        final Dom dom;
        final T vt;
        final List<Integer> live = new ArrayList<>();
        final List<Integer> reserved = new ArrayList<>();
        int next = 20;

        Hash(final String kind, final Dom dom, final T vt, final int init, final double lf) {
            s = U.make(dom.type + (vt == null ? "SetAdapter" : vt + "MapAdapter"), init, lf);
            this.dom = dom;
            this.vt = vt;
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        Object change(final SplittableRandom r) {
            final Object k = dom.key(r.nextInt(dom.n));
            switch (r.nextInt(18)) {
                case 0:
                case 1: return s.remove(k);
                case 2: {
                    final int e = s.lookup(k);
                    if (e >= 0) {
                        s.removeAt(e);
                    }
                    return e;
                }
                case 3: {
                    final int e = s.lookup(k);
                    if (e >= 0) {
                        s.reserve(e);
                        reserved.add(e);
                    }
                    return e;
                }
                case 4:
                    if (!reserved.isEmpty()) {
                        final int e = reserved.remove(r.nextInt(reserved.size()));
                        s.free(e);
                        return e;
                    }
                    return s.add(k);
                case 5:
                    if (r.nextInt(20) == 0) {
                        s.clear();
                        reserved.clear();
                        return "cleared";
                    }
                    return s.add(k);
                case 6: {
                    final List<Object> out = new ArrayList<>();
                    final EntryIterator it = s.iterator();
                    while (it.next()) {
                        out.add(it.currentEntry());
                        if (r.nextInt(8) == 0) {
                            it.remove();
                        }
                    }
                    return out;
                }
                case 7:
                case 8:
                case 9:
                case 10:
                    if (vt != null) {
                        final Object v = Dom.value(vt, next++);
                        return s.put(k, v);
                    }
                    return s.add(k);
                default:
                    return s.add(k);
            }
        }

        private boolean functions() {
            return dom.type == T.Float || dom.type == T.Double || dom.type == T.String || dom.type == T.Generic;
        }

        /** Functions that refuse the armed key, in the hash or in comparisons. */
        void useFunctions() {
            if (!functions()) {
                return;
            }
            final vp.sut.Fn f = new vp.sut.Fn() {
                @Override
                public int code(final Object k) {
                    if (armed && !inEq && java.util.Objects.equals(k, refused)) {
                        throw new Refusal();
                    }
                    return 31 * java.util.Objects.hashCode(k);
                }

                @Override
                public boolean eq(final Object a, final Object b) {
                    if (armed && inEq) {
                        throw new Refusal();
                    }
                    return java.util.Objects.equals(a, b);
                }
            };
            s.setHash(f);
            s.setEq(f);
            custom = true;
        }

        boolean custom;
        boolean armed;
        boolean inEq;
        Object refused;

        private Query refusing(final boolean eq, final Object k, final Query q) {
            return () -> {
                armed = true;
                inEq = eq;
                refused = k;
                try {
                    return q.ask();
                } finally {
                    armed = false;
                }
            };
        }

        private Object keyed(final int what, final Object k, final Object v) {
            switch (vt == null ? what % 4 : what % 7) {
                case 0: return s.add(k);
                case 1: return s.lookup(k);
                case 2: return s.contains(k);
                case 3: return s.remove(k);
                case 4: return s.put(k, v);
                case 5: return s.get(k);
                default: return s.getOrDefault(k, v);
            }
        }

        @Override
        Query open(final SplittableRandom r) {
            final EntryIterator it = s.iterator();
            final int n = r.nextInt(s.size() + 1);
            final boolean remove = r.nextInt(4) == 0;
            for (int i = 0; i < n; i++) {
                it.next();
            }
            return () -> {
                final List<Object> out = new ArrayList<>();
                if (remove && n > 0) {
                    out.add(answer(() -> {
                        it.remove();
                        return "removed";
                    }));
                }
                while (it.next()) {
                    out.add(it.currentEntry());
                }
                return out;
            };
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final int cap = s.capacity();
            final int e = outside(r, cap);
            final int j = r.nextInt(Math.max(1, s.size()));
            final int what = r.nextInt(7);
            final Object v = vt == null ? null : Dom.value(vt, next++);
            final Object k = dom.key(r.nextInt(dom.n));
            switch (r.nextInt(15)) {
                case 0: return new Attempt("keyAt " + e, () -> s.keyAt(e));
                case 1: return new Attempt("removeAt " + e, voided(() -> s.removeAt(e)));
                case 2: return new Attempt("reserve " + e, voided(() -> s.reserve(e)));
                case 3: return new Attempt("free " + e, voided(() -> s.free(e)));
                case 4: return vt == null ? new Attempt("keyAt " + e, () -> s.keyAt(e)) : new Attempt("valueAt " + e, () -> s.valueAt(e));
                case 5: return vt == null ? new Attempt("removeAt " + e, voided(() -> s.removeAt(e))) : new Attempt("putValueAt " + e, voided(() -> s.putValueAt(e, v)));
                case 6: return vt == null ? new Attempt("reserve " + e, voided(() -> s.reserve(e))) : new Attempt("get " + k, () -> s.get(k));
                case 7: return new Attempt("forEachEntry of a consumer that throws at " + j, voided(() -> s.forEachEntry(throwingInt(j))));
                case 8: return vt == null || r.nextBoolean() ? new Attempt("forEach of a consumer that throws at " + j, voided(() -> s.forEach(throwing(j))))
                        : new Attempt("forEachValue of a consumer that throws at " + j, voided(() -> s.forEachValue(throwing(j))));
                case 9: {
                    if (!functions()) {
                        return new Attempt("keyAt " + e, () -> s.keyAt(e));
                    }
                    return new Attempt("setting functions", () -> s.isEmpty(), () -> {
                        if (what % 2 == 0) {
                            s.setHash(s.isEmpty() ? null : new vp.sut.Fn() {
                                @Override
                                public int code(final Object x) {
                                    return 5;
                                }

                                @Override
                                public boolean eq(final Object x, final Object y) {
                                    return true;
                                }
                            });
                        } else {
                            s.setEq(s.isEmpty() ? null : new vp.sut.Fn() {
                                @Override
                                public int code(final Object x) {
                                    return 5;
                                }

                                @Override
                                public boolean eq(final Object x, final Object y) {
                                    return true;
                                }
                            });
                        }
                        return null;
                    }, () -> null);
                }
                case 10:
                case 11:
                    if (custom && (dom.type != T.Generic || r.nextBoolean())) {
                        final boolean eq = r.nextBoolean();
                        return new Attempt("call " + what + " with key " + k + (eq ? " while comparisons throw" : " whose hash throws"), refusing(eq, k, () -> keyed(what, k, v)));
                    }
                    if (dom.type == T.Generic) {
                        final Bad bad = new Bad(r.nextInt(4) == 0 ? r.nextInt() : java.util.Objects.hashCode(k), r.nextBoolean());
                        return new Attempt("call " + what + " with a key that throws", () -> keyed(what, bad, v));
                    }
                    return new Attempt("removeAt " + e, voided(() -> s.removeAt(e)));
                default: {
                    final EntryIterator[] it = new EntryIterator[1];
                    final int how = r.nextInt(4);
                    final int seen = r.nextInt(8) == 0 ? s.size() + 1 : j;
                    return new Attempt("iterator after " + seen + ", misuse " + how, () -> {
                        final List<Object> out = new ArrayList<>();
                        it[0] = s.iterator();
                        for (int i = 0; i < seen; i++) {
                            out.add(it[0].next());
                            out.add(it[0].currentEntry());
                        }
                        if (how == 1 && seen > 0 && seen <= s.size()) {
                            it[0].remove();
                        } else if (how > 1) {
                            out.add(s.add(k));
                            if (how == 3) {
                                out.add(s.remove(k));
                            }
                        }
                        return out;
                    }, () -> {
                        if (how > 1 && what % 2 == 0) {
                            return it[0].next();
                        }
                        if (how == 0 && seen <= s.size() && !s.isEmpty()) { // a valid removal
                            return "none";
                        }
                        it[0].remove();
                        return "removed";
                    }, () -> {
                        final List<Object> out = new ArrayList<>();
                        if (how > 1) {
                            return answer(() -> it[0].next());
                        }
                        while (it[0].next()) {
                            out.add(it[0].currentEntry());
                        }
                        return out;
                    });
                }
            }
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            final Object k = dom.key(r.nextInt(dom.n));
            final int high = s.capacity();
            final int e = r.nextInt(8) == 0 ? r.nextInt(-1, high + 2) : r.nextInt(Math.max(1, Math.min(high, s.size() + reserved.size() + 1)));
            final int j = r.nextInt(Math.max(1, s.size()));
            switch (r.nextInt(vt == null ? 11 : 17)) {
                case 0: return () -> s.lookup(k);
                case 1: return () -> s.contains(k);
                case 2: return () -> s.keyAt(e);
                case 3: return () -> s.size();
                case 4: return () -> s.isEmpty();
                case 5: return () -> s.capacity();
                case 6: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEachEntry(out::add);
                    return out;
                };
                case 7: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEach(out::add);
                    return out;
                };
                case 8: return () -> {
                    final List<Object> out = new ArrayList<>();
                    final EntryIterator it = s.iterator();
                    while (it.next()) {
                        out.add(it.currentEntry());
                    }
                    return out;
                };
                case 9: return () -> { // queries within an enumeration
                    final List<Object> out = new ArrayList<>();
                    s.forEachEntry(x -> {
                        if (out.size() == 2 * j) {
                            s.forEachEntry(out::add);
                        }
                        out.add(x);
                        out.add(s.lookup(k));
                    });
                    return out;
                };
                case 10: return () -> { // an iterator given up halfway
                    final EntryIterator it = s.iterator();
                    for (int i = 0; i < j && it.next(); i++) {
                        it.currentEntry();
                    }
                    return it.next() ? it.currentEntry() : -1;
                };
                case 11: return () -> s.get(k);
                case 12: return () -> s.getOrDefault(k, Dom.value(vt, 7));
                case 13: return () -> s.valueAt(e);
                case 14: return () -> s.valueAtOrDefault(e, Dom.value(vt, 7));
                case 15: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEachValue(out::add);
                    return out;
                };
                default: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEachValue(v -> {
                        out.add(v);
                        out.add(s.getOrDefault(k, null == s.keyAt(0) || vt.isRef() ? Dom.value(vt, 7) : Dom.value(vt, 8)));
                    });
                    return out;
                };
            }
        }
    }

    private static final class Deq extends Rig {
        final DequeSut s;
        final T t;
        int next = 20;

        Deq(final T t, final int init) {
            this.t = t;
            s = U.make(t + "DequeAdapter", init);
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        Object change(final SplittableRandom r) {
            switch (r.nextInt(10)) {
                case 0: return s.isEmpty() ? null : s.removeFirst();
                case 1:
                case 2: return s.isEmpty() ? null : s.removeLast();
                case 3:
                    if (r.nextInt(20) == 0) {
                        s.clear();
                    }
                    return null;
                case 4:
                case 5:
                case 6: s.addFirst(Dom.value(t, next++)); return null;
                default: s.addLast(Dom.value(t, next++)); return null;
            }
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final int j = r.nextInt(Math.max(1, s.size()));
            final int what = r.nextInt(4);
            if (r.nextInt(3) == 0) {
                return new Attempt("forEach of a consumer that throws at " + j, voided(() -> s.forEach(throwing(j))));
            }
            return new Attempt("take " + what + " of an empty deque", () -> {
                final List<Object> out = new ArrayList<>();
                while (!s.isEmpty()) {
                    out.add(what % 2 == 0 ? s.removeFirst() : s.removeLast());
                }
                return out;
            }, () -> {
                switch (what) {
                    case 0: return s.removeFirst();
                    case 1: return s.removeLast();
                    case 2: return s.peekFirst();
                    default: return s.peekLast();
                }
            }, () -> {
                for (int i = 0; i < j; i++) {
                    s.addLast(Dom.value(t, next++));
                    if (what % 2 == 0) {
                        s.addFirst(Dom.value(t, next++));
                    }
                }
                return s.size();
            });
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            switch (r.nextInt(6)) {
                case 0: return () -> s.peekFirst();
                case 1: return () -> s.peekLast();
                case 2: return () -> s.size();
                case 3: return () -> s.isEmpty();
                case 4: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEach(out::add);
                    return out;
                };
                default: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEach(v -> {
                        out.add(v);
                        out.add(s.peekFirst());
                        out.add(s.peekLast());
                        out.add(s.size());
                    });
                    return out;
                };
            }
        }
    }

    private static final class Hyd extends Rig {
        final HydraSut s;
        final T t;
        final int ids;
        int next = 20;

        Hyd(final T t, final int queues, final int init, final int ids) {
            this.t = t;
            this.ids = ids;
            s = U.make(t + "HydraDequeAdapter", queues, init);
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        Object change(final SplittableRandom r) {
            final int id = r.nextInt(ids);
            switch (r.nextInt(10)) {
                case 0: return s.size(id) == 0 ? null : s.removeFirst(id);
                case 1:
                case 2: return s.size(id) == 0 ? null : s.removeLast(id);
                case 3:
                    if (r.nextInt(20) == 0) {
                        s.clear();
                    }
                    return null;
                case 4:
                case 5:
                case 6: return s.addFirst(id, Dom.value(t, next++));
                default: return s.addLast(id, Dom.value(t, next++));
            }
        }

        @Override
        Query open(final SplittableRandom r) {
            final int id = r.nextInt(ids);
            final ItSut it = r.nextBoolean() ? s.iterator(id, null, true) : s.reverseIterator(id, null, true);
            final int n = r.nextInt(s.size(id) + 1);
            for (int i = 0; i < n; i++) {
                it.next();
            }
            return () -> {
                final List<Object> out = new ArrayList<>();
                while (it.hasNext()) {
                    out.add(it.next());
                }
                return out;
            };
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final int id = r.nextInt(ids);
            final int j = r.nextInt(Math.max(1, s.size(id)));
            final int what = r.nextInt(3);
            final boolean f = r.nextBoolean();
            final int bad = r.nextInt(3) == 0 ? ids + r.nextInt(200) : r.nextInt(4) == 0 ? Integer.MIN_VALUE : -1 - r.nextInt(100);
            switch (r.nextInt(6)) {
                case 0: return new Attempt("add to list " + bad, () -> bad >= 0 ? s.size(bad) : f ? s.addFirst(bad, Dom.value(t, 8)) : s.addLast(bad, Dom.value(t, 8)));
                case 1: return new Attempt("remove from list " + bad, () -> f ? s.removeFirst(bad) : s.removeLast(bad));
                case 2: return new Attempt("remove from empty list " + id, () -> {
                    final List<Object> out = new ArrayList<>();
                    while (s.size(id) > 0) {
                        out.add(f ? s.removeFirst(id) : s.removeLast(id));
                    }
                    return out;
                }, () -> what == 0 == f ? s.removeFirst(id) : s.removeLast(id), () -> {
                    final List<Object> out = new ArrayList<>();
                    for (int i = 0; i < j; i++) {
                        out.add(s.addLast(id, Dom.value(t, next++)));
                    }
                    return out;
                });
                case 3: return new Attempt("forEach of a consumer that throws at " + j, voided(() -> (f ? s.iterator(id, null, true) : s.reverseIterator(id, null, true)).forEach(throwing(j))));
                default: {
                    final ItSut[] it = new ItSut[1];
                    final int at = what == 0 ? bad : id;
                    return new Attempt("next past the end of " + at, () -> {
                        final List<Object> out = new ArrayList<>();
                        it[0] = f ? s.iterator(at, null, true) : s.reverseIterator(at, null, true);
                        while (it[0].hasNext()) {
                            out.add(it[0].next());
                        }
                        return out;
                    }, () -> it[0].next(), () -> {
                        final List<Object> out = new ArrayList<>();
                        out.add(it[0].hasNext());
                        it[0] = f ? s.iterator(id, it[0], false) : s.reverseIterator(id, it[0], false);
                        it[0].forEach(out::add);
                        return out;
                    });
                }
            }
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            final int id = r.nextInt(ids);
            final boolean f = r.nextBoolean();
            final boolean shortForm = r.nextBoolean();
            switch (r.nextInt(6)) {
                case 0: return () -> s.size();
                case 1: return () -> s.size(id);
                case 2: return () -> s.isEmpty();
                case 3: return () -> {
                    final List<Object> out = new ArrayList<>();
                    final ItSut it = f ? s.iterator(id, null, shortForm) : s.reverseIterator(id, null, shortForm);
                    it.forEach(out::add);
                    return out;
                };
                case 4: return () -> { // peeking
                    final ItSut it = f ? s.iterator(id, null, shortForm) : s.reverseIterator(id, null, shortForm);
                    return it.hasNext() ? it.next() : "none";
                };
                default: return () -> {
                    final List<Object> out = new ArrayList<>();
                    final ItSut it = f ? s.iterator(id, null, shortForm) : s.reverseIterator(id, null, shortForm);
                    while (it.hasNext()) {
                        out.add(it.next());
                        final ItSut in = f ? s.reverseIterator((id + 1) % ids, null, shortForm) : s.iterator(id, null, shortForm);
                        out.add(in.hasNext() ? in.next() : s.size(id));
                    }
                    return out;
                };
            }
        }
    }

    private static final class Vec extends Rig {
        final VectorSut s;
        final T t;
        int next = 20;

        Vec(final T t, final int init) {
            this.t = t;
            s = U.make(t + "VectorAdapter", init);
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        Object change(final SplittableRandom r) {
            switch (r.nextInt(10)) {
                case 0: s.ensureSize(r.nextInt(2 * s.size() + 5)); return null;
                case 1:
                    if (r.nextInt(20) == 0) {
                        s.clear();
                    }
                    return null;
                default: s.append(Dom.value(t, next++)); return null;
            }
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final int j = r.nextInt(Math.max(1, s.size()));
            final int bad = r.nextBoolean() ? -1 - r.nextInt(100) : r.nextBoolean() ? Integer.MIN_VALUE : Integer.MAX_VALUE;
            switch (r.nextInt(3)) {
                case 0: return new Attempt("valueAt " + bad, () -> s.valueAt(bad));
                case 1: return new Attempt("ensureSize " + bad, voided(() -> s.ensureSize(Math.min(bad, -1))));
                default: return new Attempt("forEach of a consumer that throws at " + j, voided(() -> s.forEach(throwing(j))));
            }
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            final int i = r.nextInt(8) == 0 ? r.nextInt(-1, s.size() + 3) : r.nextInt(Math.max(1, s.size()));
            switch (r.nextInt(5)) {
                case 0:
                case 1: return () -> i < 0 || i >= s.size() ? "outside" : s.valueAt(i);
                case 2: return () -> s.size();
                case 3: return () -> s.isEmpty();
                default: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEach(v -> {
                        out.add(v);
                        out.add(s.valueAt(i < 0 || i >= s.size() ? 0 : i));
                    });
                    return out;
                };
            }
        }
    }

    private static final class Heap extends Rig {
        final HeapSut s;
        final Dom dom;
        final T vt;
        final boolean cmp;
        int next = 20;
        final List<Integer> live = new ArrayList<>();

        Heap(final Dom dom, final T vt, final int init, final boolean cmp) {
            this.dom = dom;
            this.vt = vt;
            this.cmp = cmp;
            s = U.make(dom.type + "" + vt + "HeapAdapter", init);
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        Object change(final SplittableRandom r) {
            final Object k = dom.key(r.nextInt(dom.n));
            switch (r.nextInt(10)) {
                case 0:
                case 1:
                    if (!live.isEmpty()) {
                        final int e = live.remove(r.nextInt(live.size()));
                        s.removeAt(e);
                        return e;
                    }
                    return null;
                case 2: {
                    final int e = s.peek();
                    if (e >= 0) {
                        s.removeAt(e);
                        live.remove((Integer) e);
                    }
                    return e;
                }
                case 3:
                    if (!live.isEmpty()) {
                        s.resetKey(live.get(r.nextInt(live.size())), k);
                    }
                    return s.peek();
                case 4:
                    if (r.nextInt(20) == 0) {
                        s.clear();
                        live.clear();
                    }
                    return null;
                default: {
                    final int e = s.insert(k, Dom.value(vt, next++));
                    live.add(e);
                    return e;
                }
            }
        }

        boolean armed;
        boolean before;
        Object refused;

        /** A comparator that refuses the armed key. */
        void useComparator() {
            s.setComparator((java.util.Comparator<Object>) (a, b) -> {
                if (armed && (java.util.Objects.equals(a, refused) || java.util.Objects.equals(b, refused))) {
                    throw new Refusal();
                }
                return before ? ((Comparable) b).compareTo(a) : ((Comparable) a).compareTo(b);
            });
        }

        private Query refusing(final Object k, final Query q) {
            return () -> {
                armed = true;
                refused = k;
                try {
                    return q.ask();
                } finally {
                    armed = false;
                }
            };
        }

        private Object inserted(final Object k, final Object v) {
            final int e = s.insert(k, v);
            live.add(e);
            return e;
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final Object k = dom.key(r.nextInt(dom.n));
            final int cap = s.capacity();
            int e = r.nextInt(cap);
            if (r.nextBoolean() || live.contains(e)) {
                e = outside(r, cap);
            }
            final int bad = e;
            final int any = live.isEmpty() ? bad : live.get(r.nextInt(live.size()));
            final int j = r.nextInt(Math.max(1, s.size()));
            final Object v = Dom.value(vt, next++);
            final boolean key = r.nextBoolean();
            switch (r.nextInt(13)) {
                case 0: return new Attempt("removeAt " + bad, voided(() -> s.removeAt(bad)));
                case 1:
                case 2: return new Attempt("resetKey of " + bad, voided(() -> s.resetKey(bad, k)));
                case 3: return new Attempt("keyAt, setValueAt", () -> {
                    final int x = bad >= 0 && bad < cap ? -1 : bad;
                    if (key) {
                        return s.keyAt(x);
                    }
                    s.setValueAt(x, v);
                    return null;
                });
                case 4: return new Attempt("setComparator(null)", voided(() -> s.setComparator((String) null)));
                case 5: return new Attempt("default of a heap that is not empty", () -> {
                    if (s.isEmpty()) {
                        return null;
                    }
                    if (key) {
                        s.setDefaultKey(k);
                    } else {
                        s.setDefaultValue(v);
                    }
                    return null;
                });
                case 6: return new Attempt("forEachEntry of a consumer that throws at " + j, voided(() -> s.forEachEntry(throwingInt(j))));
                case 7: return new Attempt("peek", () -> {
                    if (key) {
                        s.clear();
                        live.clear();
                    }
                    return s.isEmpty();
                }, () -> s.peek(), () -> null);
                case 8:
                case 9:
                    if (dom.type == T.Generic && (!cmp || key)) {
                        return new Attempt("insert of a key that cannot be compared", () -> s.isEmpty() ? null : inserted(new Bad(1, true), v));
                    }
                    return cmp ? new Attempt("insert of " + k + " while its comparisons throw", refusing(k, () -> inserted(k, v))) : new Attempt("keyAt " + bad, () -> s.keyAt(bad < 0 ? bad : -1));
                default:
                    if (dom.type == T.Generic && (!cmp || key)) {
                        return new Attempt("resetKey of " + any + " to a key that cannot be compared", () -> {
                            if (s.size() < 2) {
                                return null;
                            }
                            s.resetKey(any, new Bad(1, true));
                            return null;
                        });
                    }
                    return cmp ? new Attempt("resetKey of " + any + " to " + k + " while its comparisons throw", refusing(k, voided(() -> s.resetKey(any, k))))
                            : new Attempt("valueAt", () -> s.valueAt(bad < 0 ? bad : -1));
            }
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            final Object k = dom.key(r.nextInt(dom.n));
            final int e = live.isEmpty() ? -1 : live.get(r.nextInt(live.size()));
            final int any = r.nextInt(s.capacity() + 2);
            switch (r.nextInt(11)) {
                case 0: return () -> s.peek();
                case 1: return () -> s.size();
                case 2: return () -> s.isEmpty();
                case 3: return () -> s.capacity();
                case 4: return () -> s.isValid(any);
                case 5: return () -> e < 0 ? "none" : s.keyAt(e);
                case 6: return () -> e < 0 ? "none" : s.valueAt(e);
                case 7: return () -> s.contains(k);
                case 8: return () -> s.firstEntry(k);
                case 9: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEachEntry(out::add);
                    return out;
                };
                default: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEachEntry(x -> {
                        out.add(x);
                        out.add(s.firstEntry(k));
                        out.add(s.peek());
                    });
                    return out;
                };
            }
        }
    }

    private static final class Store extends Rig {
        final StoreSut s;
        final T t;
        final int fields;
        final boolean matrix;
        int rows;
        int next = 20;

        Store(final T t, final boolean matrix, final int init, final int chunk, final int fields) {
            this.t = t;
            this.fields = matrix ? fields : 1;
            this.matrix = matrix;
            s = matrix ? U.make(t + "ChunkMatrixStoreAdapter", init, chunk, fields) : U.make(t + "ChunkStoreAdapter", init, chunk);
        }

        @Override
        int size() {
            return rows;
        }

        @Override
        Object change(final SplittableRandom r) {
            final int row = r.nextInt(10) == 0 ? r.nextInt(200) : r.nextInt(20);
            rows = Math.max(rows, row + 1);
            s.set(row, r.nextInt(fields), Dom.value(t, next++));
            return null;
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final int row = r.nextInt(3) == 0 ? Integer.MIN_VALUE : -1 - r.nextInt(100);
            final int good = r.nextInt(Math.max(1, rows));
            final int field = r.nextInt(fields);
            final int bad = r.nextBoolean() ? fields + r.nextInt(5) : -1 - r.nextInt(5);
            final Object v = Dom.value(t, next++);
            switch (r.nextInt(matrix ? 6 : 2)) {
                case 0: return new Attempt("get of row " + row, () -> s.get(row, field));
                case 1: return new Attempt("set of row " + row, voided(() -> s.set(row, field, v)));
                case 2: return new Attempt("get of field " + bad, () -> s.get(good, bad));
                case 3: return new Attempt("set of field " + bad, voided(() -> s.set(good, bad, v)));
                case 4: return new Attempt("set of field " + bad + " in a row beyond", voided(() -> s.set(2 * s.capacity(), bad, v)));
                default: return fields < 2 ? new Attempt("set of row " + row, voided(() -> s.set(row, field, v)))
                        : new Attempt("set of a row no matrix can hold", voided(() -> s.set(Integer.MAX_VALUE, field, v)));
            }
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            final int row = r.nextInt(Math.max(1, rows));
            final int beyond = r.nextInt(2 * s.capacity() + 2);
            final int field = r.nextInt(fields);
            switch (r.nextInt(6)) {
                case 0: return () -> s.capacity();
                case 1: return () -> s.get(beyond, field);
                default: return () -> s.get(row, field);
            }
        }
    }

    private static final class Bi extends Rig {
        final CompactOneToMany s;
        final CompactManyToMany m;
        final int n;
        final int stride;

        Bi(final boolean many, final int a, final int b, final int e, final int n, final int stride) {
            m = many ? new CompactManyToMany(a, b, e, true) : null;
            s = many ? m : new CompactOneToMany(a, e, true);
            this.n = n;
            this.stride = stride;
        }

        @Override
        int size() {
            return s.size();
        }

        @Override
        Object change(final SplittableRandom r) {
            final int left = r.nextInt(n) * stride;
            final int right = r.nextInt(n);
            switch (r.nextInt(12)) {
                case 0:
                case 1: return s.remove(left, right);
                case 2: {
                    final int e = s.lookupEntry(left, right);
                    return e < 0 ? -1 : s.removeAt(e);
                }
                case 3: return values(true, left, r.nextInt(4));
                case 4: return m == null ? null : values(false, right, r.nextInt(4));
                default: return s.put(left, right);
            }
        }

        private Object values(final boolean ofLeft, final int key, final int how) {
            final List<Object> out = new ArrayList<>();
            final com.bytefacets.collections.bi.Mapping p = ofLeft ? s.withLeft(key) : m.withRight(key);
            switch (how) {
                case 0: return p.count();
                case 1: p.forEachEntry(out::add); break;
                case 2: p.forEachValue(out::add); break;
                default:
                    for (IntIterator it = p.valueIterator(); it.hasNext();) {
                        out.add(it.next());
                    }
            }
            return out;
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final int left = r.nextInt(n) * stride;
            final int right = r.nextInt(n);
            final int bad = r.nextInt(3) == 0 ? Integer.MIN_VALUE : -1 - r.nextInt(100);
            final int how = r.nextInt(4);
            final int j = r.nextInt(3);
            final boolean both = r.nextBoolean();
            switch (r.nextInt(8)) {
                case 0:
                case 1: return new Attempt("put of left " + bad, () -> s.put(bad, both && m != null ? bad : right));
                case 2: return m == null ? new Attempt("put of left " + bad, () -> s.put(bad, right)) : new Attempt("put of right " + bad, () -> m.put(left, bad));
                case 3: return new Attempt("removeAt " + bad, () -> s.removeAt(how == 0 ? Integer.MAX_VALUE : bad));
                case 4: return new Attempt("removeAtAndReserve " + bad, voided(() -> s.removeAtAndReserve(how == 0 ? Integer.MAX_VALUE : bad)));
                case 5: return new Attempt("freeReservedEntry " + bad, voided(() -> s.freeReservedEntry(how == 0 ? Integer.MAX_VALUE : bad)));
                case 6: {
                    final com.bytefacets.collections.bi.Mapping p = m != null && both ? m.withRight(right) : s.withLeft(left);
                    return new Attempt("enumeration with a consumer that throws at " + j, voided(() -> {
                        final int[] k = {j};
                        final com.bytefacets.collections.functional.IntConsumer f = x -> {
                            if (k[0]-- == 0) {
                                throw new Refusal();
                            }
                        };
                        if (how == 0) {
                            p.forEachEntry(f);
                        } else if (how == 1) {
                            p.forEachValue(f);
                        } else {
                            s.forEachEntry(f);
                        }
                    }));
                }
                default: {
                    final com.bytefacets.collections.bi.Mapping p = m != null && both ? m.withRight(how == 0 ? bad : right) : s.withLeft(how == 0 ? bad : left);
                    final IntIterator[] it = new IntIterator[1];
                    return new Attempt("next past the end", () -> {
                        final List<Object> out = new ArrayList<>();
                        it[0] = how % 2 == 0 ? p.entryIterator() : p.valueIterator();
                        while (it[0].hasNext()) {
                            out.add(it[0].next());
                        }
                        return out;
                    }, () -> it[0].next(), () -> it[0].hasNext());
                }
            }
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            final int left = r.nextInt(n) * stride;
            final int right = r.nextInt(n);
            final int how = r.nextInt(4);
            final int e = r.nextInt(Math.max(1, s.size() + 1));
            switch (r.nextInt(atOnce ? 7 : m == null ? 10 : 13)) {
                case 0: return () -> s.size();
                case 1: return () -> s.contains(left, right);
                case 2: return () -> s.lookupEntry(left, right);
                case 3: return () -> s.getLeftAt(e);
                case 4: return () -> s.getRightAt(e);
                case 5: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEachEntry(out::add);
                    return out;
                };
                case 6: return () -> {
                    final List<Object> out = new ArrayList<>();
                    s.forEachEntry(x -> {
                        out.add(x);
                        out.add(s.getLeftAt(x));
                        out.add(s.getRightAt(x));
                        out.add(s.lookupEntry(left, right));
                    });
                    return out;
                };
                case 7:
                case 8:
                case 9: return () -> values(true, left, how);
                default: return () -> values(false, right, how);
            }
        }
    }

    private static final class Flake extends Rig {
        final Snowflake s;
        final long[] time = {1676731200000L + 1000};
        int ids;
        int calls = -1;

        Flake(final String name) {
            s = Snowflake.snowflake(() -> {
                if (calls >= 0 && calls-- == 0) {
                    throw new Refusal();
                }
                return time[0];
            }, () -> name);
        }

        @Override
        int size() {
            return ids;
        }

        @Override
        Object change(final SplittableRandom r) {
            time[0] += r.nextInt(3);
            ids++;
            return s.nextId();
        }

        @Override
        Attempt attempt(final SplittableRandom r) {
            final int how = r.nextInt(3);
            final boolean full = r.nextInt(10) == 0;
            final long back = 1 + r.nextInt(1000);
            final int later = r.nextInt(3);
            final int pass = r.nextInt(2);
            return new Attempt("nextId " + (how == 0 ? "with a clock that throws" : how == 1 ? "with a clock that steps back" : "with a clock that throws later") + (full ? ", full millisecond" : ""), () -> {
                long id = 0;
                for (int i = 0; i < 4096 && (full || i == 0) && (id = s.nextId()) >= 0 && s.parse(id)[2] != 4095; i++) {
                    ids++;
                }
                return id;
            }, () -> {
                final long was = time[0];
                calls = how == 2 ? later : how == 0 ? 0 : -1;
                if (how == 1) {
                    time[0] -= back;
                } else if (!full) {
                    calls = 0;
                }
                try {
                    return s.nextId();
                } finally {
                    time[0] = was;
                    calls = -1;
                }
            }, () -> {
                time[0] += full ? 1 : pass;
                return s.nextId();
            });
        }

        @Override
        Query query(final SplittableRandom r, final boolean atOnce) {
            final long id = r.nextLong() >>> (1 + r.nextInt(40));
            return () -> Arrays.toString(s.parse(id));
        }
    }

    private static Callable<Rig> rig(final Ctx c, final String kind) {
        switch (kind) {
            case "set":
            case "map": {
                final String[] p = c.oneOf(kind.equals("set") ? HashProps.SETS : HashProps.MAPS).split("/");
                final T vt = kind.equals("map") ? T.of(p[1]) : null;
                final Dom dom = c.bool() ? Dom.draw(c, T.of(p[0]), c.range(1, 60)) : Dom.spread(c, T.of(p[0]), c.range(1, 200), false);
                final int init = c.range(1, 20);
                final double lf = c.oneOf(0.75, 1.0, 0.5, 0.9, 0.25);
                c.op("new " + kind, String.join("/", p), init, lf, dom.kind);
                return () -> new Hash(kind, dom, vt, init, lf);
            }
            case "heap": {
                final String[] p = c.oneOf(HashProps.MAPS).split("/");
                final Dom dom = Dom.spread(c, T.of(p[0]), c.range(1, 100), true);
                final int init = c.range(1, 20);
                final T vt = T.of(p[1]);
                c.op("new heap", String.join("/", p), init, dom.kind);
                final boolean cmp = c.bool();
                return () -> new Heap(dom, vt, init, cmp);
            }
            case "one-to-many":
            case "many-to-many": {
                final int[] k = {c.range(1, 10), c.range(1, 10), c.range(1, 20), c.range(1, 12), c.oneOf(1, 64, 1 << 16)};
                c.op("new " + kind, Arrays.toString(k));
                return () -> new Bi(kind.equals("many-to-many"), k[0], k[1], k[2], k[3], k[4]);
            }
            case "snowflake": {
                c.op("new snowflake");
                return () -> new Flake("node");
            }
            default: {
                final T t = T.of(c.oneOf(SeqProps.ALL));
                final int init = c.range(1, 20);
                final int a = c.range(1, 8);
                final int chunk = c.range(2, 20);
                c.op("new " + t + " " + kind, init, a, chunk);
                switch (kind) {
                    case "deque": return () -> new Deq(t, init);
                    case "hydra": return () -> new Hyd(t, a, init, chunk / 2);
                    case "vector": return () -> new Vec(t, init);
                    default: return () -> new Store(t, kind.equals("matrix"), init, chunk, a);
                }
            }
        }
    }

    private static void build(final Ctx c, final Rig a, final Rig b) {
        final int n = c.weighted(3, 1) == 0 ? 1 + c.skew(60) : 1 + c.skew(600);
        final long seed = c.bits64();
        c.op("changes", n);
        change(c, a, b, n, seed, null, 0);
    }

    /** The same changes of both; queries of the first in between. */
    private static void change(final Ctx c, final Rig a, final Rig b, final int n, final long seed, final SplittableRandom ask, final int den) {
        final SplittableRandom x = new SplittableRandom(seed);
        final SplittableRandom y = new SplittableRandom(seed);
        for (int i = 0; i < n; i++) {
            final String got = result(a, x);
            final String want = result(b, y);
            if (!got.equals(want)) {
                c.fail(1, "change %s gives %s, on a twin without the queries or failed calls %s", i, got, want);
            }
            while (ask != null && ask.nextInt(den) != 0) {
                answer(a.query(ask, false));
            }
        }
    }

    private static List<Query> queries(final Ctx c, final Rig g, final int n, final boolean atOnce) {
        final SplittableRandom r = new SplittableRandom(c.bits64());
        final List<Query> q = new ArrayList<>();
        for (int i = 0; i < n; i++) {
            q.add(g.query(r, atOnce));
        }
        return q;
    }

    private static String[] answers(final List<Query> q) {
        final String[] out = new String[q.size()];
        for (int i = 0; i < out.length; i++) {
            out[i] = answer(q.get(i));
        }
        return out;
    }

    private static int[] shuffled(final int n, final SplittableRandom r) {
        final int[] o = new int[n];
        for (int i = 0; i < n; i++) {
            final int j = r.nextInt(i + 1);
            o[i] = o[j];
            o[j] = i;
        }
        return o;
    }

    /** Both must look the same from outside. */
    private static void twins(final Ctx c, final Rig a, final Rig b) {
        final long seed = c.bits64();
        final SplittableRandom x = new SplittableRandom(seed);
        final SplittableRandom y = new SplittableRandom(seed);
        for (int i = 0; i < 30; i++) {
            final String got = answer(a.query(x, false));
            final String want = answer(b.query(y, false));
            if (!got.equals(want)) {
                c.fail(1, "query %s answers %s, on a twin without the queries or failed calls %s", i, got, want);
            }
        }
    }

    static void ordered(final Ctx c, final String kind) throws Exception {
        final Callable<Rig> make = rig(c, kind);
        final Rig a = make.call();
        final Rig b = make.call();
        build(c, a, b);
        if (a.size() >= 2) {
            c.nontrivial();
        }
        final int rounds = c.range(1, 3);
        for (int round = 0; round < rounds; round++) {
            final List<Query> q = queries(c, a, 1 + c.skew(60), false);
            c.op("queries", q.size());
            final String[] first = answers(q);
            final SplittableRandom r = new SplittableRandom(c.bits64());
            for (int t = 0; t < 2; t++) {
                final int[] order = shuffled(q.size(), r);
                for (int i : order) {
                    final String got = answer(q.get(i));
                    if (!got.equals(first[i])) {
                        c.fail(1, "query %s answered %s, and after other queries %s", i, first[i], got);
                    }
                }
            }
            final int n = 1 + c.skew(40);
            final long seed = c.bits64();
            final int den = c.oneOf(2, 4, 8);
            c.op("changes, queries in between", n, den);
            change(c, a, b, n, seed, new SplittableRandom(c.bits64()), den);
        }
        twins(c, a, b);
    }

    static void failing(final Ctx c, final String kind) throws Exception {
        final Callable<Rig> make = rig(c, kind);
        final Rig a = make.call();
        final Rig b = make.call();
        if (a instanceof Hash && c.bool()) {
            ((Hash) a).useFunctions();
            ((Hash) b).useFunctions();
        }
        if (a instanceof Heap && ((Heap) a).cmp) {
            ((Heap) a).useComparator();
            ((Heap) b).useComparator();
        }
        build(c, a, b);
        final int rounds = 1 + c.skew(12);
        int failed = 0;
        for (int round = 0; round < rounds; round++) {
            final long seed = c.bits64();
            final Attempt x = a.attempt(new SplittableRandom(seed));
            final Attempt y = b.attempt(new SplittableRandom(seed));
            c.op(x.name);
            same(c, "before a call that may fail (" + x.name + ")", answer(x.before), answer(y.before));
            final long at = c.bits64();
            final Query restOfX = a.open(new SplittableRandom(at));
            final Query restOfY = b.open(new SplittableRandom(at));
            final int size = a.size();
            Object got = null;
            boolean ok = false;
            try {
                got = x.call.ask();
                ok = true;
            } catch (ThreadDeath | OutOfMemoryError e) {
                throw e;
            } catch (Throwable e) {
                failed++;
                c.label("call-failed");
                if (size >= 2) {
                    c.nontrivial();
                }
                c.eq(1, a.size(), size, "size after a call that failed:", x.name);
            }
            if (ok) {
                same(c, x.name, Ctx.show(got), answer(y.call));
            }
            if (c.bool()) {
                same(c, "an open iterator after " + x.name, answer(restOfX), answer(restOfY));
                same(c, "after " + x.name, answer(x.after), answer(y.after));
            } else {
                same(c, "after " + x.name, answer(x.after), answer(y.after));
                same(c, "an open iterator after " + x.name, answer(restOfX), answer(restOfY));
            }
            if (c.bool()) {
                twins(c, a, b);
            }
            final int n = c.skew(30);
            c.op("changes", n);
            change(c, a, b, n, c.bits64(), null, 0);
        }
        twins(c, a, b);
        c.inputs(rounds);
    }

    private static void same(final Ctx c, final String what, final String got, final String want) {
        if (!got.equals(want)) {
            c.fail(1, "%s: %s, on a twin without the calls that failed %s", what, got, want);
        }
    }

    static void atOnce(final Ctx c, final String kind) throws Exception {
        final Callable<Rig> make = rig(c, kind);
        final Rig a = make.call();
        final Rig b = make.call();
        build(c, a, b);
        if (a.size() >= 2) {
            c.nontrivial();
        }
        final List<Query> q = queries(c, a, 2 + c.skew(60), true);
        final String[] want = answers(q);
        final int n = c.range(2, 4);
        final int rounds = c.range(3, 40);
        final long seed = c.bits64();
        c.op("threads, queries, rounds", n, q.size(), rounds);
        hammer(c, q, want, n, rounds, seed);
        final int more = 1 + c.skew(40);
        c.op("changes", more);
        change(c, a, b, more, c.bits64(), null, 0);
        twins(c, a, b);
        c.inputs((long) n * rounds * want.length);
    }

    /** Threads that make all calls again and again, each in orders of its own, and compare the answers with the ones wanted. */
    @SuppressWarnings({"deprecation", "removal"})
    private static void hammer(final Ctx c, final List<Query> q, final String[] want, final int n, final int rounds, final long seed) {
        final AtomicInteger ready = new AtomicInteger();
        final String[] bad = new String[n];
        final Thread[] ts = new Thread[n];
        for (int t = 0; t < n; t++) {
            final int me = t;
            ts[t] = new Thread(() -> {
                final SplittableRandom r = new SplittableRandom(seed + me);
                ready.incrementAndGet();
                for (int spin = 0; ready.get() < n; spin++) {
                    if (spin > 1000) {
                        Thread.yield();
                    }
                }
                for (int k = 0; k < rounds && bad[me] == null; k++) {
                    for (int i : shuffled(want.length, r)) {
                        final String got = answer(q.get(i));
                        if (!got.equals(want[i])) {
                            bad[me] = "query " + i + " answered " + want[i] + ", and to one of several threads " + got;
                            break;
                        }
                    }
                }
            }, "asker" + t);
            ts[t].setDaemon(true);
            ts[t].start();
        }
        try {
            for (Thread t : ts) {
                for (t.join(1000); t.isAlive(); t.join(1000)) {
                    for (Thread u : ts) {
                        if (MX.getThreadCpuTime(u.getId()) > 20_000_000_000L) {
                            for (Thread x : ts) {
                                x.stop();
                            }
                            c.fail(1, "queries do not finish when several threads make them");
                        }
                    }
                }
            }
        } catch (InterruptedException e) {
            for (Thread x : ts) {
                x.stop();
            }
            throw new ThreadDeath();
        }
        for (String s : bad) {
            c.that(-1L, s == null, "%s", s);
        }
    }

    // ------------------------------------------------------------------ C42: static helpers
    private static final String[] CMP = {"Asc", "Desc", "AbsAsc", "AbsDesc"};
    private static final String[] PRED = {"IS_EQ", "IS_NEQ", "IS_LT", "IS_LTE", "IS_GT", "IS_GTE"};

    private static String bytes(final byte[] a) {
        return Arrays.toString(a);
    }

    /** One call of a static helper with arguments of its own. */
    private static Query helper(final Ctx c, final T t, final TypeSut s, final ArraySut a) {
        final Object v = TypeProps.value(c, t, false);
        final Object w = c.chance(1, 4) ? v : TypeProps.value(c, t, false);
        final boolean le = c.bool();
        final int pos = c.range(0, 5);
        final String cmp = c.oneOf(CMP);
        final String pred = c.oneOf(PRED);
        final int x = (int) c.bits64();
        final int y = (int) c.bits64();
        final int len = c.range(0, 12);
        switch (c.weighted(s.coded() ? 8 : 0, s.coded() ? 4 : 0, 2, 2, 2, 2, 2, 2, 3, 2, 2, 2, 3)) {
            case 0: return () -> {
                final byte[] b = new byte[16];
                final int end = s.write(le, b, pos, v);
                return end + " " + bytes(b);
            };
            case 1: return () -> {
                final byte[] b = new byte[16];
                s.write(le, b, pos, v);
                return s.read(le, b, pos);
            };
            case 2: return () -> s.cmp(cmp, v, w);
            case 3: return () -> s.pred(pred, v, w);
            case 4: return () -> s.hash(v);
            case 5: return () -> s.eq(v, w);
            case 6: return () -> s.convert(v);
            case 7: return () -> s.parseString(String.valueOf(v));
            case 8: {
                final LocalDate d = LocalDate.of(c.range(0, 9999), c.range(1, 12), c.range(1, 28));
                final LocalTime h = LocalTime.of(c.range(0, 23), c.range(0, 59), c.range(0, 59));
                final java.util.Date u = new java.util.Date(86_400_000L * c.range(0, 20000));
                final int n = IntType.fromLocalDate(d);
                final int m = IntType.fromLocalTime(h);
                switch (c.pick(5)) {
                    case 0: return () -> IntType.fromLocalDate(d);
                    case 1: return () -> IntType.fromLocalTime(h);
                    case 2: return () -> IntType.toLocalDate(n);
                    case 3: return () -> IntType.toLocalTime(m);
                    default: return () -> IntType.fromSqlDate(new java.util.Date(u.getTime()));
                }
            }
            case 9: return () -> {
                final long p = Pack.packToLong(x, y);
                return p + " " + Pack.unpackHiInt(p) + " " + Pack.unpackLoInt(p) + " " + NumUtils.nextPowerOf2(x & 0xffff);
            };
            case 10: return () -> {
                final Object r = a.create(len, v);
                a.fill(r, w, len / 2, len - len / 2);
                return list(a.resize(r, len + 3));
            };
            case 11: return () -> list(a.ensureEntry(a.create(1 + len, v), 2 * len, w));
            default: {
                final int[] order = new int[2 + c.skew(60)];
                for (int i = 0; i < order.length; i++) {
                    order[i] = c.pick(40) - 20;
                }
                return () -> {
                    final int[] k = order.clone();
                    final int[] companion = new int[k.length];
                    for (int i = 0; i < k.length; i++) {
                        companion[i] = k[i] * 7;
                    }
                    IntIntCompanionSort.sort(k, companion, 0, k.length, le ? IntType.Asc : IntType.Desc);
                    return Arrays.toString(k) + Arrays.toString(companion);
                };
            }
        }
    }

    private static List<Object> list(final Object array) {
        final List<Object> out = new ArrayList<>();
        for (int i = 0; i < java.lang.reflect.Array.getLength(array); i++) {
            out.add(java.lang.reflect.Array.get(array, i));
        }
        return out;
    }

    /** Static helpers called by several threads give what they give to one. */
    static void helpers(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final TypeSut s = U.make(subject + "TypeAdapter");
        final ArraySut a = U.make(subject + "ArrayAdapter");
        final int k = c.chance(1, 3) ? c.range(1, 3) : c.range(2, 30); // few: threads meet in the same helper more often
        final List<Query> q = new ArrayList<>();
        for (int i = 0; i < k; i++) {
            final Query h = helper(c, t, s, a);
            q.add(h);
            if (k < 4) {
                q.add(helper(c, t, s, a));
            }
        }
        final String[] want = answers(q);
        c.op("static helpers of " + subject, Arrays.asList(want));
        final int n = c.range(2, 4);
        final int rounds = 6000 / want.length;
        c.op("threads, calls, rounds", n, want.length, rounds);
        hammer(c, q, want, n, rounds, c.bits64());
        c.inputs((long) n * rounds * want.length);
        c.nontrivial();
    }
}
