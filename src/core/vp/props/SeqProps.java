package vp.props;

import com.bytefacets.collections.exception.InvalidEntryException;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.Iterator;
import java.util.LinkedList;
import java.util.List;
import java.util.Map;
import java.util.NoSuchElementException;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.DequeSut;
import vp.sut.HydraSut;
import vp.sut.ItSut;
import vp.sut.T;
import vp.sut.U;
import vp.sut.VectorSut;

/** Deques, hydra deques and vectors: C15-C19 (and C11 over them). */
final class SeqProps {
    static final long MAIN = 1, REACH = 2048;
    static final long LISTS = 1, ITER = 2, ENTRY = 4;
    static final String[] ALL = T.names(true);
    static final String[] REFS = {"String", "Generic"};

    static Prop get(final String id) {
        switch (id) {
            case "C15":
                return new Prop(id, MAIN, "a case is a history on one deque; non-trivial when it grew after elements had been taken or added at the front",
                        new String[0], Part.of("deque", ALL, 400000, 8000000, SeqProps::deque), Part.of("large", ALL, 80, 1500, Large::deque));
            case "C16":
                return new Prop(id, LISTS, "a case is a history over several list ids; non-trivial when at least two lists were non-empty at once "
                        + "and storage was reused", new String[0], Part.of("hydra", ALL, 250000, 5000000, (c, s) -> hydra(c, s)), Part.of("large", ALL, 60, 1000, Large::hydra));
            case "C17":
                return new Prop(id, ITER, "a case is a history with iterations; non-trivial when a list of at least two elements was iterated by "
                        + "a reused iterator or partly by next and then forEach", new String[0],
                        Part.of("hydra", ALL, 250000, 5000000, (c, s) -> hydra(c, s)), Part.of("large", ALL, 40, 1000, Large::hydra));
            case "C18":
                return new Prop(id, ENTRY, "a case is a history; non-trivial when an entry was reused", new String[0],
                        Part.of("hydra", ALL, 250000, 5000000, (c, s) -> hydra(c, s)), Part.of("large", ALL, 60, 1000, Large::hydra));
            case "C19":
                return new Prop(id, MAIN, "a case is a history on one vector; non-trivial when it grew while holding elements",
                        new String[0], Part.of("vector", ALL, 300000, 6000000, SeqProps::vector), Part.of("large", ALL, 40, 800, Large::vector));
            default:
                return null;
        }
    }

    private static int capacity(final Ctx c) {
        switch (c.weighted(4, 3, 3, 1)) {
            case 0: return c.range(1, 4);
            case 1: return c.range(1, 20);
            case 2: return Math.max(1, (1 << c.range(1, 7)) + c.range(-1, 1));
            default: return c.range(1, 500);
        }
    }

    static final class Gen {
        final Ctx c;
        final T t;
        int next = 20;

        Gen(final Ctx c, final T t) {
            this.c = c;
            this.t = t;
        }

        Object value() {
            return c.weighted(1, 5) == 0 ? Dom.value(c, t) : fresh();
        }

        Object fresh() {
            return Dom.value(t, next++);
        }
    }

    // ------------------------------------------------------------------ deque
    static void deque(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final Gen g = new Gen(c, t);
        final int cap = capacity(c);
        c.op("new " + subject + "Deque", cap);
        final DequeSut s = U.make(subject + "DequeAdapter", cap);
        final Reach reach = c.has(REACH) ? new Reach(c) : null;
        final LinkedList<Object> m = new LinkedList<>();
        c.that(s.size() == 0 && s.isEmpty(), "new deque is not empty");
        final int bias = c.pick(4); // 0 balanced, 1 front, 2 back, 3 fifo
        boolean front = false;
        boolean grown = false;
        int watermark = Integer.highestOneBit(Math.max(1, cap - 1)) * 2;
        final int mean = c.weighted(3, 2) == 0 ? 20 : 80;
        final int af = bias == 2 ? 4 : bias == 3 ? 1 : 12;
        final int al = bias == 1 ? 4 : 14;
        final int rf = bias == 2 ? 3 : 10;
        final int rl = bias == 1 ? 3 : bias == 3 ? 1 : 10;
        while (c.more(mean)) {
            switch (c.weighted(af, al, rf, rl, 4, 4, 1, 2, 4, 4)) {
                case 0: {
                    final Object v = g.value();
                    c.op("addFirst", v);
                    s.addFirst(v);
                    m.addFirst(v);
                    reachable(reach, v);
                    front = true;
                    break;
                }
                case 1: {
                    final Object v = g.value();
                    c.op("addLast", v);
                    s.addLast(v);
                    m.addLast(v);
                    reachable(reach, v);
                    break;
                }
                case 2:
                    front = true;
                    removeOne(c, t, s, m, true);
                    break;
                case 3:
                    removeOne(c, t, s, m, false);
                    break;
                case 4:
                    peek(c, t, s, m, true);
                    break;
                case 5:
                    peek(c, t, s, m, false);
                    break;
                case 6:
                    c.op("clear");
                    s.clear();
                    m.clear();
                    c.that(s.size() == 0 && s.isEmpty(), "deque is not empty after clear");
                    break;
                case 7:
                    compare(c, t, s, m);
                    if (c.weighted(2, 1) == 1) {
                        c.interrupted(MAIN, "forEach", true, s::forEach);
                    }
                    break;
                case 8: {
                    final int k = 1 + c.skew(c.thorough ? 400 : 150);
                    final boolean first = c.bool();
                    c.op(first ? "addFirst many" : "addLast many", k);
                    for (int i = 0; i < k; i++) {
                        final Object v = g.fresh();
                        if (first) {
                            s.addFirst(v);
                            m.addFirst(v);
                            front = true;
                        } else {
                            s.addLast(v);
                            m.addLast(v);
                        }
                        reachable(reach, v);
                    }
                    break;
                }
                default: {
                    final int k = 1 + c.skew(c.thorough ? 400 : 150);
                    final boolean first = c.bool();
                    c.op(first ? "removeFirst many" : "removeLast many", k);
                    for (int i = 0; i < k && !m.isEmpty(); i++) {
                        final Object want = first ? m.removeFirst() : m.removeLast();
                        final Object got = first ? s.removeFirst() : s.removeLast();
                        same(c, t, got, want, first ? "removeFirst" : "removeLast");
                        front |= first;
                    }
                }
            }
            c.eq(MAIN, s.size(), m.size(), "size");
            c.eq(MAIN, s.isEmpty(), m.isEmpty(), "isEmpty");
            if (m.size() >= watermark) {
                watermark *= 2;
                grown |= front;
            }
            if (reach != null) {
                reach.check(s.raw(), m, "deque");
            }
        }
        compare(c, t, s, m);
        final boolean drainFront = c.bool();
        c.op(drainFront ? "drain from the front" : "drain from the back");
        while (!m.isEmpty()) {
            same(c, t, drainFront ? s.removeFirst() : s.removeLast(), drainFront ? m.removeFirst() : m.removeLast(), "drain");
        }
        c.eq(MAIN, s.size(), 0, "size after drain");
        compare(c, t, s, m);
        if (reach != null) {
            reach.check(s.raw(), m, "drained deque");
        }
        if (grown && c.has(MAIN)) {
            c.nontrivial();
        }
    }

    private static void reachable(final Reach r, final Object v) {
        if (r != null) {
            r.ever(v);
        }
    }

    private static void same(final Ctx c, final T t, final Object got, final Object want, final String what) {
        c.that(MAIN, Dom.sameValue(t, got, want), what + " = %s, expected %s", got, want);
    }

    private static void removeOne(final Ctx c, final T t, final DequeSut s, final LinkedList<Object> m, final boolean first) {
        c.op(first ? "removeFirst" : "removeLast");
        if (m.isEmpty()) {
            c.throwsX(MAIN, NoSuchElementException.class, "removing from an empty deque", first ? s::removeFirst : s::removeLast);
            c.label("remove-on-empty");
            return;
        }
        final Object got = first ? s.removeFirst() : s.removeLast();
        c.res(got);
        same(c, t, got, first ? m.removeFirst() : m.removeLast(), first ? "removeFirst" : "removeLast");
    }

    private static void peek(final Ctx c, final T t, final DequeSut s, final LinkedList<Object> m, final boolean first) {
        c.op(first ? "peekFirst" : "peekLast");
        if (m.isEmpty()) {
            c.throwsX(MAIN, NoSuchElementException.class, "peeking at an empty deque", first ? s::peekFirst : s::peekLast);
            return;
        }
        final Object got = first ? s.peekFirst() : s.peekLast();
        c.res(got);
        same(c, t, got, first ? m.getFirst() : m.getLast(), first ? "peekFirst" : "peekLast");
    }

    private static void compare(final Ctx c, final T t, final DequeSut s, final List<Object> m) {
        c.op("forEach");
        final Iterator<Object> it = m.iterator();
        final int[] i = {0};
        s.forEach(v -> {
            c.pause();
            c.that(MAIN, it.hasNext(), "forEach yields more than %s elements", m.size());
            final Object want = it.next();
            c.that(MAIN, Dom.sameValue(t, v, want), "forEach yields %s at position %s, expected %s", v, i[0], want);
            i[0]++;
        });
        c.that(MAIN, !it.hasNext(), "forEach yields %s of %s elements", i[0], m.size());
    }

    // ------------------------------------------------------------------ vector
    static void vector(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final Gen g = new Gen(c, t);
        final int cap = capacity(c);
        c.op("new " + subject + "Vector", cap);
        final VectorSut s = U.make(subject + "VectorAdapter", cap);
        final Reach reach = c.has(REACH) ? new Reach(c) : null;
        final List<Object> m = new ArrayList<>();
        c.that(s.size() == 0 && s.isEmpty(), "new vector is not empty");
        boolean grown = false;
        while (c.more(c.has(REACH) ? 12 : 20)) {
            switch (c.weighted(14, 6, 4, 2, 3)) {
                case 0: {
                    final Object v = g.value();
                    c.op("append", v);
                    grown |= !m.isEmpty() && Integer.bitCount(m.size()) == 1 && m.size() >= cap;
                    s.append(v);
                    m.add(v);
                    reachable(reach, v);
                    break;
                }
                case 1: {
                    final int k = 1 + c.skew(c.thorough ? 600 : 200);
                    c.op("append many", k);
                    grown |= !m.isEmpty() && m.size() + k > 2 * cap;
                    for (int i = 0; i < k; i++) {
                        final Object v = g.fresh();
                        s.append(v);
                        m.add(v);
                        reachable(reach, v);
                    }
                    break;
                }
                case 2: {
                    final int n = c.weighted(6, 2, 1) == 0 ? c.range(0, 2 * m.size() + 10) : c.oneOf(0, 1, m.size(), m.size() + 1, cap + 1, 1000, -1);
                    c.op("ensureSize", n);
                    s.ensureSize(n);
                    grown |= n > cap && !m.isEmpty();
                    break;
                }
                case 3:
                    c.op("clear");
                    s.clear();
                    m.clear();
                    break;
                default:
                    if (!m.isEmpty()) {
                        final int i = c.pick(m.size());
                        c.op("valueAt", i);
                        c.that(MAIN, Dom.sameValue(t, s.valueAt(i), m.get(i)), "valueAt(%s) = %s, expected %s", i, s.valueAt(i), m.get(i));
                    }
            }
            vectorSame(c, t, s, m, false);
            if (reach != null) {
                reach.check(s.raw(), m, "vector");
            }
        }
        vectorSame(c, t, s, m, true);
        if (c.weighted(2, 1) == 1) {
            c.interrupted(MAIN, "forEach", true, s::forEach);
            vectorSame(c, t, s, m, true);
        }
        if (grown && c.has(MAIN)) {
            c.nontrivial();
        }
    }

    private static void vectorSame(final Ctx c, final T t, final VectorSut s, final List<Object> m, final boolean all) {
        c.eq(MAIN, s.size(), m.size(), "size");
        c.eq(MAIN, s.isEmpty(), m.isEmpty(), "isEmpty");
        final int step = all || m.size() < 40 ? 1 : 1 + m.size() / 20;
        for (int i = 0; i < m.size(); i += step) {
            final Object got = s.valueAt(i);
            c.that(MAIN, Dom.sameValue(t, got, m.get(i)), "valueAt(%s) = %s, expected %s", i, got, m.get(i));
        }
        if (all || m.size() < 40) {
            final int[] i = {0};
            s.forEach(v -> {
                c.pause();
                c.that(MAIN, i[0] < m.size(), "forEach yields more than %s elements", m.size());
                c.that(MAIN, Dom.sameValue(t, v, m.get(i[0])), "forEach yields %s at %s, expected %s", v, i[0], m.get(i[0]));
                i[0]++;
            });
            c.that(MAIN, i[0] == m.size(), "forEach yields %s of %s elements", i[0], m.size());
        }
    }

    // ------------------------------------------------------------------ hydra deque
    static final class Elem {
        final Object v;
        final int entry;

        Elem(final Object v, final int entry) {
            this.v = v;
            this.entry = entry;
        }
    }

    static void hydra(final Ctx c, final String subject) {
        new Hydra(c, subject).run();
    }

    static final class Hydra {
        final Ctx c;
        final T t;
        final Gen g;
        final HydraSut s;
        final Reach reach;
        final Map<Integer, LinkedList<Elem>> m = new HashMap<>();
        final List<Integer> ids = new ArrayList<>();
        int total;
        int issued;
        int free;
        boolean[] occupied = new boolean[16];
        int nonEmpty;
        boolean two;
        boolean reused;
        ItSut fwd;
        ItSut rev;

        Hydra(final Ctx c, final String subject) {
            this.c = c;
            t = T.of(subject);
            g = new Gen(c, t);
            final int queues = c.weighted(4, 1) == 0 ? c.range(0, 5) : c.range(0, 50);
            final int cap = capacity(c);
            c.op("new " + subject + "HydraDeque", queues, cap);
            s = U.make(subject + "HydraDequeAdapter", queues, cap);
            reach = c.has(REACH) ? new Reach(c) : null;
            final int n = 1 + c.pick(6);
            for (int i = 0; i < n; i++) {
                ids.add(c.weighted(8, 3, 1) == 0 ? i : c.bool() ? c.range(0, 60) : c.range(0, 3000));
            }
        }

        LinkedList<Elem> list(final int id) {
            return m.computeIfAbsent(id, k -> new LinkedList<>());
        }

        void run() {
            c.that(s.size() == 0 && s.isEmpty(), "new hydra deque is not empty");
            final int mean = c.weighted(3, 2) == 0 ? 20 : 80;
            while (c.more(mean)) {
                final int id = ids.get(c.pick(ids.size()));
                switch (c.weighted(10, 12, 8, 8, 3, 3, 1, c.has(ITER) ? 10 : 2, 2, 2)) {
                    case 0: add(id, true); break;
                    case 1: add(id, false); break;
                    case 2: remove(id, true); break;
                    case 3: remove(id, false); break;
                    case 4: {
                        final int k = 1 + c.skew(60);
                        final boolean alt = c.bool();
                        final boolean first = c.bool();
                        for (int i = 0; i < k; i++) {
                            add(alt ? ids.get(i % ids.size()) : id, first);
                        }
                        break;
                    }
                    case 5: {
                        final int k = 1 + c.skew(60);
                        final boolean first = c.bool();
                        for (int i = 0; i < k && !list(id).isEmpty(); i++) {
                            remove(id, first);
                        }
                        break;
                    }
                    case 6:
                        c.op("clear");
                        s.clear();
                        m.clear();
                        total = 0;
                        issued = 0;
                        free = 0;
                        java.util.Arrays.fill(occupied, false);
                        c.label("clear");
                        break;
                    case 7: iterate(id); break;
                    case 8: unknown(); break;
                    default: sizes(); break;
                }
                if (reach != null) {
                    reach.check(s.raw(), values(), "hydra deque");
                }
            }
            sizes();
            for (int id : ids) {
                whole(id);
            }
            if (c.has(LISTS) && two && reused) {
                c.nontrivial();
            }
            if (c.has(ENTRY) && reused) {
                c.nontrivial();
            }
            c.op("drain");
            for (int id : ids) {
                final boolean first = c.bool();
                while (!list(id).isEmpty()) {
                    remove(id, first);
                }
            }
            c.eq(LISTS, s.size(), 0, "size after drain");
            c.eq(LISTS, s.isEmpty(), true, "isEmpty after drain");
            if (reach != null) {
                reach.check(s.raw(), values(), "drained hydra deque");
            }
        }

        List<Object> values() {
            final List<Object> out = new ArrayList<>();
            m.values().forEach(l -> l.forEach(e -> out.add(e.v)));
            return out;
        }

        void add(final int id, final boolean first) {
            final Object v = g.value();
            reachable(reach, v);
            c.op(first ? "addFirst" : "addLast", id, v);
            final int e = first ? s.addFirst(id, v) : s.addLast(id, v);
            c.res(e);
            c.that(ENTRY, e >= 0, "entry %s", e);
            if (e < issued) {
                c.that(ENTRY, !occupied[e], "entry %s is already occupied", e);
                free--;
                reused = true;
                c.label("reused");
            } else {
                c.that(ENTRY, free == 0, "entry %s issued although %s of %s entries are free", e, free, issued);
                c.that(ENTRY, e == issued, "entry %s issued, expected %s", e, issued);
                issued = Math.max(issued, e + 1);
            }
            if (e >= 0 && e < 1 << 24) {
                if (e >= occupied.length) {
                    occupied = java.util.Arrays.copyOf(occupied, Math.max(e + 1, 2 * occupied.length));
                }
                occupied[e] = true;
            }
            final LinkedList<Elem> l = list(id);
            if (first) {
                l.addFirst(new Elem(v, e));
            } else {
                l.addLast(new Elem(v, e));
            }
            total++;
            two |= total > l.size();
            c.eq(LISTS, s.size(id), l.size(), "size", id);
            c.eq(LISTS, s.size(), total, "size");
        }

        void remove(final int id, final boolean first) {
            c.op(first ? "removeFirst" : "removeLast", id);
            final LinkedList<Elem> l = list(id);
            if (l.isEmpty()) {
                c.throwsX(LISTS, NoSuchElementException.class, "removing from an empty list", () -> {
                    if (first) {
                        s.removeFirst(id);
                    } else {
                        s.removeLast(id);
                    }
                });
                c.eq(LISTS, s.size(), total, "size");
                return;
            }
            final Elem want = first ? l.removeFirst() : l.removeLast();
            final Object got = first ? s.removeFirst(id) : s.removeLast(id);
            c.res(got);
            c.that(LISTS, Dom.sameValue(t, got, want.v), (first ? "removeFirst" : "removeLast") + "(%s) = %s, expected %s", id, got, want.v);
            total--;
            if (want.entry >= 0 && want.entry < occupied.length) {
                occupied[want.entry] = false;
            }
            free++;
            c.eq(LISTS, s.size(id), l.size(), "size", id);
            c.eq(LISTS, s.size(), total, "size");
        }

        /** Ids that were never used, and negative ones. */
        void unknown() {
            final int id = c.oneOf(-1, Integer.MIN_VALUE, 5000, Integer.MAX_VALUE, -2, 4000 + c.pick(100));
            c.op("unknown list", id);
            c.eq(LISTS, s.size(id), 0, "size", id);
            c.throwsX(LISTS, NoSuchElementException.class, "removeFirst of an unknown list", () -> s.removeFirst(id));
            c.throwsX(LISTS, NoSuchElementException.class, "removeLast of an unknown list", () -> s.removeLast(id));
            final boolean shortForm = c.bool();
            final ItSut f = s.iterator(id, fwd, shortForm);
            c.that(ITER, !f.hasNext(), "the iterator of unknown list %s has an element", id);
            c.throwsX(ITER, InvalidEntryException.class, "next of an empty iterator", f::next);
            final ItSut r = s.reverseIterator(id, rev, shortForm);
            c.that(ITER, !r.hasNext(), "the reverse iterator of unknown list %s has an element", id);
            c.throwsX(ITER, InvalidEntryException.class, "next of an empty reverse iterator", r::next);
            fwd = f;
            rev = r;
            c.eq(LISTS, s.size(), total, "size");
        }

        void sizes() {
            int sum = 0;
            for (Map.Entry<Integer, LinkedList<Elem>> e : m.entrySet()) {
                c.eq(LISTS, s.size(e.getKey()), e.getValue().size(), "size", e.getKey());
                sum += e.getValue().size();
            }
            c.eq(LISTS, s.size(), sum, "size");
            c.eq(LISTS, s.isEmpty(), sum == 0, "isEmpty");
        }

        void iterate(final int id) {
            final boolean forward = c.bool();
            final ItSut old = forward ? fwd : rev;
            final boolean reuse = old != null && c.bool();
            final boolean shortForm = !reuse && c.bool();
            final int by = c.weighted(3, 2, 2); // stepwise, some steps and then forEach, or some steps and then given up
            final List<Elem> want = new ArrayList<>(list(id));
            if (!forward) {
                Collections.reverse(want);
            }
            c.op(forward ? "iterator" : "reverseIterator", id, reuse ? "reused" : "new", by == 0 ? "next" : by == 1 ? "next then forEach" : "abandoned");
            final ItSut it = forward ? s.iterator(id, reuse ? old : null, shortForm) : s.reverseIterator(id, reuse ? old : null, shortForm);
            int i = 0;
            final int steps = by == 0 ? want.size() : c.pick(want.size() + 1);
            for (; i < steps; i++) {
                if (c.chance(3, 4)) {
                    c.that(ITER | LISTS, it.hasNext(), "hasNext is false at %s of %s", i, want.size());
                }
                final Object v = it.next();
                c.that(ITER | LISTS, Dom.sameValue(t, v, want.get(i).v), (forward ? "iterator" : "reverse iterator") + " yields %s at %s, expected %s", v, i, want.get(i).v);
            }
            if (by == 1) {
                final int[] at = {i};
                it.forEach(v -> {
                    c.pause();
                    c.that(ITER, at[0] < want.size(), "the iterator's forEach yields more than %s elements", want.size());
                    c.that(ITER, Dom.sameValue(t, v, want.get(at[0]).v), "the iterator's forEach yields %s at %s, expected %s", v, at[0], want.get(at[0]).v);
                    at[0]++;
                });
                i = at[0];
                c.that(ITER, i == want.size(), "the iterator's forEach ended after %s of %s elements", i, want.size());
            }
            if (by == 1 && c.bool()) {
                c.interrupted(ITER, "the iterator's forEach", true, sink -> (forward ? s.iterator(id, null, true) : s.reverseIterator(id, null, true)).forEach(sink));
                c.interrupted(ITER, "the reused iterator's forEach", false, sink -> (forward ? s.iterator(id, it, true) : s.reverseIterator(id, it, true)).forEach(sink));
            }
            if (by == 2) {
                c.label("abandoned-iterator");
                if (c.bool()) {
                    interleaved(id, want, forward, it, i);
                }
            } else if (!(by == 0 && c.chance(1, 4) && i > 0)) {
                c.that(ITER | LISTS, !it.hasNext(), "hasNext is true after %s elements", i);
                c.throwsX(ITER, InvalidEntryException.class, "next past the end", it::next);
                c.that(ITER, !it.hasNext(), "hasNext is true past the end");
            }
            if (forward) {
                fwd = it;
            } else {
                rev = it;
            }
            if (c.has(ITER) && want.size() > 1 && (reuse || by == 1)) {
                c.nontrivial();
            }
        }

        /** A second iterator, of any list and direction, used in turns with one already under way. */
        void interleaved(final int id, final List<Elem> want, final boolean forward, final ItSut it, final int at) {
            final int id2 = ids.get(c.pick(ids.size()));
            final boolean forward2 = c.bool();
            final List<Elem> want2 = new ArrayList<>(list(id2));
            if (!forward2) {
                Collections.reverse(want2);
            }
            c.op("a second " + (forward2 ? "iterator" : "reverseIterator"), id2);
            final ItSut it2 = forward2 ? s.iterator(id2, null, c.bool()) : s.reverseIterator(id2, null, c.bool());
            int i = at;
            int i2 = 0;
            while (i < want.size() || i2 < want2.size()) {
                if (i2 >= want2.size() || i < want.size() && c.bool()) {
                    final Object v = it.hasNext() ? it.next() : "nothing";
                    c.that(ITER, Dom.sameValue(t, v, want.get(i).v), "the first of two iterators yields %s at %s, expected %s", v, i, want.get(i).v);
                    i++;
                } else {
                    final Object v = it2.hasNext() ? it2.next() : "nothing";
                    c.that(ITER, Dom.sameValue(t, v, want2.get(i2).v), "the second of two iterators yields %s at %s, expected %s", v, i2, want2.get(i2).v);
                    i2++;
                }
            }
            c.that(ITER, !it.hasNext() && !it2.hasNext(), "one of two iterators continues past its end");
            c.label("two-iterators");
        }

        /** Both directions of a list, in full. */
        void whole(final int id) {
            c.op("both directions of", id);
            final List<Elem> l = list(id);
            final ItSut f = s.iterator(id, null, true);
            for (int i = 0; i < l.size(); i++) {
                final Object v = f.hasNext() ? f.next() : "nothing";
                c.that(ITER | LISTS, Dom.sameValue(t, v, l.get(i).v), "iterator yields %s at %s, expected %s", v, i, l.get(i).v);
            }
            c.that(ITER | LISTS, !f.hasNext(), "the iterator continues after %s elements", l.size());
            final ItSut r = s.reverseIterator(id, null, true);
            for (int i = l.size() - 1; i >= 0; i--) {
                final Object v = r.hasNext() ? r.next() : "nothing";
                c.that(ITER | LISTS, Dom.sameValue(t, v, l.get(i).v), "reverse iterator yields %s at %s, expected %s", v, i, l.get(i).v);
            }
            c.that(ITER | LISTS, !r.hasNext(), "the reverse iterator continues after %s elements", l.size());
        }
    }
}
