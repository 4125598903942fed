package vp.props;

import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.BitSet;
import java.util.Comparator;
import java.util.HashMap;
import java.util.Iterator;
import java.util.List;
import java.util.Map;
import java.util.SplittableRandom;
import vp.core.Ctx;
import vp.sut.DequeSut;
import vp.sut.HeapSut;
import vp.sut.HydraSut;
import vp.sut.ItSut;
import vp.sut.SortSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.U;
import vp.sut.VectorSut;

/** Few bulk phases over tens of thousands of elements; a phase's details derive from one choice. */
final class Large {
    static final String[] PAIRS = {"Int/Int", "Long/Generic", "Double/Bool", "String/Int", "Generic/String", "Short/Long", "Byte/Byte",
        "Char/Float", "Float/Short", "Int/Double", "Long/Char", "Double/Double"};

    private Large() {}

    private static int size(final Ctx c) {
        final int max = c.thorough ? 400000 : 120000;
        return c.weighted(2, 2) == 0 ? c.range(2000, max) : (1 << c.range(12, 16)) + c.range(-3, 3);
    }

    private static SplittableRandom rnd(final Ctx c) {
        return new SplittableRandom(c.bits64());
    }

    // ------------------------------------------------------------------ deque, vector
    static void deque(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int cap = c.weighted(2, 1) == 0 ? c.range(1, 100) : size(c);
        c.op("new " + subject + "Deque", cap);
        final DequeSut s = U.make(subject + "DequeAdapter", cap);
        final ArrayDeque<Object[]> m = new ArrayDeque<>();
        int next = 20;
        while (c.more(6)) {
            final int k = size(c) / 2;
            final int what = c.pick(4);
            final SplittableRandom r = rnd(c);
            c.op(what == 0 ? "addFirst many" : what == 1 ? "addLast many" : what == 2 ? "remove many" : "mixed", k);
            for (int i = 0; i < k; i++) {
                final int w = what == 3 ? r.nextInt(4) : what == 2 ? 2 + r.nextInt(2) : what;
                if (w < 2) {
                    final Object v = Dom.value(t, next++);
                    if (w == 0) {
                        s.addFirst(v);
                        m.addFirst(new Object[] {v});
                    } else {
                        s.addLast(v);
                        m.addLast(new Object[] {v});
                    }
                } else if (!m.isEmpty()) {
                    final Object want = (w == 2 ? m.removeFirst() : m.removeLast())[0];
                    final Object got = w == 2 ? s.removeFirst() : s.removeLast();
                    c.that(Dom.sameValue(t, got, want), (w == 2 ? "removeFirst" : "removeLast") + " = %s, expected %s", got, want);
                }
            }
            c.eq(-1L, s.size(), m.size(), "size");
            if (!m.isEmpty()) {
                c.that(Dom.sameValue(t, s.peekFirst(), m.getFirst()[0]), "peekFirst = %s", s.peekFirst());
                c.that(Dom.sameValue(t, s.peekLast(), m.getLast()[0]), "peekLast = %s", s.peekLast());
            }
            final Iterator<Object[]> it = m.iterator();
            s.forEach(v -> {
                c.that(it.hasNext(), "forEach yields more than %s elements", m.size());
                final Object want = it.next()[0];
                c.that(Dom.sameValue(t, v, want), "forEach yields %s, expected %s", v, want);
            });
            c.that(!it.hasNext(), "forEach yields fewer than %s elements", m.size());
            if (m.size() > 1000) {
                c.nontrivial();
            }
        }
    }

    static void vector(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int cap = c.weighted(2, 1) == 0 ? c.range(1, 100) : size(c);
        c.op("new " + subject + "Vector", cap);
        final VectorSut s = U.make(subject + "VectorAdapter", cap);
        final List<Object> m = new ArrayList<>();
        int next = 20;
        while (c.more(5)) {
            final int k = size(c);
            switch (c.weighted(6, 2, 1)) {
                case 0:
                    c.op("append many", k);
                    for (int i = 0; i < k; i++) {
                        final Object v = Dom.value(t, next++);
                        s.append(v);
                        m.add(v);
                    }
                    break;
                case 1:
                    c.op("ensureSize", k);
                    s.ensureSize(k);
                    break;
                default:
                    c.op("clear");
                    s.clear();
                    m.clear();
            }
            c.eq(-1L, s.size(), m.size(), "size");
            for (int i = 0; i < m.size(); i++) {
                final Object got = s.valueAt(i);
                c.that(Dom.sameValue(t, got, m.get(i)), "valueAt(%s) = %s, expected %s", i, got, m.get(i));
            }
            final int[] i = {0};
            s.forEach(v -> {
                c.that(i[0] < m.size() && Dom.sameValue(t, v, m.get(i[0])), "forEach yields %s at %s", v, i[0]);
                i[0]++;
            });
            c.that(i[0] == m.size(), "forEach yields %s of %s elements", i[0], m.size());
            if (m.size() > 1000) {
                c.nontrivial();
            }
        }
    }

    // ------------------------------------------------------------------ hydra deque
    static void hydra(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final int cap = c.weighted(2, 1) == 0 ? c.range(1, 100) : size(c);
        final int lists = c.oneOf(1, 3, 100, 5000, 70000);
        final int queues = c.weighted(2, 1) == 0 ? c.range(0, 5) : lists;
        c.op("new " + subject + "HydraDeque", queues, cap);
        final HydraSut s = U.make(subject + "HydraDequeAdapter", queues, cap);
        final Map<Integer, ArrayDeque<Object[]>> m = new HashMap<>();
        final BitSet occupied = new BitSet();
        int issued = 0;
        int total = 0;
        int next = 20;
        ItSut[] reused = new ItSut[2];
        while (c.more(6)) {
            final int k = size(c) / 2;
            final int what = c.weighted(4, 4, 3, 5, 1);
            if (what == 4) {
                c.op("clear");
                s.clear();
                m.clear();
                occupied.clear();
                issued = 0;
                total = 0;
            }
            final SplittableRandom r = rnd(c);
            c.op(what == 0 ? "addFirst many" : what == 1 ? "addLast many" : what == 2 ? "remove many" : "mixed", k, lists);
            for (int i = 0; i < k && what < 4; i++) {
                final int id = r.nextInt(lists);
                final int w = what == 3 ? r.nextInt(4) : what == 2 ? 2 + r.nextInt(2) : what;
                final ArrayDeque<Object[]> l = m.computeIfAbsent(id, x -> new ArrayDeque<>(2));
                if (w < 2) {
                    final Object v = Dom.value(t, next++);
                    final int e = w == 0 ? s.addFirst(id, v) : s.addLast(id, v);
                    c.that(SeqProps.ENTRY, e >= 0 && !occupied.get(e), "entry %s issued, which is occupied", e);
                    final int full = total;
                    if (e >= issued) {
                        c.that(SeqProps.ENTRY, full == issued && e == issued, "entry %s issued with %s of %s occupied", e, full, issued);
                        issued = e + 1;
                    }
                    occupied.set(e);
                    if (w == 0) {
                        l.addFirst(new Object[] {v, e});
                    } else {
                        l.addLast(new Object[] {v, e});
                    }
                    total++;
                } else if (!l.isEmpty()) {
                    final Object[] want = w == 2 ? l.removeFirst() : l.removeLast();
                    final Object got = w == 2 ? s.removeFirst(id) : s.removeLast(id);
                    c.that(SeqProps.LISTS, Dom.sameValue(t, got, want[0]), (w == 2 ? "removeFirst" : "removeLast") + "(%s) = %s, expected %s", id, got, want[0]);
                    occupied.clear((Integer) want[1]);
                    total--;
                }
            }
            c.eq(SeqProps.LISTS, s.size(), total, "size");
            for (Map.Entry<Integer, ArrayDeque<Object[]>> e : m.entrySet()) {
                final int id = e.getKey();
                c.eq(SeqProps.LISTS, s.size(id), e.getValue().size(), "size", id);
                for (int dir = 0; dir < 2; dir++) {
                    final ItSut it = dir == 0 ? s.iterator(id, reused[0], false) : s.reverseIterator(id, reused[1], false);
                    final Iterator<Object[]> want = dir == 0 ? e.getValue().iterator() : e.getValue().descendingIterator();
                    while (want.hasNext()) {
                        final Object w = want.next()[0];
                        final Object v = it.hasNext() ? it.next() : "nothing";
                        c.that(SeqProps.ITER | SeqProps.LISTS, Dom.sameValue(t, v, w), (dir == 0 ? "iterator" : "reverseIterator") + "(%s) yields %s, expected %s", id, v, w);
                    }
                    c.that(SeqProps.ITER | SeqProps.LISTS, !it.hasNext(), "an iterator of list %s goes on past its end", id);
                    reused[dir] = it;
                }
            }
            if (total > 1000) {
                c.nontrivial();
            }
        }
    }

    // ------------------------------------------------------------------ stores
    static final String[] STORED = {"Byte", "Bool", "Short", "Byte", "Int", "Generic", "Char", "Float", "Long", "String", "Double"};

    /** Indexes in the tens of millions for small types, where sizes no longer fit a float. */
    static void store(final Ctx c, final String subject, final boolean matrix) {
        final T t = T.of(subject);
        final boolean small = t == T.Byte || t == T.Bool;
        final int lim = small ? 36_000_000 : t == T.Short || t == T.Char ? 18_000_000 : 1_500_000;
        final int nf = matrix ? c.oneOf(1, 2, 3, 7, 1000, 70000) : 1;
        final int chunk = c.oneOf(4096, 65536, 1 << 20, 100_000, 65535, 65537, 1 << 22);
        final int init = c.weighted(3, 2) == 0 ? c.range(1, 100) : Math.max(1, cells(c, lim) / nf);
        final StoreSut s;
        if (matrix) {
            c.op("new " + subject + "ChunkMatrixStore", init, chunk, nf);
            s = U.make(subject + "ChunkMatrixStoreAdapter", init, chunk, nf);
        } else {
            c.op("new " + subject + "ChunkStore", init, chunk);
            s = U.make(subject + "ChunkStoreAdapter", init, chunk);
        }
        c.that(!matrix || s.capacity() >= init, "capacity %s of a store of initial size %s", s.capacity(), init);
        final Map<Long, Object> m = new HashMap<>();
        int cap = s.capacity();
        int top = -1;
        int next = 20;
        while (c.more(8)) {
            final int at = cells(c, lim);
            final int k = 1 + c.skew(3000);
            final int step = c.oneOf(1, 1, -1, chunk, -chunk, chunk + 1);
            c.op("set cells [from, count, step]", at, k, step);
            for (int i = 0; i < k; i++) {
                final long cell = at + (long) i * step;
                if (cell < 0 || cell >= lim) {
                    break;
                }
                final int row = (int) (cell / nf);
                final int f = (int) (cell % nf);
                final Object v = Dom.value(t, next++);
                s.set(row, f, v);
                m.put(cell, v);
                top = Math.max(top, row);
                final int now = s.capacity();
                c.that(now >= cap, "capacity went from %s to %s", cap, now);
                c.that(now > top, "capacity is %s after setting row %s", now, top);
                if (now > cap && m.size() > 1) {
                    c.nontrivial();
                }
                cap = now;
            }
            same(c, t, s, m, nf, at, Math.min(k, 50), step);
        }
        c.op("compare");
        final SplittableRandom r = rnd(c);
        for (Map.Entry<Long, Object> e : m.entrySet()) {
            final Object got = s.get((int) (e.getKey() / nf), (int) (e.getKey() % nf));
            c.that(Dom.sameValue(t, got, e.getValue()), "get of cell %s = %s, expected %s", e.getKey(), got, e.getValue());
            if (r.nextInt(4) == 0) {
                same(c, t, s, m, nf, e.getKey() - 1, 3, 1);
                same(c, t, s, m, nf, e.getKey() ^ 1L << r.nextInt(25), 1, 1);
            }
        }
        final long end = (long) cap * nf;
        same(c, t, s, m, nf, end - 20, 40, 1);
    }

    private static int cells(final Ctx c, final int lim) {
        switch (c.weighted(3, 2, 2)) {
            case 0: return Math.min(lim, (1 << c.range(10, 25)) + c.range(-3, 3));
            case 1: return c.range(1, lim);
            default: return c.range(1, 100000);
        }
    }

    private static void same(final Ctx c, final T t, final StoreSut s, final Map<Long, Object> m, final int nf, final long at, final int k, final int step) {
        for (int i = 0; i < k; i++) {
            final long cell = at + (long) i * step;
            if (cell < 0 || cell / nf > Integer.MAX_VALUE) {
                return;
            }
            final Object want = m.containsKey(cell) ? m.get(cell) : t.def();
            final Object got = s.get((int) (cell / nf), (int) (cell % nf));
            c.that(Dom.sameValue(t, got, want), "get(%s, %s) = %s, expected %s", cell / nf, cell % nf, got, want);
        }
    }

    // ------------------------------------------------------------------ heap
    static void heap(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final int initCap = c.weighted(2, 1) == 0 ? c.range(0, 100) : size(c);
        c.op("new " + subject + "Heap", initCap);
        final HeapSut s = U.make(p[0] + p[1] + "HeapAdapter", initCap);
        final Dom dom = Dom.spread(c, kt, c.oneOf(20, 5000, 100000), true);
        final List<Object[]> at = new ArrayList<>();
        final int[] live = new int[c.thorough ? 900000 : 300000]; // positions of active entries, in no order
        final int[] where = new int[live.length];
        int n = 0;
        int freed = 0;
        int next = 20;
        Comparator<Object> cmp = kt.natural();
        while (c.more(5)) {
            final int k = Math.min(size(c) / 2, live.length - n - 1);
            final int what = c.weighted(6, 3, 3, 2, 3);
            final SplittableRandom r = rnd(c);
            c.op(what == 0 ? "insert many" : what == 1 ? "removeAt many" : what == 2 ? "resetKey many" : what == 3 ? "setComparator" : "pop many", k);
            if (what == 3) {
                final boolean desc = r.nextBoolean();
                s.setComparator(desc ? "Desc" : "Asc");
                cmp = desc ? kt.natural().reversed() : kt.natural();
            }
            Object last = null;
            for (int i = 0; i < k && what != 3; i++) {
                if (what == 0) {
                    final Object key = dom.key(r.nextInt(dom.n));
                    final Object v = Dom.value(vt, next++);
                    final int e = s.insert(key, v);
                    if (freed > 0) {
                        c.that(HeapProps.HANDLE, e >= 0 && e < at.size() && at.get(e) == null, "entry %s issued with %s freed of %s", e, freed, at.size());
                        freed--;
                    } else {
                        c.that(HeapProps.HANDLE, e == at.size(), "entry %s issued, expected %s", e, at.size());
                        at.add(null);
                    }
                    c.that(HeapProps.CAP, e < s.capacity(), "entry %s issued at capacity %s", e, s.capacity());
                    at.set(e, new Object[] {key, v});
                    where[e] = n;
                    live[n++] = e;
                    continue;
                }
                if (n == 0) {
                    break;
                }
                int e = live[r.nextInt(n)];
                if (what == 2) {
                    final Object key = dom.key(r.nextInt(dom.n));
                    s.resetKey(e, key);
                    at.get(e)[0] = key;
                    continue;
                }
                if (what == 4) {
                    e = s.peek();
                    c.that(-1L, e >= 0 && e < at.size() && at.get(e) != null, "peek gives %s, which is not active", e);
                    final Object key = at.get(e)[0];
                    c.that(HeapProps.MIN | HeapProps.CMP, i == 0 || cmp.compare(last, key) <= 0, "popping yields %s after %s", key, last);
                    last = key;
                }
                s.removeAt(e);
                at.set(e, null);
                freed++;
                final int hole = where[e];
                live[hole] = live[--n];
                where[live[hole]] = hole;
            }
            c.eq(-1L, s.size(), n, "size");
            final BitSet seen = new BitSet();
            s.forEachEntry(e -> {
                c.that(HeapProps.VALID | HeapProps.CMP, e >= 0 && e < at.size() && at.get(e) != null && !seen.get(e), "forEachEntry yields %s", e);
                seen.set(e);
            });
            c.that(HeapProps.VALID | HeapProps.CMP, seen.cardinality() == n, "forEachEntry yields %s of %s entries", seen.cardinality(), n);
            for (int e = at.size(); e < Math.max(s.capacity(), at.size()) + 3; e++) {
                c.that(HeapProps.VALID, !s.isValid(e), "isValidEntry(%s) although it was never issued", e);
            }
            Object min = null;
            boolean any = false;
            for (int e = 0; e < at.size(); e++) {
                final Object[] x = at.get(e);
                c.that(HeapProps.VALID, s.isValid(e) == (x != null), "isValidEntry(%s) = %s", e, x == null);
                if (x != null) {
                    c.that(HeapProps.HANDLE | HeapProps.CMP, Dom.sameValue(kt, s.keyAt(e), x[0]), "getKeyAt(%s) = %s, expected %s", e, s.keyAt(e), x[0]);
                    c.that(HeapProps.HANDLE | HeapProps.CMP, Dom.sameValue(vt, s.valueAt(e), x[1]), "getValueAt(%s) = %s, expected %s", e, s.valueAt(e), x[1]);
                    if (!any || cmp.compare(x[0], min) < 0) {
                        min = x[0];
                        any = true;
                    }
                } else {
                    c.that(HeapProps.DEFAULT, Ctx.same(s.keyAt(e), kt.def()) && Ctx.same(s.valueAt(e), vt.def()),
                            "inactive entry %s gives key %s and value %s", e, s.keyAt(e), s.valueAt(e));
                }
            }
            if (n > 0) {
                final int e = s.peek();
                c.that(HeapProps.MIN | HeapProps.CMP, e >= 0 && e < at.size() && at.get(e) != null && cmp.compare(at.get(e)[0], min) == 0,
                        "peek gives entry %s; the minimum is %s", e, min);
                c.that(HeapProps.MIN, s.contains(min), "containsKey(%s) is false", min);
            }
            if (n > 1000) {
                c.nontrivial();
            }
        }
    }

    // ------------------------------------------------------------------ sort
    static void sort(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final SortSut s = U.make(p[0] + p[1] + "CompanionSortAdapter");
        final int len = size(c);
        final int before = c.pick(3);
        final int after = c.pick(3);
        final Dom dom = Dom.spread(c, kt, c.oneOf(2, 40, 5000, 100000), true);
        final int kind = c.pick(6);
        final SplittableRandom r = rnd(c);
        final int n = before + len + after;
        final Object[] keys = new Object[n];
        final Object[] vals = new Object[n];
        final Comparator<Object> nat = kt.natural();
        for (int i = 0; i < n; i++) {
            keys[i] = dom.key(kind == 0 ? r.nextInt(dom.n) : kind == 1 ? (int) ((long) i * dom.n / n) : kind == 2 ? (int) ((long) (n - 1 - i) * dom.n / n)
                    : kind == 3 ? i % dom.n : kind == 4 ? Math.min(i, n - 1 - i) % dom.n : r.nextInt(10) == 0 ? r.nextInt(dom.n) : dom.n / 2);
            vals[i] = Dom.value(vt, i + 20);
        }
        if (kind == 1 || kind == 2) { // really sorted
            Arrays.sort(keys, kind == 1 ? nat : nat.reversed());
        }
        final String name = c.oneOf("Asc", "Desc");
        final Comparator<Object> cmp = name.equals("Asc") ? nat : nat.reversed();
        final Object ks = s.keys(keys);
        final Object vs = s.values(vals);
        c.op("sort " + name + " [before, length, domain, kind]", before, len, dom.n, kind);
        s.sort(ks, vs, before, len, name);
        final Map<DataProps.Pair, Integer> count = new HashMap<>();
        for (int i = before; i < before + len; i++) {
            count.merge(new DataProps.Pair(keys[i], vals[i], kt.isRef(), vt.isRef()), 1, Integer::sum);
        }
        final Object[] k2 = DataProps.boxed(ks);
        final Object[] v2 = DataProps.boxed(vs);
        for (int i = 0; i < n; i++) {
            if (i >= before && i < before + len) {
                c.that(i == before || cmp.compare(k2[i - 1], k2[i]) <= 0, "%s at %s comes before %s", i > 0 ? k2[i - 1] : null, i - 1, k2[i]);
                final Integer left = count.merge(new DataProps.Pair(k2[i], v2[i], kt.isRef(), vt.isRef()), -1, Integer::sum);
                c.that(left >= 0, "the pair (%s, %s) at %s was not in the range, or not as often", k2[i], v2[i], i);
            } else {
                c.that(Dom.sameValue(kt, k2[i], keys[i]) && Dom.sameValue(vt, v2[i], vals[i]), "element %s outside the range changed", i);
            }
        }
        if (kind != 1) {
            c.nontrivial();
        }
    }

    static final String[] HARD = {"Int/Int", "Long/Int", "Double/Int", "Generic/Int", "Int/String", "String/Int", "Float/Int", "Int/Double"};

    /** McIlroy's adversary: an order decided while the sort asks for it, so that its pivots are bad; then the same order as plain keys. */
    static void hardSort(final Ctx c, final String subject) throws Exception {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final SortSut s = U.make(p[0] + p[1] + "CompanionSortAdapter");
        final int n = kt == T.String ? c.range(8000, 12000) : c.range(10000, c.thorough ? 60000 : 16000);
        final int[] rank = new int[n];
        final int gas = n;
        Arrays.fill(rank, gas);
        final int[] next = {0, -1};
        final Comparator<Object> lazy = (a, b) -> {
            final int x = number(a);
            final int y = number(b);
            if (x == y) {
                return 0;
            }
            if (rank[x] == gas && rank[y] == gas) {
                rank[x == next[1] ? x : y] = next[0]++;
            }
            if (rank[x] == gas) {
                next[1] = x;
            } else if (rank[y] == gas) {
                next[1] = y;
            }
            return Integer.compare(rank[x], rank[y]);
        };
        final Object[] keys = new Object[n];
        final Object[] vals = new Object[n];
        for (int i = 0; i < n; i++) {
            keys[i] = numbered(kt, i);
            vals[i] = Dom.value(vt, i + 20);
        }
        c.op("sort of n elements under an order that makes every pivot a bad one", n);
        hard(c, s, keys, vals, null, lazy);
        for (int i = 0; i < n; i++) {
            if (rank[i] == gas) {
                rank[i] = next[0]++;
            }
        }
        final boolean asc = c.bool();
        for (int i = 0; i < n; i++) {
            keys[i] = numbered(kt, asc ? rank[i] : n - 1 - rank[i]);
        }
        final Comparator<Object> nat = (a, b) -> asc ? Integer.compare(number(a), number(b)) : Integer.compare(number(b), number(a));
        c.op("sort of the same order as plain keys", asc ? "Asc" : "Desc");
        hard(c, s, keys, vals, asc ? "Asc" : "Desc", nat);
        c.nontrivial();
    }

    private static void hard(final Ctx c, final SortSut s, final Object[] keys, final Object[] vals, final String name, final Comparator<Object> cmp)
            throws Exception {
        final int n = keys.length;
        final Object ks = s.keys(keys);
        final Object vs = s.values(vals);
        final Throwable[] thrown = {null};
        final Thread t = new Thread(null, () -> {
            try {
                if (name == null) {
                    s.sort(ks, vs, 0, n, cmp);
                } else {
                    s.sort(ks, vs, 0, n, name);
                }
            } catch (Throwable e) {
                thrown[0] = e;
            }
        }, "sort", 256 << 10);
        t.setDaemon(true);
        t.start();
        t.join();
        if (thrown[0] != null) {
            c.fail(-1L, "sorting %s elements in a thread with a stack of 256 KB throws %s", n, thrown[0].getClass().getName());
        }
        final Object[] k2 = DataProps.boxed(ks);
        final Object[] v2 = DataProps.boxed(vs);
        final int[] at = new int[n];
        for (int i = 0; i < n; i++) {
            at[number(keys[i])] = i;
        }
        final boolean[] seen = new boolean[n];
        for (int i = 0; i < n; i++) {
            final int x = number(k2[i]);
            c.that(i == 0 || cmp.compare(k2[i - 1], k2[i]) <= 0, "%s at %s comes before %s", i > 0 ? k2[i - 1] : null, i - 1, k2[i]);
            c.that(!seen[x], "%s is there twice", k2[i]);
            seen[x] = true;
            c.that(v2[i].equals(vals[at[x]]), "the companion of %s is %s, was %s", k2[i], v2[i], vals[at[x]]);
        }
    }

    private static int number(final Object k) {
        if (k instanceof Number) {
            return ((Number) k).intValue();
        }
        int n = 0;
        final String x = (String) k;
        for (int i = 0; i < x.length(); i++) {
            n = n * 10 + x.charAt(i) - '0';
        }
        return n;
    }

    private static Object numbered(final T t, final int i) {
        switch (t) {
            case Long: return (long) i;
            case Float: return (float) i;
            case Double: return (double) i;
            case String: return Integer.toString(1000000 + i).substring(1);
            default: return i;
        }
    }

    // ------------------------------------------------------------------ associations
    static void associations(final Ctx c, final String subject) {
        final boolean many = subject.startsWith("Many");
        final boolean counts = !subject.endsWith("counts");
        // one side with very few keys, so that each has a great many associations, or one with very large keys, or neither
        final int shape = c.weighted(4, 2, 2, 2, 2);
        final int lefts = shape == 1 ? c.range(1, 2) : shape == 2 ? 200_000 : c.oneOf(1, 40, 3000, 70000, 300_000);
        final int rights = shape == 2 ? c.range(1, 2) : shape == 1 ? 200_000 : c.oneOf(1, 40, 3000, 70000, 300_000);
        final int leftFrom = shape == 3 ? c.oneOf(1 << 17, 1 << 20, (1 << 24) - 20, 1 << 24) : 0;
        final int rightFrom = shape == 4 ? c.oneOf(1 << 17, 1 << 20, (1 << 24) - 20, 1 << 24) : 0;
        final int leftCap = c.oneOf(1, 16, lefts);
        final int rightCap = c.oneOf(1, 16, rights);
        final int mapCap = c.oneOf(1, 16, 70000);
        c.op("new " + subject, leftCap, rightCap, mapCap);
        final CompactManyToMany m2m = many ? new CompactManyToMany(leftCap, rightCap, mapCap, counts) : null;
        final CompactOneToMany s = many ? m2m : new CompactOneToMany(leftCap, mapCap, counts);
        final Map<Long, Integer> pairs = new HashMap<>();
        final List<Long> at = new ArrayList<>(); // by entry, null when freed
        int freed = 0;
        while (c.more(4)) {
            final boolean few = at.isEmpty() && (shape == 1 || shape == 2);
            final int k = few ? c.range(40000, 150000) : size(c) / 2;
            final int what = few ? 0 : c.weighted(5, 2, 2, 1);
            final SplittableRandom r = rnd(c);
            c.op(what == 0 ? "put many" : what == 1 ? "remove many" : what == 2 ? "removeAt many" : "reserve and free many", k, leftFrom, lefts, rightFrom, rights);
            for (int i = 0; i < k; i++) {
                int l = leftFrom + r.nextInt(lefts);
                int x = rightFrom + r.nextInt(rights);
                if (what == 0) {
                    final int e = s.put(l, x);
                    final Integer old = pairs.put(BiProps.Machine.key(l, x), e);
                    if (old != null) {
                        c.eq(BiProps.ENT, e, old, "put of a present association", l, x);
                    } else if (freed > 0) {
                        c.that(BiProps.ENT, e >= 0 && e < at.size() && at.get(e) == null, "put issued entry %s with %s freed of %s", e, freed, at.size());
                        freed--;
                        at.set(e, BiProps.Machine.key(l, x));
                    } else {
                        c.eq(BiProps.ENT, e, at.size(), "new entry");
                        at.add(BiProps.Machine.key(l, x));
                    }
                    continue;
                }
                if (at.isEmpty()) {
                    break;
                }
                int e = r.nextInt(at.size());
                final Long pair = at.get(e);
                if (pair == null) {
                    continue;
                }
                l = BiProps.Machine.left(pair);
                x = BiProps.Machine.right(pair);
                if (what == 1) {
                    c.eq(BiProps.ENT, s.remove(l, x), e, "remove", l, x);
                } else if (what == 2) {
                    c.eq(BiProps.ENT, s.removeAt(e), e, "removeAt", e);
                } else {
                    s.removeAtAndReserve(e);
                    c.that(BiProps.ENT, s.getLeftAt(e) == l && s.getRightAt(e) == x, "reserved entry %s gives %s and %s", e, s.getLeftAt(e), s.getRightAt(e));
                    s.freeReservedEntry(e);
                }
                at.set(e, null);
                pairs.remove(pair);
                freed++;
            }
            check(c, s, m2m, counts, pairs, at);
            if (pairs.size() > 1000) {
                c.nontrivial();
            }
        }
    }

    private static void check(final Ctx c, final CompactOneToMany s, final CompactManyToMany m2m, final boolean counts,
            final Map<Long, Integer> pairs, final List<Long> at) {
        c.eq(-1L, s.size(), pairs.size(), "size");
        final Map<Integer, Integer> leftCount = new HashMap<>();
        final Map<Integer, Integer> rightCount = new HashMap<>();
        for (int e = 0; e < at.size(); e++) {
            if (at.get(e) != null) {
                final int l = BiProps.Machine.left(at.get(e));
                final int x = BiProps.Machine.right(at.get(e));
                leftCount.merge(l, 1, Integer::sum);
                rightCount.merge(x, 1, Integer::sum);
                c.that(BiProps.ENT, s.getLeftAt(e) == l && s.getRightAt(e) == x && s.lookupEntry(l, x) == e, "entry %s no longer gives (%s, %s)", e, l, x);
                c.that(BiProps.O2M | BiProps.M2M, s.contains(l, x), "contains(%s, %s) is false", l, x);
            }
        }
        side(c, BiProps.O2M | BiProps.M2M, "withLeft", k -> s.withLeft(k), leftCount, at, counts, true);
        if (m2m != null) {
            side(c, BiProps.M2M, "withRight", k -> m2m.withRight(k), rightCount, at, counts, false);
        }
        final BitSet all = new BitSet();
        s.forEachEntry(e -> {
            c.that(BiProps.O2M | BiProps.ENT, e >= 0 && e < at.size() && at.get(e) != null && !all.get(e), "forEachEntry yields %s", e);
            all.set(e);
        });
        c.that(BiProps.O2M | BiProps.ENT, all.cardinality() == pairs.size(), "forEachEntry yields %s of %s", all.cardinality(), pairs.size());
    }

    private static void side(final Ctx c, final long tag, final String name, final java.util.function.IntFunction<Mapping> with,
            final Map<Integer, Integer> count, final List<Long> at, final boolean counts, final boolean left) {
        final BitSet seen = new BitSet();
        final int[] sum = {0};
        for (Map.Entry<Integer, Integer> x : count.entrySet()) {
            final int k = x.getKey();
            final int want = x.getValue();
            final Mapping m = with.apply(k);
            if (counts) {
                c.eq(tag, m.count(), want, name + ".count", k);
            }
            final int[] got = {0};
            m.forEachEntry(e -> {
                c.that(tag, e >= 0 && e < at.size() && at.get(e) != null && (left ? BiProps.Machine.left(at.get(e)) : BiProps.Machine.right(at.get(e))) == k
                        && !seen.get(e), name + "(%s).forEachEntry yields %s", k, e);
                seen.set(e);
                sum[0] += left ? BiProps.Machine.right(at.get(e)) : BiProps.Machine.left(at.get(e));
                got[0]++;
            });
            c.that(tag, got[0] == want, name + "(%s).forEachEntry yields %s of %s entries", k, got[0], want);
            got[0] = 0;
            m.forEachValue(v -> {
                c.that(tag, got[0] < want, name + "(%s).forEachValue yields more than %s values", k, want);
                got[0]++;
                sum[0] -= v;
            });
            c.that(tag, got[0] == want, name + "(%s).forEachValue yields %s of %s values", k, got[0], want);
            c.that(tag, sum[0] == 0, name + "(%s): the values do not match the entries", k);
        }
    }
}
