package vp.props;

import com.bytefacets.collections.exception.InvalidEntryException;
import com.bytefacets.collections.exception.RangeCheckException;
import java.util.ArrayList;
import java.util.BitSet;
import java.util.Comparator;
import java.util.List;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.HeapSut;
import vp.sut.T;
import vp.sut.U;

/** Heaps: C23-C27 (and C11, C39 over them). */
final class HeapProps {
    static final long MIN = 1, HANDLE = 2, VALID = 4, CMP = 8, DEFAULT = 16, CAP = 1024, REACH = Reach.REACH;

    static Prop get(final String id) {
        final String[] none = {"keys of one Generic heap are mutually comparable; resetKey and setValueAt are called on active entries only"};
        switch (id) {
            case "C23":
                return new Prop(id, MIN, "a case is a history on one heap, drained at the end; non-trivial when at least 4 elements were drained "
                        + "after removals or key resets in the middle", none, Part.of("histories", HashProps.MAPS, 150000, 3500000, (c, s) -> new Machine(c, s).run()), Part.of("large", Large.PAIRS, 36, 900, Large::heap));
            case "C24":
                return new Prop(id, HANDLE, "a case is a history; non-trivial when the heap grew and an entry was reused",
                        none, Part.of("histories", HashProps.MAPS, 150000, 3500000, (c, s) -> new Machine(c, s).run()), Part.of("large", Large.PAIRS, 36, 900, Large::heap));
            case "C25":
                return new Prop(id, VALID, "a case is a history; non-trivial when freed or cleared entries were probed",
                        none, Part.of("histories", HashProps.MAPS, 120000, 3000000, (c, s) -> new Machine(c, s).run()), Part.of("large", Large.PAIRS, 36, 900, Large::heap));
            case "C26":
                return new Prop(id, CMP, "a case is a history; non-trivial when the comparator was changed on a heap of at least 3 elements",
                        none, Part.of("histories", HashProps.MAPS, 150000, 3500000, (c, s) -> new Machine(c, s).run()), Part.of("large", Large.PAIRS, 36, 900, Large::heap));
            case "C27":
                return new Prop(id, DEFAULT, "a case is a history; non-trivial when defaults were changed, or a heap with freed entries was cleared",
                        none, Part.of("histories", HashProps.MAPS, 150000, 3500000, (c, s) -> new Machine(c, s).run()), Part.of("large", Large.PAIRS, 36, 900, Large::heap));
            default:
                return null;
        }
    }

    static final class Elem {
        Object k;
        Object v;

        Elem(final Object k, final Object v) {
            this.k = k;
            this.v = v;
        }
    }

    static final class Machine {
        final Ctx c;
        final T kt;
        final T vt;
        final HeapSut s;
        final Dom dom;
        final Reach reach;
        final int initCap;
        /** By entry; null when inactive. */
        final List<Elem> at = new ArrayList<>();
        final BitSet active = new BitSet();
        final BitSet freed = new BitSet();
        int n;
        int cap;
        Comparator<Object> cmp;
        String cmpName = "Asc";
        Object defKey;
        Object defVal;
        int next = 20;
        int middle;
        boolean grew;
        boolean reused;
        long changed;

        Machine(final Ctx c, final String subject) {
            this.c = c;
            final String[] p = subject.split("/");
            kt = T.of(p[0]);
            vt = T.of(p[1]);
            initCap = c.weighted(4, 3, 2) == 0 ? c.range(0, 4) : c.bool() ? c.range(0, 20) : (1 << c.pick(7)) - c.pick(2);
            c.op("new " + p[0] + p[1] + "Heap", initCap);
            s = U.make(p[0] + p[1] + "HeapAdapter", initCap);
            dom = Dom.draw(c, kt, c.weighted(2, 3) == 0 ? c.range(1, 6) : c.range(5, 80), true);
            reach = c.has(REACH) ? new Reach(c) : null;
            dom.reach = kt.isRef() ? reach : null;
            cmp = kt.natural();
            defKey = kt.def();
            defVal = vt.def();
            cap = s.capacity();
            c.that(CAP | MIN, cap >= initCap, "capacity %s of a heap of initial capacity %s", cap, initCap);
            c.that(s.size() == 0 && s.isEmpty(), "new heap is not empty");
        }

        Object key() {
            if (kt.isFloating() && c.chance(1, 30)) {
                return kt == T.Float ? (Object) Float.NaN : (Object) Double.NaN;
            }
            return dom.key(c.pick(dom.n));
        }

        Object value() {
            final Object v = c.weighted(1, 5) == 0 ? Dom.value(c, vt) : Dom.value(vt, next++);
            if (reach != null && vt.isRef()) {
                reach.ever(v);
            }
            return v;
        }

        boolean same(final T t, final Object a, final Object b) {
            return Dom.sameValue(t, a, b);
        }

        /** A default may be replaced by an equal one without effect. */
        boolean sameDefault(final Object a, final Object b) {
            return Ctx.same(Dom.canon(a), Dom.canon(b));
        }

        void run() {
            final int mean = c.weighted(3, 2) == 0 ? 20 : 70;
            final int wIns = c.oneOf(14, 14, 22, 9);
            final int wCmp = c.has(CMP) ? 6 : 2;
            final int wDef = c.has(DEFAULT) ? 5 : 1;
            while (c.more(mean)) {
                switch (c.weighted(wIns, wIns, 10, 6, 6, wCmp, 1, wDef, 3, 4, 3, 3, c.has(DEFAULT) ? 4 : 1)) {
                    case 0: insert(false); break;
                    case 1: insert(true); break;
                    case 2: removeAt(); break;
                    case 3: pop(); break;
                    case 4: resetKey(); break;
                    case 5: setComparator(); break;
                    case 6: clear(); break;
                    case 7: defaults(); break;
                    case 8: inactive(); break;
                    case 9: bulk(); break;
                    case 10: setValue(); break;
                    case 11: audit(); break;
                    default:
                        if (n <= 3 || c.chance(1, 3)) {
                            drain(c.bool());
                        }
                }
                c.soft();
                sizes();
                peek();
                c.hard();
                reachable();
            }
            audit();
            if (c.has(MIN) && n > 3 && middle > 0) {
                c.nontrivial();
            }
            if (c.has(HANDLE) && grew && reused) {
                c.nontrivial();
            }
            drain(true);
            audit();
            reachable();
        }

        void sizes() {
            c.eq(MIN | HANDLE, s.size(), n, "size");
            c.eq(MIN, s.isEmpty(), n == 0, "isEmpty");
            final int now = s.capacity();
            c.that(CAP, now >= cap, "capacity went from %s to %s", cap, now);
            grew |= now > cap && n > 0;
            cap = now;
        }

        void reachable() {
            if (reach != null) {
                final List<Object> held = new ArrayList<>();
                for (Elem e : at) {
                    if (e != null) {
                        if (kt.isRef()) {
                            held.add(e.k);
                        }
                        if (vt.isRef()) {
                            held.add(e.v);
                        }
                    }
                }
                if (kt.isRef()) {
                    held.add(defKey);
                }
                if (vt.isRef()) {
                    held.add(defVal);
                }
                reach.check(s.raw(), held, "heap");
            }
        }

        void insert(final boolean withValue) {
            final Object k = key();
            final Object v = withValue ? value() : null;
            if (withValue) {
                c.op("insert", k, v);
            } else {
                c.op("insert", k);
            }
            final int e = withValue ? s.insert(k, v) : s.insert(k);
            c.res(e);
            c.that(HANDLE | CAP, e >= 0 && e < s.capacity(), "entry %s issued at capacity %s", e, s.capacity());
            c.that(HANDLE, !active.get(e), "entry %s issued, which is active", e);
            if (freed.get(e)) {
                freed.clear(e);
                reused = true;
                c.label("reused-entry");
            } else {
                c.that(HANDLE, freed.isEmpty(), "new entry %s issued although freed entries are available", e);
                c.eq(HANDLE | DEFAULT, e, at.size(), "new entry");
            }
            while (at.size() <= e) {
                at.add(null);
            }
            active.set(e);
            at.set(e, new Elem(k, withValue ? v : defVal));
            n++;
            if (!withValue) {
                final Object got = s.valueAt(e);
                c.that(DEFAULT, vt.isRef() ? got == null ? defVal == null : got.equals(defVal) : sameDefault(got, defVal),
                        "value of an element inserted without one is %s, expected %s", got, defVal);
                at.get(e).v = got;
            }
            c.that(HANDLE, same(kt, s.keyAt(e), k), "getKeyAt(%s) = %s after insert of %s", e, s.keyAt(e), k);
        }

        int live() {
            if (n == 0) {
                return -1;
            }
            int i = active.nextSetBit(c.pick(at.size()));
            return i >= 0 ? i : active.nextSetBit(0);
        }

        void drop(final int e) {
            at.set(e, null);
            active.clear(e);
            freed.set(e);
            n--;
        }

        void removeAt() {
            final int e = live();
            if (e < 0) {
                return;
            }
            c.op("removeAt", e);
            s.removeAt(e);
            drop(e);
            middle++;
        }

        void pop() {
            if (n == 0) {
                c.op("peek");
                c.throwsX(MIN, RuntimeException.class, "peek on an empty heap", s::peek);
                return;
            }
            final int e = peek();
            c.op("pop", e);
            s.removeAt(e);
            if (e >= 0 && active.get(e)) {
                drop(e);
            }
        }

        /** Checks that peek gives a minimum. */
        int peek() {
            if (n == 0) {
                return -1;
            }
            final int e = s.peek();
            c.that(MIN | changed, e >= 0 && active.get(e), "peek gives entry %s, which is not active", e);
            if (c.has(MIN | changed)) {
                final Object k = at.get(e).k;
                for (int i = active.nextSetBit(0); i >= 0; i = active.nextSetBit(i + 1)) {
                    if (cmp.compare(at.get(i).k, k) < 0) {
                        c.fail(MIN | changed, "peek gives entry %s with key %s, but entry %s has key %s, which comes before it (comparator " + cmpName + ")",
                                e, k, i, at.get(i).k);
                    }
                }
            }
            return e;
        }

        void resetKey() {
            final int e = live();
            if (e < 0) {
                return;
            }
            final Object k = key();
            c.op("resetKey", e, k);
            s.resetKey(e, k);
            at.get(e).k = k;
            middle++;
            c.that(HANDLE, same(kt, s.keyAt(e), k), "getKeyAt(%s) = %s after resetKey to %s", e, s.keyAt(e), k);
        }

        void setValue() {
            final int e = live();
            if (e < 0) {
                return;
            }
            final Object v = value();
            c.op("setValueAt", e, v);
            s.setValueAt(e, v);
            at.get(e).v = v;
            c.that(HANDLE, same(vt, s.valueAt(e), v), "getValueAt(%s) = %s after setValueAt of %s", e, s.valueAt(e), v);
        }

        void setComparator() {
            final int w = c.pick(6);
            final Comparator<Object> nat = kt.natural();
            final Comparator<Object> abs = kt.absolute();
            final String before = s.comparator();
            if (w == 5 && c.chance(1, 2)) {
                c.op("setComparator", (Object) null);
                c.throwsX(CMP, NullPointerException.class, "setComparator(null)", () -> s.setComparator((String) null));
                c.eq(CMP, s.comparator(), before, "getComparator after a rejected change");
                return;
            }
            if (n > 0) {
                changed = CMP;
            }
            if (c.has(CMP) && n >= 3) {
                c.nontrivial();
            }
            String name = w == 0 || (abs == null && w == 2) ? "Asc" : w == 1 || (abs == null && w == 3) ? "Desc" : w == 2 ? "AbsAsc" : w == 3 ? "AbsDesc" : "same";
            if (!name.equals("same")) {
                c.op("setComparator", name);
                s.setComparator(name);
                cmp = name.equals("Asc") ? nat : name.equals("Desc") ? nat.reversed() : name.equals("AbsAsc") ? abs : abs.reversed();
                cmpName = name;
            } else {
                final int f = c.pick(4);
                final int mod = 1 + c.pick(5);
                cmpName = f == 0 ? "constant" : f == 1 ? "custom descending" : f == 2 ? "hash mod " + mod : "custom ascending of hash";
                c.op("setComparator", cmpName);
                switch (f) {
                    case 0: cmp = (a, b) -> 0; break;
                    case 1: cmp = (a, b) -> 3 * Integer.signum(nat.compare(b, a)); break;
                    case 2: cmp = (a, b) -> Integer.compare(hash(a) % mod, hash(b) % mod); break;
                    default: cmp = (a, b) -> Integer.compare(hash(a), hash(b)) * 1000;
                }
                s.setComparator(cmp);
            }
            c.eq(CMP, s.comparator(), name, "getComparator");
            audit();
        }

        static int hash(final Object o) {
            final int h = o == null ? 7 : o.toString().hashCode();
            return h ^ h >>> 13;
        }

        void clear() {
            c.op("clear");
            s.clear();
            if (c.has(DEFAULT) && !freed.isEmpty()) {
                c.nontrivial();
            }
            at.clear();
            active.clear();
            freed.clear();
            n = 0;
            c.eq(DEFAULT | MIN, s.size(), 0, "size after clear");
            slots();
            c.label("clear");
        }

        void defaults() {
            final boolean key = c.bool();
            final Object d = key ? c.chance(1, 4) ? kt.def() : dom.key(c.pick(dom.n))
                    : c.chance(1, 4) ? vt.def() : Dom.value(vt, next++);
            c.op(key ? "setDefaultKey" : "setDefaultValue", d);
            if (n > 0) {
                c.throwsX(DEFAULT, UnsupportedOperationException.class, "setting a default on a non-empty heap", () -> {
                    if (key) {
                        s.setDefaultKey(d);
                    } else {
                        s.setDefaultValue(d);
                    }
                });
            } else if (key) {
                s.setDefaultKey(d);
                defKey = d;
            } else {
                s.setDefaultValue(d);
                defVal = d;
            }
            if (c.has(DEFAULT) && n == 0) {
                c.nontrivial();
            }
            c.that(DEFAULT, sameDefault(s.defaultKey(), defKey), "getDefaultKey = %s, expected %s", s.defaultKey(), defKey);
            c.that(DEFAULT, sameDefault(s.defaultValue(), defVal), "getDefaultValue = %s, expected %s", s.defaultValue(), defVal);
            defKey = s.defaultKey();
            defVal = s.defaultValue();
            slots();
        }

        /** Inactive slots hold the defaults. */
        void slots() {
            c.soft();
            final int cp = s.capacity();
            for (int e = 0; e < cp; e++) {
                if (!active.get(e)) {
                    final Object k = s.keyAt(e);
                    final Object v = s.valueAt(e);
                    c.that(DEFAULT, sameDefault(k, defKey), "getKeyAt(%s) = %s for an inactive entry, expected %s", e, k, defKey);
                    c.that(DEFAULT, sameDefault(v, defVal), "getValueAt(%s) = %s for an inactive entry, expected %s", e, v, defVal);
                }
            }
            c.hard();
        }

        void inactive() {
            final int cp = s.capacity();
            int e = c.weighted(3, 2, 2) == 0 ? freed.nextSetBit(c.pick(at.size() + 1)) : c.bool() ? c.pick(cp + 3) : c.oneOf(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, cp);
            if (e == -1 || active.get(Math.max(0, e)) && e >= 0) {
                e = c.oneOf(-1, cp, cp + 1, Integer.MAX_VALUE);
            }
            final int x = e;
            if (c.has(VALID) && freed.get(Math.max(0, e))) {
                c.nontrivial();
            }
            c.op("removeAt inactive", e);
            c.throwsX(VALID, e >= 0 && e < cp ? InvalidEntryException.class : RangeCheckException.class, "removeAt(" + e + ") of an inactive entry", () -> s.removeAt(x));
            c.throwsX(VALID, e >= 0 && e < cp ? InvalidEntryException.class : RangeCheckException.class, "resetKey(" + e + ") of an inactive entry", () -> s.resetKey(x, dom.key(0)));
            c.eq(VALID, s.size(), n, "size after a refused removeAt and resetKey");
            c.that(VALID, !s.isValid(e), "isValidEntry(%s) is true", e);
            if (e < 0 || e >= cp) {
                final Object d = Dom.value(vt, 9);
                final Object got = s.valueAtOrDefault(e, d);
                c.that(DEFAULT, same(vt, got, d), "getValueAtOrDefault(%s) = %s, expected the supplied default", e, got);
                c.throwsX(DEFAULT, IndexOutOfBoundsException.class, "getKeyAt(" + e + ")", () -> s.keyAt(x));
                c.throwsX(DEFAULT, IndexOutOfBoundsException.class, "getValueAt(" + e + ")", () -> s.valueAt(x));
            } else {
                final Object d = Dom.value(vt, 9);
                final Object got = s.valueAtOrDefault(e, d);
                c.that(DEFAULT, sameDefault(got, defVal), "getValueAtOrDefault(%s) = %s for an inactive entry, expected the default value", e, got);
            }
        }

        void bulk() {
            final int k = 1 + c.skew(c.thorough ? 300 : 100);
            if (c.weighted(3, 2) == 0) {
                final int mode = c.pick(3);
                final int base = c.pick(dom.n);
                for (int i = 0; i < k; i++) {
                    if (mode == 0) {
                        insert(c.has(HANDLE));
                    } else {
                        final Object key = dom.key(mode == 1 ? (base + i) % dom.n : (base + k - i) % dom.n);
                        c.op("insert", key);
                        final int e = s.insert(key);
                        put(e, key);
                    }
                }
            } else {
                for (int i = 0; i < k && n > 0; i++) {
                    removeAt();
                }
            }
        }

        private void put(final int e, final Object key) {
            c.res(e);
            c.that(HANDLE, e >= 0 && !active.get(e), "entry %s issued, which is active", e);
            c.that(HANDLE, freed.get(e) || (freed.isEmpty() && e == at.size()), "entry %s issued; %s entries so far, %s freed", e, at.size(), freed.cardinality());
            while (at.size() <= e) {
                at.add(null);
            }
            reused |= freed.get(e);
            freed.clear(e);
            active.set(e);
            at.set(e, new Elem(key, s.valueAt(e)));
            n++;
        }

        /** Removes everything, smallest first or any order. */
        void drain(final boolean byPeek) {
            c.op(byPeek ? "drain by peek" : "remove all");
            Object last = null;
            boolean first = true;
            while (n > 0) {
                final int e = byPeek ? s.peek() : live();
                c.that(MIN | changed, e >= 0 && active.get(e), "peek gives entry %s, which is not active", e);
                if (byPeek) {
                    final Object k = at.get(e).k;
                    if (!first && cmp.compare(last, k) > 0) {
                        c.fail(MIN | changed, "draining yields %s after %s (comparator " + cmpName + ")", k, last);
                    }
                    last = k;
                    first = false;
                    if (n < 12) {
                        peek();
                    }
                }
                s.removeAt(e);
                drop(e);
            }
            sizes();
        }

        void audit() {
            c.soft();
            audit0();
            c.hard();
        }

        private void audit0() {
            final long extra = changed;
            c.op("audit");
            c.eq(MIN | HANDLE | extra, s.size(), n, "size");
            final int cp = s.capacity();
            for (int e = -1; e <= cp; e++) {
                final boolean a = e >= 0 && active.get(e);
                final boolean got = s.isValid(e);
                c.that(VALID | (a ? HANDLE | extra : 0), got == a, "isValidEntry(%s) = %s", e, got);
                if (a) {
                    final Elem x = at.get(e);
                    c.that(HANDLE | extra, same(kt, s.keyAt(e), x.k), "getKeyAt(%s) = %s, expected %s", e, s.keyAt(e), x.k);
                    c.that(HANDLE | extra, same(vt, s.valueAt(e), x.v), "getValueAt(%s) = %s, expected %s", e, s.valueAt(e), x.v);
                    c.that(HANDLE, same(vt, s.valueAtOrDefault(e, Dom.value(vt, 8)), x.v), "getValueAtOrDefault(%s) = %s, expected %s", e,
                            s.valueAtOrDefault(e, Dom.value(vt, 8)), x.v);
                }
            }
            for (int e : new int[] {Integer.MIN_VALUE, Integer.MAX_VALUE, cp + 7, -2}) {
                c.that(VALID, !s.isValid(e), "isValidEntry(%s) is true", e);
            }
            final BitSet seen = new BitSet();
            s.forEachEntry(e -> {
                c.pause();
                c.that(VALID | extra, e >= 0 && active.get(e), "forEachEntry yields %s, which is not active", e);
                c.that(VALID | extra, !seen.get(e), "forEachEntry yields %s twice", e);
                seen.set(e);
            });
            c.that(VALID | extra, seen.cardinality() == n, "forEachEntry yields %s of %s entries", seen.cardinality(), n);
            if (c.has(VALID) && c.weighted(4, 1) == 1) {
                c.interrupted(VALID, "forEachEntry", true, sink -> s.forEachEntry(sink::accept));
            }
            if (!freed.isEmpty() && c.has(VALID)) {
                c.nontrivial();
            }
            slots();
            if (c.has(MIN | extra)) {
                for (int i = 0; i < 4; i++) {
                    final Object k = key();
                    boolean in = false;
                    for (int e = active.nextSetBit(0); e >= 0 && !in; e = active.nextSetBit(e + 1)) {
                        in = cmp.compare(k, at.get(e).k) == 0;
                    }
                    c.eq(MIN | extra, s.contains(k), in, "containsKey", k);
                    final int f = s.firstEntry(k);
                    c.that(MIN | extra, in ? f >= 0 && active.get(f) && cmp.compare(k, at.get(f).k) == 0 : f == -1, "getFirstEntry(%s) = %s", k, f);
                }
            }
            peek();
        }
    }
}
