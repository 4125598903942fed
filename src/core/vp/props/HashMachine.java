package vp.props;

import com.bytefacets.collections.EntryIterator;
import com.bytefacets.collections.exception.KeyNotFoundException;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.ConcurrentModificationException;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.function.Function;
import vp.core.Ctx;
import vp.sut.Fn;
import vp.sut.HashSut;
import vp.sut.T;
import vp.sut.U;

/** Histories over indexed sets and maps against a reference model. */
final class HashMachine {
    // what an assertion is about
    static final long MEMB = 1, VAL = 2, STABLE = 4, COMPACT = 8, RESERVE = 16, ITER = 32, FOREACH = 64, COPY = 128,
            FN = 256, DEF = 512, CAP = 1024, REACH = 2048;
    /** Operation contexts whose property owns every assertion. */
    static final long ALL = RESERVE | ITER | FOREACH | COPY | FN;

    static final byte UNUSED = 0, ACTIVE = 1, FREE = 2, RESERVED = 3;

    /** Operation weights by property. */
    static final class Profile {
        int add = 20, put = 16, remove = 16, removeAt = 8, reserve = 2, free = 3, putValueAt = 5, probe = 10, clear = 1,
                iterate = 3, forEach = 2, bulkAdd = 2, bulkRemove = 2, removeAtInactive = 2, audit = 2, copy = 1,
                putValueAtInactive = 0, held = 0, fns = 0, absentReads = 2, churn = 1;
        int twoPercent = 25; // chance of a second instance
        int maxDomain = 1200;
        boolean fn; // custom functions from the start
        boolean huge; // few bulk operations over very many keys
    }

    /** One collection and its model. */
    static final class Inst {
        HashSut sut;
        int id;
        int requested;
        final Map<Object, Integer> entryOf = new HashMap<>();
        Object[] keyAt = new Object[16];
        Object[] valAt = new Object[16];
        byte[] state = new byte[16];
        boolean[] dirty = new boolean[16];
        int issued; // entries 0..issued-1 have been issued since construction or clear
        int highest = -1; // highest entry ever issued to this instance, for reading unused slots
        int free;
        int active;
        int reserved;
        int peak;
        int capacity;
        Inst twin; // an instance that must react identically
        EntryIterator held;
        boolean heldStale; // structurally modified since reset
        boolean heldUnsure; // modified in a way that may or may not count
        boolean heldOnCurrent;
        boolean heldDone;
        boolean[] heldSeen;
        int heldCount;
        int heldExpected;

        void ensure(final int e) {
            if (e >= state.length) {
                final int n = Math.max(e + 1, state.length * 2);
                keyAt = Arrays.copyOf(keyAt, n);
                valAt = Arrays.copyOf(valAt, n);
                state = Arrays.copyOf(state, n);
                dirty = Arrays.copyOf(dirty, n);
            }
        }

        void modified() {
            heldStale = true;
        }

        int highestLive() {
            for (int e = issued - 1; e >= 0; e--) {
                if (state[e] == ACTIVE || state[e] == RESERVED) {
                    return e;
                }
            }
            return -1;
        }
    }

    final Ctx c;
    final Profile p;
    final T kt;
    final T vt; // null for sets
    final String cls;
    final Reach reach;
    Dom dom;
    Function<Object, Object> canon = Dom::canon;
    Fn fn;
    final List<Inst> insts = new ArrayList<>();
    EntryIterator spare; // a finished iterator that may be reused on the instance it came from
    Inst spareOf;
    private int valueCounter;

    HashMachine(final Ctx c, final String subject, final Profile p) {
        this.c = c;
        this.p = p;
        final int slash = subject.indexOf('/');
        reach = c.has(REACH) ? new Reach(c) : null;
        kt = T.of(slash < 0 ? subject : subject.substring(0, slash));
        vt = slash < 0 ? null : T.of(subject.substring(slash + 1));
        cls = slash < 0 ? subject + "SetAdapter" : subject.replace("/", "") + "MapAdapter";
    }

    static final double[] LOADS = {0.75, 1.0, 0.5, 0.25, 0.9, 0.1, 0.33, 0.01};

    Inst create() {
        final Inst in = new Inst();
        in.id = insts.size();
        final int cap = p.huge ? c.oneOf(1, 100, 1000, 1 << 16, 70000, 1 << 17, 1 << 18)
                : c.weighted(5, 2, 1) == 0 ? c.range(1, 20) : c.oneOf(1, 2, 32, 64, 100, 1000, 1 << 17);
        final double lf = p.huge ? LOADS[c.weighted(8, 4, 3)] : LOADS[c.weighted(8, 3, 3, 2, 2, 1, 1, 1)];
        c.op("new#" + in.id + " " + cls, cap, lf);
        in.sut = U.make(cls, cap, lf);
        in.requested = cap;
        in.capacity = in.sut.capacity();
        c.that(MEMB | CAP | ALL, in.sut.size() == 0 && in.sut.isEmpty(), "new collection is not empty");
        c.that(CAP, in.capacity >= cap, "capacity %s below requested %s", in.capacity, cap);
        if (fn != null) {
            in.sut.setHash(fn);
            in.sut.setEq(fn);
        }
        insts.add(in);
        return in;
    }

    // ------------------------------------------------------------ running
    void run() {
        final int size = p.huge ? 3 : c.weighted(12, 6, 2); // small, medium, large, huge
        final int domain = size == 3 ? c.range(20000, c.thorough ? 400000 : 150000) : size == 0 ? c.range(1, 12) : size == 1 ? c.range(8, 80) : c.range(50, p.maxDomain < 1200 ? p.maxDomain : c.thorough ? 6000 : 1200);
        final int mean = size == 3 ? 7 : size == 0 ? 14 : 60;
        if (p.fn) {
            final FnFamily ff = FnFamily.draw(c, kt, domain);
            dom = ff.dom;
            fn = ff;
            canon = ff::canon;
            c.op("functions", ff.name);
        } else {
            dom = p.huge ? Dom.spread(c, kt, domain, false) : Dom.draw(c, kt, domain);
        }
        dom.reach = kt.isRef() ? reach : null;
        c.op("keys", dom.kind, dom.n);
        c.label("domain-" + dom.kind);
        c.label(size == 0 ? "small" : size == 1 ? "medium" : size == 2 ? "large" : "huge");
        create();
        if (c.chance(p.twoPercent, 100)) {
            create();
        }
        while (c.more(mean)) {
            final Inst in = insts.size() == 1 ? insts.get(0) : insts.get(c.pick(insts.size()));
            step(in, size);
        }
        for (Inst in : insts) {
            audit(in);
        }
    }

    private Object key(final int i) {
        Object k = dom.key(i);
        if (fn == null && (k instanceof Float && (Float) k == 0f || k instanceof Double && (Double) k == 0d) && c.bool()) {
            k = k instanceof Float ? (Object) (-(Float) k) : (Object) (-(Double) k);
            c.label("negated-zero");
        }
        return k;
    }

    private void step(final Inst in, final int size) {
        final int w = c.weighted(p.add, vt == null ? 0 : p.put, p.remove, p.removeAt, p.reserve, p.free,
                vt == null ? 0 : p.putValueAt, p.probe, p.clear, p.iterate, p.forEach, p.bulkAdd, p.bulkRemove,
                p.removeAtInactive, p.audit, p.copy, vt == null ? 0 : p.putValueAtInactive, p.held, p.fns,
                p.absentReads, p.churn);
        switch (w) {
            case 0: add(in, key(c.pick(dom.n)), true); break;
            case 1: put(in, key(c.pick(dom.n)), nextValue()); break;
            case 2: remove(in, key(c.pick(dom.n))); break;
            case 3: {
                final int e = pickEntry(in, ACTIVE);
                if (e >= 0) {
                    removeAt(in, e);
                }
                break;
            }
            case 4: {
                final int e = pickEntry(in, ACTIVE);
                if (e >= 0) {
                    reserve(in, e);
                }
                break;
            }
            case 5: {
                final int e = pickEntry(in, RESERVED);
                if (e >= 0) {
                    free(in, e);
                }
                break;
            }
            case 6: {
                final int e = pickEntry(in, ACTIVE);
                if (e >= 0) {
                    final Object v = nextValue();
                    c.op("#" + in.id + ".putValueAt", e, v);
                    breakTwin(in);
                    in.sut.putValueAt(e, v);
                    in.valAt[e] = v;
                }
                break;
            }
            case 7: probe(in, dom.key(c.pick(dom.n))); break;
            case 8: clear(in); break;
            case 9: iterate(in); break;
            case 10: forEachRemoving(in); break;
            case 11: bulkAdd(in, size); break;
            case 12: bulkRemove(in); break;
            case 13: removeAtInactive(in); break;
            case 14: audit(in); break;
            case 15: copy(in); break;
            case 16: {
                final int e = in.highest < 0 ? -1 : c.pick(in.highest + 1);
                if (e >= 0 && in.state[e] != ACTIVE && in.state[e] != RESERVED) {
                    final Object v = nextValue();
                    c.op("#" + in.id + ".putValueAt(unused)", e, v);
                    breakTwin(in);
                    in.sut.putValueAt(e, v);
                    in.dirty[e] = true;
                    c.label("write-to-unused-slot");
                }
                break;
            }
            case 17: held(in); break;
            case 18: functions(in); break;
            case 19: outside(in); break;
            default: churn(in); break;
        }
        capacity(in);
        if (reach != null && (in.issued < 100 || c.chance(1, 8))) {
            reachable(in);
        }
    }

    /** One in den, per element: a choice each in small collections, derived from a single choice in huge ones. */
    private java.util.function.BooleanSupplier oneIn(final int den) {
        if (den <= 1) {
            return () -> den == 1;
        }
        if (!p.huge) {
            return () -> c.pick(den) == 0;
        }
        final java.util.SplittableRandom r = new java.util.SplittableRandom(c.bits64());
        return () -> r.nextInt(den) == 0;
    }

    private Object nextValue() {
        return ever(c.chance(1, 5) ? Dom.value(c, vt) : Dom.value(vt, 20 + valueCounter++));
    }

    private Object ever(final Object o) {
        if (reach != null && vt.isRef()) {
            reach.ever(o);
        }
        return o;
    }

    private void breakTwin(final Inst in) {
        if (in.twin != null) {
            in.twin.twin = null;
            in.twin = null;
        }
    }

    private void capacity(final Inst in) {
        final int cap = in.sut.capacity();
        c.that(CAP, cap >= in.capacity, "capacity shrank from %s to %s", in.capacity, cap);
        c.that(CAP, cap > in.highest, "capacity %s but entry %s has been issued", cap, in.highest);
        if (cap > in.capacity) {
            c.label("grown");
            if (c.has(CAP)) {
                c.nontrivial();
            }
        }
        in.capacity = cap;
    }

    private int pickEntry(final Inst in, final byte st) {
        final int n = st == ACTIVE ? in.active : in.reserved;
        if (n == 0) {
            return -1;
        }
        // a few random probes, then a scan
        final int start = c.pick(in.issued);
        for (int i = 0; i < in.issued; i++) {
            final int e = (start + i) % in.issued;
            if (in.state[e] == st) {
                return e;
            }
        }
        return -1;
    }

    // ------------------------------------------------------------ model transitions
    /** The collection has issued entry e for a new key. */
    private void issue(final Inst in, final int e, final Object k, final Object ck, final String what) {
        c.that(STABLE | COMPACT | MEMB | ALL, e >= 0, what + " returned the entry %s", e);
        if (e < in.state.length) {
            final byte st = in.state[e];
            c.that(STABLE | COMPACT | MEMB | ALL, st != ACTIVE, what + "(%s) returned entry %s, in use for %s", k, e,
                    in.keyAt[e]);
            c.that(RESERVE | COMPACT | COPY, st != RESERVED, what + "(%s) returned reserved entry %s", k, e);
        }
        if (in.free > 0) {
            c.that(COMPACT | RESERVE | ITER | COPY, e < in.issued && in.state[e] == FREE,
                    what + "(%s) issued entry %s although freed entries are available (%s issued so far)", k, e, in.issued);
            in.free--;
            c.label("reused-entry");
        } else {
            c.that(COMPACT | RESERVE | ITER | COPY, e == in.issued, what + "(%s) issued entry %s, expected %s", k, e, in.issued);
            in.ensure(e);
            in.issued++;
        }
        in.ensure(e);
        in.highest = Math.max(in.highest, e);
        in.state[e] = ACTIVE;
        in.keyAt[e] = k;
        in.entryOf.put(ck, e);
        in.active++;
        in.peak = Math.max(in.peak, in.active + in.reserved);
        c.that(COMPACT, e < in.peak, "entry %s issued with at most %s ever in use", e, in.peak);
        in.modified();
    }

    private void freed(final Inst in, final int e) {
        if (in.state[e] == ACTIVE) {
            in.entryOf.remove(canon.apply(in.keyAt[e]));
            in.active--;
        } else {
            in.reserved--;
        }
        in.state[e] = FREE;
        in.keyAt[e] = null;
        in.valAt[e] = null;
        in.dirty[e] = false;
        in.free++;
    }

    // ------------------------------------------------------------ operations
    private int add(final Inst in, final Object k, final boolean mirror) {
        final Object ck = canon.apply(k);
        c.op("#" + in.id + ".add", k);
        final int e = in.sut.add(k);
        c.res(e);
        if (mirror) {
            mirror(in, t -> t.sut.add(k), e, "add", t -> add0(t, k, ck, e));
        }
        return add0(in, k, ck, e);
    }

    private int add0(final Inst in, final Object k, final Object ck, final int e) {
        final Integer old = in.entryOf.get(ck);
        if (old != null) {
            c.that(STABLE | MEMB | ALL, e == old, "add(%s) of a present key returned %s, its entry is %s", k, e, old);
            c.label("re-add");
            if (vt != null) {
                checkVal(in, e, DEF | VAL, "after adding the present key again");
            }
            return e;
        }
        final boolean stale = e >= 0 && e < in.dirty.length && in.dirty[e];
        issue(in, e, k, ck, "add");
        in.dirty[e] = false;
        if (vt != null) {
            in.valAt[e] = vt.def();
            final Object v = in.sut.valueAt(e);
            c.that(DEF | VAL | ALL, Dom.sameValue(vt, v, vt.def()), "newly added key %s has value %s", k, v);
            if (stale && c.has(DEF)) {
                c.nontrivial();
            }
        }
        return e;
    }

    interface MirrorOp {
        int run(Inst t);
    }

    interface Then {
        void run(Inst t);
    }

    /** Runs the same operation on the instance's twin (an untouched copy), which must answer the same. */
    private void mirror(final Inst in, final MirrorOp op, final int got, final String what, final Then then) {
        final Inst t = in.twin;
        if (t == null) {
            return;
        }
        if (!c.chance(4, 5)) {
            breakTwin(in);
            return;
        }
        final int r = op.run(t);
        c.that(COPY, r == got, what + " returned %s on one and %s on the other of a collection and its copy", got, r);
        then.run(t);
        c.that(COPY, in.sut.capacity() == t.sut.capacity(), "after " + what + " capacity %s of one and %s of the other of a collection and its copy", in.sut.capacity(), t.sut.capacity());
        c.label("twin-step");
        if (c.has(COPY)) {
            c.nontrivial();
        }
    }

    private void put(final Inst in, final Object k, final Object v) {
        final Object ck = canon.apply(k);
        c.op("#" + in.id + ".put", k, v);
        final int e = in.sut.put(k, v);
        c.res(e);
        mirror(in, t -> t.sut.put(k, v), e, "put", t -> put0(t, k, ck, v, e));
        put0(in, k, ck, v, e);
    }

    private void put0(final Inst in, final Object k, final Object ck, final Object v, final int e) {
        final Integer old = in.entryOf.get(ck);
        if (old != null) {
            c.that(STABLE | MEMB | ALL, e == old, "put(%s) of a present key returned %s, its entry is %s", k, e, old);
            c.label("overwrite");
        } else {
            issue(in, e, k, ck, "put");
        }
        in.dirty[e] = false;
        in.valAt[e] = v;
        checkVal(in, e, VAL | STABLE, "after put");
    }

    private void remove(final Inst in, final Object k) {
        final Object ck = canon.apply(k);
        final Integer old = in.entryOf.get(ck);
        c.op("#" + in.id + ".remove", k);
        final int r = in.sut.remove(k);
        c.res(r);
        mirror(in, t -> t.sut.remove(k), r, "remove", t -> remove0(t, k, old, r));
        remove0(in, k, old, r);
    }

    private void remove0(final Inst in, final Object k, final Integer old, final int r) {
        c.that(MEMB | STABLE | ALL, r == (old == null ? -1 : old), "remove(%s) returned %s, expected %s", k, r,
                old == null ? -1 : old);
        if (old != null) {
            freed(in, old);
            in.modified();
            c.that(MEMB | ALL, in.sut.lookup(k) == -1, "key %s is still found after remove", k);
            slot(in, old);
        }
        c.that(MEMB | ALL, in.sut.size() == in.active, "size %s after remove, expected %s", in.sut.size(), in.active);
    }

    private void removeAt(final Inst in, final int e) {
        c.op("#" + in.id + ".removeAt", e);
        final Object k = in.keyAt[e];
        in.sut.removeAt(e);
        mirror(in, t -> {
            t.sut.removeAt(e);
            return 0;
        }, 0, "removeAt", t -> removeAt0(t, e, k));
        removeAt0(in, e, k);
    }

    private void removeAt0(final Inst in, final int e, final Object k) {
        freed(in, e);
        in.modified();
        c.that(MEMB | STABLE | ALL, in.sut.lookup(k) == -1, "key %s is still found after removeAt(%s)", k, e);
        c.that(MEMB | ALL, in.sut.size() == in.active, "size %s after removeAt, expected %s", in.sut.size(), in.active);
        slot(in, e);
    }

    private void reserve(final Inst in, final int e) {
        c.op("#" + in.id + ".removeAtAndReserve", e);
        final Object k = in.keyAt[e];
        in.sut.reserve(e);
        mirror(in, t -> {
            t.sut.reserve(e);
            return 0;
        }, 0, "removeAtAndReserve", t -> reserve0(t, e, k));
        reserve0(in, e, k);
        c.label("reserve");
        if (c.has(RESERVE)) {
            c.nontrivial();
        }
    }

    private void reserve0(final Inst in, final int e, final Object k) {
        in.entryOf.remove(canon.apply(k));
        in.state[e] = RESERVED;
        in.active--;
        in.reserved++;
        in.modified();
        c.that(MEMB | ALL, in.sut.lookup(k) == -1, "key %s is still found after removeAtAndReserve", k);
        c.that(MEMB | ALL, in.sut.size() == in.active, "size %s after removeAtAndReserve, expected %s", in.sut.size(), in.active);
        slot(in, e);
    }

    private void free(final Inst in, final int e) {
        c.op("#" + in.id + ".freeReservedEntry", e);
        in.sut.free(e);
        mirror(in, t -> {
            t.sut.free(e);
            return 0;
        }, 0, "freeReservedEntry", t -> freed(t, e));
        freed(in, e);
        slot(in, e);
        c.label("free-reserved");
    }

    private void clear(final Inst in) {
        c.op("#" + in.id + ".clear");
        if (in.active > 0) {
            in.modified();
        } else {
            in.heldUnsure = true;
        }
        in.sut.clear();
        mirror(in, t -> {
            t.sut.clear();
            return 0;
        }, 0, "clear", this::cleared);
        if (in.free > 0 && in.active > 0) {
            c.label("clear-with-freed");
        }
        if (in.reserved > 0) {
            c.label("clear-with-reserved");
        }
        cleared(in);
        c.that(MEMB | COMPACT | ALL, in.sut.size() == 0 && in.sut.isEmpty(), "size %s after clear", in.sut.size());
        for (int e = 0; e <= in.highest; e++) {
            slot(in, e);
        }
    }

    private void cleared(final Inst in) {
        in.entryOf.clear();
        Arrays.fill(in.state, UNUSED);
        Arrays.fill(in.keyAt, null);
        Arrays.fill(in.valAt, null);
        // writes to unused slots beyond the issued ones may survive a clear
        in.active = 0;
        in.reserved = 0;
        in.free = 0;
        in.issued = 0;
        in.peak = 0;
        if (in.twin != null) {
            in.twin.modified();
        }
    }

    private void probe(final Inst in, final Object k) {
        final Integer old = in.entryOf.get(canon.apply(k));
        c.op("#" + in.id + ".probe", k);
        c.soft();
        probe0(in, k, old);
        c.hard();
    }

    private void probe0(final Inst in, final Object k, final Integer old) {
        final int e = in.sut.lookup(k);
        c.that(MEMB | STABLE | ALL, (e >= 0) == (old != null), "lookupEntry(%s) = %s, expected %s", k, e,
                old == null ? -1 : old);
        c.that(MEMB | STABLE | ALL, old == null ? e == -1 : e == old, "lookupEntry(%s) = %s, expected %s", k, e,
                old == null ? -1 : old);
        c.that(MEMB | ALL, in.sut.contains(k) == (old != null), "containsKey(%s) is %s", k, old == null);
        if (vt == null) {
            return;
        }
        if (old != null) {
            final Object v = in.sut.get(k);
            c.that(VAL | ALL, Dom.sameValue(vt, v, in.valAt[old]), "get(%s) = %s, expected %s", k, v, in.valAt[old]);
            final Object d = Dom.value(vt, 7);
            final Object v2 = in.sut.getOrDefault(k, d);
            c.that(VAL | ALL, Dom.sameValue(vt, v2, in.valAt[old]), "getOrDefault(%s) = %s, expected %s", k, v2, in.valAt[old]);
        } else {
            c.throwsX(VAL | ALL, KeyNotFoundException.class, "get of absent key", () -> in.sut.get(k));
            final Object d = Dom.value(vt, 8 + c.pick(3));
            final Object v2 = in.sut.getOrDefault(k, d);
            c.that(VAL | ALL, Dom.sameValue(vt, v2, d), "getOrDefault(absent %s, %s) = %s", k, d, v2);
        }
    }

    /** Reads outside the storage. */
    private void outside(final Inst in) {
        final int e = c.oneOf(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, 1 << 29);
        c.op("#" + in.id + ".outside", e);
        if (vt != null) {
            final Object d = Dom.value(vt, 9);
            final Object v = in.sut.valueAtOrDefault(e, d);
            c.that(DEF, Dom.sameValue(vt, v, d), "getValueAtOrDefault(%s, %s) = %s", e, d, v);
            c.throwsX(DEF, IndexOutOfBoundsException.class, "getValueAt outside the storage", () -> in.sut.valueAt(e));
            if (c.chance(1, 3)) {
                edge(in, d);
            }
        }
        c.throwsX(DEF, IndexOutOfBoundsException.class, "getKeyAt outside the storage", () -> in.sut.keyAt(e));
        c.throwsX(DEF, IndexOutOfBoundsException.class, "removeAt outside the storage", () -> in.sut.removeAt(e));
        c.that(MEMB | DEF, in.sut.size() == in.active, "size changed by accesses outside the storage");
    }

    /** Looks for the end of the storage: on each side of it the two ways to read a value agree on whether there is one. */
    private void edge(final Inst in, final Object d) {
        int in0 = 0;
        int out0 = 1 << 29;
        while (out0 - in0 > 1) {
            final int mid = (in0 + out0) >>> 1;
            boolean outside = false;
            try {
                in.sut.valueAt(mid);
            } catch (IndexOutOfBoundsException ex) {
                outside = true;
            }
            if (outside) {
                out0 = mid;
            } else {
                in0 = mid;
            }
        }
        final int last = in0;
        final int first = out0;
        final Object at = in.sut.valueAt(last);
        final Object v = in.sut.valueAtOrDefault(last, d);
        c.that(DEF, Dom.sameValue(vt, v, at), "getValueAtOrDefault(%s) = %s at the last entry of the storage, which holds %s", last, v, at);
        final Object v2 = in.sut.valueAtOrDefault(first, d);
        c.that(DEF, Dom.sameValue(vt, v2, d), "getValueAtOrDefault(%s, %s) = %s just outside the storage", first, d, v2);
        c.throwsX(DEF, IndexOutOfBoundsException.class, "getKeyAt well outside the storage", () -> in.sut.keyAt(1 << 29));
    }

    private void removeAtInactive(final Inst in) {
        if (in.highest < 0) {
            return;
        }
        final boolean hold = c.bool();
        final int e = c.chance(1, 5) ? c.pick(in.sut.capacity()) : c.pick(in.highest + 1);
        if (e <= in.highest && in.state[e] == ACTIVE) {
            return;
        }
        c.op("#" + in.id + (hold ? ".removeAtAndReserve(inactive)" : ".removeAt(inactive)"), e);
        if (hold) {
            in.sut.reserve(e);
        } else {
            in.sut.removeAt(e);
        }
        c.that(MEMB | RESERVE | COMPACT, in.sut.size() == in.active, "size %s after removing an inactive entry", in.sut.size());
        c.label("removeAt-inactive");
    }

    private void bulkAdd(final Inst in, final int size) {
        final int from = c.pick(dom.n);
        final int len = size == 3 ? c.range(Math.max(1, dom.n / 2), dom.n) : 1 + c.skew(size == 0 ? 8 : dom.n);
        c.op("#" + in.id + ".bulkAdd keys[from, len]", from, len);
        if (len > 30) {
            c.label("bulk-add");
        }
        breakTwin(in);
        for (int i = 0; i < len; i++) {
            final Object k = dom.key((from + i) % dom.n);
            final Object ck = canon.apply(k);
            if (vt != null && (i & 1) == 0) {
                final Object v = ever(Dom.value(vt, 20 + valueCounter++));
                put0(in, k, ck, v, in.sut.put(k, v));
            } else {
                add0(in, k, ck, in.sut.add(k));
            }
        }
    }

    private void bulkRemove(final Inst in) {
        final int stride = 1 + c.pick(3);
        final int len = (p.huge ? c.pick(dom.n) : c.skew(dom.n)) + 1;
        final int from = c.pick(dom.n);
        c.op("#" + in.id + ".bulkRemove keys[from, len, stride]", from, len, stride);
        breakTwin(in);
        for (int i = 0; i < len; i++) {
            final Object k = dom.key((from + i * stride) % dom.n);
            final Integer old = in.entryOf.get(canon.apply(k));
            remove0(in, k, old, in.sut.remove(k));
        }
    }

    /** Remove-and-add cycles: leaks and corrupted free lists show up as growth. */
    private void churn(final Inst in) {
        final int rounds = 1 + c.skew(p.huge ? 4000 : 40);
        final int from = c.pick(dom.n);
        c.op("#" + in.id + ".churn", from, rounds);
        breakTwin(in);
        for (int i = 0; i < rounds; i++) {
            final Object k = dom.key((from + i) % dom.n);
            final Object ck = canon.apply(k);
            final Integer old = in.entryOf.get(ck);
            if (old != null && (i & 3) != 3) {
                remove0(in, k, old, in.sut.remove(k));
            } else {
                add0(in, k, ck, in.sut.add(k));
            }
        }
    }

    // ------------------------------------------------------------ enumeration
    private void iterate(final Inst in) {
        final boolean removing = c.chance(1, 2);
        final boolean reuse = c.chance(1, 3) && spareOf == in;
        c.op("#" + in.id + ".iterate", removing ? "removing" : "reading", reuse ? "reused" : "new");
        breakTwin(in);
        final EntryIterator it = reuse ? in.sut.iterator(spare) : in.sut.iterator();
        final int n = in.active;
        final boolean[] seen = new boolean[in.highest + 1];
        int count = 0;
        final java.util.function.BooleanSupplier drop = oneIn(removing ? 1 + c.pick(4) : 0);
        while (it.next()) {
            final int e = it.currentEntry();
            c.that(ITER | MEMB, e >= 0 && e < seen.length && (in.state[e] == ACTIVE), "iterator yields entry %s, which is not present", e);
            c.that(ITER | MEMB, !seen[e], "iterator yields entry %s twice", e);
            seen[e] = true;
            count++;
            c.that(ITER | MEMB, count <= n, "iterator yields more than %s entries", n);
            if (c.has(ITER) && !p.huge && c.chance(1, 8)) {
                undisturbing(in);
            }
            if (drop.getAsBoolean()) {
                iteratorRemove(in, it, e);
                if (c.has(ITER) && !p.huge && c.chance(1, 4)) {
                    c.throwsX(ITER, IllegalStateException.class, "removing the same entry twice", it::remove);
                }
            }
        }
        c.that(ITER | MEMB, count == n, "iterator yields %s entries of %s", count, n);
        c.that(ITER, !it.next(), "iterator continues after its end");
        if (n > 1 && removing && c.has(ITER)) {
            c.nontrivial();
        }
        spare = it;
        spareOf = in;
        if (removing) {
            audit(in);
        }
    }

    private void iteratorRemove(final Inst in, final EntryIterator it, final int e) {
        c.op("#" + in.id + " iterator.remove at", e);
        final Object k = in.keyAt[e];
        it.remove();
        freed(in, e);
        in.modified();
        c.label("iterator-remove");
        c.that(ITER | MEMB, in.sut.size() == in.active, "size %s after iterator.remove, expected %s", in.sut.size(), in.active);
        c.that(ITER | MEMB, in.sut.lookup(k) == -1, "key %s still found after iterator.remove", k);
        slot(in, e);
    }

    /** Operations that must not disturb a running iterator. */
    private void undisturbing(final Inst in) {
        switch (c.pick(5)) {
            case 0: probe(in, dom.key(c.pick(dom.n))); break;
            case 1: {
                final int e = pickEntry(in, ACTIVE);
                if (e >= 0) {
                    add(in, in.keyAt[e], false);
                }
                break;
            }
            case 2: {
                final Object k = dom.key(c.pick(dom.n));
                if (!in.entryOf.containsKey(canon.apply(k))) {
                    remove(in, k);
                }
                break;
            }
            case 3: {
                final int e = pickEntry(in, ACTIVE);
                if (e >= 0 && vt != null) {
                    put(in, in.keyAt[e], nextValue());
                }
                break;
            }
            default: {
                final int e = pickEntry(in, ACTIVE);
                if (e >= 0 && vt != null) {
                    final Object v = nextValue();
                    in.sut.putValueAt(e, v);
                    in.valAt[e] = v;
                }
            }
        }
    }

    /** A long-lived iterator, stepped between other operations. */
    private void held(final Inst in) {
        final int what = in.held == null ? 0 : c.weighted(4, 20, 8, 6, 1);
        if (what == 0 || what == 3) {
            if (in.held == null || what == 0) {
                c.op("#" + in.id + ".held=iterator", in.held == null ? "new" : "reused");
                in.held = in.held == null ? in.sut.iterator() : in.sut.iterator(in.held);
            } else {
                c.op("#" + in.id + " held.reset");
                in.held.reset();
            }
            in.heldStale = false;
            in.heldUnsure = false;
            in.heldOnCurrent = false;
            in.heldDone = false;
            in.heldSeen = new boolean[in.highest + 1];
            in.heldCount = 0;
            in.heldExpected = in.active;
            return;
        }
        if (in.heldUnsure && !in.heldStale) {
            in.held = null;
            return;
        }
        if (what == 4) {
            burst(in);
            return;
        }
        if (in.heldStale) {
            if (what == 1) {
                c.op("#" + in.id + " stale held.next");
                c.throwsX(ITER, ConcurrentModificationException.class, "next after an outside modification", () -> in.held.next());
            } else {
                if (!in.heldOnCurrent) {
                    return;
                }
                c.op("#" + in.id + " stale held.remove");
                c.throwsX(ITER, ConcurrentModificationException.class, "remove after an outside modification", () -> in.held.remove());
            }
            c.label("fail-fast");
            if (c.has(ITER)) {
                c.nontrivial();
            }
            c.that(ITER, in.sut.size() == in.active, "a refused iterator call changed the size");
            return;
        }
        if (what == 1) {
            c.op("#" + in.id + " held.next");
            final boolean more = in.held.next();
            c.res(more);
            if (!more) {
                c.that(ITER, in.heldCount == in.heldExpected, "iterator ended after %s entries of %s", in.heldCount, in.heldExpected);
                in.heldOnCurrent = false;
                in.heldDone = true;
                c.label("held-complete");
                return;
            }
            c.that(ITER, !in.heldDone, "iterator resumed after its end");
            final int e = in.held.currentEntry();
            c.that(ITER, e >= 0 && e < in.heldSeen.length && in.state[e] == ACTIVE && !in.heldSeen[e],
                    "iterator yields entry %s (absent or repeated)", e);
            in.heldSeen[e] = true;
            in.heldCount++;
            in.heldOnCurrent = true;
        } else if (in.heldOnCurrent) {
            final int e = in.held.currentEntry();
            breakTwin(in);
            iteratorRemove(in, in.held, e);
            in.heldStale = false;
            in.heldOnCurrent = false;
            c.throwsX(ITER, IllegalStateException.class, "removing the same entry twice", () -> in.held.remove());
        }
    }

    /** A number of structural changes that leaves no trace in the contents. */
    private void burst(final Inst in) {
        final Object k = dom.key(c.pick(dom.n));
        final Object ck = canon.apply(k);
        if (in.entryOf.containsKey(ck)) {
            return;
        }
        final int pairs = c.oneOf(1, 8, 128, 1024, 32768);
        c.op("#" + in.id + ".burst of add and remove", k, pairs);
        breakTwin(in);
        for (int i = 0; i < pairs; i++) {
            add0(in, k, ck, in.sut.add(k));
            remove0(in, k, in.entryOf.get(ck), in.sut.remove(k));
        }
    }

    private void interrupted(final Inst in, final int kind) {
        switch (kind) {
            case 0: c.interrupted(FOREACH, "forEachEntry", true, sink -> in.sut.forEachEntry(sink::accept)); break;
            case 1: c.interrupted(FOREACH, "forEach(key)", true, in.sut::forEach); break;
            default: c.interrupted(FOREACH, "forEachValue", true, in.sut::forEachValue);
        }
        c.label("interrupted");
        audit(in);
    }

    private void forEachRemoving(final Inst in) {
        final int kind = c.pick(vt == null ? 2 : 3);
        if (in.active > 0 && c.weighted(5, 1) == 1) {
            interrupted(in, kind);
            return;
        }
        final int den = c.pick(5); // 0: none, 1: all, n: one in n
        final java.util.function.BooleanSupplier drop = oneIn(den);
        final int n = in.active;
        breakTwin(in);
        if (kind == 0) {
            c.op("#" + in.id + ".forEachEntry removing one in", den);
            final boolean[] seen = new boolean[in.highest + 1];
            final int[] count = {0};
            final int how = c.pick(2);
            in.sut.forEachEntry(e -> {
                c.pause();
                c.that(FOREACH | MEMB, e >= 0 && e < seen.length && in.state[e] == ACTIVE, "forEachEntry yields %s, which is not present", e);
                c.that(FOREACH | MEMB, !seen[e], "forEachEntry yields %s twice", e);
                seen[e] = true;
                count[0]++;
                if (drop.getAsBoolean()) {
                    final Object k = in.keyAt[e];
                    if (how == 0) {
                        in.sut.removeAt(e);
                        removeAt0(in, e, k);
                    } else {
                        remove0(in, k, e, in.sut.remove(k));
                    }
                }
            });
            c.that(FOREACH | MEMB, count[0] == n, "forEachEntry visited %s of %s entries", count[0], n);
        } else if (kind == 1) {
            c.op("#" + in.id + ".forEach(key) removing one in", den);
            final int[] count = {0};
            final boolean[] seen = new boolean[in.highest + 1];
            in.sut.forEach(k -> {
                c.pause();
                final Integer e = in.entryOf.get(canon.apply(k));
                c.that(FOREACH | MEMB, e != null, "forEach yields key %s, which is not present (or was visited)", k);
                c.that(FOREACH | MEMB, !seen[e], "forEach yields key %s twice", k);
                seen[e] = true;
                count[0]++;
                if (drop.getAsBoolean()) {
                    remove0(in, k, e, in.sut.remove(k));
                }
            });
            c.that(FOREACH | MEMB, count[0] == n, "forEach visited %s of %s keys", count[0], n);
        } else {
            // identify entries by value where the values are distinct
            final Map<Object, Integer> byValue = new HashMap<>();
            boolean distinct = true;
            for (int e = 0; e < in.issued; e++) {
                if (in.state[e] == ACTIVE && byValue.put(vt.isRef() ? new Id(in.valAt[e]) : in.valAt[e], e) != null) {
                    distinct = false;
                }
            }
            c.op("#" + in.id + ".forEachValue removing one in", distinct ? den : 0);
            final int[] count = {0};
            final boolean rem = distinct && den > 0;
            in.sut.forEachValue(v -> {
                c.pause();
                final Integer e = byValue.get(vt.isRef() ? new Id(v) : v);
                c.that(FOREACH | VAL, e != null, "forEachValue yields %s, which is nobody's value", v);
                count[0]++;
                if (rem) {
                    c.that(FOREACH | VAL, in.state[e] == ACTIVE, "forEachValue yields %s twice", v);
                    if (drop.getAsBoolean()) {
                        final Object k = in.keyAt[e];
                        in.sut.removeAt(e);
                        removeAt0(in, e, k);
                    }
                }
            });
            c.that(FOREACH | VAL, count[0] == n, "forEachValue visited %s of %s values", count[0], n);
        }
        if (den > 0 && n > 1) {
            c.label("forEach-removal");
            if (c.has(FOREACH)) {
                c.nontrivial();
            }
        }
        audit(in);
    }

    static final class Id {
        final Object o;

        Id(final Object o) {
            this.o = o;
        }

        @Override
        public boolean equals(final Object x) {
            return x instanceof Id && ((Id) x).o == o;
        }

        @Override
        public int hashCode() {
            return System.identityHashCode(o);
        }
    }

    // ------------------------------------------------------------ copying and functions
    private void copy(final Inst from) {
        Inst to;
        if (insts.size() < 3 && c.chance(1, 2)) {
            to = create();
        } else {
            to = insts.get(c.pick(insts.size()));
        }
        c.op("#" + to.id + ".copyFrom #" + from.id);
        if (to == from) {
            to.sut.copyFrom(from.sut);
            to.modified();
            to.heldUnsure = true;
            to.held = null;
            breakTwin(to);
            audit(to);
            return;
        }
        if (fn != null && to.active == 0 && c.chance(2, 3)) { // the functions are the source's afterwards
            final int which = c.range(1, 3);
            c.op("#" + to.id + " had other functions", (which & 1) != 0 ? "hash" : "", (which & 2) != 0 ? "equality" : "");
            if ((which & 1) != 0) {
                to.sut.setHash(c.bool() ? new One() : new Text());
            }
            if ((which & 2) != 0) {
                to.sut.setEq(c.bool() ? new One() : new Text());
            }
            c.label("copy-of-functions");
        }
        breakTwin(to);
        breakTwin(from);
        c.label(to.active == 0 ? "copy-into-empty" : "copy-into-used");
        if (to.capacity > from.capacity) {
            c.label("copy-into-larger");
        } else if (to.capacity < from.capacity) {
            c.label("copy-into-smaller");
        }
        to.sut.copyFrom(from.sut);
        to.entryOf.clear();
        to.entryOf.putAll(from.entryOf);
        final int hi = Math.max(to.highest, from.highest);
        to.ensure(hi);
        from.ensure(hi);
        to.keyAt = from.keyAt.clone();
        to.valAt = from.valAt.clone();
        to.state = from.state.clone();
        to.dirty = new boolean[from.state.length];
        for (int e = 0; e < to.dirty.length; e++) {
            to.dirty[e] = from.dirty[e];
        }
        to.issued = from.issued;
        // slots that can still be read
        to.highest = Math.max(to.highest, from.highest);
        to.free = from.free;
        to.active = from.active;
        to.reserved = from.reserved;
        to.peak = from.peak;
        to.modified();
        if (from.active == 0) {
            to.heldUnsure = true;
            to.held = null;
        }
        to.capacity = to.sut.capacity(); // may shrink by copying
        to.highest = Math.min(to.highest, to.capacity - 1);
        c.that(COPY, to.capacity == from.sut.capacity(), "capacity %s of the copy, %s of its source", to.capacity, from.sut.capacity());
        c.that(CAP | COPY, to.capacity > from.highestLive(), "capacity %s after copying entries up to %s", to.capacity, from.highestLive());
        if (c.has(COPY) && from.active > 0) {
            c.nontrivial();
        }
        audit(to);
        audit(from);
        to.twin = from;
        from.twin = to;
    }

    /** A call during which the hash function (of an absent key) or the equality function throws: it fails with that exception and changes nothing. */
    private void refused(final Inst in) {
        final FnFamily ff = (FnFamily) fn;
        final Object k = key(c.pick(dom.n));
        final Object ck = canon.apply(k);
        final boolean hash = !in.entryOf.containsKey(ck) && c.bool();
        final int n = hash ? -1 : c.skew(4);
        final int what = c.pick(vt == null ? 4 : 7);
        final Object v = vt == null ? null : nextValue();
        c.op("#" + in.id + "." + new String[] {"add", "remove", "lookupEntry", "containsKey", "put", "get", "getOrDefault"}[what]
                + (hash ? " whose hash function throws" : " whose equality function throws at call " + n), k);
        breakTwin(in);
        final RuntimeException x = new IllegalArgumentException("refused");
        int got = -1;
        ff.refuse(x, ck, n);
        try {
            switch (what) {
                case 0: got = in.sut.add(k); break;
                case 1: got = in.sut.remove(k); break;
                case 2: in.sut.lookup(k); break;
                case 3: in.sut.contains(k); break;
                case 4: got = in.sut.put(k, v); break;
                case 5: in.sut.get(k); break;
                default: in.sut.getOrDefault(k, v); break;
            }
            ff.accept();
            c.that(FN, !hash, "the call succeeds although the hash function throws for its key");
            if (what == 0) {
                add0(in, k, ck, got);
            } else if (what == 1) {
                remove0(in, k, in.entryOf.get(ck), got);
            } else if (what == 4) {
                put0(in, k, ck, v, got);
            }
        } catch (IllegalArgumentException | com.bytefacets.collections.exception.KeyNotFoundException e) {
            ff.accept();
            c.that(FN, e == x || !hash && what == 5 && !in.entryOf.containsKey(ck) && !(e instanceof IllegalArgumentException), "the call throws %s instead of the function's exception", e.toString());
            c.label("function-throws");
        }
        audit(in);
    }

    /** Functions under which all keys are equal. */
    private static final class One implements Fn {
        @Override
        public int code(final Object k) {
            return 7;
        }

        @Override
        public boolean eq(final Object a, final Object b) {
            return true;
        }
    }

    /** Functions under which keys are equal when they read the same. */
    private static final class Text implements Fn {
        @Override
        public int code(final Object k) {
            return String.valueOf(k).hashCode();
        }

        @Override
        public boolean eq(final Object a, final Object b) {
            return String.valueOf(a).equals(String.valueOf(b));
        }
    }

    private void functions(final Inst in) {
        if (in.issued > 0 && c.weighted(2, 1) == 1) {
            refused(in);
            return;
        }
        final boolean hash = c.bool();
        if (in.active > 0) {
            c.op("#" + in.id + ".set" + (hash ? "HashMethod" : "EqMethod") + " on non-empty");
            final Fn other = new One();
            c.throwsX(FN, IllegalStateException.class, "changing functions of a non-empty collection", () -> {
                if (hash) {
                    in.sut.setHash(other);
                } else {
                    in.sut.setEq(other);
                }
            });
            c.label("fn-on-nonempty");
        } else if (c.chance(1, 3)) {
            c.op("#" + in.id + ".set null function");
            c.throwsX(FN, NullPointerException.class, "null function", () -> {
                if (hash) {
                    in.sut.setHash(null);
                } else {
                    in.sut.setEq(null);
                }
            });
        } else {
            c.op("#" + in.id + ".set same functions again");
            in.sut.setHash(fn);
            in.sut.setEq(fn);
            in.heldUnsure = true;
            c.label("fn-on-emptied");
        }
    }

    // ------------------------------------------------------------ checks of state
    private void checkVal(final Inst in, final int e, final long mask, final String when) {
        c.soft();
        final Object v = in.sut.valueAt(e);
        c.that(mask | ALL, Dom.sameValue(vt, v, in.valAt[e]), "value at entry %s is %s, expected %s " + when, e, v, in.valAt[e]);
        final Object v2 = in.sut.valueAtOrDefault(e, Dom.value(vt, 6));
        c.that(mask | ALL, Dom.sameValue(vt, v2, in.valAt[e]), "getValueAtOrDefault(%s) is %s, expected %s " + when, e, v2, in.valAt[e]);
        c.hard();
    }

    private void slot(final Inst in, final int e) {
        c.soft();
        slot0(in, e);
        c.hard();
    }

    /** Key and value readable at an entry, according to its state. */
    private void slot0(final Inst in, final int e) {
        switch (in.state[e]) {
            case ACTIVE:
                final Object ka = in.sut.keyAt(e);
                c.that(STABLE | ALL, Ctx.same(canon.apply(ka), canon.apply(in.keyAt[e])), "key at entry %s is %s, expected %s", e, ka, in.keyAt[e]);
                if (vt != null) {
                    checkVal(in, e, STABLE | VAL, "");
                }
                break;
            case RESERVED:
                final Object kr = in.sut.keyAt(e);
                c.that(RESERVE | COPY, Ctx.same(canon.apply(kr), canon.apply(in.keyAt[e])), "key at reserved entry %s is %s, expected %s", e, kr, in.keyAt[e]);
                if (vt != null) {
                    checkVal(in, e, RESERVE | COPY, "(reserved)");
                }
                break;
            default:
                if (e >= in.sut.capacity()) {
                    return;
                }
                final Object kd = in.sut.keyAt(e);
                c.that(DEF | RESERVE | ITER | COPY, Ctx.same(kd, kt.def()), "key at unused entry %s is %s, expected the default", e, kd);
                if (vt != null && !in.dirty[e]) {
                    final Object v = in.sut.valueAt(e);
                    c.that(DEF | RESERVE | ITER | COPY, Dom.sameValue(vt, v, vt.def()), "value at unused entry %s is %s, expected the default", e, v);
                    final Object v2 = in.sut.valueAtOrDefault(e, Dom.value(vt, 9));
                    c.that(DEF | RESERVE | ITER | COPY, Dom.sameValue(vt, v2, vt.def()), "getValueAtOrDefault at unused entry %s is %s", e, v2);
                }
        }
    }

    void audit(final Inst in) {
        c.op("#" + in.id + ".audit");
        c.soft();
        audit0(in);
        c.hard();
        reachable(in);
    }

    private void reachable(final Inst in) {
        if (reach == null) {
            return;
        }
        final List<Object> held = new ArrayList<>();
        for (int e = 0; e < in.issued; e++) {
            if (in.state[e] == ACTIVE || in.state[e] == RESERVED) {
                if (kt.isRef()) {
                    held.add(in.sut.keyAt(e));
                }
                if (vt != null && vt.isRef()) {
                    held.add(in.sut.valueAt(e));
                    held.add(in.valAt[e]);
                }
            }
        }
        reach.check(in.sut.raw(), held, vt == null ? "set" : "map");
    }

    private void audit0(final Inst in) {
        final HashSut s = in.sut;
        c.that(MEMB | ALL, s.size() == in.active, "size() = %s, expected %s", s.size(), in.active);
        c.that(MEMB | ALL, s.isEmpty() == (in.active == 0), "isEmpty() = %s with %s keys", s.isEmpty(), in.active);
        final int top = Math.min(in.highest + 4, s.capacity() - 1);
        in.ensure(Math.max(0, top));
        for (int e = 0; e <= top; e++) {
            slot(in, e);
            if (in.state[e] == ACTIVE) {
                final Object k = in.keyAt[e];
                final int l = s.lookup(k);
                c.that(MEMB | STABLE | ALL, l == e, "lookupEntry(%s) = %s, expected %s", k, l, e);
            }
        }
        for (int i = 0; i < dom.n; i += 1 + dom.n / 300) {
            final Object k = dom.key(i);
            probe0(in, k, in.entryOf.get(canon.apply(k)));
        }
        // enumerations
        final int n = in.active;
        final boolean[] seen = new boolean[in.state.length];
        final int[] count = {0};
        s.forEachEntry(e -> {
            c.pause();
            c.that(MEMB | ALL, e >= 0 && e < in.state.length && in.state[e] == ACTIVE && !seen[e], "forEachEntry yields %s (absent or repeated)", e);
            seen[e] = true;
            count[0]++;
        });
        c.that(MEMB | ALL, count[0] == n, "forEachEntry visited %s of %s", count[0], n);
        final boolean[] seenK = new boolean[in.state.length];
        count[0] = 0;
        s.forEach(k -> {
            c.pause();
            final Integer e = in.entryOf.get(canon.apply(k));
            c.that(MEMB | ALL, e != null && !seenK[e], "forEach yields key %s (absent or repeated)", k);
            seenK[e] = true;
            count[0]++;
        });
        c.that(MEMB | ALL, count[0] == n, "forEach visited %s of %s", count[0], n);
        final boolean[] seenI = new boolean[in.state.length];
        int it = 0;
        for (EntryIterator i = s.iterator(); i.next(); it++) {
            final int e = i.currentEntry();
            c.that(MEMB | ALL, e >= 0 && e < in.state.length && in.state[e] == ACTIVE && !seenI[e], "iterator yields %s (absent or repeated)", e);
            seenI[e] = true;
        }
        c.that(MEMB | ALL, it == n, "iterator visited %s of %s", it, n);
        if (vt != null) {
            final Map<Object, Integer> want = new HashMap<>();
            for (int e = 0; e < in.issued; e++) {
                if (in.state[e] == ACTIVE) {
                    want.merge(vt.isRef() ? new Id(in.valAt[e]) : in.valAt[e], 1, Integer::sum);
                }
            }
            final int[] vs = {0};
            s.forEachValue(v -> {
                c.pause();
                final Integer left = want.computeIfPresent(vt.isRef() ? new Id(v) : v, (x, m) -> m - 1);
                c.that(VAL | ALL, left != null && left >= 0, "forEachValue yields %s too often", v);
                vs[0]++;
            });
            c.that(VAL | ALL, vs[0] == n, "forEachValue visited %s of %s", vs[0], n);
        }
        if (n > 0 && c.has(MEMB | VAL | STABLE) && !c.has(ALL)) {
            c.label("audited-nonempty");
        }
    }
}
