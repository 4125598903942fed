package vp.props;

import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.bi.Side;
import com.bytefacets.collections.functional.IntIterator;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.BitSet;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;

/** Bidirectional collections: C12-C14. */
final class BiProps {
    static final long O2M = 1, M2M = 2, ENT = 4;
    static final String[] ONE = {"OneToMany", "OneToMany without counts"};
    static final String[] BOTH = {"OneToMany", "ManyToMany", "OneToMany without counts", "ManyToMany without counts"};
    static final String[] MANY = {"ManyToMany", "ManyToMany without counts"};
    static final String ASSUME = "negative lefts (and rights of a many-to-many collection) are not put, and entries that are not reserved are not freed";

    static Prop get(final String id) {
        switch (id) {
            case "C12":
                return new Prop(id, O2M, "a case is a history on one collection; non-trivial when associations of a left holding at least two "
                        + "were removed and a left beyond the initial capacity was used", new String[] {ASSUME},
                        Part.of("histories", BOTH, 240000, 5000000, (c, s) -> new Machine(c, s).run()), Part.of("large", BOTH, 48, 800, Large::associations));
            case "C13":
                return new Prop(id, M2M, "a case is a history on one many-to-many collection; non-trivial when associations sharing a right "
                        + "were removed", new String[] {ASSUME},
                        Part.of("histories", MANY, 200000, 4000000, (c, s) -> new Machine(c, s).run()), Part.of("large", MANY, 48, 800, Large::associations));
            case "C14":
                return new Prop(id, ENT, "a case is a history on one collection; non-trivial when an entry was reused",
                        new String[] {ASSUME}, Part.of("histories", BOTH, 240000, 5000000, (c, s) -> new Machine(c, s).run()), Part.of("large", BOTH, 48, 800, Large::associations));
            default:
                return null;
        }
    }

    static final class Machine {
        final Ctx c;
        final boolean many;
        final boolean counts;
        final CompactOneToMany s;
        final CompactManyToMany m2m;
        final Map<Long, Integer> pairs = new HashMap<>();
        final Map<Integer, Long> at = new TreeMap<>();
        final Map<Integer, Long> reserved = new TreeMap<>();
        final Map<Integer, Set<Integer>> byLeft = new HashMap<>();
        final Map<Integer, Set<Integer>> byRight = new HashMap<>();
        final TreeSet<Integer> freed = new TreeSet<>();
        int issued;
        final int[] lefts;
        final int[] rights;
        final int leftCap;
        long extra;
        boolean holding;
        boolean removedShared;
        boolean removedSharedRight;
        boolean beyond;
        boolean reused;

        Machine(final Ctx c, final String subject) {
            this.c = c;
            many = subject.startsWith("Many");
            counts = !subject.endsWith("counts");
            if (counts && c.weighted(8, 1) == 1) {
                c.op("new " + subject);
                leftCap = 16;
                m2m = many ? new CompactManyToMany() : null;
                s = many ? m2m : new CompactOneToMany();
            } else {
                leftCap = cap();
                final int rightCap = cap();
                final int mapCap = Math.max(1, cap());
                c.op("new " + subject, leftCap, rightCap, mapCap);
                m2m = many ? new CompactManyToMany(leftCap, rightCap, mapCap, counts) : null;
                s = many ? m2m : new CompactOneToMany(leftCap, mapCap, counts);
            }
            lefts = keys(false);
            rights = keys(!many);
            c.that(s.size() == 0, "new collection is not empty");
        }

        private int cap() {
            return c.weighted(3, 3, 2, 1) < 2 ? c.range(1, 5) : c.bool() ? c.range(1, 40) : c.range(0, 3);
        }

        private int[] keys(final boolean any) {
            final int n = c.weighted(3, 3, 2) == 0 ? c.range(1, 3) : c.bool() ? c.range(2, 12) : c.range(5, 60);
            final int[] out = new int[n];
            final int mode = c.weighted(4, 2, 2, any ? 4 : 1);
            for (int i = 0; i < n; i++) {
                switch (mode) {
                    case 0: out[i] = i; break;
                    case 1: out[i] = c.range(0, 80); break;
                    case 2: out[i] = c.weighted(5, 1) == 0 ? i : c.range(0, 5000); break;
                    default:
                        out[i] = any ? c.oneOf(0, -1, 1, Integer.MIN_VALUE, Integer.MAX_VALUE, -2, 65536, -65536, 1 << 30, c.range(-1000, 1000))
                                : n - 1 - i;
                }
            }
            return out;
        }

        static long key(final int l, final int r) {
            return (long) l << 32 | r & 0xffffffffL;
        }

        static int left(final long k) {
            return (int) (k >> 32);
        }

        static int right(final long k) {
            return (int) k;
        }

        void run() {
            final int mean = c.weighted(3, 2) == 0 ? 25 : 90;
            while (c.more(mean)) {
                switch (c.weighted(20, 10, 7, 4, 4, 2, 3, 3, 3, 2, 2, many ? 2 : 0, 2, 2, 1, 2, 1)) {
                    case 0: put(lefts[c.pick(lefts.length)], rights[c.pick(rights.length)]); break;
                    case 1: remove(); break;
                    case 2: removeAt(); break;
                    case 3: reserve(); break;
                    case 4: free(); break;
                    case 5: inactive(); break;
                    case 6: side(true); break;
                    case 7: side(false); break;
                    case 8: bulk(); break;
                    case 10: sweep(); break;
                    case 11: crossed(); break;
                    case 12: drain(); break;
                    case 13: kept(); break;
                    case 14: absent(); break;
                    case 15: interrupted(); break;
                    case 16: refused(); break;
                    default: audit();
                }
                c.eq(O2M | M2M | ENT, s.size(), pairs.size(), "size");
            }
            audit();
            if (c.has(O2M) && removedShared && beyond) {
                c.nontrivial();
            }
            if (c.has(M2M) && removedSharedRight) {
                c.nontrivial();
            }
            if (c.has(ENT) && reused) {
                c.nontrivial();
            }
        }

        void put(final int l, final int r) {
            c.op("put", l, r);
            final int e = s.put(l, r);
            c.res(e);
            final Integer old = pairs.get(key(l, r));
            if (old != null) {
                c.eq(ENT, e, old, "put of a present association returns its entry", l, r);
                return;
            }
            beyond |= l >= leftCap;
            c.that(ENT, e >= 0 && !at.containsKey(e) && !reserved.containsKey(e), "put issued entry %s, which is in use", e);
            if (freed.remove(e)) {
                reused = true;
                c.label("reused-entry");
            } else {
                c.that(ENT, freed.isEmpty(), "put issued new entry %s although freed entries are available", e);
                c.eq(ENT, e, issued, "new entry");
                issued = Math.max(issued, e + 1);
            }
            pairs.put(key(l, r), e);
            at.put(e, key(l, r));
            byLeft.computeIfAbsent(l, k -> new HashSet<>()).add(e);
            byRight.computeIfAbsent(r, k -> new HashSet<>()).add(e);
            c.eq(ENT, s.lookupEntry(l, r), e, "lookupEntry", l, r);
        }

        /** Both sides of an association before (as C12 and C13 have it) and after its removal (as C14 has it). */
        private void deleting(final int e, final Runnable op) {
            final Long p = at.get(e);
            if (p == null || holding || !c.has(ENT) || c.weighted(2, 1) == 0) {
                op.run();
                return;
            }
            final int l = lefts[c.pick(lefts.length)];
            final int r = rights[c.pick(rights.length)];
            around(p, l, r);
            op.run();
            extra = ENT;
            around(p, l, r);
            extra = 0;
        }

        private void around(final long p, final int l, final int r) {
            check(true, left(p), false);
            check(true, l, false);
            if (many) {
                check(false, right(p), false);
                check(false, r, false);
            }
        }

        private void drop(final int e) {
            final long k = at.remove(e);
            removedShared |= byLeft.get(left(k)).size() > 1;
            removedSharedRight |= byRight.get(right(k)).size() > 1;
            byLeft.get(left(k)).remove(e);
            byRight.get(right(k)).remove(e);
            pairs.remove(k);
        }

        /** A live entry, or -1. */
        private int live() {
            if (at.isEmpty()) {
                return -1;
            }
            final Integer[] a = at.keySet().toArray(new Integer[0]);
            return a[c.pick(a.length)];
        }

        void remove() {
            final int e = c.weighted(4, 1) == 0 ? live() : -1;
            final int l = e >= 0 ? left(at.get(e)) : lefts[c.pick(lefts.length)];
            final int r = e >= 0 ? right(at.get(e)) : rights[c.pick(rights.length)];
            final Integer old = pairs.get(key(l, r));
            c.op("remove", l, r);
            deleting(old == null ? -1 : old, () -> {
                final int got = s.remove(l, r);
                c.res(got);
                c.eq(ENT, got, old == null ? -1 : (int) old, "remove", l, r);
                if (old != null) {
                    drop(old);
                    freed.add(old);
                }
            });
        }

        void removeAt() {
            final int e = live();
            if (e < 0) {
                return;
            }
            c.op("removeAt", e);
            deleting(e, () -> {
                c.eq(ENT, s.removeAt(e), e, "removeAt", e);
                drop(e);
                freed.add(e);
            });
        }

        /** Keys that cannot be array offsets. */
        void refused() {
            final boolean ofRight = many && c.bool();
            final int bad = c.oneOf(-1, -2, Integer.MIN_VALUE, -65536);
            final int l = ofRight ? lefts[c.pick(lefts.length)] : bad;
            final int r = ofRight ? bad : rights[c.pick(rights.length)];
            c.op("put refused", l, r);
            c.throwsX(O2M | M2M | ENT, IndexOutOfBoundsException.class, "put of a negative key", () -> s.put(l, r));
            c.that(O2M | M2M | ENT, !s.contains(l, r) && s.lookupEntry(l, r) == -1, "a refused association is contained");
        }

        /** removeAt where no association is. */
        void inactive() {
            final List<Integer> l = new ArrayList<>(freed);
            l.addAll(reserved.keySet());
            final int e;
            if (!l.isEmpty() && c.weighted(4, 1) == 0) {
                e = l.get(c.pick(l.size()));
            } else {
                final int bad = c.oneOf(-1, Integer.MAX_VALUE, Integer.MIN_VALUE);
                c.op("removeAt", bad);
                c.throwsX(ENT, IndexOutOfBoundsException.class, "removeAt outside the storage", () -> s.removeAt(bad));
                c.throwsX(ENT, IndexOutOfBoundsException.class, "removeAtAndReserve outside the storage", () -> s.removeAtAndReserve(bad));
                c.throwsX(ENT, IndexOutOfBoundsException.class, "getLeftAt outside the storage", () -> s.getLeftAt(bad));
                c.throwsX(ENT, IndexOutOfBoundsException.class, "getRightAt outside the storage", () -> s.getRightAt(bad));
                return;
            }
            if (c.bool()) {
                c.op("removeAtAndReserve inactive", e);
                s.removeAtAndReserve(e);
            } else {
                c.op("removeAt inactive", e);
                c.eq(ENT, s.removeAt(e), -1, "removeAt of an inactive entry", e);
            }
            c.eq(ENT | O2M, s.size(), pairs.size(), "size");
        }

        void reserve() {
            final int e = live();
            if (e < 0) {
                return;
            }
            c.op("removeAtAndReserve", e);
            final long k = at.get(e);
            deleting(e, () -> {
                s.removeAtAndReserve(e);
                drop(e);
                reserved.put(e, k);
            });
            c.label("reserved");
        }

        void free() {
            if (reserved.isEmpty()) {
                return;
            }
            final Integer[] a = reserved.keySet().toArray(new Integer[0]);
            final int e = a[c.pick(a.length)];
            c.op("freeReservedEntry", e);
            s.freeReservedEntry(e);
            reserved.remove(e);
            freed.add(e);
        }

        void bulk() {
            if (c.weighted(3, 2) == 0) {
                final int k = 1 + c.skew(c.thorough ? 200 : 80);
                final int l = lefts[c.pick(lefts.length)];
                final int r = rights[c.pick(rights.length)];
                final int mode = c.pick(3);
                for (int i = 0; i < k; i++) {
                    put(mode == 0 ? l : lefts[i % lefts.length], mode == 1 ? r : rights[i * 7 % rights.length]);
                }
            } else {
                final int k = 1 + c.skew(60);
                final boolean byRemove = c.bool();
                for (int i = 0; i < k && !at.isEmpty(); i++) {
                    if (byRemove) {
                        final int e = live();
                        final long p = at.get(e);
                        c.op("remove", left(p), right(p));
                        c.eq(ENT, s.remove(left(p), right(p)), e, "remove");
                        drop(e);
                        freed.add(e);
                    } else {
                        removeAt();
                    }
                }
            }
        }

        /** forEachEntry whose callback removes the association being visited. */
        void sweep() {
            final int den = 1 + c.pick(3);
            final int how = c.pick(3);
            c.op("forEachEntry removing one in", den, how == 0 ? "removeAt" : how == 1 ? "remove" : "removeAtAndReserve");
            final BitSet want = new BitSet();
            at.keySet().forEach(want::set);
            final BitSet seen = new BitSet();
            s.forEachEntry(e -> {
                c.pause();
                c.that(O2M, e >= 0 && want.get(e) && !seen.get(e), "forEachEntry with removals yields entry %s (absent or repeated)", e);
                seen.set(e);
                if (!at.containsKey(e) || den > 1 && c.pick(den) != 0) {
                    return;
                }
                final long p = at.get(e);
                if (how == 0) {
                    c.eq(ENT, s.removeAt(e), e, "removeAt", e);
                } else if (how == 1) {
                    c.eq(ENT, s.remove(left(p), right(p)), e, "remove");
                } else {
                    s.removeAtAndReserve(e);
                    reserved.put(e, p);
                }
                drop(e);
                if (how != 2) {
                    freed.add(e);
                }
            });
            c.that(O2M, seen.equals(want), "forEachEntry with removals visited %s of %s associations", seen.cardinality(), want.cardinality());
            audit();
        }

        /** An enumeration of one key's associations that removes the ones it visits. */
        void drain() {
            final boolean leftSide = !many || c.bool();
            final int[] ks = leftSide ? lefts : rights;
            final int k = ks[c.pick(ks.length)];
            final int den = 1 + c.pick(3);
            final int how = c.pick(4);
            c.op(leftSide ? "withLeft, removing one in" : "withRight, removing one in", k, den, how == 0 ? "forEachEntry" : how == 1 ? "entryIterator" : how == 2 ? "forEachValue" : "valueIterator");
            final long tag = leftSide ? O2M | M2M : M2M;
            final List<Integer> want = new ArrayList<>((leftSide ? byLeft : byRight).getOrDefault(k, Set.of()));
            final BitSet all = new BitSet();
            want.forEach(all::set);
            final BitSet seen = new BitSet();
            final Mapping m = leftSide ? s.withLeft(k) : m2m.withRight(k);
            final com.bytefacets.collections.functional.IntConsumer entry = e -> {
                c.pause();
                c.that(tag, e >= 0 && all.get(e) && !seen.get(e), "enumeration with removals yields entry %s (absent or repeated)", e);
                seen.set(e);
                if (at.containsKey(e) && c.pick(den) == 0) {
                    c.eq(ENT, s.removeAt(e), e, "removeAt", e);
                    drop(e);
                    freed.add(e);
                }
            };
            final com.bytefacets.collections.functional.IntConsumer value = v -> {
                c.pause();
                final Integer e = leftSide ? pairs.get(key(k, v)) : pairs.get(key(v, k));
                c.that(tag, e != null && all.get(e) && !seen.get(e), "enumeration with removals yields value %s (absent or repeated)", v);
                seen.set(e);
                if (c.pick(den) == 0) {
                    c.eq(ENT, leftSide ? s.remove(k, v) : s.remove(v, k), e, "remove");
                    drop(e);
                    freed.add(e);
                }
            };
            if (how == 0) {
                m.forEachEntry(entry);
            } else if (how == 2) {
                m.forEachValue(value);
            } else {
                for (IntIterator it = how == 1 ? m.entryIterator() : m.valueIterator(); it.hasNext(); ) {
                    (how == 1 ? entry : value).accept(it.next());
                }
            }
            c.that(tag, seen.equals(all), "enumeration with removals visited %s of %s associations", seen.cardinality(), all.cardinality());
            check(leftSide, k, false);
        }

        /** A mapping obtained earlier speaks about the collection as it is now; its iterators restart where they are asked to. */
        void kept() {
            final boolean leftSide = !many || c.bool();
            final int[] ks = leftSide ? lefts : rights;
            final int k = ks[c.pick(ks.length)];
            c.op(leftSide ? "withLeft kept" : "withRight kept", k);
            final long tag = leftSide ? O2M | M2M : M2M;
            final Mapping m = leftSide ? s.withLeft(k) : m2m.withRight(k);
            holding = true; // withLeft and withRight would move m
            for (int i = c.pick(4); i > 0; i--) {
                switch (c.pick(4)) {
                    case 0: put(leftSide ? k : lefts[c.pick(lefts.length)], leftSide ? rights[c.pick(rights.length)] : k); break;
                    case 1: remove(); break;
                    case 2: removeAt(); break;
                    default: put(lefts[c.pick(lefts.length)], rights[c.pick(rights.length)]);
                }
            }
            holding = false;
            ask(leftSide, k, m);
            final int[] want = (leftSide ? byLeft : byRight).getOrDefault(k, Set.of()).stream().mapToInt(x -> x).sorted().toArray();
            final Side.EntryIterator it = (Side.EntryIterator) m.entryIterator();
            final Side.ValueIterator vt = (Side.ValueIterator) m.valueIterator();
            for (int i = c.pick(4); i > 0 && it.hasNext(); i--) {
                it.next();
                vt.next();
            }
            it.reset();
            vt.reset();
            final List<Integer> got = new ArrayList<>();
            while (it.hasNext()) {
                c.that(tag, vt.hasNext(), "the value iterator, reset, ended before the entry iterator");
                final int e = it.next();
                final int v = vt.next();
                add(tag, got, e, want.length + 5, "a reset iterator");
                c.that(tag, at.containsKey(e) && (leftSide ? right(at.get(e)) : left(at.get(e))) == v, "entry %s comes with value %s", e, v);
            }
            c.that(tag, !vt.hasNext(), "the value iterator, reset, goes on after the entry iterator's end");
            same(tag, got, want, leftSide ? "withLeft" : "withRight", "reset iterator", k);
        }

        /** Pairs that were never put. */
        void absent() {
            final int l = c.oneOf(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, 0, lefts[c.pick(lefts.length)], c.range(-70000, 70000));
            final int r = c.oneOf(-1, Integer.MIN_VALUE, Integer.MAX_VALUE, 0, rights[c.pick(rights.length)], lefts[c.pick(lefts.length)], c.range(-70000, 70000));
            if (pairs.containsKey(key(l, r))) {
                return;
            }
            c.op("absent", l, r);
            c.that(O2M | M2M, !s.contains(l, r), "contains(%s, %s) of a pair never put", l, r);
            c.eq(ENT, s.lookupEntry(l, r), -1, "lookupEntry of an absent pair", l, r);
            c.eq(ENT, s.remove(l, r), -1, "remove of an absent pair", l, r);
        }

        /** The other side, and single lookups, consulted while one side is being enumerated. */
        void crossed() {
            final boolean leftSide = c.bool();
            final int[] ks = leftSide ? lefts : rights;
            final int k = ks[c.pick(ks.length)];
            c.op("enumerating both sides at once", leftSide ? "left" : "right", k);
            final Set<Integer> want = (leftSide ? byLeft : byRight).getOrDefault(k, Set.of());
            final List<Integer> got = new ArrayList<>();
            final Mapping outer = leftSide ? s.withLeft(k) : m2m.withRight(k);
            outer.forEachEntry(e -> {
                c.pause();
                add(M2M, got, e, want.size() + 5, "forEachEntry");
                final Long p = at.get(e);
                c.that(M2M, p != null, "forEachEntry yields entry %s, which holds no association", e);
                final int other = leftSide ? right(p) : left(p);
                check(!leftSide, other, false);
                c.that(M2M, s.contains(left(p), right(p)), "contains(%s, %s) is false", left(p), right(p));
            });
            same(M2M, got, want.stream().mapToInt(x -> x).sorted().toArray(), leftSide ? "withLeft" : "withRight", "forEachEntry", k);
        }

        void side(final boolean leftSide) {
            if (!leftSide && !many) {
                side(true);
                return;
            }
            final int[] ks = leftSide ? lefts : rights;
            final int k = c.weighted(6, 1) == 0 ? ks[c.pick(ks.length)] : c.oneOf(-1, 100000, Integer.MAX_VALUE, Integer.MIN_VALUE, 17, 7000);
            check(leftSide, k, true);
        }

        /** Everything one side says about one key. */
        void check(final boolean leftSide, final int k, final boolean log) {
            if (log) {
                c.op(leftSide ? "withLeft" : "withRight", k);
            }
            final Mapping m = leftSide ? s.withLeft(k) : m2m.withRight(k);
            ask(leftSide, k, m);
        }

        private void ask(final boolean leftSide, final int k, final Mapping m) {
            final long tag = extra | (leftSide ? O2M | M2M : M2M);
            final Set<Integer> want = (leftSide ? byLeft : byRight).getOrDefault(k, Set.of());
            final int[] entries = want.stream().mapToInt(x -> x).sorted().toArray();
            final int[] others = want.stream().mapToInt(x -> leftSide ? right(at.get(x)) : left(at.get(x))).sorted().toArray();
            final String name = leftSide ? "withLeft" : "withRight";
            if (counts) {
                c.eq(tag, m.count(), want.size(), name + ".count", k);
            } else {
                c.throwsX(tag, IllegalStateException.class, "count without counts", m::count);
            }
            final List<Integer> got = new ArrayList<>();
            final int cap = want.size() + 5;
            m.forEachEntry(e -> add(tag, got, e, cap, name + ".forEachEntry"));
            same(tag, got, entries, name, "forEachEntry", k);
            got.clear();
            m.forEachValue(v -> add(tag, got, v, cap, name + ".forEachValue"));
            same(tag, got, others, name, "forEachValue", k);
            got.clear();
            if (c.bool()) { // two iterators of one mapping side by side
                final IntIterator ei = m.entryIterator();
                final IntIterator vi = m.valueIterator();
                while (ei.hasNext()) {
                    c.that(tag, vi.hasNext(), name + ": the value iterator ended before the entry iterator");
                    final int e = ei.next();
                    final int v = vi.next();
                    add(tag, got, e, cap, name + ".entryIterator");
                    final Long p = at.get(e);
                    c.that(tag, p != null && (leftSide ? right(p) : left(p)) == v, name + "(%s): entry %s comes with value %s", k, e, v);
                }
                c.that(tag, !vi.hasNext(), name + ": the value iterator goes on after the entry iterator's end");
                same(tag, got, entries, name, "entryIterator", k);
            } else {
                for (IntIterator it = m.valueIterator(); it.hasNext(); ) {
                    add(tag, got, it.next(), cap, name + ".valueIterator");
                }
                same(tag, got, others, name, "valueIterator", k);
            }
        }

        /** Enumerations cut short by an exception. */
        void interrupted() {
            final boolean leftSide = !many || c.bool();
            final int[] ks = leftSide ? lefts : rights;
            final int k = ks[c.pick(ks.length)];
            final Mapping m = leftSide ? s.withLeft(k) : m2m.withRight(k);
            final long tag = leftSide ? O2M | M2M : M2M;
            switch (c.pick(3)) {
                case 0: c.interrupted(O2M | M2M, "forEachEntry", true, sink -> s.forEachEntry(sink::accept)); break;
                case 1: c.interrupted(tag, leftSide ? "withLeft.forEachEntry" : "withRight.forEachEntry", false, sink -> m.forEachEntry(sink::accept)); break;
                default: c.interrupted(tag, leftSide ? "withLeft.forEachValue" : "withRight.forEachValue", false, sink -> m.forEachValue(sink::accept));
            }
            check(leftSide, k, false);
        }

        private void add(final long tag, final List<Integer> l, final int v, final int cap, final String what) {
            c.that(tag, l.size() < cap, what + " yields too many elements");
            l.add(v);
        }

        private void same(final long tag, final List<Integer> got, final int[] want, final String name, final String how, final int k) {
            final int[] g = got.stream().mapToInt(x -> x).sorted().toArray();
            c.that(tag, Arrays.equals(g, want), name + "(%s)." + how + " yields %s, expected %s", k, g, want);
        }

        void audit() {
            c.op("audit");
            c.eq(O2M | M2M | ENT, s.size(), pairs.size(), "size");
            final BitSet seen = new BitSet();
            s.forEachEntry(e -> {
                c.pause();
                c.that(O2M | ENT, at.containsKey(e), "forEachEntry yields entry %s, which holds no association", e);
                c.that(O2M | ENT, !seen.get(e), "forEachEntry yields entry %s twice", e);
                seen.set(e);
            });
            c.that(O2M | ENT, seen.cardinality() == at.size(), "forEachEntry yields %s of %s associations", seen.cardinality(), at.size());
            at.forEach((e, p) -> {
                c.eq(ENT, s.getLeftAt(e), left(p), "getLeftAt", e);
                c.eq(ENT, s.getRightAt(e), right(p), "getRightAt", e);
                c.eq(ENT, s.lookupEntry(left(p), right(p)), e, "lookupEntry", left(p), right(p));
                c.that(O2M | M2M, s.contains(left(p), right(p)), "contains(%s, %s) is false", left(p), right(p));
            });
            reserved.forEach((e, p) -> {
                c.eq(ENT, s.getLeftAt(e), left(p), "getLeftAt of a reserved entry", e);
                c.eq(ENT, s.getRightAt(e), right(p), "getRightAt of a reserved entry", e);
            });
            for (int l : lefts) {
                final int r = rights[c.pick(rights.length)];
                c.eq(O2M | M2M, s.contains(l, r), pairs.containsKey(key(l, r)), "contains", l, r);
                final Integer e = pairs.get(key(l, r));
                c.eq(ENT, s.lookupEntry(l, r), e == null ? -1 : (int) e, "lookupEntry", l, r);
                check(true, l, false);
            }
            check(true, -1, false);
            if (many) {
                for (int r : rights) {
                    check(false, r, false);
                }
                check(false, -1, false);
            }
        }
    }
}
