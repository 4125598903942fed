package vp.props;

import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.bi.Mapping;
import java.util.ArrayList;
import java.util.List;
import java.util.TreeMap;
import vp.core.Ctx;
import vp.sut.HeapSut;
import vp.sut.T;
import vp.sut.U;

/** Callbacks that remove what they visit, in associations and heaps (C07). */
final class VisitProps {
    /** Thrown by callbacks. */
    private static final class Enough extends RuntimeException {
        Enough() {
            super("enough", null, false, false);
        }
    }

    static void associations(final Ctx c, final String subject) {
        final boolean many = subject.startsWith("Many");
        final boolean counts = !subject.endsWith("counts");
        final int lefts = c.range(1, 6);
        final int rights = c.range(1, 12);
        final int stride = c.oneOf(1, 1, 37);
        final CompactManyToMany m = many ? new CompactManyToMany(c.range(1, 8), c.range(1, 8), c.range(1, 20), counts) : null;
        final CompactOneToMany s = many ? m : new CompactOneToMany(c.range(1, 8), c.range(1, 20), counts);
        final TreeMap<Integer, int[]> at = new TreeMap<>();
        final List<Integer> reserved = new ArrayList<>();
        c.op("new " + subject, lefts, rights, stride);
        final int rounds = c.range(1, 6);
        for (int round = 0; round < rounds; round++) {
            final int n = 1 + c.skew(30);
            c.op("put", n);
            for (int i = 0; i < n; i++) {
                final int l = c.pick(lefts) * stride;
                final int r = c.pick(rights);
                at.put(s.put(l, r), new int[] {l, r});
            }
            while (!reserved.isEmpty() && c.bool()) {
                s.freeReservedEntry(reserved.remove(c.pick(reserved.size())));
            }
            final int side = many ? c.weighted(3, 3, 1) : c.weighted(3, 0, 1); // of a left, of a right, or all
            final boolean values = side < 2 && c.bool();
            final int key = side == 0 ? c.pick(lefts) * stride : c.pick(rights);
            final TreeMap<Integer, int[]> present = new TreeMap<>();
            at.forEach((e, p) -> {
                if (side == 2 || p[side] == key) {
                    present.put(e, p);
                }
            });
            final int size = present.size();
            final int removal = c.pick(3); // by keys, by entry, with the entry reserved
            final int share = c.oneOf(1, 1, 2, 4);
            final boolean look = c.bool();
            final int stop = c.chance(1, 8) ? c.pick(size + 1) : -1;
            c.op((side == 2 ? "forEachEntry" : (side == 0 ? "withLeft(" : "withRight(") + key + (values ? ").forEachValue" : ").forEachEntry"))
                    + " removing one of " + share, removal, look, stop);
            final int[] removed = {0};
            final int[] visited = {0};
            final com.bytefacets.collections.functional.IntConsumer f = x -> {
                final int e = values ? side == 0 ? s.lookupEntry(key, x) : s.lookupEntry(x, key) : x;
                final int[] p = present.remove(e);
                c.that(p != null, "visits %s, which is not associated, or was visited", x);
                visited[0]++;
                c.that(s.getLeftAt(e) == p[0] && s.getRightAt(e) == p[1], "entry %s is (%s, %s) during the visit", e, s.getLeftAt(e), s.getRightAt(e));
                if (look) {
                    c.that(s.contains(p[0], p[1]) && s.size() == at.size(), "contains(%s, %s), size %s during the visit", p[0], p[1], s.size());
                }
                if (c.pick(share) == 0) {
                    if (removal == 0) {
                        s.remove(p[0], p[1]);
                    } else if (removal == 1) {
                        s.removeAt(e);
                    } else {
                        s.removeAtAndReserve(e);
                        reserved.add(e);
                    }
                    at.remove(e);
                    removed[0]++;
                }
                if (visited[0] - 1 == stop) {
                    throw new Enough();
                }
            };
            boolean stopped = false;
            try {
                if (side == 2) {
                    s.forEachEntry(f);
                } else {
                    final Mapping on = side == 0 ? s.withLeft(key) : m.withRight(key);
                    if (values) {
                        on.forEachValue(f);
                    } else {
                        on.forEachEntry(f);
                    }
                }
            } catch (Enough e) {
                stopped = true;
            }
            c.that(stopped == (stop >= 0 && stop < size), "the callback's exception at %s of %s was lost", stop, size);
            c.eq(-1L, visited[0], stopped ? stop + 1 : size, "elements visited");
            if (removed[0] >= 2) {
                c.nontrivial();
            }
            left(c, s, m, at, counts);
        }
        c.inputs(rounds);
    }

    private static void left(final Ctx c, final CompactOneToMany s, final CompactManyToMany m, final TreeMap<Integer, int[]> at, final boolean counts) {
        c.eq(-1L, s.size(), at.size(), "size afterwards");
        final TreeMap<Integer, Integer> n = new TreeMap<>();
        at.forEach((e, p) -> {
            c.that(s.lookupEntry(p[0], p[1]) == e, "(%s, %s) was not removed, and its entry is %s", p[0], p[1], s.lookupEntry(p[0], p[1]));
            n.merge(p[0], 1, Integer::sum);
            n.merge(-1 - p[1], 1, Integer::sum);
        });
        n.forEach((k, want) -> {
            if (k < 0 && m == null) {
                return;
            }
            final int[] got = {0};
            final Mapping on = k >= 0 ? s.withLeft(k) : m.withRight(-1 - k);
            on.forEachEntry(e -> {
                final int[] p = at.get(e);
                c.that(p != null && (k >= 0 ? p[0] == k : p[1] == -1 - k), "entry %s is left for key %s", e, k >= 0 ? k : -1 - k);
                got[0]++;
            });
            c.eq(-1L, got[0], want, "entries left for", k >= 0 ? "left" : "right", k >= 0 ? k : -1 - k);
            if (counts) {
                c.eq(-1L, on.count(), want, "count left for", k >= 0 ? "left" : "right", k >= 0 ? k : -1 - k);
            }
        });
    }

    static void heap(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T vt = T.of(p[1]);
        final Dom dom = Dom.draw(c, T.of(p[0]), 1 + c.skew(20), true);
        final HeapSut s = U.make(p[0] + p[1] + "HeapAdapter", c.range(0, 12));
        final TreeMap<Integer, Object> at = new TreeMap<>();
        final int rounds = c.range(1, 5);
        c.op("a heap " + subject, dom.kind, dom.n);
        for (int round = 0; round < rounds; round++) {
            final int n = 1 + c.skew(40);
            c.op("insert", n);
            for (int i = 0; i < n; i++) {
                final Object k = dom.key(c.pick(dom.n));
                c.that(at.put(s.insert(k, Dom.value(vt, i)), k) == null, "an active entry was issued again");
            }
            final TreeMap<Integer, Object> present = new TreeMap<>(at);
            final int size = present.size();
            final int share = c.oneOf(1, 1, 2, 4);
            final int stop = c.chance(1, 8) ? c.pick(size + 1) : -1;
            final int[] visited = {0};
            final int[] removed = {0};
            c.op("forEachEntry removing one of " + share, stop);
            boolean stopped = false;
            try {
                s.forEachEntry(e -> {
                    c.that(present.containsKey(e), "visits %s, which is not active, or was visited", e);
                    c.that(Dom.sameValue(dom.type, s.keyAt(e), present.remove(e)), "the key of %s is %s during the visit", e, s.keyAt(e));
                    visited[0]++;
                    if (c.pick(share) == 0) {
                        s.removeAt(e);
                        at.remove(e);
                        removed[0]++;
                    }
                    if (visited[0] - 1 == stop) {
                        throw new Enough();
                    }
                });
            } catch (Enough e) {
                stopped = true;
            }
            c.that(stopped == (stop >= 0 && stop < size), "the callback's exception at %s of %s was lost", stop, size);
            c.eq(-1L, visited[0], stopped ? stop + 1 : size, "elements visited");
            c.eq(-1L, s.size(), at.size(), "size afterwards");
            at.forEach((e, k) -> c.that(s.isValid(e) && Dom.sameValue(dom.type, s.keyAt(e), k), "entry %s was not removed, and is now %s", e, s.keyAt(e)));
            if (removed[0] >= 2) {
                c.nontrivial();
            }
        }
        c.inputs(rounds);
    }
}
