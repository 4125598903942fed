package vp.props;

import com.bytefacets.collections.CapacityCalculator;
import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.CompactOneToMany;
import com.bytefacets.collections.exception.InitializationException;
import com.bytefacets.collections.exception.InvalidEntryException;
import com.bytefacets.collections.exception.KeyNotFoundException;
import com.bytefacets.collections.exception.RangeCheckException;
import com.bytefacets.collections.exception.ResizeException;
import com.bytefacets.collections.id.Snowflake;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.BitSet;
import java.util.List;
import java.util.NoSuchElementException;
import java.util.regex.Pattern;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.DequeSut;
import vp.sut.HashSut;
import vp.sut.HeapSut;
import vp.sut.HydraSut;
import vp.sut.SortSut;
import vp.sut.StoreSut;
import vp.sut.T;
import vp.sut.TypeSut;
import vp.sut.U;

/** C48: what a refusal says. */
final class RefusalProps {
    private static final String[] PAIRS = T.pairs();
    private static final String[] ALL = T.names(true);
    private static final String[] NUM = T.names(false);

    static Prop get(final String id) {
        if (!id.equals("C48")) {
            return null;
        }
        return new Prop(id, 1, "a case is one call that must be refused (or, at the same limits, accepted) after a generated history; non-trivial when the "
                + "message of the refusal was compared with what was refused",
                new String[] {"messages are only searched for the values they must name, not for their wording"},
                Part.of("maps", PAIRS, 60000, 1500000, RefusalProps::map),
                Part.of("sets", NUM, 20000, 400000, RefusalProps::set),
                Part.of("heaps", PAIRS, 60000, 1500000, RefusalProps::heap),
                Part.of("deques", ALL, 20000, 400000, RefusalProps::deques),
                Part.of("stores", ALL, 30000, 600000, RefusalProps::stores),
                Part.of("sorts", PAIRS, 60000, 1200000, RefusalProps::sort),
                Part.of("conversions", Arrays.stream(ALL).filter(s -> !s.equals("String") && !s.equals("Generic")).toArray(String[]::new), 80000, 2000000, RefusalProps::convert),
                Part.of("associations", new String[] {"one-to-many", "many-to-many"}, 20000, 400000, RefusalProps::bi),
                Part.of("range checks", new String[] {"all"}, 200000, 4000000, RefusalProps::checks));
    }

    /** A number as a word of its own, anything else as it prints. */
    private static boolean names(final String msg, final Object v) {
        if (v instanceof Pattern) {
            return ((Pattern) v).matcher(msg).find();
        }
        final String s = String.valueOf(v);
        if (!(v instanceof Number)) {
            return msg.contains(s);
        }
        return Pattern.compile("(?<![\\w.-])" + Pattern.quote(s) + "(?![\\w]|\\.\\d)").matcher(msg).find();
    }

    /** The number next after a word. */
    private static Pattern after(final String word, final int v) {
        return Pattern.compile("(?i)(" + word + ")[^\\d-]*" + v + "(?!\\d)");
    }

    /** Limits in order, and the value before or after them. */
    private static Pattern limits(final int min, final int max, final int v) {
        final String gap = "(?!\\d)[^\\d-]+";
        return Pattern.compile("(?<![\\d-])(" + min + gap + max + gap + v + "|" + v + gap + min + gap + max + ")(?!\\d)");
    }

    private interface Call {
        void run() throws Exception;
    }

    /** The call throws exactly this type, with a message naming everything given. */
    private static void refuse(final Ctx c, final Class<? extends Throwable> type, final String what, final Call call, final Object... named) {
        try {
            call.run();
        } catch (VirtualMachineError | ThreadDeath e) {
            throw e;
        } catch (Throwable e) {
            c.that(type.isInstance(e), "%s: expected %s but %s was thrown", what, type.getSimpleName(), e.toString());
            final String m = e.getMessage();
            for (Object n : named) {
                c.that(m != null && names(m, n), "%s: the message %s does not name %s", what, m, n);
            }
            c.nontrivial();
            return;
        }
        c.fail(1, "%s: expected %s but nothing was thrown", what, type.getSimpleName());
    }

    private static int badCapacity(final Ctx c) {
        return c.oneOf(0, -1, Integer.MIN_VALUE, -c.skew(5000) - 1, (1 << 29) + 1, Integer.MAX_VALUE, (1 << 29) + 1 + c.skew(1 << 20));
    }

    private static int negative(final Ctx c) {
        return c.oneOf(-1, -2, Integer.MIN_VALUE, -1 - c.skew(100000), -65536);
    }

    private static double badFactor(final Ctx c) {
        return c.oneOf(0d, -0d, -1d, 1.0000000000000002, 1.5, 2d, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, -Double.MIN_VALUE, 1 + c.skew(1000) / 8d + 0.125,
                -c.skew(1000) / 8d);
    }

    // ------------------------------------------------------------------ sets and maps
    private static void set(final Ctx c, final String subject) {
        construct(c, subject + "SetAdapter");
        final HashSut s = U.make(subject + "SetAdapter", 1 + c.skew(40), c.oneOf(0.75, 0.5, 1d));
        hash(c, T.of(subject), s, Dom.draw(c, T.of(subject), 1 + c.skew(60)), null);
    }

    private static void map(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        if (c.weighted(3, 1) == 1) {
            construct(c, p[0] + p[1] + "MapAdapter");
            return;
        }
        final HashSut s = U.make(p[0] + p[1] + "MapAdapter", 1 + c.skew(40), c.oneOf(0.75, 0.5, 1d));
        hash(c, kt, s, Dom.draw(c, kt, 1 + c.skew(60)), vt);
    }

    private static void construct(final Ctx c, final String cls) {
        if (c.bool()) {
            final int cap = badCapacity(c);
            c.op("new " + cls, cap, 0.75);
            refuse(c, IllegalArgumentException.class, "capacity " + cap, () -> U.make(cls, cap, 0.75), cap);
        } else {
            final double lf = badFactor(c);
            final int cap = 1 + c.skew(5000);
            c.op("new " + cls, cap, lf);
            refuse(c, IllegalArgumentException.class, "load factor " + lf, () -> U.make(cls, cap, lf), lf);
        }
    }

    private static void hash(final Ctx c, final T kt, final HashSut s, final Dom dom, final T vt) {
        final BitSet in = new BitSet();
        final int n = c.skew(80);
        for (int i = 0; i < n; i++) {
            final int k = c.pick(dom.n);
            final boolean add = !in.get(k) || c.weighted(2, 3) == 0;
            if (add) {
                c.op(vt == null ? "add" : "put", dom.key(k));
                if (vt == null) {
                    s.add(dom.key(k));
                } else {
                    s.put(dom.key(k), Dom.value(vt, i));
                }
            } else {
                c.op("remove", dom.key(k));
                s.remove(dom.key(k));
            }
            in.set(k, add);
        }
        final int size = in.cardinality();
        for (int i = 0; i < 6; i++) {
            final int k = c.pick(dom.n);
            final Object key = dom.key(k);
            if (vt != null && !in.get(k)) {
                c.op("get of an absent key", key);
                refuse(c, KeyNotFoundException.class, "get of an absent key", () -> s.get(key), key);
            }
        }
        final java.lang.reflect.Method[] ms = Arrays.stream(s.raw().getClass().getMethods()).filter(m -> m.getName().startsWith("set") && m.getParameterCount() == 1
                && m.getParameterTypes()[0].isInterface()).toArray(java.lang.reflect.Method[]::new);
        Arrays.sort(ms, (a, b) -> a.getName().compareTo(b.getName()));
        for (java.lang.reflect.Method m : ms) {
            final Object f = java.lang.reflect.Proxy.newProxyInstance(m.getParameterTypes()[0].getClassLoader(), new Class<?>[] {m.getParameterTypes()[0]}, (p, x, a) -> null);
            if (size > 0) {
                c.op(m.getName());
                refuse(c, IllegalStateException.class, m.getName() + " of a collection of " + size, () -> invoke(m, s.raw(), f), size);
            } else {
                c.op(m.getName() + "(null)");
                refuse(c, NullPointerException.class, m.getName() + "(null)", () -> invoke(m, s.raw(), (Object) null));
            }
        }
        c.eq(1, s.size(), size, "size after the refusals");
    }

    private static void invoke(final java.lang.reflect.Method m, final Object on, final Object arg) throws Exception {
        try {
            m.setAccessible(true);
            m.invoke(on, arg);
        } catch (java.lang.reflect.InvocationTargetException e) {
            if (e.getCause() instanceof Exception) {
                throw (Exception) e.getCause();
            }
            throw (Error) e.getCause();
        }
    }

    // ------------------------------------------------------------------ heaps
    private static void heap(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final HeapSut s = U.make(p[0] + p[1] + "HeapAdapter", c.skew(30));
        final Dom dom = Dom.draw(c, kt, 1 + c.skew(30), true);
        final List<Integer> live = new ArrayList<>();
        final int n = c.skew(60);
        for (int i = 0; i < n; i++) {
            if (live.isEmpty() || c.weighted(3, 1) == 0) {
                final Object k = dom.key(c.pick(dom.n));
                c.op("insert", k);
                live.add(s.insert(k, Dom.value(vt, i)));
            } else {
                final int e = live.remove(c.pick(live.size()));
                c.op("removeAt", e);
                s.removeAt(e);
            }
        }
        if (live.isEmpty()) {
            c.op("peek of an empty heap");
            refuse(c, RuntimeException.class, "peek of an empty heap", s::peek);
        } else {
            final Object dk = dom.key(c.pick(dom.n));
            final Object dv = Dom.value(vt, c.pick(9));
            c.op("setDefaultKey and setDefaultValue", dk, dv);
            refuse(c, UnsupportedOperationException.class, "setDefaultKey of a heap of " + live.size(), () -> s.setDefaultKey(dk), dk, live.size());
            refuse(c, UnsupportedOperationException.class, "setDefaultValue of a heap of " + live.size(), () -> s.setDefaultValue(dv), dv, live.size());
        }
        refuse(c, NullPointerException.class, "setComparator(null)", () -> s.setComparator((String) null));
        final int cap = s.capacity();
        for (int i = 0; i < 4; i++) {
            final int e = c.weighted(2, 3, 2) == 0 ? c.oneOf(-1, Integer.MIN_VALUE, cap, cap + 1, Integer.MAX_VALUE, -1 - c.skew(1000), cap + c.skew(1000)) : c.pick(cap + 2);
            if (live.contains(e)) {
                continue;
            }
            final boolean inside = e >= 0 && e < cap;
            c.op("inactive entry", e, cap);
            final Object k = dom.key(0);
            if (inside) {
                refuse(c, InvalidEntryException.class, "removeAt(" + e + ")", () -> s.removeAt(e), after("entry", e), after("size", live.size()));
                refuse(c, InvalidEntryException.class, "resetKey(" + e + ")", () -> s.resetKey(e, k), after("entry", e), after("size", live.size()));
            } else {
                refuse(c, RangeCheckException.class, "removeAt(" + e + ")", () -> s.removeAt(e), limits(0, cap - 1, e), "entry");
                refuse(c, RangeCheckException.class, "resetKey(" + e + ")", () -> s.resetKey(e, k), limits(0, cap - 1, e), "entry");
            }
        }
        c.eq(1, s.size(), live.size(), "size after the refusals");
    }

    // ------------------------------------------------------------------ deques, hydra deques, vectors
    private static void deques(final Ctx c, final String subject) {
        final T t = T.of(subject);
        switch (c.pick(4)) {
            case 0: {
                final int cap = negative(c);
                final String cls = subject + c.oneOf("Deque", "HydraDeque", "Vector") + "Adapter";
                c.op("new " + cls, cap);
                if (cls.contains("Hydra")) {
                    final int lists = 1 + c.skew(20);
                    refuse(c, IllegalArgumentException.class, cls, () -> U.make(cls, lists, cap), cap);
                } else {
                    refuse(c, IllegalArgumentException.class, cls, () -> U.make(cls, cap), cap);
                }
                break;
            }
            case 1: {
                final DequeSut s = U.make(subject + "DequeAdapter", 1 + c.skew(20));
                final int n = c.skew(20);
                for (int i = 0; i < n; i++) {
                    s.addLast(Dom.value(t, i));
                }
                for (int i = 0; i < n; i++) {
                    s.removeFirst();
                }
                c.op("an emptied deque", n);
                refuse(c, NoSuchElementException.class, "removeFirst", s::removeFirst);
                refuse(c, NoSuchElementException.class, "removeLast", s::removeLast);
                refuse(c, NoSuchElementException.class, "peekFirst", s::peekFirst);
                refuse(c, NoSuchElementException.class, "peekLast", s::peekLast);
                c.eq(1, s.size(), 0, "size after the refusals");
                break;
            }
            default: {
                final int lists = 1 + c.skew(20);
                final HydraSut s = U.make(subject + "HydraDequeAdapter", lists, 1 + c.skew(20));
                final int[] size = new int[60];
                final int n = 1 + c.skew(40);
                int total = 0;
                for (int i = 0; i < n; i++) {
                    final int l = c.pick(30);
                    if (size[l] > 0 && c.weighted(2, 1) == 1) {
                        c.op("removeFirst", l);
                        s.removeFirst(l);
                        size[l]--;
                        total--;
                    } else {
                        c.op("addLast", l);
                        s.addLast(l, Dom.value(t, i));
                        size[l]++;
                        total++;
                    }
                }
                for (int i = 0; i < 5; i++) {
                    final int l = c.weighted(3, 1) == 0 ? c.pick(60) : c.oneOf(negative(c), 60 + c.skew(100000), Integer.MAX_VALUE);
                    if (l >= 0 && l < 60 && size[l] > 0) {
                        continue;
                    }
                    c.op("empty list", l);
                    if (total == 0) { // nothing at all to name
                        refuse(c, NoSuchElementException.class, "removeFirst(" + l + ")", () -> s.removeFirst(l));
                        refuse(c, NoSuchElementException.class, "removeLast(" + l + ")", () -> s.removeLast(l));
                    } else {
                        refuse(c, NoSuchElementException.class, "removeFirst(" + l + ")", () -> s.removeFirst(l), after("deque|list", l));
                        refuse(c, NoSuchElementException.class, "removeLast(" + l + ")", () -> s.removeLast(l), after("deque|list", l));
                    }
                }
                c.eq(1, s.size(), total, "size after the refusals");
            }
        }
    }

    // ------------------------------------------------------------------ matrix stores
    private static void stores(final Ctx c, final String subject) {
        final String cls = subject + "ChunkMatrixStoreAdapter";
        final int size = 1 + c.skew(2000);
        final int chunk = 2 + c.skew(500);
        final int fields = 1 + c.skew(40);
        final int bad = c.pick(6);
        if (bad < 3) {
            final int v = c.oneOf(bad == 1 ? 1 : 0, 0, -1, Integer.MIN_VALUE, -c.skew(4000));
            c.op("new " + cls, bad, v);
            final int least = bad == 1 ? 2 : 1;
            final String name = bad == 0 ? "initialSize" : bad == 1 ? "chunkSize" : "numFields";
            refuse(c, InitializationException.class, "new " + cls, () -> U.make(cls, bad == 0 ? v : size, bad == 1 ? v : chunk, bad == 2 ? v : fields), v, after(">=|least|minimum|from", least), name);
            return;
        }
        final StoreSut s = U.make(cls, Math.min(size, 200), chunk, fields);
        final T t = T.of(subject);
        for (int i = 0; i < 3; i++) {
            final int f = c.oneOf(-1, fields, fields + 1, Integer.MAX_VALUE, Integer.MIN_VALUE, fields + c.skew(500), -1 - c.skew(500));
            final int row = c.skew(300);
            c.op("field out of range", row, f, fields);
            refuse(c, RangeCheckException.class, "get(" + row + ", " + f + ")", () -> s.get(row, f), limits(0, fields - 1, f), "field");
            refuse(c, RangeCheckException.class, "set(" + row + ", " + f + ")", () -> s.set(row, f, Dom.value(t, 1)), limits(0, fields - 1, f), "field");
            final int r = negative(c);
            final int g = c.pick(fields);
            c.op("negative row", r, g);
            refuse(c, IndexOutOfBoundsException.class, "set(" + r + ", " + g + ")", () -> s.set(r, g, Dom.value(t, 1)), r);
        }
    }

    // ------------------------------------------------------------------ sorts
    private static void sort(final Ctx c, final String subject) {
        final String[] p = subject.split("/");
        final T kt = T.of(p[0]);
        final T vt = T.of(p[1]);
        final SortSut s = U.make(p[0] + p[1] + "CompanionSortAdapter");
        final int n = c.skew(60);
        final int m = c.weighted(2, 1) == 0 ? n : c.skew(60);
        final Object[] keys = new Object[n];
        final Object[] vals = new Object[m];
        final Dom dom = Dom.draw(c, kt, 1 + c.skew(20), true);
        Arrays.setAll(keys, i -> dom.key((i * 7 + 3) % dom.n));
        Arrays.setAll(vals, i -> Dom.value(vt, i));
        final Object ks = s.keys(keys);
        final Object vs = s.values(vals);
        final int off = c.oneOf(c.skew(n + 2), -1, Integer.MIN_VALUE, -1 - c.skew(100), Integer.MAX_VALUE, n, c.pick(n + 1));
        final int len = c.oneOf(c.skew(n + 2), -1, Integer.MIN_VALUE, -1 - c.skew(100), Integer.MAX_VALUE, n, c.pick(n + 1));
        c.op("sort", n, m, off, len);
        final boolean bad = off < 0 || len < 0 || (long) off + len > n || (long) off + len > m;
        if (!bad) {
            s.sort(ks, vs, off, len, "Asc");
            c.label("accepted");
            return;
        }
        if (off < 0 || len < 0) {
            refuse(c, IllegalArgumentException.class, "sort(" + off + ", " + len + ")", () -> s.sort(ks, vs, off, len, "Asc"), after("off|offset", off), after("len|length", len));
        } else {
            refuse(c, IllegalArgumentException.class, "sort(" + off + ", " + len + ")", () -> s.sort(ks, vs, off, len, "Asc"), after("off|offset", off), after("len|length", len), (long) off + len > n ? n : m);
        }
    }

    // ------------------------------------------------------------------ conversions
    private static void convert(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final TypeSut s = TypeProps.sut(subject);
        final Object v = TypeProps.unconvertible(c, t);
        if (v == null) {
            return;
        }
        c.op("convert", v.getClass().getSimpleName(), v);
        final String name = t == T.Bool ? "boolean" : subject.toLowerCase(java.util.Locale.ROOT);
        refuse(c, IllegalArgumentException.class, "convert of a " + v.getClass().getSimpleName(), () -> s.convert(v), " " + name, v, v.getClass().getName());
    }

    // ------------------------------------------------------------------ bidirectional collections
    private static void bi(final Ctx c, final String subject) {
        final boolean many = subject.startsWith("many");
        final int lefts = 1 + c.skew(20);
        final int rights = 1 + c.skew(20);
        final int init = 1 + c.skew(40);
        if (c.chance(1, 4)) {
            final int badCap = badCapacity(c);
            final boolean counts = c.bool();
            c.op("new", badCap);
            refuse(c, IllegalArgumentException.class, "an initial capacity of " + badCap, () -> {
                if (many) {
                    new CompactManyToMany(lefts, rights, badCap, counts);
                } else {
                    new CompactOneToMany(lefts, badCap, counts);
                }
            }, badCap);
            return;
        }
        final CompactOneToMany s = many ? new CompactManyToMany(lefts, rights, init, true) : new CompactOneToMany(lefts, init, true);
        final int n = c.skew(40);
        for (int i = 0; i < n; i++) {
            final int l = c.pick(30);
            final int r = c.pick(30);
            c.op("put", l, r);
            s.put(l, r);
        }
        final int size = s.size();
        for (int i = 0; i < 4; i++) {
            final int bad = negative(c);
            final int good = c.skew(40);
            if (many && c.bool()) {
                c.op("put", good, bad);
                refuse(c, IndexOutOfBoundsException.class, "put of a negative right key", () -> s.put(good, bad), bad);
            } else {
                c.op("put", bad, good);
                refuse(c, IndexOutOfBoundsException.class, "put of a negative left key", () -> s.put(bad, good), bad);
            }
        }
        if (!many) {
            final CompactOneToMany u = new CompactOneToMany(lefts, init, false);
            u.put(1, 2);
            c.op("count without counts");
            refuse(c, IllegalStateException.class, "count of a collection without counts", () -> u.withLeft(1).count());
        }
        c.eq(1, s.size(), size, "size after the refusals");
    }

    // ------------------------------------------------------------------ the checks themselves
    private static int any(final Ctx c) {
        return c.oneOf(c.range(-3, 3), c.skew(1000), -c.skew(1000), Integer.MIN_VALUE, Integer.MAX_VALUE, Integer.MIN_VALUE + 1, Integer.MAX_VALUE - 1, (int) c.bits64());
    }

    private static void checks(final Ctx c, final String subject) {
        final String field = c.oneOf("entry", "row", "numFields", "size of x", "");
        final int a = any(c);
        final int b = any(c);
        switch (c.pick(6)) {
            case 0: {
                final int min = Math.min(a, b);
                final int max = c.weighted(6, 1) == 0 ? Math.max(a, b) : min;
                final int v = c.oneOf(min, max, min - 1, max + 1, any(c), min + 1, max - 1);
                c.op("assertWithinRange", min, max, v, field);
                if (v < min || v > max) {
                    refuse(c, RangeCheckException.class, "a value outside its range", () -> RangeCheckException.assertWithinRange(min, max, v, field), limits(min, max, v), field);
                } else {
                    RangeCheckException.assertWithinRange(min, max, v, field);
                }
                break;
            }
            case 1: {
                final int v = c.oneOf(b, a - 1, a, a + 1);
                c.op("assertMinimum", a, v, field);
                if (v < a) {
                    refuse(c, InitializationException.class, "a value below its minimum", () -> InitializationException.assertMinimum(a, v, field), after(">=|least|minimum|from", a), v, field);
                } else {
                    InitializationException.assertMinimum(a, v, field);
                }
                break;
            }
            case 2: {
                c.op("cannotResize", field, a, b);
                refuse(c, ResizeException.class, "cannotResize", () -> {
                    throw ResizeException.cannotResize(StringBuilder.class, field, a, b);
                }, after("from", a), after("to", b), field, StringBuilder.class.getName());
                break;
            }
            case 3: {
                c.op("invalidEntry", a);
                refuse(c, InvalidEntryException.class, "invalidEntry", () -> {
                    throw InvalidEntryException.invalidEntry(a);
                }, a);
                final Object owner = c.oneOf(new Object(), "s", new int[0]);
                final int top = CapacityCalculator.calculateNewCapacity(owner, 1 << 28, 1 << 27);
                c.op("calculateNewCapacity", top);
                refuse(c, ResizeException.class, "growth past the limit", () -> CapacityCalculator.calculateNewCapacity(owner, top, top), top, owner.getClass().getName());
                break;
            }
            case 4: {
                final byte y = (byte) a;
                final short h = (short) a;
                final char x = (char) a;
                final long l = (long) a << 32 ^ b;
                final float f = Float.intBitsToFloat(a);
                final double d = Double.longBitsToDouble(l);
                c.op("KeyNotFoundException", a, b);
                final Object[] keys = {y, h, x, a, l, f, d, "k" + a, new Dom.CKey(a, b)};
                final RuntimeException[] es = {new KeyNotFoundException(y), new KeyNotFoundException(h), new KeyNotFoundException(x), new KeyNotFoundException(a), new KeyNotFoundException(l),
                    new KeyNotFoundException(f), new KeyNotFoundException(d), new KeyNotFoundException("k" + a), new KeyNotFoundException(new Dom.CKey(a, b))};
                for (int i = 0; i < keys.length; i++) {
                    final RuntimeException e = es[i];
                    refuse(c, KeyNotFoundException.class, "the exception for a " + keys[i].getClass().getSimpleName() + " key", () -> {
                        throw e;
                    }, keys[i]);
                }
                break;
            }
            default: {
                c.op("an id generator without a clock");
                refuse(c, NullPointerException.class, "a null clock", () -> Snowflake.snowflake(null, () -> "n"), "clock");
                refuse(c, NullPointerException.class, "a null clock", () -> Snowflake.snowflake(null), "clock");
            }
        }
    }
}
