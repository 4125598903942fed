package vp.core;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.IdentityHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.function.Consumer;

/** One generated case: choices, operation log, labels and assertions. */
public final class Ctx {
    public final Src s;
    public final long tags;
    public final boolean tracing;
    public final boolean thorough;
    /** Index of this case within its part, for enumerated (exhaustive) parts. */
    public final long index;
    private final List<String> trace = new ArrayList<>();
    private final Set<String> labels = new LinkedHashSet<>();
    private boolean nontrivial;
    private long weight = 1;
    private int soft;
    private boolean softFailed;
    private Runnable onOp;

    public Ctx(final Src s, final long tags, final long index, final boolean tracing, final boolean thorough) {
        this.s = s;
        this.tags = tags;
        this.index = index;
        this.tracing = tracing;
        this.thorough = thorough;
    }

    // ---------------------------------------------------------------- choices
    /** Uniform in [0,n). */
    public int pick(final int n) {
        return (int) s.uniform(n);
    }

    public int range(final int lo, final int hi) {
        return lo + (int) s.uniform((long) hi - lo + 1);
    }

    public boolean chance(final int num, final int den) {
        return s.choose(2, g -> Long.remainderUnsigned(g.next64(), den) < num ? 1 : 0) == 1;
    }

    public boolean bool() {
        return s.uniform(2) == 1;
    }

    public int weighted(final int... w) {
        final int got = (int) s.choose(w.length, g -> {
            int sum = 0;
            for (int x : w) {
                sum += x;
            }
            int r = (int) Long.remainderUnsigned(g.next64(), sum);
            for (int i = 0; i < w.length; i++) {
                r -= w[i];
                if (r < 0) {
                    return i;
                }
            }
            return 0;
        });
        if (w[got] > 0) {
            return got;
        }
        int i = 0; // a replayed choice may name a disabled alternative
        while (w[i] <= 0) {
            i++;
        }
        return i;
    }

    /** In [0,n), small values much more likely. */
    public int skew(final int n) {
        if (n <= 1) {
            return 0;
        }
        return (int) s.choose(n, g -> {
            final long r = g.next64();
            final int bits = 32 - Integer.numberOfLeadingZeros(n);
            final int b = (int) Long.remainderUnsigned(r, bits + 1);
            final long m = Math.min(n, 1L << b);
            return Long.remainderUnsigned(g.next64(), m);
        });
    }

    public long bits64() {
        return s.bits();
    }

    /** Loop control of a generated sequence: each round is a unit the shrinker may delete. */
    public boolean more(final int mean) {
        s.mark();
        if (s.full()) {
            return false;
        }
        return s.choose(2, g -> Long.remainderUnsigned(g.next64(), mean + 1L) != 0 ? 1 : 0) == 1;
    }

    @SafeVarargs
    public final <X> X oneOf(final X... xs) {
        return xs[pick(xs.length)];
    }

    /** Runs the body; sometimes once more with the same choices, at once or after a run with other choices. */
    public void repeated(final Body body) throws Exception {
        final int from = s.position();
        body.run();
        final int to = s.position();
        switch (weighted(6, 1, 1)) {
            case 1: break;
            case 2: body.run(); break;
            default: return;
        }
        op("the first again");
        s.again(from, to);
        body.run();
    }

    // ---------------------------------------------------------------- log
    /** Called at every logged operation, before it is performed, and inside callbacks. */
    public void onOp(final Runnable r) {
        onOp = r;
    }

    /** A point inside a callback, where other instances may be used. */
    public void pause() {
        if (onOp != null) {
            onOp.run();
        }
    }

    public void op(final String name, final Object... args) {
        if (onOp != null) {
            onOp.run();
        }
        if (tracing) {
            final StringBuilder b = new StringBuilder(name).append('(');
            for (int i = 0; i < args.length; i++) {
                b.append(i == 0 ? "" : ", ").append(show(args[i]));
            }
            add(b.append(')').toString());
        }
    }

    private void add(final String line) {
        if (trace.size() < 5000) {
            trace.add(line);
        }
    }

    public void res(final Object result) {
        if (tracing && !trace.isEmpty()) {
            final int i = trace.size() - 1;
            trace.set(i, trace.get(i) + " -> " + show(result));
        }
    }

    public static String show(final Object o) {
        if (o != null && o.getClass() == Object.class) {
            return "an object";
        }
        if (o == null) {
            return "null";
        }
        if (o instanceof String) {
            final StringBuilder b = new StringBuilder("\"");
            for (char ch : ((String) o).toCharArray()) {
                if (ch < 32 || ch > 126) {
                    b.append(String.format("\\u%04x", (int) ch));
                } else {
                    b.append(ch);
                }
            }
            return b.append('"').toString();
        }
        if (o instanceof Character) {
            return "'\\u" + String.format("%04x", (int) (Character) o) + "'";
        }
        if (o instanceof int[]) {
            return java.util.Arrays.toString((int[]) o);
        }
        if (o instanceof Object[]) {
            final StringBuilder b = new StringBuilder("[");
            final Object[] a = (Object[]) o;
            for (int i = 0; i < a.length && i < 200; i++) {
                b.append(i == 0 ? "" : ", ").append(show(a[i]));
            }
            return b.append(a.length > 200 ? ", ...]" : "]").toString();
        }
        return String.valueOf(o);
    }

    public List<String> trace() {
        return trace;
    }

    public void label(final String l) {
        labels.add(l);
    }

    public Set<String> labels() {
        return labels;
    }

    public void nontrivial() {
        nontrivial = true;
    }

    public boolean isNontrivial() {
        return nontrivial;
    }

    /** Number of inputs this case stands for (enumerated parts check many inputs per case). */
    public void inputs(final long n) {
        weight = n;
    }

    public long inputs() {
        return weight;
    }

    // ---------------------------------------------------------------- assertions
    public boolean has(final long mask) {
        return (tags & mask) != 0;
    }

    public void that(final long mask, final boolean ok, final String fmt, final Object... args) {
        if (!ok) {
            fail(mask, fmt, args);
        }
    }

    public void that(final boolean ok, final String fmt, final Object... args) {
        if (!ok) {
            fail(-1L, fmt, args);
        }
    }

    public void eq(final long mask, final Object got, final Object want, final String what, final Object... args) {
        if (!same(got, want)) {
            final StringBuilder b = new StringBuilder(what);
            for (int i = 0; i < args.length; i++) {
                b.append(i == 0 ? "(" : ", ").append(show(args[i]));
            }
            b.append(args.length > 0 ? "): got " : ": got ").append(show(got)).append(", expected ").append(show(want));
            raise(mask, b.toString());
        }
    }

    public static boolean same(final Object a, final Object b) {
        return a == b || (a != null && a.equals(b));
    }

    private static Object[] shown(final Object[] args) {
        final Object[] out = new Object[args.length];
        for (int i = 0; i < args.length; i++) {
            out[i] = show(args[i]);
        }
        return out;
    }

    public void fail(final long mask, final String fmt, final Object... args) {
        raise(mask, args.length == 0 ? fmt : String.format(fmt, shown(args)));
    }

    private void raise(final long mask, final String msg) {
        if ((mask & tags) == 0) {
            if (soft > 0) {
                softFailed = true;
                return;
            }
            throw Abandon.INSTANCE;
        }
        throw new Violation(msg);
    }

    /** Between soft and hard, other properties' observations are ignored; they do not disturb the model. */
    public void soft() {
        soft++;
    }

    public void hard() {
        soft--;
    }

    /** Another property's observation failed in this case. */
    public boolean softFailed() {
        return softFailed;
    }

    public interface Body {
        void run() throws Exception;
    }

    /** An enumeration, which hands each element to the consumer. */
    public interface Each {
        void run(Consumer<Object> sink);
    }

    private static final class Stop extends RuntimeException {
        Stop() {
            super("stop", null, false, false);
        }
    }

    private static Map<Object, Integer> bag(final List<Object> l) {
        final Map<Object, Integer> values = new HashMap<>();
        final Map<Object, Integer> objects = new IdentityHashMap<>();
        for (Object o : l) {
            (o instanceof Number || o instanceof Character || o instanceof Boolean ? values : objects).merge(o, 1, Integer::sum);
        }
        values.put(bag0, objects.size());
        objects.forEach((o, n) -> values.put(new Same(o), n));
        return values;
    }

    private static final Object bag0 = new Object();

    private static final class Same {
        final Object o;

        Same(final Object o) {
            this.o = o;
        }

        @Override
        public int hashCode() {
            return System.identityHashCode(o);
        }

        @Override
        public boolean equals(final Object x) {
            return x instanceof Same && ((Same) x).o == o;
        }
    }

    /** Runs an enumeration of an unchanging collection whose callback, at some element, throws or (if allowed) runs the enumeration itself. */
    public void interrupted(final long mask, final String what, final boolean nest, final Each each) {
        final List<Object> all = new ArrayList<>();
        each.run(all::add);
        if (all.isEmpty()) {
            return;
        }
        final int at = pick(all.size());
        final int cap = all.size() + 5;
        final Map<Object, Integer> want = bag(all);
        final List<Object> got = new ArrayList<>();
        if (nest && bool()) {
            op(what + ", run again inside its callback at element", at);
            final List<Object> inner = new ArrayList<>();
            each.run(x -> {
                that(mask, got.size() < cap, what + " does not end");
                got.add(x);
                if (got.size() == at + 1) {
                    each.run(y -> {
                        that(mask, inner.size() < cap, what + " inside itself does not end");
                        inner.add(y);
                    });
                }
            });
            that(mask, bag(inner).equals(want), what + " inside its own callback yields %s elements, expected the same %s as outside", inner.size(), all.size());
            that(mask, bag(got).equals(want), what + ", run again inside its callback, yields %s elements, expected the same %s as before", got.size(), all.size());
            return;
        }
        op(what + " whose callback throws at element", at);
        final Stop stop = new Stop();
        try {
            each.run(x -> {
                got.add(x);
                if (got.size() == at + 1) {
                    throw stop;
                }
            });
            fail(mask, what + ": the exception its callback threw was swallowed");
        } catch (Stop e) {
            that(mask, e == stop, what + " throws another exception than its callback did");
        }
        that(mask, got.size() == at + 1, what + " went on after its callback threw");
        got.clear();
        each.run(x -> {
            that(mask, got.size() < cap, what + " does not end");
            got.add(x);
        });
        that(mask, bag(got).equals(want), what + ", run after one that was cut short, yields %s elements, expected the same %s as before", got.size(), all.size());
    }

    /** Runs body, which must throw an instance of type; anything else fails. */
    public void throwsX(final long mask, final Class<? extends Throwable> type, final String what, final Body body) {
        try {
            body.run();
        } catch (Violation | Abandon | ThreadDeath e) {
            throw e;
        } catch (Throwable e) {
            if (!type.isInstance(e)) {
                if (e instanceof VirtualMachineError) {
                    throw (VirtualMachineError) e;
                }
                fail(mask, what + ": expected %s but %s was thrown", type.getSimpleName(), e.toString());
            }
            return;
        }
        fail(mask, what + ": expected %s but nothing was thrown", type.getSimpleName());
    }
}
