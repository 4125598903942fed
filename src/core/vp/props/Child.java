package vp.props;

import com.bytefacets.collections.hash.ByteIndexedSet;
import java.io.BufferedReader;
import java.io.File;
import java.io.InputStreamReader;
import java.util.HashMap;
import java.util.Map;
import java.util.concurrent.TimeUnit;
import vp.core.Ctx;
import vp.sut.ArraySut;
import vp.sut.HashSut;
import vp.sut.T;
import vp.sut.U;

/** Checks that need a JVM with a heap of their own size. A child that dies or runs out of memory proves nothing. */
public final class Child {
    private Child() {}

    /** Runs a mode in a child JVM; a line starting BAD is a failure. */
    private static void run(final Ctx c, final String heap, final String mode) throws Exception {
        c.op("child JVM with " + heap, mode);
        final String[] r;
        synchronized (RESULTS) {
            if (!RESULTS.containsKey(mode)) {
                RESULTS.put(mode, spawn(heap, mode));
            }
            r = RESULTS.get(mode);
        }
        if (r[0] != null) {
            c.fail(-1L, "%s", r[0]);
        }
        if (r[1] != null) {
            c.nontrivial();
        } else {
            c.label("child-inconclusive");
        }
    }

    private static final Map<String, String[]> RESULTS = new HashMap<>();

    /** The first failure, if any, and a note when the child finished. */
    private static String[] spawn(final String heap, final String mode) throws Exception {
        final Process p = new ProcessBuilder(System.getProperty("java.home") + File.separator + "bin" + File.separator + "java", heap, "-XX:+UseSerialGC",
                "-XX:TieredStopAtLevel=1", "-cp", System.getProperty("java.class.path"), "vp.props.Child", mode).redirectErrorStream(true).start();
        p.getOutputStream().close();
        final Thread killer = new Thread(() -> {
            try {
                if (!p.waitFor(240, TimeUnit.SECONDS)) {
                    p.destroyForcibly();
                }
            } catch (InterruptedException e) {
                p.destroyForcibly();
            }
        }, "child-limit");
        killer.setDaemon(true);
        killer.start();
        String bad = null;
        boolean done = false;
        try (BufferedReader r = new BufferedReader(new InputStreamReader(p.getInputStream()))) {
            for (String l = r.readLine(); l != null; l = r.readLine()) {
                bad = bad == null && l.startsWith("BAD ") ? l.substring(4) : bad;
                done |= l.equals("DONE");
            }
        } finally {
            p.destroyForcibly();
        }
        return new String[] {bad, done ? "done" : null};
    }

    /** Capacities up to the limit are accepted: too little memory is the only thing that may go wrong. */
    static void accepted(final Ctx c, final String subject) throws Exception {
        run(c, "-Xmx64m", "accepted");
        c.label("capacities-to-the-limit");
    }

    /** A tiny load factor makes every add double the capacity, up to the limit. */
    static void limit(final Ctx c, final String subject) throws Exception {
        run(c, "-Xmx12g", "limit");
        c.label("grown-to-the-limit");
    }

    /** Arrays that grow past 2^30 elements. */
    static void arrays(final Ctx c, final String subject) throws Exception {
        run(c, "-Xmx2500m", "arrays");
        c.label("arrays-past-2^30");
    }

    public static void main(final String[] args) throws Exception {
        if (args[0].equals("accepted")) {
            for (String s : T.names(false)) {
                configurations(s + "SetAdapter");
            }
            for (String s : T.pairs()) {
                configurations(s.replace("/", "") + "MapAdapter");
            }
        } else if (args[0].equals("arrays")) {
            growArrays();
        } else {
            grow();
        }
        System.out.println("DONE");
        System.out.flush();
        System.exit(0);
    }

    /** Growth to a size that doubling does not reach: the array is large enough, or there is not that much memory. */
    private static void growArrays() throws Exception {
        for (T t : T.values()) {
            final ArraySut s = U.make(t + "ArrayAdapter");
            for (int start : new int[] {1, 3, 4, 100}) {
                for (int need : new int[] {(1 << 30) + 1, (1 << 30) + 12345, Integer.MAX_VALUE - 8, Integer.MAX_VALUE}) {
                    final Object a = s.create(start);
                    s.fill(a, Dom.value(t, 2), 0, start);
                    final Object[] got = new Object[1];
                    final Throwable[] x = new Throwable[1];
                    final Thread th = new Thread(() -> {
                        try {
                            got[0] = need % 2 == 0 ? s.ensureSize(a, need) : s.ensureEntry(a, need - 1);
                        } catch (Throwable e) {
                            x[0] = e;
                        }
                    });
                    th.setDaemon(true);
                    th.start();
                    th.join(60000);
                    final String what = t + "Array of " + start + " grown to " + need;
                    if (th.isAlive()) {
                        System.out.println("BAD " + what + " does not finish");
                        System.exit(0);
                    }
                    if (x[0] instanceof OutOfMemoryError) {
                        continue; // there is not that much memory
                    }
                    if (x[0] != null) {
                        System.out.println("BAD " + what + ": " + x[0]);
                        continue;
                    }
                    final int len = java.lang.reflect.Array.getLength(got[0]);
                    if (len < need) {
                        System.out.println("BAD " + what + " has length " + len);
                        continue;
                    }
                    for (int i = 0; i < start + 3; i++) {
                        final Object v = java.lang.reflect.Array.get(got[0], i);
                        final Object w = i < start ? Dom.value(t, 2) : t.def();
                        if (!Dom.sameValue(t, v, w)) {
                            System.out.println("BAD " + what + " has " + v + " at " + i + ", expected " + w);
                        }
                    }
                    got[0] = null;
                }
            }
        }
    }

    private static void configurations(final String cls) {
        for (int cap : new int[] {1 << 26, (1 << 27) + 1, (1 << 28) - 1, 1 << 28, (1 << 28) + 1, (1 << 29) - 1, 1 << 29}) {
            try {
                final HashSut s = U.make(cls, cap, 0.75);
                if (s.capacity() < cap) {
                    System.out.println("BAD " + cls + " with capacity " + cap + " has capacity " + s.capacity());
                }
            } catch (OutOfMemoryError e) {
                // accepted, but there is not that much memory
            } catch (Throwable e) {
                System.out.println("BAD " + cls + " with capacity " + cap + ": " + e);
            }
        }
        for (int cap : new int[] {(1 << 29) + 1, 1 << 30, Integer.MAX_VALUE, 0, -1, Integer.MIN_VALUE}) {
            try {
                U.make(cls, cap, 0.75);
                System.out.println("BAD " + cls + " accepts capacity " + cap);
            } catch (IllegalArgumentException e) {
                // rejected
            } catch (Throwable e) {
                System.out.println("BAD " + cls + " with capacity " + cap + ": " + e);
            }
        }
    }

    private static void grow() {
        try {
            final ByteIndexedSet s = new ByteIndexedSet(1, Double.MIN_VALUE);
            int cap = s.capacity();
            for (int i = 0; i < 200; i++) {
                final int e = s.add((byte) i);
                if (e != i || s.capacity() < cap || s.capacity() > 1 << 29 || s.capacity() <= e) {
                    System.out.println("BAD add of key " + i + " gives entry " + e + ", the capacity goes from " + cap + " to " + s.capacity());
                }
                cap = s.capacity();
            }
            if (cap != 1 << 29) {
                System.out.println("BAD capacity " + cap + " after 200 doublings");
            }
            for (int i = 0; i < 256; i++) {
                if (s.lookupEntry((byte) i) != (i < 200 ? i : -1)) {
                    System.out.println("BAD lookupEntry of key " + i + " = " + s.lookupEntry((byte) i));
                }
            }
        } catch (OutOfMemoryError e) {
            System.exit(3); // nothing shown
        } catch (Throwable e) {
            System.out.println("BAD growing to the limit: " + e);
        }
    }
}
