package vp.core;

import java.io.IOException;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeMap;
import java.util.concurrent.atomic.AtomicLong;

/** Runs a property's parts over generated cases, shrinks the first failure and writes the evidence. */
public final class Runner {
    private static final long HANG_NANOS = 20_000_000_000L;
    private static final ThreadMXBean MX = ManagementFactory.getThreadMXBean();

    private final Prop prop;
    private final boolean thorough;
    private final long seed;
    private final long[] starts;
    private final long total;
    private final AtomicLong cursor = new AtomicLong();
    private final AtomicLong minFail = new AtomicLong(Long.MAX_VALUE);
    private int threads;

    /** Outcome of one case. */
    static final class Outcome {
        String failure; // null when it held
        boolean hang;
        boolean oom;
        long[] choices;
        int[] spans;
        Ctx ctx;
        boolean abandoned;
    }

    private final class Worker extends Thread {
        volatile long current = -1;
        volatile long cpuStart;
        long evaluations;
        long abandoned;
        long[] prints = new long[1024];
        int nprints;
        long enumeratedNontrivial;
        long failedIndex = Long.MAX_VALUE;
        Outcome failed;
        final Map<String, Long> labels = new TreeMap<>();
        final long[] perPart = new long[prop.parts.length];

        Worker(final int i) {
            super(null, null, "w" + i, 64L << 20);
            setDaemon(true);
        }

        @Override
        public void run() {
            final int chunk = (int) Math.max(1, Math.min(16, total / (threads * 16L)));
            while (true) {
                final long from = cursor.getAndAdd(chunk);
                if (from >= total) {
                    return;
                }
                for (long i = from; i < Math.min(total, from + chunk); i++) {
                    if (i > minFail.get()) {
                        return;
                    }
                    one(i);
                }
            }
        }

        private void one(final long i) {
            cpuStart = MX.getThreadCpuTime(getId());
            current = i;
            Outcome o;
            try {
                o = runCase(i, null, false);
            } catch (ThreadDeath d) {
                o = new Outcome();
                o.failure = "hang";
                o.hang = true;
            }
            current = -1;
            Thread.interrupted();
            evaluations += o.ctx == null ? 1 : o.ctx.inputs();
            perPart[partOf(i)]++;
            if (o.failure != null) {
                if (failedIndex > i) {
                    failedIndex = i;
                    failed = o;
                }
                minFail.accumulateAndGet(i, Math::min);
                return;
            }
            if (o.abandoned) {
                abandoned++;
                return;
            }
            for (String l : o.ctx.labels()) {
                labels.merge(l, 1L, Long::sum);
            }
            if (o.ctx.isNontrivial()) {
                if (prop.parts[partOf(i)].enumerated) {
                    enumeratedNontrivial += o.ctx.inputs();
                } else {
                    if (nprints == prints.length) {
                        prints = Arrays.copyOf(prints, nprints * 2);
                    }
                    prints[nprints++] = Src.mix(o.ctx.s.fingerprint() ^ Src.mix(partOf(i) * 1000003L
                            + subject(i).hashCode()));
                }
            }
        }
    }

    public Runner(final Prop prop, final boolean thorough, final long seed, final double scale) {
        this.prop = prop;
        this.thorough = thorough;
        this.seed = seed;
        this.threads = Integer.getInteger("vp.threads", Math.min(8, Runtime.getRuntime().availableProcessors()));
        starts = new long[prop.parts.length + 1];
        for (int i = 0; i < prop.parts.length; i++) {
            final Part p = prop.parts[i];
            final long n = thorough ? p.thorough : p.quick;
            starts[i + 1] = starts[i] + (p.enumerated ? n : Math.max(p.subjects.length, (long) (n * scale)));
        }
        total = starts[prop.parts.length];
    }

    private int partOf(final long i) {
        for (int p = 0; p < prop.parts.length; p++) {
            if (i < starts[p + 1]) {
                return p;
            }
        }
        throw new IllegalStateException();
    }

    private String subject(final long i) {
        final int p = partOf(i);
        return prop.parts[p].subjects[(int) ((i - starts[p]) % prop.parts[p].subjects.length)];
    }

    private Outcome runCase(final long i, final long[] replay, final boolean tracing) {
        final int p = partOf(i);
        final long ix = i - starts[p];
        long h = Src.mix(seed * 31 + prop.id.hashCode());
        h = Src.mix(h ^ prop.parts[p].name.hashCode());
        h = Src.mix(h + ix);
        return run(prop.parts[p], subject(i), ix, replay != null ? new Src(replay) : new Src(h), tracing);
    }

    private Outcome run(final Part part, final String subject, final long ix, final Src src, final boolean tracing) {
        final Outcome o = new Outcome();
        final Ctx c = new Ctx(src, prop.tags, ix, tracing, thorough);
        o.ctx = c;
        try {
            part.body.run(c, subject);
        } catch (Abandon e) {
            o.abandoned = true;
        } catch (Violation e) {
            o.failure = e.getMessage();
        } catch (ThreadDeath d) {
            throw d;
        } catch (OutOfMemoryError e) {
            o.failure = "OutOfMemoryError in a small case";
            o.oom = true;
        } catch (Throwable e) {
            final StackTraceElement[] st = e.getStackTrace();
            if (c.softFailed() && st.length > 0 && st[0].getClassName().startsWith("vp.")) {
                o.abandoned = true; // the model itself stumbled over another property's failure
            } else {
                o.failure = describe(e);
            }
        }
        if (o.failure != null) {
            o.choices = src.choices();
            o.spans = src.spans();
        }
        return o;
    }

    private static String describe(final Throwable e) {
        final StringBuilder b = new StringBuilder("unexpected ").append(e);
        int n = 0;
        for (StackTraceElement s : e.getStackTrace()) {
            if (n++ < 6) {
                b.append(" at ").append(s);
            }
        }
        return b.toString();
    }

    /** Runs a case in a thread of its own, giving up after the given CPU time. */
    private Outcome guarded(final long i, final long[] replay, final boolean tracing, final long cpuNanos) {
        final Outcome[] out = new Outcome[1];
        final Thread t = new Thread(null, () -> {
            try {
                out[0] = runCase(i, replay, tracing);
            } catch (ThreadDeath d) {
                // reported as a hang below
            }
        }, "guarded", 64L << 20);
        t.setDaemon(true);
        t.start();
        final long wallEnd = System.nanoTime() + cpuNanos * 4;
        while (t.isAlive()) {
            try {
                t.join(50);
            } catch (InterruptedException e) {
                throw new IllegalStateException(e);
            }
            if (t.isAlive() && (MX.getThreadCpuTime(t.getId()) > cpuNanos || System.nanoTime() > wallEnd)) {
                stop(t);
                break;
            }
        }
        if (out[0] == null) {
            out[0] = new Outcome();
            out[0].hang = true;
            out[0].failure = "an operation did not finish within " + cpuNanos / 1_000_000_000L
                    + " s of CPU time (normally under a millisecond)";
            out[0].choices = replay;
        }
        return out[0];
    }

    @SuppressWarnings({"deprecation", "removal"})
    private static void stop(final Thread t) {
        for (int i = 0; i < 20 && t.isAlive(); i++) {
            t.stop();
            try {
                t.join(100);
            } catch (InterruptedException e) {
                throw new IllegalStateException(e);
            }
        }
    }

    /** Returns the process exit code. */
    public int run(final Path evidenceDir) throws Exception {
        int rc = once(evidenceDir);
        for (int i = 0; i < 2 && rc == 3; i++) {
            // too little time or memory for so many cases side by side: again, with fewer of them
            threads = Math.max(1, threads / 4);
            cursor.set(0);
            minFail.set(Long.MAX_VALUE);
            System.gc();
            rc = once(evidenceDir);
        }
        return rc;
    }

    private int once(final Path evidenceDir) throws Exception {
        final long t0 = System.nanoTime();
        final List<Worker> workers = new ArrayList<>();
        for (int i = 0; i < threads; i++) {
            final Worker w = new Worker(i);
            workers.add(w);
            w.start();
        }
        boolean inconclusive = false;
        boolean rerunnable = true;
        for (boolean alive = true; alive; ) {
            alive = false;
            for (int i = 0; i < workers.size(); i++) {
                final Worker w = workers.get(i);
                w.join(20);
                if (!w.isAlive()) {
                    continue;
                }
                alive = true;
                final long cur = w.current;
                final long st = w.cpuStart;
                if (cur >= 0 && MX.getThreadCpuTime(w.getId()) - st > HANG_NANOS && w.current == cur) {
                    minFail.accumulateAndGet(cur, Math::min);
                    stop(w);
                }
            }
        }
        long evaluations = 0;
        long abandoned = 0;
        long distinct = 0;
        final Map<String, Long> labels = new TreeMap<>();
        final Map<String, Object> perPart = new LinkedHashMap<>();
        int n = 0;
        for (Worker w : workers) {
            n += w.nprints;
        }
        final long[] prints = new long[n];
        n = 0;
        final long[] pp = new long[prop.parts.length];
        for (Worker w : workers) {
            evaluations += w.evaluations;
            abandoned += w.abandoned;
            distinct += w.enumeratedNontrivial;
            System.arraycopy(w.prints, 0, prints, n, w.nprints);
            n += w.nprints;
            w.labels.forEach((k, v) -> labels.merge(k, v, Long::sum));
            for (int i = 0; i < pp.length; i++) {
                pp[i] += w.perPart[i];
            }
        }
        Arrays.sort(prints);
        for (int i = 0; i < n; i++) {
            if (i == 0 || prints[i] != prints[i - 1]) {
                distinct++;
            }
        }
        for (int i = 0; i < pp.length; i++) {
            final Map<String, Object> m = new LinkedHashMap<>();
            m.put("cases", pp[i]);
            m.put("subjects", prop.parts[i].subjects.length);
            m.put("enumerated", prop.parts[i].enumerated);
            perPart.put(prop.parts[i].name, m);
        }

        Outcome failure = null;
        long failIndex = minFail.get();
        if (failIndex != Long.MAX_VALUE) {
            for (int k = 0; k < 5 && (failure == null || failure.failure == null); k++) {
                failure = guarded(failIndex, null, false, HANG_NANOS * 2);
            }
            if (failure.failure == null) {
                failure = null;
                for (Worker w : workers) {
                    if (w.failedIndex == failIndex) {
                        failure = w.failed;
                    }
                }
                if (failure == null || failure.hang || failure.oom) {
                    // resources, not behaviour
                    System.out.println("inconclusive: case " + failIndex + " ran out of time or memory only once");
                    failure = null;
                    inconclusive = true;
                } else {
                    // needs the timing of the parallel run: threads on one generator, or instances that share state
                    failure.failure += " (seen in the parallel run, not when re-run alone)";
                    rerunnable = false;
                }
            }
        }
        final List<Object> samples = samples();
        Path replay = null;
        if (failure != null) {
            final Outcome min = rerunnable ? shrink(failIndex, failure) : failure;
            replay = evidenceDir.resolve("replay").resolve(prop.id + ".json");
            writeReplay(replay, failIndex, min);
        }
        final double wall = (System.nanoTime() - t0) / 1e9;
        final Map<String, Object> cov = new LinkedHashMap<>();
        cov.put("evaluations", evaluations);
        cov.put("distinct_nontrivial", distinct);
        cov.put("rule", prop.rule);
        cov.put("samples", samples);
        cov.put("parts", perPart);
        cov.put("labels_cases", labels);
        cov.put("abandoned_cases", abandoned);
        final Map<String, Object> ev = new LinkedHashMap<>();
        ev.put("property", prop.id);
        ev.put("tier", thorough ? "thorough" : "quick");
        ev.put("seed", seed);
        ev.put("level", "exploration");
        ev.put("coverage", cov);
        ev.put("assumptions", Arrays.asList(prop.assumptions));
        ev.put("wall_s", Math.round(wall * 100) / 100.0);
        ev.put("violations", failure == null ? 0 : 1);
        Files.createDirectories(evidenceDir);
        Files.writeString(evidenceDir.resolve(prop.id + ".json"), Json.write(ev) + "\n");
        System.out.printf("%s: %d cases, %d distinct non-trivial, %d abandoned, %.1f s%n", prop.id, evaluations,
                distinct, abandoned, wall);
        if (failure != null) {
            System.out.println("VIOLATION property=" + prop.id + " replay=" + replay);
            return 1;
        }
        return inconclusive ? 3 : 0;
    }

    private List<Object> samples() {
        final List<Object> out = new ArrayList<>();
        for (int p = 0; p < prop.parts.length; p++) {
            int taken = 0;
            for (long ix = 0; ix < 60 && starts[p] + ix < starts[p + 1] && taken < 2; ix++) {
                final long i = starts[p] + (prop.parts[p].enumerated ? ix : ix * 37 % (starts[p + 1] - starts[p]));
                if (i > minFail.get()) {
                    continue;
                }
                final Outcome o = guarded(i, null, true, 5_000_000_000L);
                if (o.failure != null || o.ctx == null || !o.ctx.isNontrivial() || o.abandoned) {
                    continue;
                }
                if (o.ctx.trace().size() > 60 && ix < 50) {
                    continue;
                }
                final Map<String, Object> m = new LinkedHashMap<>();
                m.put("part", prop.parts[p].name);
                m.put("subject", subject(i));
                m.put("case", i - starts[p]);
                final List<String> tr = o.ctx.trace();
                m.put("steps", tr.size() > 60 ? tr.subList(0, 60) : tr);
                out.add(m);
                taken++;
            }
        }
        return out;
    }

    // ---------------------------------------------------------------- shrinking
    private Outcome shrink(final long i, final Outcome first) {
        Outcome best = first;
        final long cpu = first.hang ? 3_000_000_000L : 5_000_000_000L;
        final int[] budget = {first.hang ? 0 : 4000};
        final long end = System.nanoTime() + 60_000_000_000L;
        if (first.hang || first.oom) {
            return first;
        }
        boolean improved = true;
        while (improved && budget[0] > 0 && System.nanoTime() < end) {
            improved = false;
            // delete runs of operations
            for (int k = Math.max(1, best.spans.length / 2); k >= 1; k /= 2) {
                for (int a = best.spans.length - k; a >= 0 && budget[0] > 0 && System.nanoTime() < end;
                        a -= Math.max(1, k / 2)) {
                    if (a >= best.spans.length) {
                        continue;
                    }
                    final int from = best.spans[a];
                    final int to = a + k < best.spans.length ? best.spans[a + k] : best.choices.length;
                    if (to <= from) {
                        continue;
                    }
                    final long[] cand = new long[best.choices.length - (to - from)];
                    System.arraycopy(best.choices, 0, cand, 0, from);
                    System.arraycopy(best.choices, to, cand, from, best.choices.length - to);
                    final Outcome o = attempt(i, cand, cpu, budget);
                    if (better(o, best)) {
                        best = o;
                        improved = true;
                        a = Math.min(a, best.spans.length);
                    }
                }
            }
            // lower single choices
            for (int a = 0; a < best.choices.length && budget[0] > 0 && System.nanoTime() < end; a++) {
                final long v = best.choices[a];
                if (v == 0) {
                    continue;
                }
                final long[] tries = {0, 1, v / 2, v - 1};
                for (long w : tries) {
                    if (w == v || a >= best.choices.length || (w == 1 && v < 0)) {
                        continue;
                    }
                    final long[] cand = best.choices.clone();
                    cand[a] = w;
                    final Outcome o = attempt(i, cand, cpu, budget);
                    if (better(o, best)) {
                        best = o;
                        improved = true;
                        break;
                    }
                }
            }
        }
        return best;
    }

    private Outcome attempt(final long i, final long[] cand, final long cpu, final int[] budget) {
        budget[0]--;
        return guarded(i, cand, false, cpu);
    }

    private static boolean better(final Outcome o, final Outcome best) {
        if (o.failure == null || o.hang || o.choices == null || o.spans == null) {
            return false;
        }
        if (o.choices.length != best.choices.length) {
            return o.choices.length < best.choices.length;
        }
        for (int i = 0; i < o.choices.length; i++) {
            final int c = Long.compareUnsigned(o.choices[i], best.choices[i]);
            if (c != 0) {
                return c < 0;
            }
        }
        return false;
    }

    private void writeReplay(final Path file, final long i, final Outcome min) throws IOException {
        final Outcome traced = guarded(i, min.choices, true, HANG_NANOS);
        final Map<String, Object> m = new LinkedHashMap<>();
        final int p = partOf(i);
        m.put("property", prop.id);
        m.put("part", prop.parts[p].name);
        m.put("subject", subject(i));
        m.put("index", i - starts[p]);
        m.put("seed", seed);
        m.put("tier", thorough ? "thorough" : "quick");
        m.put("message", min.failure);
        m.put("steps", traced.ctx == null ? List.of() : traced.ctx.trace());
        m.put("choices", min.choices);
        Files.createDirectories(file.getParent());
        Files.writeString(file, Json.write(m) + "\n");
        System.out.println("part " + m.get("part") + ", subject " + m.get("subject") + ", case " + m.get("index")
                + ", shrunk to " + (min.choices == null ? "?" : min.choices.length) + " choices:");
        if (traced.ctx != null) {
            for (String l : traced.ctx.trace()) {
                System.out.println("  " + l);
            }
        }
        System.out.println("  => " + min.failure);
    }

    /** Re-runs a saved failure. */
    public int replay(final Path file) throws Exception {
        @SuppressWarnings("unchecked")
        final Map<String, Object> m = (Map<String, Object>) Json.read(Files.readString(file));
        for (int p = 0; p < prop.parts.length; p++) {
            if (!prop.parts[p].name.equals(m.get("part"))) {
                continue;
            }
            final long ix = (Long) m.get("index");
            long[] ch = null;
            if (m.get("choices") != null) {
                ch = ((List<?>) m.get("choices")).stream().mapToLong(x -> (Long) x).toArray();
            }
            final Outcome o = guarded(starts[p] + ix, ch, true, HANG_NANOS * 2);
            if (o.ctx != null) {
                o.ctx.trace().forEach(l -> System.out.println("  " + l));
            }
            if (o.failure != null) {
                System.out.println("  => " + o.failure);
                System.out.println("VIOLATION property=" + prop.id + " replay=" + file);
                return 1;
            }
            System.out.println("replay: holds");
            return 0;
        }
        System.out.println("replay: no part " + m.get("part"));
        return 2;
    }
}
