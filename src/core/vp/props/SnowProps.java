package vp.props;

import com.bytefacets.collections.id.Snowflake;
import java.lang.reflect.Constructor;
import java.lang.reflect.InvocationTargetException;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.atomic.AtomicLong;
import java.util.function.LongSupplier;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;

/** Snowflake ids: C36-C38. */
final class SnowProps {
    static final long EPOCH = 1676731200000L;
    static final long ORDER = 1, LAYOUT = 2;
    private static final String[] ONE = {"Snowflake"};
    private static final long MAX_TS = (1L << 41) - 1;

    static Prop get(final String id) {
        final String[] assume = {"the clock stays between the custom epoch and 2^41 ms after it"};
        switch (id) {
            case "C36":
                return new Prop(id, ORDER, "a case is a history of nextId calls under a scripted clock; non-trivial when the clock ran backwards, "
                        + "failed, or more than 4096 ids were requested in one millisecond", assume,
                        Part.of("scripts", ONE, 40000, 1000000, SnowProps::script));
            case "C37":
                return new Prop(id, LAYOUT, "a case is a history of nextId calls, or a block of ids to parse; non-trivial when one millisecond gave several ids "
                        + "and the clock moved", assume,
                        Part.of("scripts", ONE, 40000, 1000000, SnowProps::script),
                        Part.of("parse", ONE, 20000, 500000, SnowProps::parse),
                        Part.of("names", ONE, 20000, 500000, SnowProps::names));
            case "C38":
                return new Prop(id, 1, "a case is one concurrent run of 2 to 6 threads on one generator under a monotone clock with random or targeted "
                        + "pauses inside its readings; non-trivial when at least two threads' ids were interleaved", assume,
                        Part.of("threads", ONE, 1200, 30000, SnowProps::threads),
                        Part.of("gated", ONE, 1200, 30000, SnowProps::gated));
            default:
                return null;
        }
    }

    /** Raised by a clock that has been read absurdly often in one call. */
    static final class Stuck extends Error {
        Stuck() {
            super("clock read 200000 times in one call", null, false, false);
        }
    }

    static final class ClockFailure extends RuntimeException {
        ClockFailure() {
            super("clock failure", null, false, false);
        }
    }

    static final class Clock implements LongSupplier {
        final Ctx c;
        long now;
        final List<Long> reads = new ArrayList<>();
        long epoch = EPOCH;
        int count;
        int stall; // readings for which the clock stands still within the call
        int mid; // what happens at the end of the stall: 0 advance, 1 jump, 2 backwards first, 3 fail, 4 nothing: it stands still
        long jump;
        boolean failFirst;
        long last = -1;

        Clock(final Ctx c, final long start) {
            this.c = c;
            now = start;
        }

        void begin() {
            reads.clear();
            count = 0;
        }

        @Override
        public long getAsLong() {
            c.pause();
            count++;
            if (failFirst && count == 1) {
                throw new ClockFailure();
            }
            if (count > 1 && now <= last) {
                if (count > stall && mid != 4) {
                    if (mid == 3) {
                        mid = 0;
                        throw new ClockFailure();
                    }
                    if (mid == 2) {
                        mid = 0;
                        stall = count + 3;
                        now = Math.max(0, now - jump);
                    } else {
                        now = Math.min(MAX_TS, last + (mid == 1 ? jump : 1));
                    }
                }
            }
            if (count > 200000) {
                throw new Stuck();
            }
            if (reads.size() < 100000) {
                reads.add(now);
            }
            return epoch + now;
        }
    }

    private static String name(final Ctx c) {
        switch (c.pick(4)) {
            case 0: return c.oneOf("", "a", "node-1", "polygenelubricants", "Aa", "BB", "\u00e9\u00e9", "host.example.com");
            case 1: return "node-" + c.pick(100000);
            case 2: return Long.toString(c.bits64(), 36);
            default: return new String(new char[] {(char) c.pick(65536), (char) c.pick(1024)});
        }
    }

    /** The constructor that names its node and epoch, which only the package may call; null when there is none. */
    private static final Constructor<?> WITH_EPOCH = constructor(long.class, long.class, LongSupplier.class);
    /** The one that names only its node. */
    private static final Constructor<?> WITH_NODE = constructor(long.class, LongSupplier.class);

    private static Constructor<?> constructor(final Class<?>... args) {
        try {
            final Constructor<?> k = Snowflake.class.getDeclaredConstructor(args);
            k.setAccessible(true);
            return k;
        } catch (ReflectiveOperationException | RuntimeException e) {
            return null;
        }
    }

    static Snowflake make(final Constructor<?> k, final Object... args) {
        try {
            return (Snowflake) k.newInstance(args);
        } catch (InvocationTargetException e) {
            if (e.getCause() instanceof RuntimeException) {
                throw (RuntimeException) e.getCause();
            }
            throw new AssertionError(e.getCause());
        } catch (ReflectiveOperationException e) {
            throw new AssertionError(e);
        }
    }

    /** C40: node ids are 0 to 1023. */
    static void nodes(final Ctx c, final String s) {
        final Constructor<?> k = c.bool() && WITH_EPOCH != null ? WITH_EPOCH : WITH_NODE;
        if (k == null) {
            return;
        }
        final long node;
        switch (c.pick(3)) {
            case 0: node = c.oneOf(-1L, 0L, 1L, 1022L, 1023L, 1024L, 1025L, 2048L, 4095L, 4096L, -1024L, Long.MIN_VALUE, Long.MAX_VALUE, 1L << 32, (1L << 32) + 5); break;
            case 1: node = c.pick(1100) - 30; break;
            default: node = c.bits64() >> c.pick(64);
        }
        final long epoch = k == WITH_EPOCH ? epoch(c) : EPOCH;
        final long at = c.pick(1 << 30);
        final LongSupplier clock = () -> epoch + at;
        c.op("new Snowflake", node, epoch);
        final Object[] args = k == WITH_EPOCH ? new Object[] {node, epoch, clock} : new Object[] {node, clock};
        if (node < 0 || node > 1023) {
            c.throwsX(-1L, IllegalArgumentException.class, "node " + node, () -> make(k, args));
            c.nontrivial();
        } else {
            final Snowflake f = make(k, args);
            final long id = f.nextId();
            c.that(id == (at << 22 | node << 12) && f.parse(id)[1] == node && f.parse(id)[0] == epoch + at, "node %s: id %s, parsed as %s", node, id, Arrays.toString(f.parse(id)));
        }
    }

    private static long epoch(final Ctx c) {
        switch (c.pick(4)) {
            case 0: return EPOCH;
            case 1: return c.oneOf(0L, 1L, -1L, EPOCH + 1, EPOCH - 1, 1288834974657L, 1L << 40);
            default: return c.bits64() >>> c.range(20, 62);
        }
    }

    static void script(final Ctx c, final String s) {
        final String name = name(c);
        final long start = c.weighted(3, 1, 1, 1) == 0 ? c.pick(1000000) : c.oneOf(0L, 1L, MAX_TS / 2, MAX_TS - 1000000, 1L << 31, (1L << 32) - 1, (1L << 40) - 2);
        final Clock clock = new Clock(c, start);
        final Constructor<?> made = c.chance(1, 3) ? c.oneOf(WITH_EPOCH, WITH_EPOCH, WITH_NODE) : null;
        final long epoch = made != null && made == WITH_EPOCH ? epoch(c) : EPOCH;
        clock.epoch = epoch;
        final long node = made == null ? name.hashCode() & 1023 : c.oneOf(0, 1023, c.pick(1024));
        c.op("snowflake", made == null ? name : node, epoch, start);
        final Snowflake f = made == null ? Snowflake.snowflake(clock, () -> name)
                : made == WITH_EPOCH ? make(made, node, epoch, clock) : make(made, node, clock);
        long lastId = -1;
        long lastTs = -1;
        long seq = -1; // last sequence number issued in lastTs
        boolean odd = false;
        boolean several = false;
        boolean moved = false;
        while (c.more(25)) {
            final int w = c.weighted(12, 6, 3, 3, 2, 2, 2, 1);
            int calls = 1;
            clock.failFirst = false;
            clock.stall = 2 + c.skew(300);
            clock.mid = c.weighted(6, 2, 2, 1);
            clock.jump = 1 + c.skew(100000);
            switch (w) {
                case 0: break;
                case 1: clock.now++; break;
                case 2: clock.now += 1 + c.skew(1000000); break;
                case 3: clock.now = Math.max(0, (clock.now > lastTs ? lastTs : clock.now) - 1 - c.skew(2000)); break;
                case 4: calls = 1 + c.skew(20); break;
                case 5: clock.failFirst = true; break;
                case 6: calls = c.chance(1, 3) ? c.oneOf(4095, 4096, 4097, 4098, 8193, 5000) : 1 + c.skew(5000); break;
                default: // the last id of a millisecond, or nearly
                    if (lastTs < 0 || clock.now != lastTs) {
                        clock.now = Math.max(clock.now, lastTs + 1);
                        calls = 4096;
                    } else {
                        calls = (int) (4095 - seq);
                    }
                    calls -= c.weighted(4, 1, 1);
                    c.label("filled");
            }
            final boolean still = clock.now < lastTs && w != 5 && c.chance(1, 2); // the clock stays behind during the call
            if (still) {
                clock.mid = 4;
            }
            clock.now = Math.min(clock.now, MAX_TS - 10);
            if (clock.now + 10 >= MAX_TS) {
                break;
            }
            c.op("nextId", calls + " calls", "clock " + clock.now, clock.failFirst ? "failing" : "", "then stall " + clock.stall + " mode " + clock.mid + " by " + clock.jump);
            for (int i = 0; i < calls && Math.max(clock.now, lastTs) + 10 < MAX_TS; i++) {
                clock.begin();
                clock.last = lastTs;
                if (clock.mid == 4 && clock.now >= lastTs) {
                    clock.mid = 0;
                }
                final long first = clock.now;
                final boolean behind = first < lastTs;
                long id;
                try {
                    id = f.nextId();
                } catch (ClockFailure e) {
                    odd = true;
                    clock.failFirst = false;
                    continue;
                } catch (IllegalStateException e) {
                    c.that(ORDER, behind || anyBehind(clock, lastTs), "nextId throws %s although the clock (%s) is not behind the last timestamp %s", e.getMessage(), first, lastTs);
                    odd = true;
                    clock.now = c.chance(1, 2) ? lastTs + c.pick(2) : clock.now;
                    continue;
                } catch (Stuck e) {
                    c.fail(ORDER, behind && clock.mid == 4 ? "nextId neither returns nor throws while the clock is behind the last timestamp %s"
                            : "nextId does not return although the clock has passed the last timestamp %s", lastTs);
                    return;
                }
                if (i == 0) {
                    c.res(id);
                }
                c.that(ORDER | LAYOUT, id >= 0, "negative id %s", id);
                c.that(ORDER, id > lastId, "id %s after %s", id, lastId);
                c.that(ORDER, clock.reads.get(0) >= lastTs || !allBehind(clock, lastTs), "nextId returns %s although the clock (%s) is behind the last timestamp %s", id, first, lastTs);
                final long[] p = f.parse(id);
                c.that(LAYOUT, p.length == 3, "parse gives %s numbers", p.length);
                c.that(LAYOUT, p[1] == node, "parse(%s) gives node %s, expected %s", id, p[1], node);
                final long ts = p[0] - epoch;
                c.that(LAYOUT, clock.reads.contains(ts), "parse(%s) gives timestamp %s, which the clock did not report in that call: %s", id, p[0], clock.reads.get(0) + epoch);
                c.that(LAYOUT, p[2] == (ts == lastTs ? seq + 1 : 0), "parse(%s) gives sequence %s after %s", id, p[2], ts == lastTs ? seq : -1);
                c.that(LAYOUT, p[2] >= 0 && p[2] <= 4095, "parse(%s) gives sequence %s", id, p[2]);
                c.that(LAYOUT, p[0] - epoch == id / (1L << 22) && p[2] == id % 4096 && p[1] == id / 4096 % 1024, "parse(%s) = %s", id, Arrays.toString(p));
                final long mine = id / (1L << 22);
                if (mine == lastTs) {
                    seq++;
                    several = true;
                    c.that(ORDER, seq <= 4095, "%s ids in millisecond %s", seq + 1, mine);
                } else {
                    if (seq == 4095) {
                        c.label("sequence-exhausted");
                        odd = true;
                    }
                    moved |= lastTs >= 0;
                    seq = 0;
                }
                lastTs = mine;
                lastId = id;
            }
        }
        // generation resumes once the clock is past the last timestamp
        clock.failFirst = false;
        clock.now = Math.max(clock.now, lastTs + 1);
        clock.begin();
        clock.last = lastTs;
        if (clock.now <= MAX_TS) {
            c.op("final nextId", clock.now);
            final long id = f.nextId();
            c.that(ORDER, id > lastId, "id %s after %s", id, lastId);
        }
        if (c.has(ORDER) && odd || c.has(LAYOUT) && several && moved) {
            c.nontrivial();
        }
    }

    private static boolean anyBehind(final Clock k, final long last) {
        return k.reads.stream().anyMatch(r -> r < last);
    }

    private static boolean allBehind(final Clock k, final long last) {
        return k.reads.stream().allMatch(r -> r < last);
    }

    static void parse(final Ctx c, final String s) {
        final String name = name(c);
        final long epoch = WITH_EPOCH != null && c.bool() ? epoch(c) : EPOCH;
        final Snowflake f = epoch == EPOCH ? Snowflake.snowflake(() -> EPOCH, () -> name) : make(WITH_EPOCH, (long) c.pick(1024), epoch, (LongSupplier) () -> epoch);
        final int n = 200;
        for (int i = 0; i < n; i++) {
            final long id;
            switch (c.weighted(4, 2, 1)) {
                case 0: id = c.bits64() & Long.MAX_VALUE; break;
                case 1: id = (c.bits64() & Long.MAX_VALUE) >>> c.pick(63); break;
                default: id = c.oneOf(0L, 1L, Long.MAX_VALUE, 4095L, 4096L, (1L << 22) - 1, 1L << 22, 1023L << 12);
            }
            c.op("parse", id);
            final long[] p = f.parse(id);
            c.that(p.length == 3 && p[0] == epoch + id / (1L << 22) && p[1] == id / 4096 % 1024 && p[2] == id % 4096, "parse(%s) = %s", id, Arrays.toString(p));
        }
        c.inputs(n);
        c.nontrivial();
    }

    static void names(final Ctx c, final String s) {
        final String name = name(c);
        final long at = c.pick(1 << 30);
        c.op("two generators named", name);
        final Snowflake a = Snowflake.snowflake(() -> EPOCH + at, () -> name);
        final Snowflake b = Snowflake.snowflake(() -> EPOCH + 7, () -> new String(name.toCharArray()));
        final long na = a.parse(a.nextId())[1];
        final long nb = a.parse(b.nextId())[1];
        c.that(na == nb && na == (name.hashCode() & 1023), "nodes %s and %s for name %s", na, nb, name);
        if (c.chance(1, 200)) {
            final Snowflake d = Snowflake.snowflake(() -> EPOCH + at);
            final long nd = d.parse(d.nextId())[1];
            c.that(nd >= 0 && nd <= 1023 && d.parse(d.nextId())[1] == nd, "default node %s", nd);
            c.label("default-name");
        }
        if (c.chance(1, 20)) {
            for (String bad : new String[] {null}) {
                c.throwsX(-1L, NullPointerException.class, "null clock", () -> Snowflake.snowflake(null, () -> name));
            }
        }
        c.nontrivial();
    }

    // ------------------------------------------------------------------ concurrency
    private static void join(final Ctx c, final Thread[] ts) throws InterruptedException {
        final long end = System.nanoTime() + 30_000_000_000L;
        for (Thread t : ts) {
            t.join(Math.max(1, (end - System.nanoTime()) / 1_000_000));
            if (t.isAlive()) {
                final StackTraceElement[] st = t.getStackTrace();
                for (Thread u : ts) {
                    u.interrupt();
                }
                c.fail(-1L, "a thread does not finish: %s", Arrays.toString(st));
            }
        }
    }

    private static void judge(final Ctx c, final long[][] ids, final Throwable[] failed) {
        int n = 0;
        int switches = 0;
        for (int t = 0; t < ids.length; t++) {
            c.that(failed[t] == null, "thread %s: nextId throws %s although the clock never runs backwards", t, String.valueOf(failed[t]));
            for (int i = 1; i < ids[t].length; i++) {
                c.that(ids[t][i] > ids[t][i - 1], "thread %s got id %s after %s", t, ids[t][i], ids[t][i - 1]);
            }
            n += ids[t].length;
        }
        final long[][] all = new long[n][];
        int k = 0;
        for (int t = 0; t < ids.length; t++) {
            for (long id : ids[t]) {
                all[k++] = new long[] {id, t};
            }
        }
        Arrays.sort(all, (a, b) -> Long.compare(a[0], b[0]));
        for (int i = 1; i < n; i++) {
            c.that(all[i][0] != all[i - 1][0], "id %s was returned twice, to threads %s and %s", all[i][0], all[i - 1][1], all[i][1]);
            if (all[i][1] != all[i - 1][1]) {
                switches++;
            }
        }
        if (switches > ids.length - 1) {
            c.nontrivial();
        }
        c.label(switches > 50 ? "many-switches" : "few-switches");
    }

    /** Free-running threads; the clock advances with its readings and pauses at random. */
    static void threads(final Ctx c, final String s) throws Exception {
        final int n = c.range(2, 6);
        final int per = c.range(50, 2500);
        final int advance = c.oneOf(1, 3, 50, 1000, 100000); // readings per millisecond
        final int pause = c.oneOf(0, 0, 2, 20, 200); // one in so many readings pauses
        c.op("threads, ids each, readings per ms, pause one in", n, per, advance, pause);
        final AtomicLong reads = new AtomicLong();
        final LongSupplier clock = () -> {
            final long r = reads.incrementAndGet();
            if (pause > 0 && r % pause == 0) {
                if (r / pause % 3 == 0) {
                    Thread.yield();
                } else {
                    for (int i = 0; i < 50; i++) {
                        Thread.onSpinWait();
                    }
                }
            }
            return EPOCH + r / advance;
        };
        final Snowflake f = Snowflake.snowflake(clock, () -> "n");
        final long[][] ids = new long[n][];
        final Throwable[] failed = new Throwable[n];
        final Thread[] ts = new Thread[n];
        final CountDownLatch go = new CountDownLatch(n);
        for (int t = 0; t < n; t++) {
            final int me = t;
            ids[t] = new long[0];
            ts[t] = new Thread(() -> {
                final long[] out = new long[per];
                int i = 0;
                try {
                    go.countDown();
                    go.await();
                    for (; i < per; i++) {
                        out[i] = f.nextId();
                    }
                } catch (Throwable e) {
                    failed[me] = e;
                } finally {
                    ids[me] = Arrays.copyOf(out, i);
                }
            });
            ts[t].setDaemon(true);
            ts[t].start();
        }
        join(c, ts);
        judge(c, ids, failed);
        c.inputs((long) n * per);
    }

    /**
     * Readings chosen by the generator are held back until another thread has got an id or a short time has passed: a thread
     * is suspended with a reading in its hand at a point of the generator's choosing.
     */
    static void gated(final Ctx c, final String s) throws Exception {
        final int n = c.range(2, 4);
        final int per = c.range(2, 12);
        final long base = c.pick(1000000);
        final int steps = 64;
        final boolean[] gate = new boolean[steps];
        final boolean[] tick = new boolean[steps];
        for (int i = 0; i < steps; i++) {
            gate[i] = c.chance(1, 6);
            tick[i] = c.chance(1, 4);
        }
        final int preload = c.weighted(3, 1, 1) == 0 ? 0 : c.oneOf(4090, 4094, 4095, 4096, 4097);
        c.op("threads, ids each, ids beforehand", n, per, preload);
        final AtomicLong reads = new AtomicLong();
        final AtomicLong time = new AtomicLong(base);
        final AtomicLong done = new AtomicLong();
        final boolean[] armed = {false};
        final LongSupplier clock = () -> {
            final int r = (int) (reads.getAndIncrement() % steps);
            if (!armed[0]) {
                return EPOCH + (r == steps - 1 ? time.incrementAndGet() : time.get());
            }
            final long before = done.get();
            final long v = tick[r] || r == steps - 1 ? time.incrementAndGet() : time.get();
            if (gate[r]) {
                final long until = System.nanoTime() + 300_000;
                while (done.get() == before && System.nanoTime() < until) {
                    Thread.onSpinWait();
                }
            }
            return EPOCH + v;
        };
        final Snowflake f = Snowflake.snowflake(clock, () -> "n");
        long last = -1;
        for (int i = 0; i < preload; i++) {
            last = f.nextId();
        }
        armed[0] = true;
        final long[][] ids = new long[n + 1][];
        ids[n] = preload == 0 ? new long[0] : new long[] {last};
        final Throwable[] failed = new Throwable[n + 1];
        final Thread[] ts = new Thread[n];
        final CountDownLatch go = new CountDownLatch(n);
        for (int t = 0; t < n; t++) {
            final int me = t;
            ids[t] = new long[0];
            ts[t] = new Thread(() -> {
                final long[] out = new long[per];
                int i = 0;
                try {
                    go.countDown();
                    go.await();
                    for (; i < per; i++) {
                        out[i] = f.nextId();
                        done.incrementAndGet();
                    }
                } catch (Throwable e) {
                    failed[me] = e;
                } finally {
                    ids[me] = Arrays.copyOf(out, i);
                }
            });
            ts[t].setDaemon(true);
            ts[t].start();
        }
        join(c, ts);
        judge(c, ids, failed);
        c.inputs((long) n * per);
    }
}
