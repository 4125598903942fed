package vp.core;

import java.util.Arrays;

/** A recorded sequence of bounded choices: drawn from a seeded generator, or replayed. */
public final class Src {
    private long[] rec = new long[64];
    private int len;
    private int[] spans = new int[32];
    private int nspans;
    private final long[] replay;
    private long state;
    static final int MAX = 400_000;

    public Src(final long seed) {
        this.replay = null;
        this.state = seed;
    }

    public Src(final long[] replay) {
        this.replay = replay;
    }

    long next64() { // splitmix64
        long z = (state += 0x9E3779B97F4A7C15L);
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }

    static long mix(final long x) {
        long z = x + 0x9E3779B97F4A7C15L;
        z = (z ^ (z >>> 30)) * 0xBF58476D1CE4E5B9L;
        z = (z ^ (z >>> 27)) * 0x94D049BB133111EBL;
        return z ^ (z >>> 31);
    }

    private long record(final long v) {
        if (len == rec.length) {
            rec = Arrays.copyOf(rec, len * 2);
        }
        rec[len++] = v;
        return v;
    }

    private int again = -1;
    private int againEnd;

    /** The number of choices made so far. */
    int position() {
        return len;
    }

    /** Makes the choices from..to once more, without recording them. */
    void again(final int from, final int to) {
        again = from;
        againEnd = to;
    }

    private boolean repeating() {
        if (again >= 0 && again < againEnd) {
            return true;
        }
        again = -1;
        return false;
    }

    boolean replaying() {
        return replay != null;
    }

    /** Replay mode: the next recorded value clamped to [0,bound); 0 when exhausted. */
    private long replayed(final long bound) {
        if (len >= replay.length) {
            return record(0);
        }
        final long v = replay[len];
        if (bound <= 0) {
            return record(v);
        }
        return record(v < 0 ? 0 : Math.min(v, bound - 1));
    }

    /** Uniform in [0,n). */
    long uniform(final long n) {
        if (n <= 1) {
            return 0;
        }
        if (again >= 0 && repeating()) {
            return rec[again++];
        }
        if (replay != null) {
            return replayed(n);
        }
        return record(Long.remainderUnsigned(next64(), n));
    }

    /** A choice made by the caller's own distribution. */
    interface Gen {
        long get(Src s);
    }

    long choose(final long bound, final Gen gen) {
        if (again >= 0 && repeating()) {
            return rec[again++];
        }
        if (replay != null) {
            return replayed(bound);
        }
        return record(gen.get(this));
    }

    long bits() {
        if (again >= 0 && repeating()) {
            return rec[again++];
        }
        if (replay != null) {
            return replayed(0);
        }
        return record(next64());
    }

    void mark() {
        if (nspans == spans.length) {
            spans = Arrays.copyOf(spans, nspans * 2);
        }
        spans[nspans++] = len;
    }

    boolean full() {
        return len > MAX;
    }

    public long[] choices() {
        return Arrays.copyOf(rec, len);
    }

    public int[] spans() {
        return Arrays.copyOf(spans, nspans);
    }

    long fingerprint() {
        long h = len;
        for (int i = 0; i < len; i++) {
            h = mix(h ^ rec[i]);
        }
        return h;
    }
}
