package vp.work;

import java.lang.reflect.Array;
import java.util.Arrays;

/** The work done by each thread in instrumented code: method entries, rounds of loops, and cells allocated, filled or copied. */
public final class Work {
    private static final int STRIDE = 16;
    private static final long[] DONE = new long[1 << 16];

    /** The part of the work that is in cells. */
    private static final long[] CELLS = new long[1 << 16];

    private static int slot() {
        return ((int) Thread.currentThread().getId() * STRIDE) & (DONE.length - 1);
    }

    public static long get() {
        return DONE[slot()];
    }

    public static long cells() {
        return CELLS[slot()];
    }

    public static void tick() {
        DONE[slot()]++;
    }

    public static void add(final int n) {
        final int slot = slot();
        DONE[slot] += Math.max(0, n);
        CELLS[slot] += Math.max(0, n);
    }

    public static void len(final Object array) {
        add(array == null || !array.getClass().isArray() ? 1 : Array.getLength(array));
    }

    public static void arraycopy(final Object a, final int i, final Object b, final int j, final int n) {
        add(n);
        System.arraycopy(a, i, b, j, n);
    }

    public static void fill(final boolean[] a, final boolean v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final boolean[] a, final int from, final int to, final boolean v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final byte[] a, final byte v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final byte[] a, final int from, final int to, final byte v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final short[] a, final short v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final short[] a, final int from, final int to, final short v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final char[] a, final char v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final char[] a, final int from, final int to, final char v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final int[] a, final int v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final int[] a, final int from, final int to, final int v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final long[] a, final long v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final long[] a, final int from, final int to, final long v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final float[] a, final float v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final float[] a, final int from, final int to, final float v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final double[] a, final double v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final double[] a, final int from, final int to, final double v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }

    public static void fill(final Object[] a, final Object v) {
        add(a.length);
        Arrays.fill(a, v);
    }

    public static void fill(final Object[] a, final int from, final int to, final Object v) {
        add(to - from);
        Arrays.fill(a, from, to, v);
    }
}
