package vp.sut;

/** The array helpers of one type; arrays are passed as Objects (primitive arrays or Object[]). */
public interface ArraySut {
    Object create(int n);

    Object create(int n, Object def);

    Object resize(Object a, int n);

    void fill(Object a, Object v, int from, int len);

    void fill(Object a, Object v);

    Object copyOf(Object a, int n, Object def);

    Object copyOf(Object a, int n);

    Object ensureSize(Object a, int n);

    Object ensureSize(Object a, int n, Object def);

    Object ensureEntry(Object a, int e);

    Object ensureEntry(Object a, int e, Object def);

    /** Generic only. */
    Object createTyped(Class<?> type, int n);
}
