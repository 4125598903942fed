package vp.sut;

/** The helpers of one XxxType class over boxed values. */
public interface TypeSut {
    Object def();

    boolean eq(Object a, Object b);

    int hash(Object v);

    /** Asc, Desc, AbsAsc, AbsDesc; null result when the type has no such comparator. */
    Integer cmp(String name, Object a, Object b);

    /** The comparator obtained by method name; IllegalArgumentException-free: throws what the type throws. */
    int cmpFor(String method, Object a, Object b);

    /** Whether comparatorFor exists. */
    boolean hasCmpFor();

    /** IS_EQ ...; null when the type has no such constant. */
    Boolean pred(String name, Object a, Object b);

    boolean predFor(String method, Object a, Object b);

    int castToInt(Object v);

    Object castFromInt(int v);

    Object unbox(Object o);

    Object box(Object v);

    Object parseString(String s);

    Object convert(Object o);

    boolean coded();

    int write(boolean le, byte[] a, int pos, Object v);

    Object read(boolean le, byte[] a, int pos);

    boolean hasBits();

    Object enableBits(Object f, Object b);

    Object disableBits(Object f, Object b);
}
