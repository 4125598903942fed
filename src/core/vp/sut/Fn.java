package vp.sut;

/** A hash/equality pair over boxed keys. */
public interface Fn {
    int code(Object k);

    boolean eq(Object a, Object b);
}
