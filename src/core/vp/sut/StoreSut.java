package vp.sut;

/** A chunk store (one field) or chunk matrix store. */
public interface StoreSut {
    Object get(int row, int field);

    void set(int row, int field, Object v);

    int capacity();

    Object raw();
}
