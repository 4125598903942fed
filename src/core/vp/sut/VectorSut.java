package vp.sut;

import java.util.function.Consumer;

public interface VectorSut {
    void ensureSize(int n);

    void append(Object v);

    Object valueAt(int i);

    void forEach(Consumer<Object> c);

    int size();

    boolean isEmpty();

    void clear();

    Object raw();
}
