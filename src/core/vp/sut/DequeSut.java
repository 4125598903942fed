package vp.sut;

import java.util.function.Consumer;

public interface DequeSut {
    void addFirst(Object v);

    void addLast(Object v);

    Object removeFirst();

    Object removeLast();

    Object peekFirst();

    Object peekLast();

    int size();

    boolean isEmpty();

    void clear();

    void forEach(Consumer<Object> c);

    Object raw();
}
