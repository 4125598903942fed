package vp.sut;

import java.util.function.Consumer;

public interface ItSut {
    boolean hasNext();

    Object next();

    void forEach(Consumer<Object> c);

    Object raw();
}
