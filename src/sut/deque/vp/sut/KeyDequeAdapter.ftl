package vp.sut;

import com.bytefacets.collections.queue.*;
import java.util.function.Consumer;

public final class ${type.name}DequeAdapter implements DequeSut {
    private final ${type.name}Deque${instanceGenerics} s;

    public ${type.name}DequeAdapter(final int cap) {
        s = new ${type.name}Deque${instanceGenerics}(cap);
    }
    @Override public void addFirst(final Object v) { s.addFirst(U.un${type.name}(v)); }
    @Override public void addLast(final Object v) { s.addLast(U.un${type.name}(v)); }
    @Override public Object removeFirst() { return s.removeFirst(); }
    @Override public Object removeLast() { return s.removeLast(); }
    @Override public Object peekFirst() { return s.peekFirst(); }
    @Override public Object peekLast() { return s.peekLast(); }
    @Override public int size() { return s.size(); }
    @Override public boolean isEmpty() { return s.isEmpty(); }
    @Override public void clear() { s.clear(); }
    @Override public void forEach(final Consumer<Object> c) { s.forEach(v -> c.accept(v)); }
    @Override public Object raw() { return s; }
}
