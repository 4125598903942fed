package vp.sut;

import com.bytefacets.collections.functional.*;
import com.bytefacets.collections.queue.*;
import java.util.function.Consumer;

public final class ${type.name}HydraDequeAdapter implements HydraSut {
    private final ${type.name}HydraDeque${instanceGenerics} s;

    public ${type.name}HydraDequeAdapter(final int queues, final int cap) {
        s = new ${type.name}HydraDeque${instanceGenerics}(queues, cap);
    }
    @Override public int addFirst(final int list, final Object v) { return s.addFirst(list, U.un${type.name}(v)); }
    @Override public int addLast(final int list, final Object v) { return s.addLast(list, U.un${type.name}(v)); }
    @Override public Object removeFirst(final int list) { return s.removeFirst(list); }
    @Override public Object removeLast(final int list) { return s.removeLast(list); }
    @Override public int size() { return s.size(); }
    @Override public int size(final int list) { return s.size(list); }
    @Override public boolean isEmpty() { return s.isEmpty(); }
    @Override public void clear() { s.clear(); }
    @Override public ItSut iterator(final int list, final ItSut reuse, final boolean shortForm) {
        return new It(shortForm ? s.iterator(list) : s.iterator(list, reuse == null ? null : ((It) reuse).it));
    }
    @Override public ItSut reverseIterator(final int list, final ItSut reuse, final boolean shortForm) {
        return new It(shortForm ? s.reverseIterator(list) : s.reverseIterator(list, reuse == null ? null : ((It) reuse).it));
    }
    @Override public Object raw() { return s; }

    private static final class It implements ItSut {
        final ${type.name}Iterator${instanceGenerics} it;
        It(final ${type.name}Iterator${instanceGenerics} it) { this.it = it; }
        @Override public boolean hasNext() { return it.hasNext(); }
        @Override public Object next() { return it.next(); }
        @Override public void forEach(final Consumer<Object> c) { it.forEach(v -> c.accept(v)); }
        @Override public Object raw() { return it; }
    }
}
