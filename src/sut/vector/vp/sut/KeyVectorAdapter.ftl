package vp.sut;

import com.bytefacets.collections.vector.*;
import java.util.function.Consumer;

public final class ${type.name}VectorAdapter implements VectorSut {
    private final ${type.name}Vector${instanceGenerics} s;

    public ${type.name}VectorAdapter(final int cap) {
        s = new ${type.name}Vector${instanceGenerics}(cap);
    }
    @Override public void ensureSize(final int n) { s.ensureSize(n); }
    @Override public void append(final Object v) { s.append(U.un${type.name}(v)); }
    @Override public Object valueAt(final int i) { return s.valueAt(i); }
    @Override public int size() { return s.size(); }
    @Override public boolean isEmpty() { return s.isEmpty(); }
    @Override public void clear() { s.clear(); }
    @Override public void forEach(final Consumer<Object> c) { s.forEach(v -> c.accept(v)); }
    @Override public Object raw() { return s; }
}
