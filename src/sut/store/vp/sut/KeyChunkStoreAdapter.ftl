package vp.sut;

import com.bytefacets.collections.store.*;

public final class ${type.name}ChunkStoreAdapter implements StoreSut {
    private final ${type.name}ChunkStore${instanceGenerics} s;

    public ${type.name}ChunkStoreAdapter(final int size, final int chunk) {
        s = new ${type.name}ChunkStore${instanceGenerics}(size, chunk);
    }
    @Override public Object get(final int row, final int field) { return s.get${type.name}(row); }
    @Override public void set(final int row, final int field, final Object v) { s.set${type.name}(row, U.un${type.name}(v)); }
    @Override public int capacity() { return s.getCapacity(); }
    @Override public Object raw() { return s; }
}
