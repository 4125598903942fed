package vp.sut;

import com.bytefacets.collections.store.*;

public final class ${type.name}ChunkMatrixStoreAdapter implements StoreSut {
    private final ${type.name}ChunkMatrixStore${instanceGenerics} s;

    public ${type.name}ChunkMatrixStoreAdapter(final int size, final int chunk, final int fields) {
        s = new ${type.name}ChunkMatrixStore${instanceGenerics}(size, chunk, fields);
    }
    @Override public Object get(final int row, final int field) { return s.get${type.name}(row, field); }
    @Override public void set(final int row, final int field, final Object v) { s.set${type.name}(row, field, U.un${type.name}(v)); }
    @Override public int capacity() { return s.getCapacity(); }
    @Override public Object raw() { return s; }
}
