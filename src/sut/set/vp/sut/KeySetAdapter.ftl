package vp.sut;

import com.bytefacets.collections.hash.*;

public final class ${type.name}SetAdapter implements HashSut {
    private final ${type.name}IndexedSet${instanceGenerics} s;

    public ${type.name}SetAdapter(final int cap, final double lf) {
        s = lf == 0.75 ? new ${type.name}IndexedSet${instanceGenerics}(cap) : new ${type.name}IndexedSet${instanceGenerics}(cap, lf);
    }
    @Override public boolean isMap() { return false; }
    @Override public void copyFrom(final HashSut o) { s.copyFrom(((${type.name}SetAdapter) o).s); }
    @Override public int lookup(final Object k) { return s.lookupEntry(U.un${type.name}(k)); }
    @Override public Object keyAt(final int e) { return s.getKeyAt(e); }
    @Override public boolean contains(final Object k) { return s.containsKey(U.un${type.name}(k)); }
    @Override public int add(final Object k) { return s.add(U.un${type.name}(k)); }
    @Override public int remove(final Object k) { return s.remove(U.un${type.name}(k)); }
    @Override public void removeAt(final int e) { s.removeAt(e); }
    @Override public int size() { return s.size(); }
    @Override public boolean isEmpty() { return s.isEmpty(); }
    @Override public void clear() { s.clear(); }
    @Override public int capacity() { return s.capacity(); }
    @Override public void forEachEntry(final java.util.function.IntConsumer c) { s.forEachEntry(c::accept); }
    @Override public void forEach(final java.util.function.Consumer<Object> c) { s.forEach(k -> c.accept(k)); }
    @Override public com.bytefacets.collections.EntryIterator iterator() { return s.iterator(); }
    @Override public com.bytefacets.collections.EntryIterator iterator(final com.bytefacets.collections.EntryIterator it) { return s.iterator(it); }
    @Override public void reserve(final int e) { s.removeAtAndReserve(e); }
    @Override public void free(final int e) { s.freeReservedEntry(e); }
    @Override public Object raw() { return s; }
    <#if type.name == "Double" || type.name == "Float" || type.name == "String" || type.name == "Generic">
    @Override public void setHash(final Fn f) { s.setHashMethod(f == null ? null : k -> f.code(k)); }
    @Override public void setEq(final Fn f) { s.setEqMethod(f == null ? null : (a, b) -> f.eq(a, b)); }
    <#else>
    @Override public void setHash(final Fn f) { throw new UnsupportedOperationException(); }
    @Override public void setEq(final Fn f) { throw new UnsupportedOperationException(); }
    </#if>
    @Override public int put(final Object k, final Object v) { throw new UnsupportedOperationException(); }
    @Override public Object get(final Object k) { throw new UnsupportedOperationException(); }
    @Override public Object getOrDefault(final Object k, final Object d) { throw new UnsupportedOperationException(); }
    @Override public Object valueAt(final int e) { throw new UnsupportedOperationException(); }
    @Override public Object valueAtOrDefault(final int e, final Object d) { throw new UnsupportedOperationException(); }
    @Override public void putValueAt(final int e, final Object v) { throw new UnsupportedOperationException(); }
    @Override public void forEachValue(final java.util.function.Consumer<Object> c) { throw new UnsupportedOperationException(); }
}
