package vp.sut;

import com.bytefacets.collections.hash.*;

public final class ${key.name}${value.name}MapAdapter implements HashSut {
    private final ${key.name}${value.name}IndexedMap${instanceGenerics} s;

    public ${key.name}${value.name}MapAdapter(final int cap, final double lf) {
        s = lf == 0.75 ? new ${key.name}${value.name}IndexedMap${instanceGenerics}(cap) : new ${key.name}${value.name}IndexedMap${instanceGenerics}(cap, lf);
    }
    @Override public boolean isMap() { return true; }
    @Override public void copyFrom(final HashSut o) { s.copyFrom(((${key.name}${value.name}MapAdapter) o).s); }
    @Override public int lookup(final Object k) { return s.lookupEntry(U.un${key.name}(k)); }
    @Override public Object keyAt(final int e) { return s.getKeyAt(e); }
    @Override public boolean contains(final Object k) { return s.containsKey(U.un${key.name}(k)); }
    @Override public int add(final Object k) { return s.add(U.un${key.name}(k)); }
    @Override public int remove(final Object k) { return s.remove(U.un${key.name}(k)); }
    @Override public void removeAt(final int e) { s.removeAt(e); }
    @Override public int size() { return s.size(); }
    @Override public boolean isEmpty() { return s.isEmpty(); }
    @Override public void clear() { s.clear(); }
    @Override public int capacity() { return s.capacity(); }
    @Override public void forEachEntry(final java.util.function.IntConsumer c) { s.forEachEntry(c::accept); }
    @Override public void forEach(final java.util.function.Consumer<Object> c) { s.forEach(k -> c.accept(k)); }
    @Override public com.bytefacets.collections.EntryIterator iterator() { return s.iterator(); }
    @Override public com.bytefacets.collections.EntryIterator iterator(final com.bytefacets.collections.EntryIterator it) { return s.iterator(it); }
    @Override public void reserve(final int e) { s.removeAtAndReserve(e); }
    @Override public void free(final int e) { s.freeReservedEntry(e); }
    @Override public Object raw() { return s; }
    <#if key.name == "Double" || key.name == "Float" || key.name == "String" || key.name == "Generic">
    @Override public void setHash(final Fn f) { s.setHashMethod(f == null ? null : k -> f.code(k)); }
    @Override public void setEq(final Fn f) { s.setEqMethod(f == null ? null : (a, b) -> f.eq(a, b)); }
    <#else>
    @Override public void setHash(final Fn f) { throw new UnsupportedOperationException(); }
    @Override public void setEq(final Fn f) { throw new UnsupportedOperationException(); }
    </#if>
    @Override public int put(final Object k, final Object v) { return s.put(U.un${key.name}(k), U.un${value.name}(v)); }
    @Override public Object get(final Object k) { return s.get(U.un${key.name}(k)); }
    @Override public Object getOrDefault(final Object k, final Object d) { return s.getOrDefault(U.un${key.name}(k), U.un${value.name}(d)); }
    @Override public Object valueAt(final int e) { return s.getValueAt(e); }
    @Override public Object valueAtOrDefault(final int e, final Object d) { return s.getValueAtOrDefault(e, U.un${value.name}(d)); }
    @Override public void putValueAt(final int e, final Object v) { s.putValueAt(e, U.un${value.name}(v)); }
    @Override public void forEachValue(final java.util.function.Consumer<Object> c) { s.forEachValue(v -> c.accept(v)); }
}
