package vp.sut;

import com.bytefacets.collections.heap.*;
import com.bytefacets.collections.types.*;
import java.util.Comparator;
import java.util.function.IntConsumer;

public final class ${key.name}${value.name}HeapAdapter implements HeapSut {
    private final ${key.name}${value.name}Heap${instanceGenerics} s;
    private ${key.name}Type.Cmp last;

    public ${key.name}${value.name}HeapAdapter(final int cap) {
        s = new ${key.name}${value.name}Heap${instanceGenerics}(cap);
    }
    @Override public int insert(final Object k) { return s.insert(U.un${key.name}(k)); }
    @Override public int insert(final Object k, final Object v) { return s.insert(U.un${key.name}(k), U.un${value.name}(v)); }
    @Override public int peek() { return s.peek(); }
    @Override public int size() { return s.getSize(); }
    @Override public boolean isEmpty() { return s.isEmpty(); }
    @Override public int capacity() { return s.getCapacity(); }
    @Override public void forEachEntry(final IntConsumer c) { s.forEachEntry(c); }
    @Override public boolean isValid(final int e) { return s.isValidEntry(e); }
    @Override public void removeAt(final int e) { s.removeAt(e); }
    @Override public void resetKey(final int e, final Object k) { s.resetKey(e, U.un${key.name}(k)); }
    @Override public Object keyAt(final int e) { return s.getKeyAt(e); }
    @Override public boolean contains(final Object k) { return s.containsKey(U.un${key.name}(k)); }
    @Override public int firstEntry(final Object k) { return s.getFirstEntry(U.un${key.name}(k)); }
    @Override public void clear() { s.clear(); }
    @Override public void setDefaultKey(final Object k) { s.setDefaultKey(U.un${key.name}(k)); }
    @Override public Object defaultKey() { return s.getDefaultKey(); }
    @Override public void setDefaultValue(final Object v) { s.setDefaultValue(U.un${value.name}(v)); }
    @Override public Object defaultValue() { return s.getDefaultValue(); }
    @Override public Object valueAt(final int e) { return s.getValueAt(e); }
    @Override public Object valueAtOrDefault(final int e, final Object d) { return s.getValueAtOrDefault(e, U.un${value.name}(d)); }
    @Override public void setValueAt(final int e, final Object v) { s.setValueAt(e, U.un${value.name}(v)); }
    @Override public void setComparator(final String name) {
        if (name == null) {
            s.setComparator(null);
            return;
        }
        switch (name) {
            case "Asc": s.setComparator(${key.name}Type.Asc); break;
            case "Desc": s.setComparator(${key.name}Type.Desc); break;
            <#if key.name == "String">
            case "AbsAsc": s.setComparator(StringType.AscInsensitive); break;
            case "AbsDesc": s.setComparator(StringType.DescInsensitive); break;
            <#elseif key.name != "Generic" && key.name != "Bool">
            case "AbsAsc": s.setComparator(${key.name}Type.AbsAsc); break;
            case "AbsDesc": s.setComparator(${key.name}Type.AbsDesc); break;
            </#if>
            default: throw new IllegalArgumentException(name);
        }
    }
    @Override public void setComparator(final Comparator<Object> c) {
        last = (a, b) -> c.compare(a, b);
        s.setComparator(last);
    }
    @Override public String comparator() {
        final ${key.name}Type.Cmp c = s.getComparator();
        if (c == last) { return "same"; }
        if (c == ${key.name}Type.Asc) { return "Asc"; }
        if (c == ${key.name}Type.Desc) { return "Desc"; }
        <#if key.name == "String">
        if (c == StringType.AscInsensitive) { return "AbsAsc"; }
        if (c == StringType.DescInsensitive) { return "AbsDesc"; }
        <#elseif key.name != "Generic" && key.name != "Bool">
        if (c == ${key.name}Type.AbsAsc) { return "AbsAsc"; }
        if (c == ${key.name}Type.AbsDesc) { return "AbsDesc"; }
        </#if>
        return "other";
    }
    @Override public Object raw() { return s; }
}
