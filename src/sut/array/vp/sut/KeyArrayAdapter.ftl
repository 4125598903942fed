package vp.sut;

import com.bytefacets.collections.arrays.*;

public final class ${type.name}ArrayAdapter implements ArraySut {
    private static ${type.arrayType}[] a(final Object o) { return (${type.arrayType}[]) o; }
    @Override public Object create(final int n) { <#if type.generic>final Object[] r = GenericArray.<Object>create(n); return r;<#else>return ${type.name}Array.create(n);</#if> }
    @Override public Object create(final int n, final Object def) { return ${type.name}Array.create(n, U.un${type.name}(def)); }
    @Override public Object resize(final Object x, final int n) { return ${type.name}Array.resize(a(x), n); }
    @Override public void fill(final Object x, final Object v, final int from, final int len) { ${type.name}Array.fill(a(x), U.un${type.name}(v), from, len); }
    @Override public void fill(final Object x, final Object v) { ${type.name}Array.fill(a(x), U.un${type.name}(v)); }
    @Override public Object copyOf(final Object x, final int n, final Object def) { return ${type.name}Array.copyOf(a(x), n, U.un${type.name}(def)); }
    @Override public Object copyOf(final Object x, final int n) { return ${type.name}Array.copyOf(a(x), n); }
    @Override public Object ensureSize(final Object x, final int n) { return ${type.name}Array.ensureSize(a(x), n); }
    @Override public Object ensureSize(final Object x, final int n, final Object def) { return ${type.name}Array.ensureSize(a(x), n, U.un${type.name}(def)); }
    @Override public Object ensureEntry(final Object x, final int e) { return ${type.name}Array.ensureEntry(a(x), e); }
    @Override public Object ensureEntry(final Object x, final int e, final Object def) { return ${type.name}Array.ensureEntry(a(x), e, U.un${type.name}(def)); }
    <#if type.generic>
    @SuppressWarnings("unchecked")
    @Override public Object createTyped(final Class<?> t, final int n) { return GenericArray.create((Class<Object>) t, n); }
    <#else>
    @Override public Object createTyped(final Class<?> t, final int n) { throw new UnsupportedOperationException(); }
    </#if>
}
