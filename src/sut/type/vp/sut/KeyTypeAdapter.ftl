<#assign n = type.name>
<#assign num = n != "Bool" && n != "Generic" && n != "String">
<#assign ordered = n != "Bool" && n != "Generic">
package vp.sut;

import com.bytefacets.collections.types.*;

public final class ${n}TypeAdapter implements TypeSut {
    private static ${type.arrayType} u(final Object o) { return U.un${n}(o); }
    @Override public Object def() { return ${n}Type.DEFAULT; }
    @Override public boolean eq(final Object a, final Object b) { return ${n}Type.EqImpl.areEqual(u(a), u(b)); }
    @Override public int hash(final Object v) { return ${n}Type.HashImpl.code(u(v)); }
    @Override public Integer cmp(final String name, final Object a, final Object b) {
        switch (name) {
            case "Asc": return ${n}Type.Asc.compare(u(a), u(b));
            case "Desc": return ${n}Type.Desc.compare(u(a), u(b));
            <#if n == "String">
            case "AbsAsc": return StringType.AscInsensitive.compare(u(a), u(b));
            case "AbsDesc": return StringType.DescInsensitive.compare(u(a), u(b));
            <#elseif num>
            case "AbsAsc": return ${n}Type.AbsAsc.compare(u(a), u(b));
            case "AbsDesc": return ${n}Type.AbsDesc.compare(u(a), u(b));
            </#if>
            default: return null;
        }
    }
    @Override public boolean hasCmpFor() { return ${(n != "Generic")?c}; }
    @Override public int cmpFor(final String m, final Object a, final Object b) {
        <#if n == "Generic">
        throw new UnsupportedOperationException();
        <#else>
        return ${n}Type.comparatorFor(CompareMethod.valueOf(m)).compare(u(a), u(b));
        </#if>
    }
    @Override public Boolean pred(final String name, final Object a, final Object b) {
        switch (name) {
            <#if n == "Generic">
            case "EQ": return GenericType.IS_EQ.test((String) a, (String) b);
            case "NEQ": return GenericType.IS_NEQ.test((String) a, (String) b);
            <#else>
            case "EQ": return ${n}Type.IS_EQ.test(u(a), u(b));
            case "NEQ": return ${n}Type.IS_NEQ.test(u(a), u(b));
            </#if>
            <#if ordered>
            case "LT": return ${n}Type.IS_LT.test(u(a), u(b));
            case "GT": return ${n}Type.IS_GT.test(u(a), u(b));
            case "LTE": return ${n}Type.IS_LTE.test(u(a), u(b));
            case "GTE": return ${n}Type.IS_GTE.test(u(a), u(b));
            </#if>
            default: return null;
        }
    }
    @Override public boolean predFor(final String m, final Object a, final Object b) {
        <#if n == "Generic">
        return GenericType.predicateFor(PredicateMethod.valueOf(m)).test((String) a, (String) b);
        <#else>
        return ${n}Type.predicateFor(PredicateMethod.valueOf(m)).test(u(a), u(b));
        </#if>
    }
    @Override public int castToInt(final Object v) { return ${n}Type.castToInt(u(v)); }
    @Override public Object castFromInt(final int v) { return <#if n == "Int">v<#else>${n}Type.castTo${n}(v)</#if>; }
    @Override public Object unbox(final Object o) { return ${n}Type.unbox(o); }
    @Override public Object box(final Object v) { return ${n}Type.box(u(v)); }
    @Override public Object parseString(final String s) { return ${n}Type.parseString(s); }
    @Override public Object convert(final Object o) { return ${n}Type.convert(o); }
    <#if n == "String" || n == "Generic">
    @Override public boolean coded() { return false; }
    @Override public int write(final boolean le, final byte[] a, final int pos, final Object v) { throw new UnsupportedOperationException(); }
    @Override public Object read(final boolean le, final byte[] a, final int pos) { throw new UnsupportedOperationException(); }
    <#else>
    @Override public boolean coded() { return true; }
    @Override public int write(final boolean le, final byte[] a, final int pos, final Object v) {
        return le ? ${n}Type.writeLE(a, pos, u(v)) : ${n}Type.writeBE(a, pos, u(v));
    }
    @Override public Object read(final boolean le, final byte[] a, final int pos) {
        return le ? ${n}Type.readLE(a, pos) : ${n}Type.readBE(a, pos);
    }
    </#if>
    <#if n == "Byte" || n == "Short" || n == "Int" || n == "Long">
    @Override public boolean hasBits() { return true; }
    @Override public Object enableBits(final Object f, final Object b) { return ${n}Type.enableBits(u(f), u(b)); }
    @Override public Object disableBits(final Object f, final Object b) { return ${n}Type.disableBits(u(f), u(b)); }
    <#else>
    @Override public boolean hasBits() { return false; }
    @Override public Object enableBits(final Object f, final Object b) { throw new UnsupportedOperationException(); }
    @Override public Object disableBits(final Object f, final Object b) { throw new UnsupportedOperationException(); }
    </#if>
}
