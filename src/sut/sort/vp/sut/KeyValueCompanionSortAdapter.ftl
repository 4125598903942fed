package vp.sut;

import com.bytefacets.collections.sort.*;
import com.bytefacets.collections.types.*;
import java.util.Comparator;

public final class ${key.name}${value.name}CompanionSortAdapter implements SortSut {
    @Override public Object keys(final Object[] b) {
        final ${key.arrayType}[] r = new ${key.arrayType}[b.length];
        for (int i = 0; i < b.length; i++) { r[i] = U.un${key.name}(b[i]); }
        return r;
    }
    @Override public Object values(final Object[] b) {
        final ${value.arrayType}[] r = new ${value.arrayType}[b.length];
        for (int i = 0; i < b.length; i++) { r[i] = U.un${value.name}(b[i]); }
        return r;
    }
    @Override public void sort(final Object k, final Object v, final int off, final int len, final Comparator<Object> cmp) {
        ${key.name}${value.name}CompanionSort.sort((${key.arrayType}[]) k, (${value.arrayType}[]) v, off, len, (a, b) -> cmp.compare(a, b));
    }
    @Override public void sort(final Object k, final Object v, final int off, final int len, final String name) {
        final ${key.name}Type.Cmp cmp;
        switch (name) {
            case "Asc": cmp = ${key.name}Type.Asc; break;
            case "Desc": cmp = ${key.name}Type.Desc; break;
            <#if key.name == "String">
            case "AbsAsc": cmp = StringType.AscInsensitive; break;
            case "AbsDesc": cmp = StringType.DescInsensitive; break;
            <#elseif key.name != "Generic" && key.name != "Bool">
            case "AbsAsc": cmp = ${key.name}Type.AbsAsc; break;
            case "AbsDesc": cmp = ${key.name}Type.AbsDesc; break;
            </#if>
            default: throw new IllegalArgumentException(name);
        }
        ${key.name}${value.name}CompanionSort.sort((${key.arrayType}[]) k, (${value.arrayType}[]) v, off, len, cmp);
    }
}
