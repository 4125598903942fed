package vp.sut;

import java.util.Comparator;

public interface SortSut {
    Object keys(Object[] boxed);

    Object values(Object[] boxed);

    void sort(Object keys, Object values, int off, int len, Comparator<Object> cmp);

    /** With a built-in comparator: Asc, Desc, AbsAsc, AbsDesc. */
    void sort(Object keys, Object values, int off, int len, String cmp);
}
