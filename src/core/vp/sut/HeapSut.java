package vp.sut;

import java.util.Comparator;
import java.util.function.IntConsumer;

public interface HeapSut {
    int insert(Object k);

    int insert(Object k, Object v);

    int peek();

    int size();

    boolean isEmpty();

    int capacity();

    void forEachEntry(IntConsumer c);

    boolean isValid(int e);

    void removeAt(int e);

    void resetKey(int e, Object k);

    Object keyAt(int e);

    boolean contains(Object k);

    int firstEntry(Object k);

    void clear();

    void setDefaultKey(Object k);

    Object defaultKey();

    void setDefaultValue(Object v);

    Object defaultValue();

    Object valueAt(int e);

    Object valueAtOrDefault(int e, Object d);

    void setValueAt(int e, Object v);

    /** Sets a comparator: null for null, "Asc", "Desc", "AbsAsc", "AbsDesc" for built-in ones. */
    void setComparator(String name);

    /** Sets a comparator that delegates to c. */
    void setComparator(Comparator<Object> c);

    /** The name of the built-in comparator in force, "same" when it is the last one set by delegation. */
    String comparator();

    Object raw();
}
