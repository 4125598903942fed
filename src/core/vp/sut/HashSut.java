package vp.sut;

import com.bytefacets.collections.EntryIterator;
import java.util.function.Consumer;
import java.util.function.IntConsumer;

/** An indexed set or map under test, over boxed keys and values. */
public interface HashSut {
    boolean isMap();

    int add(Object k);

    int lookup(Object k);

    Object keyAt(int e);

    boolean contains(Object k);

    int remove(Object k);

    void removeAt(int e);

    int size();

    boolean isEmpty();

    void clear();

    int capacity();

    void forEachEntry(IntConsumer c);

    void forEach(Consumer<Object> c);

    EntryIterator iterator();

    EntryIterator iterator(EntryIterator it);

    void reserve(int e);

    void free(int e);

    void copyFrom(HashSut o);

    void setHash(Fn f);

    void setEq(Fn f);

    // maps only
    int put(Object k, Object v);

    Object get(Object k);

    Object getOrDefault(Object k, Object d);

    Object valueAt(int e);

    Object valueAtOrDefault(int e, Object d);

    void putValueAt(int e, Object v);

    void forEachValue(Consumer<Object> c);

    /** The collection itself, for reachability analysis. */
    Object raw();
}
