package vp.sut;

public interface HydraSut {
    int addFirst(int list, Object v);

    int addLast(int list, Object v);

    Object removeFirst(int list);

    Object removeLast(int list);

    int size();

    int size(int list);

    boolean isEmpty();

    void clear();

    /** reuse: a previous iterator of the same direction of this collection, or null; absent: one-argument form. */
    ItSut iterator(int list, ItSut reuse, boolean shortForm);

    ItSut reverseIterator(int list, ItSut reuse, boolean shortForm);

    Object raw();
}
