package vp.sut;

import java.util.ArrayList;
import java.util.Comparator;
import java.util.List;

/** The element types the templates are instantiated for. */
public enum T {
    Bool, Byte, Short, Char, Int, Long, Float, Double, String, Generic;

    public static T of(final String name) {
        return valueOf(name);
    }

    public Object def() {
        switch (this) {
            case Bool: return false;
            case Byte: return (byte) 0;
            case Short: return (short) 0;
            case Char: return (char) 0;
            case Int: return 0;
            case Long: return 0L;
            case Float: return 0f;
            case Double: return 0d;
            default: return null;
        }
    }

    public boolean isRef() {
        return this == String || this == Generic;
    }

    public boolean isFloating() {
        return this == Float || this == Double;
    }

    /** Width in bits of integral types, 0 for others. */
    public int bits() {
        switch (this) {
            case Byte: return 8;
            case Short:
            case Char: return 16;
            case Int: return 32;
            case Long: return 64;
            default: return 0;
        }
    }

    /** The integral value with these low bits. */
    public Object integral(final long v) {
        switch (this) {
            case Bool: return (v & 1) != 0;
            case Byte: return (byte) v;
            case Short: return (short) v;
            case Char: return (char) v;
            case Int: return (int) v;
            case Long: return v;
            default: throw new IllegalArgumentException();
        }
    }

    /** Reference natural order: nulls last, true first. */
    public Comparator<Object> natural() {
        switch (this) {
            case Bool: return (a, b) -> java.lang.Boolean.compare((Boolean) b, (Boolean) a);
            case Byte: return (a, b) -> java.lang.Byte.compare((Byte) a, (Byte) b);
            case Short: return (a, b) -> java.lang.Short.compare((Short) a, (Short) b);
            case Char: return (a, b) -> java.lang.Character.compare((Character) a, (Character) b);
            case Int: return (a, b) -> java.lang.Integer.compare((Integer) a, (Integer) b);
            case Long: return (a, b) -> java.lang.Long.compare((Long) a, (Long) b);
            case Float: return (a, b) -> java.lang.Float.compare((Float) a, (Float) b);
            case Double: return (a, b) -> java.lang.Double.compare((Double) a, (Double) b);
            default: return T::nullsLast;
        }
    }

    @SuppressWarnings({"unchecked", "rawtypes"})
    private static int nullsLast(final Object a, final Object b) {
        if (a == b) {
            return 0;
        }
        if (a == null) {
            return 1;
        }
        if (b == null) {
            return -1;
        }
        return ((Comparable) a).compareTo(b);
    }

    private static int ignoreCase(final Object a, final Object b) {
        if (a == b) {
            return 0;
        }
        if (a == null) {
            return 1;
        }
        if (b == null) {
            return -1;
        }
        return java.lang.String.CASE_INSENSITIVE_ORDER.compare((String) a, (String) b);
    }

    /** Reference order by magnitude (case-insensitive for strings); null when the type has none. */
    public Comparator<Object> absolute() {
        switch (this) {
            case Byte: return (a, b) -> Integer.compare(Math.abs((int) (Byte) a), Math.abs((int) (Byte) b));
            case Short: return (a, b) -> Integer.compare(Math.abs((int) (Short) a), Math.abs((int) (Short) b));
            case Char: return natural();
            case Int: return (a, b) -> java.lang.Long.compare(Math.abs((long) (Integer) a),
                    Math.abs((long) (Integer) b));
            case Long: return (a, b) -> java.math.BigInteger.valueOf((Long) a).abs()
                    .compareTo(java.math.BigInteger.valueOf((Long) b).abs());
            case Float: return (a, b) -> java.lang.Float.compare(Math.abs((Float) a), Math.abs((Float) b));
            case Double: return (a, b) -> java.lang.Double.compare(Math.abs((Double) a), Math.abs((Double) b));
            case String: return T::ignoreCase;
            default: return null;
        }
    }

    public static String[] names(final boolean bool) {
        final List<String> l = new ArrayList<>();
        for (T t : values()) {
            if (bool || t != Bool) {
                l.add(t.name());
            }
        }
        return l.toArray(new String[0]);
    }

    /** All pairs "Key/Value". */
    public static String[] pairs() {
        final List<String> l = new ArrayList<>();
        for (T k : values()) {
            for (T v : values()) {
                if (k != Bool) {
                    l.add(k.name() + "/" + v.name());
                }
            }
        }
        return l.toArray(new String[0]);
    }
}
