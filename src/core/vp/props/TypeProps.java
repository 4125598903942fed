package vp.props;

import com.bytefacets.collections.types.CompareMethod;
import com.bytefacets.collections.types.DoubleType;
import com.bytefacets.collections.types.IntType;
import com.bytefacets.collections.types.Pack;
import com.bytefacets.collections.types.PredicateMethod;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.ByteBuffer;
import java.nio.ByteOrder;
import java.time.DateTimeException;
import java.time.LocalDate;
import java.time.LocalTime;
import java.util.Arrays;
import java.util.Comparator;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.HashSut;
import vp.sut.T;
import vp.sut.TypeSut;
import vp.sut.U;

/** The XxxType helpers and Pack: C29-C35. */
final class TypeProps {
    static final String[] ALL = T.names(true);
    static final String[] CODED = Arrays.stream(ALL).filter(n -> !T.of(n).isRef()).toArray(String[]::new);
    static final String[] BITS = {"Byte", "Short", "Int", "Long"};
    private static final java.util.concurrent.ConcurrentHashMap<String, TypeSut> SUTS = new java.util.concurrent.ConcurrentHashMap<>();

    static TypeSut sut(final String subject) {
        return SUTS.computeIfAbsent(subject, s -> U.make(s + "TypeAdapter"));
    }

    /** The functions are pure: called again with the same arguments, right away or after other calls, they answer the same. */
    private static Part.Body again(final Part.Body body) {
        return (c, s) -> c.repeated(() -> body.run(c, s));
    }

    /** A history of calls to the functions, for C42. */
    static void calls(final Ctx c, final String subject) throws Exception {
        while (c.more(30)) {
            switch (c.pick(8)) {
                case 0: compare(c, subject); break;
                case 1: predicate(c, subject); break;
                case 2: code(c, CODED[Math.floorMod(subject.hashCode(), CODED.length)]); break;
                case 3: convert(c, subject); break;
                case 4: dateNumbers(c, subject); break;
                case 5: pack(c, subject); break;
                case 6: bits(c, c.oneOf(BITS)); break;
                default: equal(c, subject);
            }
        }
    }

    static Prop get(final String id) {
        switch (id) {
            case "C29":
                return new Prop(id, 1, "a case is a pair of values compared by every comparator of the type, against a reference total preorder; "
                        + "non-trivial when the values differ. The byte part enumerates all pairs.",
                        new String[] {"strings with unpaired surrogates are left out for the case-insensitive comparators, which the JDK does not order totally"},
                        Part.of("pairs", ALL, 15000000, 200000000, again(TypeProps::compare)),
                        Part.of("strings in default locales", LOCALES, 1500, 30000, locale(TypeProps::compare)), Part.all("all byte pairs", 256, TypeProps::comparePairs));
            case "C30":
                return new Prop(id, 1, "a case is a pair of values tested by every predicate of the type; non-trivial when the pair is equal, or different "
                        + "by little, or involves NaN, zero or null", new String[0],
                        Part.of("pairs", ALL, 15000000, 200000000, again(TypeProps::predicate)),
                        Part.of("strings in default locales", LOCALES, 1500, 30000, locale(TypeProps::predicate)), Part.all("all byte pairs", 256, TypeProps::predicatePairs));
            case "C31":
                return new Prop(id, 1, "a case is one value and one byte array, written and read in both orders; non-trivial when the value is negative or has "
                        + "more than one byte set. 8- and 16-bit values are enumerated.", new String[] {"bytes other than 0 and 1 are not read as booleans"},
                        Part.of("random", CODED, 12000000, 150000000, again(TypeProps::code)), Part.all("all 8- and 16-bit values", 257, TypeProps::codeAll));
            case "C32":
                return new Prop(id, 1, "a case is one conversion of a value of a generated class to one type; non-trivial when the class is not the type's own",
                        new String[0], Part.of("conversions", ALL, 4000000, 80000000, again(TypeProps::convert)),
                        Part.of("strings in default locales", LOCALES, 1500, 30000, locale(TypeProps::convert)));
            case "C33":
                return new Prop(id, 1, "each input is one date or time (all dates of years 0-9999, all times of day) or one packed number; all count as non-trivial",
                        new String[] {"java.util.Date is compared from 1583 on, where it uses the same calendar"},
                        Part.all("all dates by year", 10000, TypeProps::dates), Part.all("all times by hour", 24, TypeProps::times),
                        Part.all("all numbers 0-999999 as times", 100, TypeProps::timeNumbers),
                        Part.of("default time zones", ZONES, 600, 12000, TypeProps::zones),
                        Part.of("numbers", new String[] {"all"}, 2000000, 40000000, again(TypeProps::dateNumbers)));
            case "C34":
                return new Prop(id, 1, "a case is one argument combination, checked against arithmetic on the bits; all byte pairs are enumerated; "
                        + "non-trivial when an argument is negative", new String[0],
                        Part.of("pack", new String[] {"all"}, 3000000, 60000000, again(TypeProps::pack)),
                        Part.of("bits", BITS, 1500000, 30000000, again(TypeProps::bits)),
                        Part.all("all byte pairs; shorts", 256, TypeProps::packAll));
            case "C35":
                return new Prop(id, 1, "a case is a pair or triple of values, related by equality, hash and membership in a set; non-trivial when equal "
                        + "but not identical, or different by little", new String[] {"NaN keys are left out"},
                        Part.of("pairs", ALL, 2000000, 40000000, again(TypeProps::equal)), Part.of("epsilon", new String[] {"Double"}, 1000000, 20000000, again(TypeProps::epsilon)));
            default:
                return null;
        }
    }

    // ------------------------------------------------------------------ values
    private static long edge(final Ctx c, final int bits) {
        final long v;
        switch (c.weighted(4, 3, 3, 4)) {
            case 0: v = c.range(-4, 4); break;
            case 1: v = (1L << c.pick(bits)) + c.range(-2, 2); break;
            case 2: v = -(1L << c.pick(bits)) + c.range(-2, 2); break;
            default: v = c.bits64() >> c.pick(bits);
        }
        return v;
    }

    /** Any value of the type, biased to boundaries; nan: may be NaN. */
    static Object value(final Ctx c, final T t, final boolean nan) {
        switch (t) {
            case Bool: return c.bool();
            case Byte:
            case Short:
            case Char:
            case Int:
            case Long: return t.integral(edge(c, t.bits()));
            case Float: {
                final float f;
                switch (c.weighted(4, 4, 4, 2)) {
                    case 0: f = Dom.specialFloat(c.pick(17)); break;
                    case 1: f = Float.intBitsToFloat((int) c.bits64()); break;
                    case 2: f = edge(c, 32) / (float) c.oneOf(1, 2, 10, 1000); break;
                    default: f = nan ? c.bool() ? Float.NaN : Float.intBitsToFloat(0xffc12345) : 0f;
                }
                return Float.isNaN(f) && !nan ? (Object) 1.5f : (Object) f;
            }
            case Double: {
                final double f;
                switch (c.weighted(4, 4, 4, 2)) {
                    case 0: f = Dom.specialDouble(c.pick(17)); break;
                    case 1: f = Double.longBitsToDouble(c.bits64()); break;
                    case 2: f = edge(c, 64) / (double) c.oneOf(1, 2, 10, 1000); break;
                    default: f = nan ? c.bool() ? Double.NaN : Double.longBitsToDouble(0xfff8123456789abcL) : 0d;
                }
                return Double.isNaN(f) && !nan ? (Object) 1.5d : (Object) f;
            }
            case String: return string(c);
            default: return string(c);
        }
    }

    private static String string(final Ctx c) {
        switch (c.weighted(1, 3, 3, 3)) {
            case 0: return null;
            case 1: return new String(Dom.unicode(c.pick(200)));
            case 2: return "k" + c.range(0, 30);
            default: {
                final StringBuilder b = new StringBuilder();
                for (int n = c.pick(5); n > 0; n--) {
                    b.append(c.oneOf("a", "A", "b", "B", "0", "\u00e9", "\u00c9", "z", "Z", "_", "\u0131", "\u0130", "i", "I"));
                }
                return b.toString();
            }
        }
    }

    /** Another value: the same, close to it, or anything. */
    static Object near(final Ctx c, final T t, final Object a, final boolean nan) {
        final int w = c.weighted(2, 3, 5);
        if (w == 0) {
            return copy(a);
        }
        if (w == 1 && a != null) {
            final int d = c.oneOf(1, -1);
            switch (t) {
                case Byte: return (byte) ((Byte) a + d);
                case Short: return (short) ((Short) a + d);
                case Char: return (char) ((Character) a + d);
                case Int: return c.bool() ? (Object) ((Integer) a + d) : (Object) (-(Integer) a);
                case Long: return c.bool() ? (Object) ((Long) a + d) : (Object) (-(Long) a);
                case Float: return c.bool() ? (Object) (-(Float) a) : (Object) (d > 0 ? Math.nextUp((Float) a) : Math.nextDown((Float) a));
                case Double: return c.bool() ? (Object) (-(Double) a) : (Object) (d > 0 ? Math.nextUp((Double) a) : Math.nextDown((Double) a));
                case String:
                case Generic: {
                    final String s = (String) a;
                    return c.bool() ? s.toUpperCase(java.util.Locale.ROOT) : s + "a";
                }
                default: return !(Boolean) a;
            }
        }
        return value(c, t, nan);
    }

    /** A value equal to a, not the same object. */
    static Object copy(final Object a) {
        return a instanceof String ? new String((String) a) : a;
    }

    /** Generic values of one comparable class. */
    private static Object comparable(final Object s, final int kind) {
        if (s == null || kind == 0) {
            return s;
        }
        return kind == 1 ? (Object) Integer.valueOf(s.hashCode()) : (Object) new Dom.CKey(s.hashCode(), 0);
    }

    // ------------------------------------------------------------------ C29
    private static final CompareMethod[] METHODS = {CompareMethod.Ascending, CompareMethod.Descending, CompareMethod.AscendingAbsolute, CompareMethod.DescendingAbsolute};
    private static final String[] NAMES = {"Asc", "Desc", "AbsAsc", "AbsDesc"};

    static void compare(final Ctx c, final String subject) {
        final T t = T.of(subject);
        Object a = value(c, t, true);
        Object b = near(c, t, a, true);
        if (t == T.Generic) {
            final int kind = c.pick(3);
            a = comparable(a, kind);
            b = comparable(b, kind);
        }
        c.op("compare", a, b);
        compare(c, t, sut(subject), a, b);
        if (!Ctx.same(a, b)) {
            c.nontrivial();
        }
    }

    private static void compare(final Ctx c, final T t, final TypeSut s, final Object a, final Object b) {
        for (int i = 0; i < 4; i++) {
            final Comparator<Object> base = i < 2 ? t.natural() : t.absolute();
            if (base == null) {
                if (s.hasCmpFor()) {
                    final String m = METHODS[i].name();
                    c.throwsX(1, RuntimeException.class, "comparatorFor(" + m + ")", () -> s.cmpFor(m, a, b));
                }
                continue;
            }
            final int want = Integer.signum((i & 1) == 0 ? base.compare(a, b) : base.compare(b, a));
            final int got = Integer.signum(s.cmp(NAMES[i], a, b));
            if (got != want) {
                c.fail(1, NAMES[i] + ".compare(%s, %s) has sign %s, expected %s", a, b, got, want);
            }
            if (s.hasCmpFor()) {
                final int by = Integer.signum(s.cmpFor(METHODS[i].name(), a, b));
                if (by != want) {
                    c.fail(1, "comparatorFor(" + METHODS[i] + ").compare(%s, %s) has sign %s, expected %s", a, b, by, want);
                }
            }
        }
    }

    static void comparePairs(final Ctx c, final String subject) {
        final Object a = (byte) c.index;
        final TypeSut s = sut("Byte");
        for (int b = -128; b < 128; b++) {
            compare(c, T.Byte, s, a, (byte) b);
        }
        c.inputs(256);
        c.nontrivial();
        c.op("compare with all bytes", a);
    }

    // ------------------------------------------------------------------ C30
    private static boolean relation(final T t, final PredicateMethod m, final Object a, final Object b) {
        switch (t) {
            case Float: {
                final float x = (Float) a;
                final float y = (Float) b;
                return m == PredicateMethod.EQ ? x == y : m == PredicateMethod.NEQ ? x != y : m == PredicateMethod.LT ? x < y : m == PredicateMethod.LTE ? x <= y
                        : m == PredicateMethod.GT ? x > y : x >= y;
            }
            case Double: {
                final double x = (Double) a;
                final double y = (Double) b;
                return m == PredicateMethod.EQ ? x == y : m == PredicateMethod.NEQ ? x != y : m == PredicateMethod.LT ? x < y : m == PredicateMethod.LTE ? x <= y
                        : m == PredicateMethod.GT ? x > y : x >= y;
            }
            default: {
                if (m == PredicateMethod.EQ || m == PredicateMethod.NEQ) {
                    return Ctx.same(a, b) == (m == PredicateMethod.EQ);
                }
                final int x = t.natural().compare(a, b);
                return m == PredicateMethod.LT ? x < 0 : m == PredicateMethod.LTE ? x <= 0 : m == PredicateMethod.GT ? x > 0 : x >= 0;
            }
        }
    }

    static void predicate(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final Object a = value(c, t, true);
        final Object b = near(c, t, a, true);
        c.op("test", a, b);
        predicate(c, t, sut(subject), a, b);
        if (Ctx.same(a, b) || a == null || b == null || a instanceof Number && Math.abs(((Number) a).doubleValue() - ((Number) b).doubleValue()) <= 1
                || a instanceof Float && ((Float) a).isNaN() || a instanceof Double && ((Double) a).isNaN()) {
            c.nontrivial();
        }
    }

    private static final PredicateMethod[] PREDS = PredicateMethod.values();

    private static void predicate(final Ctx c, final T t, final TypeSut s, final Object a, final Object b) {
        for (PredicateMethod m : PREDS) {
            final boolean supported = !(t == T.Bool || t == T.Generic) || m == PredicateMethod.EQ || m == PredicateMethod.NEQ;
            final String n = m.name();
            if (!supported) {
                c.throwsX(1, RuntimeException.class, "predicateFor(" + n + ")", () -> s.predFor(n, a, b));
                continue;
            }
            final boolean want = relation(t, m, a, b);
            if (s.pred(n, a, b) != want) {
                c.fail(1, "IS_" + n + ".test(%s, %s) is %s", a, b, !want);
            }
            if (s.predFor(n, a, b) != want) {
                c.fail(1, "predicateFor(" + n + ").test(%s, %s) is %s", a, b, !want);
            }
        }
    }

    static void predicatePairs(final Ctx c, final String subject) {
        final Object a = (byte) c.index;
        final TypeSut s = sut("Byte");
        for (int b = -128; b < 128; b++) {
            predicate(c, T.Byte, s, a, (byte) b);
        }
        c.inputs(256);
        c.nontrivial();
        c.op("test with all bytes", a);
    }

    // ------------------------------------------------------------------ C31
    private static int width(final T t) {
        return t == T.Bool ? 1 : t == T.Float ? 4 : t == T.Double ? 8 : t.bits() / 8;
    }

    /** Raw bits, right-aligned. */
    private static long bits(final T t, final Object v) {
        switch (t) {
            case Bool: return (Boolean) v ? 1 : 0;
            case Char: return (Character) v;
            case Float: return Float.floatToRawIntBits((Float) v) & 0xffffffffL;
            case Double: return Double.doubleToRawLongBits((Double) v);
            case Long: return (Long) v;
            default: return ((Number) v).longValue() & ((1L << t.bits()) - 1);
        }
    }

    private static Object ofBits(final T t, final long b) {
        return t == T.Float ? (Object) Float.intBitsToFloat((int) b) : t == T.Double ? (Object) Double.longBitsToDouble(b) : t.integral(b);
    }

    private static void put(final byte[] a, final int pos, final int w, final boolean le, final long bits) {
        for (int i = 0; i < w; i++) {
            a[pos + i] = (byte) (bits >>> 8 * (le ? i : w - 1 - i));
        }
    }

    static void code(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final Object v = value(c, t, true);
        final byte[] a = new byte[c.range(width(t), 20)];
        final int pos = c.range(0, a.length - width(t));
        final long r = c.bits64();
        put(a, 0, Math.min(8, a.length), true, r);
        for (int i = 8; i < a.length; i++) {
            a[i] = (byte) (r >>> (i & 31));
        }
        code(c, t, sut(subject), v, a, pos);
        // any bytes
        if (t != T.Bool) {
            final TypeSut s = sut(subject);
            final int w = width(t);
            final ByteBuffer bb = ByteBuffer.wrap(a);
            for (int le = 0; le < 2; le++) {
                bb.order(le == 1 ? ByteOrder.LITTLE_ENDIAN : ByteOrder.BIG_ENDIAN);
                final long want = w == 1 ? bb.get(pos) & 0xff : w == 2 ? bb.getShort(pos) & 0xffff : w == 4 ? bb.getInt(pos) & 0xffffffffL : bb.getLong(pos);
                final long got = bits(t, s.read(le == 1, a, pos));
                if (got != want) {
                    c.fail(1, "read" + (le == 1 ? "LE" : "BE") + " at %s of %s gives bits %s, expected %s", pos, Arrays.toString(a), Long.toHexString(got), Long.toHexString(want));
                }
            }
        }
        final long b = bits(t, v);
        if (b >>> 7 != 0) {
            c.nontrivial();
        }
    }

    private static void code(final Ctx c, final T t, final TypeSut s, final Object v, final byte[] bytes, final int pos) {
        final int w = width(t);
        for (int o = 0; o < 2; o++) {
            final boolean le = o == 0;
            final String n = le ? "LE" : "BE";
            final byte[] a = bytes.clone();
            final byte[] want = bytes.clone();
            put(want, pos, w, le, bits(t, v));
            c.op("write" + n, v, pos);
            final int end = s.write(le, a, pos, v);
            if (end != pos + w) {
                c.fail(1, "write" + n + "(%s) at %s returns %s, expected %s", v, pos, end, pos + w);
            }
            if (!Arrays.equals(a, want)) {
                c.fail(1, "write" + n + "(%s) at %s makes %s, expected %s", v, pos, Arrays.toString(a), Arrays.toString(want));
            }
            final Object back = s.read(le, a, pos);
            if (bits(t, back) != bits(t, v)) {
                c.fail(1, "read" + n + " gives %s, written was %s", back, v);
            }
        }
    }

    static void codeAll(final Ctx c, final String subject) {
        final byte[] a = {1, -1, 7, 0x55, -86, 3};
        if (c.index == 256) {
            for (int i = 0; i < 256; i++) {
                code(c, T.Byte, sut("Byte"), (byte) i, a, i % 6);
            }
            code(c, T.Bool, sut("Bool"), true, a, 2);
            code(c, T.Bool, sut("Bool"), false, a, 3);
            c.inputs(258);
        } else {
            for (int i = 0; i < 256; i++) {
                final int v = (int) c.index << 8 | i;
                code(c, T.Short, sut("Short"), (short) v, a, i % 5);
                code(c, T.Char, sut("Char"), (char) v, a, i % 5);
            }
            c.inputs(512);
        }
        c.nontrivial();
    }

    // ------------------------------------------------------------------ C32
    private static Object source(final Ctx c, final T t) {
        switch (c.pick(18)) {
            case 0: return null;
            case 1: return value(c, T.Byte, true);
            case 2: return value(c, T.Short, true);
            case 3: return value(c, T.Int, true);
            case 4: return value(c, T.Long, true);
            case 5: return value(c, T.Float, true);
            case 6: return value(c, T.Double, true);
            case 7: return BigInteger.valueOf(edge(c, 64)).shiftLeft(c.oneOf(0, 0, 3, 40));
            case 8: return BigDecimal.valueOf(edge(c, 64), c.range(-3, 6));
            case 9: return c.bool() ? (Object) new AtomicInteger((int) edge(c, 32)) : (Object) new AtomicLong(edge(c, 64));
            case 10: return c.bool();
            case 11: return value(c, T.Char, true);
            case 12: return text(value(c, t, true));
            case 13: return c.bool() ? (Object) text(value(c, T.values()[1 + c.pick(7)], true)) : c.oneOf((Object) "", numberText(c, t));
            case 14: return c.oneOf("", " ", "true", "TRUE", "false", "1", "-1", "t", "f", "abc", " 1", "1 ", "+5", "0x10", "1e3", "1L", "-", "2147483648", "-129", "128", "NaN", "Infinity", "1.0",
                    "\u0661", "yes", "9223372036854775808");
            case 15: return c.bool() ? (Object) date(c) : (Object) LocalTime.of(c.pick(24), c.pick(60), c.pick(60), c.pick(1000000000));
            case 16: return c.oneOf(new Object(), java.util.List.of(1), new int[] {1}, new java.util.Date(0), new StringBuilder("12"), java.time.Month.MAY);
            default: {
                final Object v = value(c, t, true);
                return v == null ? "x" : v;
            }
        }
    }

    private static LocalDate date(final Ctx c) {
        final int y = c.weighted(2, 1) == 0 ? c.range(1900, 2100) : c.range(0, 9999);
        return LocalDate.of(y, 1, 1).plusDays(c.range(0, 365)).withYear(y);
    }

    /** Spellings of a number String.valueOf does not produce: midpoints between floating values and their neighbours,
        leading zeros and signs, digits of other scripts, numbers just outside the type's range. */
    private static String numberText(final Ctx c, final T t) {
        if (t == T.Float || t == T.Double) {
            final BigDecimal at;
            if (t == T.Float) {
                final float f = Math.abs(Float.intBitsToFloat((int) edge(c, 32)));
                final float g = Float.isNaN(f) || f >= Float.MAX_VALUE ? 1.5f : f;
                at = new BigDecimal(g).add(new BigDecimal(Math.nextUp(g))).divide(BigDecimal.valueOf(2));
            } else {
                final double f = Math.abs(Double.longBitsToDouble(edge(c, 64)));
                final double g = Double.isNaN(f) || f >= Double.MAX_VALUE ? 1.5 : f;
                at = new BigDecimal(g).add(new BigDecimal(Math.nextUp(g))).divide(BigDecimal.valueOf(2));
            }
            final BigDecimal off = at.ulp().scaleByPowerOfTen(-c.oneOf(1, 3, 20));
            final BigDecimal n = c.oneOf(at, at.add(off), at.subtract(off));
            return (c.weighted(3, 1) == 1 ? "-" : "") + (c.bool() ? n.toString() : n.toPlainString()) + c.oneOf("", "", "f", "D");
        }
        final BigInteger n = c.weighted(3, 1) == 0 ? BigInteger.valueOf(edge(c, 64)) : BigInteger.ONE.shiftLeft(c.oneOf(7, 8, 15, 16, 31, 32, 63, 64)).add(BigInteger.valueOf(c.range(-2, 2)));
        final String digits = (c.bool() ? n.negate() : n).abs().toString();
        final StringBuilder b = new StringBuilder(c.oneOf("", "", "-", "+", "-+"));
        for (int i = c.oneOf(0, 0, 1, 12); i > 0; i--) {
            b.append('0');
        }
        final int zero = c.weighted(3, 1) == 1 ? c.oneOf('\u0660', '\u0966', '\uff10') : '0';
        for (int i = 0; i < digits.length(); i++) {
            b.append((char) (zero + digits.charAt(i) - '0'));
        }
        return b.toString();
    }

    private static String text(final Object v) {
        return v == null ? "0" : String.valueOf(v);
    }

    private static final Object REFUSED = new Object();
    private static final Object UNPARSABLE = new Object();

    static Object parsed(final T t, final String s) {
        try {
            switch (t) {
                case Bool: return Boolean.parseBoolean(s);
                case Byte: return Byte.parseByte(s);
                case Short: return Short.parseShort(s);
                case Char: return s.isEmpty() ? (char) 0 : s.charAt(0);
                case Int: return Integer.parseInt(s);
                case Long: return Long.parseLong(s);
                case Float: return Float.parseFloat(s);
                case Double: return Double.parseDouble(s);
                default: return s;
            }
        } catch (NumberFormatException e) {
            return UNPARSABLE;
        }
    }

    /** A value that convert refuses for its class, or null when none was drawn. */
    static Object unconvertible(final Ctx c, final T t) {
        for (int i = 0; i < 4; i++) {
            final Object v = i < 3 ? source(c, t) : c.oneOf(java.util.List.of(c.pick(100)), new Object(), new StringBuilder("x" + c.pick(50)));
            if (v != null && wanted(t, v) == REFUSED) {
                return v;
            }
        }
        return null;
    }

    private static Object wanted(final T t, final Object v) {
        if (t == T.Generic) {
            return v;
        }
        if (v == null) {
            return t.def();
        }
        if (t == T.String) {
            return v.toString();
        }
        if (v instanceof String) {
            return parsed(t, (String) v);
        }
        if (v instanceof Boolean) {
            final boolean b = (Boolean) v;
            return t == T.Bool ? v : t == T.Char ? (Object) (b ? 't' : 'f') : t == T.Float ? (Object) (b ? 1f : 0f) : t == T.Double ? (Object) (b ? 1d : 0d) : t.integral(b ? 1 : 0);
        }
        if (v instanceof Number) {
            final Number n = (Number) v;
            switch (t) {
                case Bool: return n.intValue() != 0;
                case Byte: return n.byteValue();
                case Short: return n.shortValue();
                case Char: return (char) n.intValue();
                case Int: return n.intValue();
                case Long: return n.longValue();
                case Float: return n.floatValue();
                default: return n.doubleValue();
            }
        }
        if (v instanceof Character && t == T.Char) {
            return v;
        }
        if (t == T.Int && v instanceof LocalDate) {
            final LocalDate d = (LocalDate) v;
            return d.getYear() * 10000 + d.getMonthValue() * 100 + d.getDayOfMonth();
        }
        if (t == T.Int && v instanceof LocalTime) {
            final LocalTime d = (LocalTime) v;
            return d.getHour() * 10000 + d.getMinute() * 100 + d.getSecond();
        }
        return REFUSED;
    }

    static void convert(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final TypeSut s = sut(subject);
        switch (c.weighted(10, 2, 2, 2)) {
            case 0: {
                final Object v = source(c, t);
                c.op("convert", v == null ? null : v.getClass().getSimpleName(), v);
                final Object want = wanted(t, v);
                if (want == REFUSED) {
                    c.throwsX(1, IllegalArgumentException.class, "convert of a " + v.getClass().getSimpleName(), () -> s.convert(v));
                    c.label("refused");
                } else if (want == UNPARSABLE) {
                    c.throwsX(1, NumberFormatException.class, "convert of " + v, () -> s.convert(v));
                    c.label("unparsable");
                } else {
                    same(c, t, s.convert(v), want, "convert", v);
                }
                if (v != null && !v.getClass().equals(s.def() == null ? String.class : s.def().getClass())) {
                    c.nontrivial();
                }
                break;
            }
            case 1: {
                final Object v = value(c, t, true);
                c.op("unbox(box)", v);
                same(c, t, s.unbox(s.box(v)), v, "unbox of box of", v);
                same(c, t, s.unbox(null), t.def(), "unbox of", null);
                same(c, t, s.def(), t.def(), "DEFAULT", null);
                break;
            }
            case 2: {
                final Object v = value(c, t, true);
                if (v == null) {
                    return;
                }
                final boolean plain = t.isRef() || c.weighted(2, 1) == 0;
                final String x = plain ? String.valueOf(v) : numberText(c, t);
                final Object want = plain ? v : parsed(t, x);
                c.op("parseString", x);
                if (want == UNPARSABLE) {
                    c.throwsX(1, NumberFormatException.class, "parseString of " + x, () -> s.parseString(x));
                    c.label("unparsable");
                } else {
                    same(c, t, s.parseString(x), want, "parseString of", x);
                }
                c.nontrivial();
                break;
            }
            default: {
                final int i = (int) edge(c, 32);
                c.op("castTo", i);
                final Object want;
                switch (t) {
                    case Bool: want = i != 0; break;
                    case Byte: want = (byte) i; break;
                    case Short: want = (short) i; break;
                    case Char: want = (char) i; break;
                    case Int: want = i; break;
                    case Long: want = (long) i; break;
                    case Float: want = (float) i; break;
                    case Double: want = (double) i; break;
                    case String: want = Integer.toString(i); break;
                    default: want = i;
                }
                final Object got = s.castFromInt(i);
                c.that(Ctx.same(got, want), "castTo(%s) = %s, expected %s", i, got, want);
                final Object v = t.isRef() ? Integer.toString(i) : value(c, t, true);
                final int w;
                switch (t) {
                    case Bool: w = (Boolean) v ? 1 : 0; break;
                    case Byte: w = (Byte) v; break;
                    case Short: w = (Short) v; break;
                    case Char: w = (Character) v; break;
                    case Int: w = (Integer) v; break;
                    case Long: w = (int) (long) (Long) v; break;
                    case Float: w = (int) (float) (Float) v; break;
                    case Double: w = (int) (double) (Double) v; break;
                    default: w = i;
                }
                final int r = s.castToInt(v);
                c.that(r == w, "castToInt(%s) = %s, expected %s", v, r, w);
                if (t.isRef()) { // a text is read as Java reads a decimal int
                    final String digits = Integer.toString(i).substring(i < 0 ? 1 : 0);
                    final String zeros = "0".repeat(c.pick(4)) + digits;
                    final String text = c.oneOf(i < 0 ? "-" + zeros : zeros, i < 0 ? "-" + zeros : "+" + zeros, "0x" + digits, "#" + digits, digits + ".0", " " + digits, digits + "L", "", zeros + "0");
                    Integer in = null;
                    try {
                        in = Integer.parseInt(text);
                    } catch (NumberFormatException e) {
                        c.throwsX(1, NumberFormatException.class, "castToInt of " + text, () -> s.castToInt(text));
                    }
                    c.that(in == null || s.castToInt(text) == in, "castToInt(%s) is not %s", text, in);
                }
                c.nontrivial();
            }
        }
    }

    private static void same(final Ctx c, final T t, final Object got, final Object want, final String what, final Object of) {
        c.that(t.isRef() ? Ctx.same(got, want) : Dom.sameValue(t, got, want), what + " %s gives %s, expected %s", of, got, want);
    }

    // ------------------------------------------------------------------ C33
    @SuppressWarnings("deprecation")
    static void dates(final Ctx c, final String subject) {
        ZONE.readLock().lock();
        try {
            datesOf(c, (int) c.index);
        } finally {
            ZONE.readLock().unlock();
        }
    }

    /** The default time zone is the process's: only one case at a time changes it, while no other case makes dates. */
    private static final java.util.concurrent.locks.ReentrantReadWriteLock ZONE = new java.util.concurrent.locks.ReentrantReadWriteLock();
    private static final String[] ZONES = {"UTC", "America/New_York", "Asia/Tokyo", "Pacific/Kiritimati", "Pacific/Pago_Pago", "Europe/Berlin",
        "Asia/Kathmandu", "America/St_Johns", "Australia/Lord_Howe", "GMT-12:00", "GMT+14:00", "America/Sao_Paulo"};

    private static final String[] LOCALES = {"tr-TR", "az", "lt", "ar-SA-u-nu-arab", "hi-IN-u-nu-deva", "th-TH-u-nu-thai", "fa-IR", "de-DE", "el-GR", "ja-JP-u-ca-japanese"};

    private interface TypeBody {
        void run(Ctx c, String subject) throws Exception;
    }

    /** What concerns strings, numbers' spellings included, does not depend on the default locale, which is the process's: one case at a time. */
    private static Part.Body locale(final TypeBody body) {
        return (c, tag) -> {
            ZONE.writeLock().lock();
            final java.util.Locale before = java.util.Locale.getDefault();
            try {
                java.util.Locale.setDefault(java.util.Locale.forLanguageTag(tag));
                c.op("default locale", tag);
                for (int i = 0; i < 40; i++) {
                    body.run(c, c.chance(3, 4) ? "String" : c.oneOf(ALL));
                }
            } finally {
                java.util.Locale.setDefault(before);
                ZONE.writeLock().unlock();
            }
            c.inputs(40);
        };
    }

    /** The calendar day of a java.util.Date is its day in the default time zone. */
    @SuppressWarnings("deprecation")
    static void zones(final Ctx c, final String zone) {
        ZONE.writeLock().lock();
        final java.util.TimeZone before = java.util.TimeZone.getDefault();
        try {
            java.util.TimeZone.setDefault(java.util.TimeZone.getTimeZone(zone));
            for (int i = 0; i < 100; i++) {
                final int y = c.chance(1, 2) ? c.range(1900, 2100) : c.range(1583, 9999);
                final int m = c.range(1, 12);
                final int d = c.range(1, 28);
                final int kind = c.pick(3);
                final java.util.Date u;
                if (kind == 0) {
                    u = new java.util.Date(y - 1900, m - 1, d, c.oneOf(0, 23, c.pick(24)), c.pick(60), c.pick(60));
                } else if (kind == 1) {
                    u = new java.sql.Date(y - 1900, m - 1, d);
                } else {
                    u = new java.sql.Timestamp(y - 1900, m - 1, d, c.oneOf(0, 23, c.pick(24)), c.pick(60), c.pick(60), c.pick(1000000000));
                }
                if (u.getYear() != y - 1900 || u.getMonth() != m - 1 || u.getDate() != d) {
                    continue; // a day or hour the zone skipped
                }
                c.op("fromSqlDate in " + zone, u.getClass().getSimpleName(), u.getTime());
                final int got = IntType.fromSqlDate(u);
                c.that(got == y * 10000 + m * 100 + d, "in %s fromSqlDate(%s) = %s", zone, u, got);
            }
        } finally {
            java.util.TimeZone.setDefault(before);
            ZONE.writeLock().unlock();
        }
        c.inputs(100);
        c.nontrivial();
    }

    @SuppressWarnings("deprecation")
    private static void datesOf(final Ctx c, final int y) {
        LocalDate d = LocalDate.of(y, 1, 1);
        int last = y == 0 ? -1 : IntType.fromLocalDate(d.minusDays(1));
        int n = 0;
        c.op("year", y);
        for (; d.getYear() == y; d = d.plusDays(1), n++) {
            final int want = y * 10000 + d.getMonthValue() * 100 + d.getDayOfMonth();
            final int got = IntType.fromLocalDate(d);
            if (got != want) {
                c.fail(1, "fromLocalDate(%s) = %s", d, got);
            }
            if (got <= last) {
                c.fail(1, "%s packs to %s, not above the day before's %s", d, got, last);
            }
            last = got;
            final LocalDate back = IntType.toLocalDate(got);
            if (!d.equals(back)) {
                c.fail(1, "toLocalDate(%s) = %s", got, back);
            }
            if (IntType.convert(d) != want) {
                c.fail(1, "convert(%s) = %s", d, IntType.convert(d));
            }
            if (IntType.toYYYMMDD(y, d.getMonthValue(), d.getDayOfMonth()) != want) {
                c.fail(1, "toYYYMMDD(%s) = %s", d, IntType.toYYYMMDD(y, d.getMonthValue(), d.getDayOfMonth()));
            }
            if (y >= 1583) {
                final java.util.Date u = new java.util.Date(y - 1900, d.getMonthValue() - 1, d.getDayOfMonth(), n % 24, n % 60, (n * 7) % 60);
                final int sql = IntType.fromSqlDate(u);
                if (sql != want && u.getDate() == d.getDayOfMonth()) {
                    c.fail(1, "fromSqlDate(%s) = %s", u, sql);
                }
            }
        }
        if (c.thorough || y % 100 == 24 || y < 2 || y == 9999) { // every number of this year
            for (int md = 0; md < 10000; md++) {
                number(c, y * 10000 + md);
            }
            n += 10000;
        }
        c.inputs(n);
        c.nontrivial();
    }

    private static boolean validDate(final int n) {
        if (n < 0) {
            return false;
        }
        final int m = n / 100 % 100;
        final int d = n % 100;
        if (m < 1 || m > 12 || d < 1) {
            return false;
        }
        final int y = n / 10000;
        final int max = m == 2 ? y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) ? 29 : 28 : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31;
        return d <= max;
    }

    private static void number(final Ctx c, final int n) {
        LocalDate got = null;
        try {
            got = IntType.toLocalDate(n);
        } catch (DateTimeException | IllegalArgumentException | ArithmeticException e) {
            if (validDate(n)) {
                c.fail(1, "toLocalDate(%s) throws %s", n, e.toString());
            }
            return;
        }
        if (!validDate(n)) {
            c.fail(1, "toLocalDate(%s) = %s, which is no valid date", n, got);
        }
        if (got.getYear() != n / 10000 || got.getMonthValue() != n / 100 % 100 || got.getDayOfMonth() != n % 100) {
            c.fail(1, "toLocalDate(%s) = %s", n, got);
        }
    }

    private static void time(final Ctx c, final int n) {
        final boolean valid = n >= 0 && n / 10000 < 24 && n / 100 % 100 < 60 && n % 100 < 60;
        LocalTime got = null;
        try {
            got = IntType.toLocalTime(n);
        } catch (DateTimeException | IllegalArgumentException | ArithmeticException e) {
            if (valid) {
                c.fail(1, "toLocalTime(%s) throws %s", n, e.toString());
            }
            return;
        }
        if (!valid) {
            c.fail(1, "toLocalTime(%s) = %s, which is no valid time", n, got);
        }
        if (got.getHour() != n / 10000 || got.getMinute() != n / 100 % 100 || got.getSecond() != n % 100 || got.getNano() != 0) {
            c.fail(1, "toLocalTime(%s) = %s", n, got);
        }
    }

    static void dateNumbers(final Ctx c, final String subject) {
        final int n;
        switch (c.weighted(4, 3, 2, 2)) {
            case 0: n = c.range(0, 9999) * 10000 + c.range(0, 13) * 100 + c.range(0, 32); break;
            case 1: n = c.range(0, 99991231); break;
            case 2: n = -c.range(1, 99991231); break;
            default: n = c.oneOf(0, -1, Integer.MIN_VALUE, 101, 1231, 99991231, 20240229, 20230229, 21000229, 20000229, 19000229, 229, -20240101, -101);
        }
        c.op("number", n);
        number(c, n);
        time(c, c.bool() ? n : c.range(-10, 250000));
        c.nontrivial();
    }

    static void times(final Ctx c, final String subject) {
        final int h = (int) c.index;
        int last = h == 0 ? -1 : IntType.fromLocalTime(LocalTime.of(h - 1, 59, 59));
        c.op("hour", h);
        for (int i = 0; i < 3600; i++) {
            final LocalTime t = LocalTime.of(h, i / 60, i % 60, i % 3 == 0 ? 0 : i * 277777);
            final int want = h * 10000 + i / 60 * 100 + i % 60;
            final int got = IntType.fromLocalTime(t);
            if (got != want || got <= last) {
                c.fail(1, "fromLocalTime(%s) = %s", t, got);
            }
            last = got;
            final LocalTime back = IntType.toLocalTime(got);
            if (!back.equals(LocalTime.of(h, i / 60, i % 60))) {
                c.fail(1, "toLocalTime(%s) = %s", got, back);
            }
            if (IntType.convert(t) != want || IntType.toHHMMSS(h, i / 60, i % 60) != want) {
                c.fail(1, "convert or toHHMMSS of %s is not %s", t, want);
            }
        }
        c.inputs(3600);
        c.nontrivial();
    }

    static void timeNumbers(final Ctx c, final String subject) {
        c.op("numbers from", c.index * 10000);
        for (int i = 0; i < 10000; i++) {
            time(c, (int) c.index * 10000 + i);
        }
        c.inputs(10000);
        c.nontrivial();
    }

    // ------------------------------------------------------------------ C34
    static void pack(final Ctx c, final String subject) {
        final int hi = (int) edge(c, 32);
        final int lo = (int) edge(c, 32);
        c.op("packToLong", hi, lo);
        final long l = Pack.packToLong(hi, lo);
        c.that(l == (((long) hi << 32) ^ (lo >= 0 ? lo : lo + (1L << 32))), "packToLong(%s, %s) = %s", hi, lo, Long.toHexString(l));
        c.that(Pack.unpackHiInt(l) == hi, "unpackHiInt of (%s, %s) = %s", hi, lo, Pack.unpackHiInt(l));
        c.that(Pack.unpackLoInt(l) == lo, "unpackLoInt of (%s, %s) = %s", hi, lo, Pack.unpackLoInt(l));
        shorts(c, (short) edge(c, 16), (short) edge(c, 16));
        final byte[] b = {(byte) edge(c, 8), (byte) edge(c, 8), (byte) edge(c, 8), (byte) edge(c, 8)};
        final int want = ByteBuffer.wrap(b).getInt();
        final int got = Pack.packToInt(b[0], b[1], b[2], b[3]);
        c.that(got == want, "packToInt(%s) = %s", Arrays.toString(b), Integer.toHexString(got));
        final long any = c.bits64();
        c.that(Pack.packToLong(Pack.unpackHiInt(any), Pack.unpackLoInt(any)) == any, "packing the halves of %s", any);
        if (hi < 0 || lo < 0) {
            c.nontrivial();
        }
    }

    private static void shorts(final Ctx c, final short hi, final short lo) {
        final int i = Pack.packToInt(hi, lo);
        if (i != hi * 65536 + (lo < 0 ? lo + 65536 : lo)) {
            c.fail(1, "packToInt(%s, %s) = %s", hi, lo, Integer.toHexString(i));
        }
        if (Pack.unpackHiShort(i) != hi || Pack.unpackLoShort(i) != lo) {
            c.fail(1, "unpacking packToInt(%s, %s) gives %s, %s", hi, lo, Pack.unpackHiShort(i), Pack.unpackLoShort(i));
        }
    }

    static void packAll(final Ctx c, final String subject) {
        final byte hi = (byte) c.index;
        final TypeSut s = sut("Byte");
        for (int i = -128; i < 128; i++) {
            final byte lo = (byte) i;
            final short p = Pack.packToShort(hi, lo);
            if (p != (short) (hi * 256 + (lo & 255))) {
                c.fail(1, "packToShort(%s, %s) = %s", hi, lo, p);
            }
            if (Pack.unpackHiByte(p) != hi || Pack.unpackLoByte(p) != lo) {
                c.fail(1, "unpacking packToShort(%s, %s) gives %s, %s", hi, lo, Pack.unpackHiByte(p), Pack.unpackLoByte(p));
            }
            bits(c, T.Byte, s, hi, lo);
        }
        long n = 512;
        for (int h = (int) c.index << 8; h < ((int) c.index + 1) << 8; h++) {
            for (int lo = 0; lo < 65536; lo += c.thorough ? 1 : 257 - (h & 1)) {
                shorts(c, (short) h, (short) lo);
                n++;
            }
        }
        c.inputs(n);
        c.nontrivial();
        c.op("all pairs with high byte", hi);
    }

    static void bits(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final Object f = c.bool() ? value(c, t, false) : t.integral(c.bits64());
        final Object b = c.bool() ? value(c, t, false) : t.integral(c.bits64());
        c.op("bits", f, b);
        bits(c, t, sut(subject), f, b);
        if (((Number) f).longValue() < 0 || ((Number) b).longValue() < 0) {
            c.nontrivial();
        }
    }

    private static void bits(final Ctx c, final T t, final TypeSut s, final Object f, final Object b) {
        final long x = ((Number) f).longValue();
        final long y = ((Number) b).longValue();
        long on = 0;
        long off = 0;
        for (int i = 0; i < 64; i++) {
            final boolean fx = (x >>> i & 1) == 1;
            final boolean by = (y >>> i & 1) == 1;
            on |= fx || by ? 1L << i : 0;
            off |= fx && !by ? 1L << i : 0;
        }
        final Object e = s.enableBits(f, b);
        final Object d = s.disableBits(f, b);
        if (!e.equals(t.integral(on))) {
            c.fail(1, "enableBits(%s, %s) = %s", f, b, e);
        }
        if (!d.equals(t.integral(off))) {
            c.fail(1, "disableBits(%s, %s) = %s", f, b, d);
        }
    }

    // ------------------------------------------------------------------ C35
    static void equal(final Ctx c, final String subject) {
        final T t = T.of(subject);
        final TypeSut s = sut(subject);
        Object x = value(c, t, true);
        Object y = near(c, t, x, true);
        Object z = near(c, t, y, true);
        if (t == T.Generic && c.bool()) {
            final int kind = c.pick(3);
            x = comparable(x, kind);
            y = comparable(y, kind);
            z = comparable(z, kind);
        }
        final Object a = x;
        final Object b = y;
        c.op("values", a, b, z);
        final boolean want = relation2(t, a, b);
        c.that(s.eq(a, b) == want, "areEqual(%s, %s) is %s", a, b, !want);
        c.that(s.eq(b, a) == want, "areEqual(%s, %s) is %s", b, a, !want);
        final boolean nan = isNaN(a);
        c.that(s.eq(a, copy(a)) != nan, "areEqual(%s, itself) is %s", a, nan);
        if (s.eq(a, b) && s.eq(b, z)) {
            c.that(s.eq(a, z), "areEqual is not transitive over %s, %s, %s", a, b, z);
        }
        c.that(s.hash(a) == s.hash(copy2(a)), "the hash of %s is %s, then %s", a, s.hash(a), s.hash(copy2(a)));
        if (t != T.Bool && !nan && !isNaN(b)) {
            final HashSut set = U.make(subject + "SetAdapter", c.weighted(40, 1) == 0 ? 1 + c.pick(20) : 1 << c.range(12, 18), 0.75);
            for (int i = c.pick(6); i > 0; i--) {
                final Object o = value(c, t, false);
                if (!relation2(t, o, a) && !relation2(t, o, b)) {
                    set.add(o);
                }
            }
            final int n = set.size();
            final int e = set.add(a);
            c.that(set.size() == n + 1, "adding %s to a set without it left %s keys", a, set.size());
            c.that(set.contains(b) == want && (set.lookup(b) == e) == want, "a set with key %s: containsKey(%s) is %s", a, b, set.contains(b));
            final int e2 = set.add(b);
            c.that((e2 == e) == want && set.size() == (want ? n + 1 : n + 2), "adding %s to a set with key %s gives entry %s (%s)", b, a, e2, e);
            c.that(set.remove(copy(a)) == e && set.contains(b) != want, "after removing %s, containsKey(%s) is %s", a, b, set.contains(b));
        }
        if (want || nan || (a instanceof Number && b instanceof Number && Math.abs(((Number) a).doubleValue() - ((Number) b).doubleValue()) <= 1)) {
            c.nontrivial();
        }
    }

    private static Object copy2(final Object a) {
        if (a instanceof Dom.CKey) {
            return new Dom.CKey(((Dom.CKey) a).id, ((Dom.CKey) a).hash);
        }
        return copy(a);
    }

    private static boolean isNaN(final Object a) {
        return a instanceof Float && ((Float) a).isNaN() || a instanceof Double && ((Double) a).isNaN();
    }

    private static boolean relation2(final T t, final Object a, final Object b) {
        if (t == T.Float) {
            return (float) (Float) a == (float) (Float) b;
        }
        if (t == T.Double) {
            return (double) (Double) a == (double) (Double) b;
        }
        return Ctx.same(a, b);
    }

    static void epsilon(final Ctx c, final String subject) {
        final double a = c.weighted(1, 2) == 0 ? (Double) value(c, T.Double, true) : c.range(-1000, 1000) / 8d;
        final double b;
        switch (c.weighted(3, 3, 2)) {
            case 0: b = a + c.oneOf(1e-10, -1e-10, 0.99e-10, 1.01e-10, 1e-11, 1e-9, -0.99e-10, -1.01e-10, 0d); break;
            case 1: b = a + c.range(-200, 200) * 1e-12; break;
            default: b = (Double) value(c, T.Double, true);
        }
        c.op("EqEpsilon", a, b);
        final boolean want = a - b < 1e-10 && b - a < 1e-10;
        c.that(DoubleType.EqEpsilon.areEqual(a, b) == want, "EqEpsilon(%s, %s) is %s", a, b, !want);
        c.that(DoubleType.EqEpsilon.areEqual(b, a) == want, "EqEpsilon(%s, %s) is %s", b, a, !want);
        if (a != b && Math.abs(a - b) < 1e-8) {
            c.nontrivial();
        }
    }
}
