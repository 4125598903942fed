package vp.sut;

/** Unboxing for the adapters, and their instantiation. */
public final class U {
    public static boolean unBool(final Object o) { return (Boolean) o; }
    public static byte unByte(final Object o) { return (Byte) o; }
    public static short unShort(final Object o) { return (Short) o; }
    public static char unChar(final Object o) { return (Character) o; }
    public static int unInt(final Object o) { return (Integer) o; }
    public static long unLong(final Object o) { return (Long) o; }
    public static float unFloat(final Object o) { return (Float) o; }
    public static double unDouble(final Object o) { return (Double) o; }
    public static String unString(final Object o) { return (String) o; }
    public static Object unGeneric(final Object o) { return o; }

    private static final java.util.concurrent.ConcurrentHashMap<String, java.lang.reflect.Constructor<?>> CTORS =
            new java.util.concurrent.ConcurrentHashMap<>();

    @SuppressWarnings("unchecked")
    public static <X> X make(final String cls, final Object... args) {
        final java.lang.reflect.Constructor<?> c = CTORS.computeIfAbsent(cls, n -> {
            try {
                return Class.forName("vp.sut." + n).getConstructors()[0];
            } catch (ReflectiveOperationException e) {
                throw new IllegalStateException(e);
            }
        });
        try {
            return (X) c.newInstance(args);
        } catch (java.lang.reflect.InvocationTargetException e) {
            throw U.<RuntimeException>sneak(e.getCause());
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    @SuppressWarnings("unchecked")
    static <E extends Throwable> E sneak(final Throwable t) throws E {
        throw (E) t;
    }
}
