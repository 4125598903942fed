package vp.core;

/** One generator/oracle of a property, run over a list of subjects (type instantiations). */
public final class Part {
    public interface Body {
        void run(Ctx c, String subject) throws Exception;
    }

    public final String name;
    public final String[] subjects;
    public final long quick;
    public final long thorough;
    public final boolean enumerated;
    public final Body body;

    private Part(final String name, final String[] subjects, final long q, final long t, final boolean en,
            final Body body) {
        this.name = name;
        this.subjects = subjects;
        this.quick = q;
        this.thorough = t;
        this.enumerated = en;
        this.body = body;
    }

    public static Part of(final String name, final String[] subjects, final long quick, final long thorough,
            final Body body) {
        return new Part(name, subjects, quick, thorough, false, body);
    }

    /** A finite space of n chunks, all of them run in both tiers. */
    public static Part all(final String name, final long n, final Body body) {
        return new Part(name, new String[] {"all"}, n, n, true, body);
    }
}
