package vp.core;

/** An assertion of another property failed: this case can tell nothing more about this one. */
public final class Abandon extends RuntimeException {
    public static final Abandon INSTANCE = new Abandon();

    private Abandon() {
        super("abandoned", null, false, false);
    }
}
