package vp.core;

public final class Violation extends RuntimeException {
    public Violation(final String msg) {
        super(msg);
    }
}
