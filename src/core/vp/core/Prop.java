package vp.core;

public final class Prop {
    public final String id;
    public final long tags;
    public final String rule;
    public final String[] assumptions;
    public final Part[] parts;

    public Prop(final String id, final long tags, final String rule, final String[] assumptions, final Part... parts) {
        this.id = id;
        this.tags = tags;
        this.rule = rule;
        this.assumptions = assumptions;
        this.parts = parts;
    }

    public Prop with(final Part... more) {
        final Part[] all = java.util.Arrays.copyOf(parts, parts.length + more.length);
        System.arraycopy(more, 0, all, parts.length, more.length);
        return new Prop(id, tags, rule, assumptions, all);
    }
}
