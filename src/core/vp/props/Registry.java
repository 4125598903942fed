package vp.props;

import vp.core.Prop;

public final class Registry {
    public static Prop get(final String id) {
        Prop p = HashProps.get(id);
        p = p != null ? p : SeqProps.get(id);
        p = p != null ? p : BiProps.get(id);
        p = p != null ? p : HeapProps.get(id);
        p = p != null ? p : TypeProps.get(id);
        p = p != null ? p : DataProps.get(id);
        p = p != null ? p : MiscProps.get(id);
        p = p != null ? p : SnowProps.get(id);
        p = p != null ? p : JointProps.get(id);
        p = p != null ? p : SpaceProps.get(id);
        p = p != null ? p : ReadProps.get(id);
        p = p != null ? p : WorkProps.get(id);
        p = p != null ? p : TwinProps.get(id);
        p = p != null ? p : RefusalProps.get(id);
        if (p == null) {
            throw new IllegalArgumentException("no such property: " + id);
        }
        return p;
    }
}
