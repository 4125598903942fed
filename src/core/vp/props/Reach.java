package vp.props;

import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Collection;
import java.util.Collections;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.ConcurrentHashMap;
import vp.core.Ctx;

/** Objects reachable from a collection, by identity. */
final class Reach {
    static final long REACH = 2048;
    private static final ConcurrentHashMap<Class<?>, Field[]> FIELDS = new ConcurrentHashMap<>();

    private final Ctx c;
    private final Set<Object> ever = set();

    Reach(final Ctx c) {
        this.c = c;
    }

    static Set<Object> set() {
        return Collections.newSetFromMap(new IdentityHashMap<>());
    }

    /** An object was handed to the collection. */
    void ever(final Object o) {
        if (o != null) {
            ever.add(o);
        }
    }

    private static Field[] fields(final Class<?> k) {
        return FIELDS.computeIfAbsent(k, x -> {
            final List<Field> out = new ArrayList<>();
            for (Class<?> s = x; s != null && s != Object.class; s = s.getSuperclass()) {
                for (Field f : s.getDeclaredFields()) {
                    if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) {
                        f.setAccessible(true);
                        out.add(f);
                    }
                }
            }
            return out.toArray(new Field[0]);
        });
    }

    static Set<Object> from(final Object root) {
        final Set<Object> seen = set();
        final ArrayDeque<Object> todo = new ArrayDeque<>();
        seen.add(root);
        todo.add(root);
        while (!todo.isEmpty()) {
            final Object o = todo.poll();
            final Class<?> k = o.getClass();
            if (k.isArray()) {
                if (!k.getComponentType().isPrimitive()) {
                    for (int i = 0, n = Array.getLength(o); i < n; i++) {
                        push(seen, todo, ((Object[]) o)[i]);
                    }
                }
            } else if (o instanceof Collection) {
                if (o.getClass().getName().startsWith("java.util.")) {
                    for (Object x : (Collection<?>) o) {
                        push(seen, todo, x);
                    }
                }
            } else if (o instanceof Map) {
                for (Map.Entry<?, ?> x : ((Map<?, ?>) o).entrySet()) {
                    push(seen, todo, x.getKey());
                    push(seen, todo, x.getValue());
                }
            } else if (k.getName().startsWith("com.bytefacets.") && !k.isHidden()) {
                for (Field f : fields(k)) {
                    try {
                        push(seen, todo, f.get(o));
                    } catch (IllegalAccessException e) {
                        throw new IllegalStateException(e);
                    }
                }
            }
        }
        return seen;
    }

    private static void push(final Set<Object> seen, final ArrayDeque<Object> todo, final Object o) {
        if (o != null && seen.add(o)) {
            todo.add(o);
        }
    }

    /** Of the objects ever handed in, exactly the held ones are reachable. */
    void check(final Object root, final Collection<Object> held, final String what) {
        if (!c.has(REACH)) {
            return;
        }
        final Set<Object> r = from(root);
        final Set<Object> h = set();
        for (Object o : held) {
            if (o != null) {
                h.add(o);
                c.that(REACH, r.contains(o), "%s, held by the " + what + ", is not reachable from it", o);
            }
        }
        int dropped = 0;
        for (Object o : ever) {
            if (!h.contains(o)) {
                dropped++;
                c.that(REACH, !r.contains(o), "%s, no longer held by the " + what + ", is still reachable from it", o);
            }
        }
        if (dropped > 0) {
            c.nontrivial();
        }
    }
}
