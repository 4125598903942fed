package vp.core;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;

/** Minimal JSON writer and reader. */
public final class Json {
    public static String write(final Object o) {
        final StringBuilder b = new StringBuilder();
        write(b, o);
        return b.toString();
    }

    private static void write(final StringBuilder b, final Object o) {
        if (o == null || o instanceof Boolean || o instanceof Number) {
            b.append(o);
        } else if (o instanceof Map) {
            b.append('{');
            boolean first = true;
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
                b.append(first ? "" : ", ");
                write(b, e.getKey().toString());
                b.append(": ");
                write(b, e.getValue());
                first = false;
            }
            b.append('}');
        } else if (o instanceof Iterable) {
            b.append('[');
            boolean first = true;
            for (Object x : (Iterable<?>) o) {
                b.append(first ? "" : ", ");
                write(b, x);
                first = false;
            }
            b.append(']');
        } else if (o instanceof long[]) {
            b.append('[');
            for (int i = 0; i < ((long[]) o).length; i++) {
                b.append(i == 0 ? "" : ",").append(((long[]) o)[i]);
            }
            b.append(']');
        } else {
            b.append('"');
            for (char c : o.toString().toCharArray()) {
                if (c == '"' || c == '\\') {
                    b.append('\\').append(c);
                } else if (c < 32 || c > 126) {
                    b.append(String.format("\\u%04x", (int) c));
                } else {
                    b.append(c);
                }
            }
            b.append('"');
        }
    }

    private final String t;
    private int i;

    private Json(final String t) {
        this.t = t;
    }

    public static Object read(final String text) {
        return new Json(text).value();
    }

    private void ws() {
        while (i < t.length() && Character.isWhitespace(t.charAt(i))) {
            i++;
        }
    }

    private Object value() {
        ws();
        final char c = t.charAt(i);
        if (c == '{') {
            final Map<String, Object> m = new LinkedHashMap<>();
            i++;
            ws();
            while (t.charAt(i) != '}') {
                final String k = (String) value();
                ws();
                i++; // :
                m.put(k, value());
                ws();
                if (t.charAt(i) == ',') {
                    i++;
                }
                ws();
            }
            i++;
            return m;
        }
        if (c == '[') {
            final List<Object> l = new ArrayList<>();
            i++;
            ws();
            while (t.charAt(i) != ']') {
                l.add(value());
                ws();
                if (t.charAt(i) == ',') {
                    i++;
                }
                ws();
            }
            i++;
            return l;
        }
        if (c == '"') {
            final StringBuilder b = new StringBuilder();
            for (i++; t.charAt(i) != '"'; i++) {
                char x = t.charAt(i);
                if (x == '\\') {
                    x = t.charAt(++i);
                    if (x == 'u') {
                        x = (char) Integer.parseInt(t.substring(i + 1, i + 5), 16);
                        i += 4;
                    } else if (x == 'n') {
                        x = '\n';
                    } else if (x == 't') {
                        x = '\t';
                    }
                }
                b.append(x);
            }
            i++;
            return b.toString();
        }
        final int start = i;
        while (i < t.length() && ",]} \n\r\t".indexOf(t.charAt(i)) < 0) {
            i++;
        }
        final String w = t.substring(start, i);
        switch (w) {
            case "null":
                return null;
            case "true":
                return true;
            case "false":
                return false;
            default:
                return w.contains(".") || w.contains("e") || w.contains("E") ? (Object) Double.valueOf(w)
                        : (Object) Long.valueOf(w);
        }
    }
}
