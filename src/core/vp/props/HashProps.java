package vp.props;

import static vp.props.HashMachine.*;

import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.sut.T;

final class HashProps {
    static final String[] SETS = T.names(false);
    static final String[] MAPS = T.pairs();
    static final String[] FN_TYPES = {"Float", "Double", "String", "Generic"};

    static String[] fnMaps() {
        return java.util.Arrays.stream(MAPS).filter(s -> java.util.Arrays.stream(FN_TYPES).anyMatch(f -> s.startsWith(f + "/")))
                .toArray(String[]::new);
    }

    interface Tune {
        void tune(Profile p);
    }

    static final String ASSUME = "keys that are NaN under default equality, and misuse documented as corrupting "
            + "(freeing or reserving an inactive entry), are outside the generated domain";

    private static Prop prop(final String id, final long tags, final String rule, final long q, final long t,
            final NonTrivial nt, final Tune tune) {
        return new Prop(id, tags, rule, new String[] {ASSUME},
                Part.of("sets", SETS, q / 4, t / 4, body(nt, tune)),
                Part.of("maps", MAPS, q, t, body(nt, tune)));
    }

    static final String[] BIG = {"Int", "Int/Int", "Long", "Long/Generic", "String/Int", "Float/Long", "Double/Bool", "Generic/String",
        "Short/Short", "Char/Double", "Int/String", "String", "Byte/Int", "Generic", "Float", "Double", "Long/Long",
        "Char", "Int/Byte", "Short", "Int/Float", "Int/Char"};

    /** Few bulk operations over tens of thousands of keys. */
    static Part huge(final int q, final int t, final Tune tune) {
        return huge(BIG, q, t, tune);
    }

    private static Part huge(final String[] subjects, final int q, final int t, final Tune tune) {
        return Part.of("huge", subjects, q, t, (c, s) -> {
            final Profile p = new Profile();
            p.huge = true;
            p.bulkAdd = 30;
            p.bulkRemove = 16;
            p.audit = 4;
            p.add = p.put = p.remove = p.removeAt = p.putValueAt = 2;
            p.iterate = p.forEach = p.churn = 4;
            p.probe = 2;
            p.twoPercent = 0;
            p.copy = 0;
            tune.tune(p);
            new HashMachine(c, s, p).run();
            if (c.labels().contains("bulk-add") && c.labels().contains("grown")) {
                c.nontrivial();
            }
        });
    }

    interface NonTrivial {
        boolean is(Ctx c);
    }

    private static Part.Body body(final NonTrivial nt, final Tune tune) {
        return (c, s) -> {
            final Profile p = new Profile();
            tune.tune(p);
            new HashMachine(c, s, p).run();
            if (nt != null && nt.is(c)) {
                c.nontrivial();
            }
        };
    }

    static Prop get(final String id) {
        switch (id) {
            case "C01":
                return prop(id, MEMB, "a case is a history of operations on one to three sets or maps of one type; non-trivial when "
                        + "a removal or reuse was followed by growth or further adds in the history (grown and reused-entry, or iterator-removal)",
                        60000, 1500000, c -> c.labels().contains("grown") && (c.labels().contains("reused-entry")
                                || c.labels().contains("iterator-remove")), p -> { }).with(huge(88, 1200, p -> p.clear = 2));
            case "C02":
                return new Prop(id, VAL | MEMB, "a case is a history on maps; non-trivial when values were overwritten and the map grew or reused an entry",
                        new String[] {ASSUME}, Part.of("maps", MAPS, 60000, 1500000, body(
                                c -> c.labels().contains("overwrite") && (c.labels().contains("grown") || c.labels().contains("reused-entry")),
                                p -> {
                                    p.put = 30;
                                    p.putValueAt = 10;
                                    p.add = 10;
                                })), huge(java.util.Arrays.stream(BIG).filter(x -> x.contains("/")).toArray(String[]::new), 45, 600, p -> { }));
            case "C03":
                return prop(id, STABLE, "a case is a history; non-trivial when the collection grew while holding keys",
                        60000, 1500000, c -> c.labels().contains("grown"), p -> {
                            p.bulkAdd = 5;
                            p.audit = 4;
                        }).with(huge(44, 600, p -> { }));
            case "C04":
                return prop(id, COMPACT, "a case is a history; non-trivial when an entry was freed and an entry issued afterwards",
                        60000, 1500000, c -> c.labels().contains("reused-entry"), p -> {
                            p.churn = 4;
                            p.clear = 2;
                            p.removeAt = 12;
                            p.iterate = 5;
                            p.reserve = 4;
                            p.free = 6;
                        }).with(huge(88, 1200, p -> {
                            p.clear = 4;
                            p.churn = 8;
                        }));
            case "C05":
                return prop(id, RESERVE, "a case is a history; non-trivial when at least one entry was reserved",
                        50000, 1200000, null, p -> {
                            p.reserve = 16;
                            p.free = 12;
                            p.audit = 3;
                            p.removeAtInactive = 4;
                            p.copy = 2;
                        }).with(huge(44, 600, p -> {
                            p.reserve = 16;
                            p.free = 10;
                        }));
            case "C06":
                return prop(id, ITER, "a case is a history with iterators; non-trivial when an iterator removed from a collection of "
                        + "at least two keys, or was used after an outside modification",
                        50000, 1200000, null, p -> {
                            p.iterate = 12;
                            p.held = 40;
                            p.add = 8;
                            p.put = 6;
                            p.remove = 6;
                            p.bulkAdd = 6;
                            p.bulkRemove = 1;
                            p.clear = 2;
                            p.copy = 2;
                        }).with(huge(44, 600, p -> {
                            p.iterate = 20;
                            p.held = 10;
                        }));
            case "C07":
                return prop(id, FOREACH, "a case is a history; non-trivial when elements were removed from inside a forEach over at least two elements",
                        50000, 1200000, null, p -> {
                            p.forEach = 30;
                            p.bulkAdd = 12;
                        }).with(huge(44, 600, p -> p.forEach = 30),
                        Part.of("associations", BiProps.BOTH, 60000, 1500000, VisitProps::associations), Part.of("heaps", MAPS, 40000, 1000000, VisitProps::heap));
            case "C08":
                return prop(id, COPY, "a case is a history over up to three collections with copies; non-trivial when a non-empty collection "
                        + "was copied or an operation was run in step on a collection and its copy",
                        40000, 1000000, null, p -> {
                            p.copy = 12;
                            p.reserve = 4;
                            p.free = 4;
                            p.twoPercent = 60;
                            p.fn = false;
                        }).with(Part.of("functions", FN_TYPES, 4000, 80000, body(null, p -> {
                            p.copy = 12;
                            p.twoPercent = 60;
                            p.fn = true;
                        })), huge(44, 600, p -> {
                            p.copy = 12;
                            p.twoPercent = 60;
                            p.reserve = 3;
                        }));
            case "C09":
                return new Prop(id, FN, "a case is a history on a collection with custom functions set; non-trivial when the collection grew or reused entries",
                        new String[] {ASSUME, "hash and equality functions given to a collection are consistent with each other"},
                        Part.of("sets", FN_TYPES, 15000, 300000, body(HashProps::growOrReuse, p -> {
                            p.fn = true;
                            p.fns = 5;
                        })),
                        Part.of("maps", fnMaps(), 30000, 800000, body(HashProps::growOrReuse, p -> {
                            p.fn = true;
                            p.fns = 5;
                        })));
            case "C10":
                return prop(id, DEF, "a case is a history; non-trivial when an entry was reused, cleared, or written while unused",
                        60000, 1500000, c -> c.labels().contains("reused-entry") || c.labels().contains("clear-with-freed"), p -> {
                            p.putValueAtInactive = 8;
                            p.clear = 4;
                            p.iterate = 6;
                            p.reserve = 4;
                            p.free = 5;
                            p.absentReads = 5;
                            p.copy = 3;
                        }).with(huge(44, 600, p -> {
                            p.putValueAtInactive = 8;
                            p.clear = 6;
                        }));
            default:
                return null;
        }
    }

    private static boolean growOrReuse(final Ctx c) {
        return c.labels().contains("grown") || c.labels().contains("reused-entry");
    }
}
