package vp.props;

import com.bytefacets.collections.bi.CompactManyToMany;
import com.bytefacets.collections.bi.Mapping;
import com.bytefacets.collections.functional.IntIterator;
import com.bytefacets.collections.hash.LongIndexedSet;
import com.bytefacets.collections.hash.StringLongIndexedMap;
import com.bytefacets.collections.heap.LongIntHeap;
import com.bytefacets.collections.queue.IntDeque;
import com.bytefacets.collections.queue.IntHydraDeque;
import com.bytefacets.collections.store.IntChunkMatrixStore;
import com.bytefacets.collections.store.StringChunkStore;
import java.lang.management.ManagementFactory;
import java.lang.management.ThreadMXBean;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.Deque;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.SplittableRandom;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.concurrent.CyclicBarrier;
import java.util.concurrent.Semaphore;
import java.util.concurrent.locks.ReentrantReadWriteLock;
import vp.core.Abandon;
import vp.core.Ctx;
import vp.core.Part;
import vp.core.Prop;
import vp.core.Src;
import vp.core.Violation;

/** Collections used together (C41) and next to each other (C42). */
final class JointProps {
    static Prop get(final String id) {
        switch (id) {
            case "C41":
                return new Prop(id, 1, "a case is a history of an order book whose parts refer to each other by entry; non-trivial when entries were reused "
                        + "after orders or terms had been dropped", new String[0], Part.of("order book", new String[] {"plain", "reserving"}, 60000, 1500000, (c, s) -> new Book(c, s).run()));
            case "C42":
                return new Prop(id, 1, "a case is two or three histories on separate instances, run alone, then in turns or at once; non-trivial when at least two "
                        + "of the histories were on the same class", new String[] {HashProps.ASSUME},
                        Part.of("in turns", KINDS, 4000, 150000, (c, s) -> isolated(c, s, IN_TURNS)),
                        Part.of("within", KINDS, 12000, 300000, (c, s) -> isolated(c, s, WITHIN)),
                        Part.of("at once", KINDS, 3000, 100000, (c, s) -> isolated(c, s, AT_ONCE)),
                        Part.of("static helpers at once", TypeProps.ALL, 1000, 20000, ReadProps::helpers));
            default:
                return null;
        }
    }

    // ------------------------------------------------------------------ C41
    /** An order book in the manner of the repository's examples: everything refers to orders and terms by their entries. */
    private static final class Book {
        final Ctx c;
        final boolean reserving;
        final LongIndexedSet orders;
        final StringLongIndexedMap terms;
        final CompactManyToMany index;
        final LongIntHeap timeouts;
        final IntHydraDeque queues;
        final IntChunkMatrixStore fields; // 0: quantity, 1: heap entry
        final StringChunkStore notes;
        final IntDeque pending;

        final Map<Long, Order> model = new TreeMap<>();
        final Map<String, Deque<Long>> queued = new HashMap<>();
        final Map<String, Long> limits = new HashMap<>();
        final Deque<Long> waiting = new ArrayDeque<>();
        final int[] perOrder;
        final Set<Integer> everOrders = new HashSet<>();
        final int ids;
        final int names;
        final long stride;
        boolean reused;

        static final class Order {
            long expire;
            int qty;
            String note;
            int entry;
            final Set<String> terms = new TreeSet<>();
        }

        Book(final Ctx c, final String subject) {
            this.c = c;
            reserving = subject.equals("reserving");
            final int a = c.range(1, 20);
            final int b = c.range(1, 20);
            c.op("new book", a, b);
            orders = new LongIndexedSet(a);
            terms = new StringLongIndexedMap(b);
            index = new CompactManyToMany(c.range(1, 8), c.range(1, 8), c.range(1, 8), true);
            timeouts = new LongIntHeap(c.range(0, 8));
            queues = new IntHydraDeque(c.range(1, 4), c.range(1, 8));
            fields = new IntChunkMatrixStore(c.range(1, 8), c.range(2, 20), 2);
            notes = new StringChunkStore(c.range(1, 8), c.range(2, 20));
            pending = new IntDeque(c.range(1, 8));
            ids = 1 + c.skew(200);
            names = 1 + c.skew(40);
            stride = c.oneOf(1L, 64L, 1L << 32, -7L);
            perOrder = new int[0];
        }

        long id(final int i) {
            return 1_000_000 + stride * i;
        }

        String name(final int i) {
            return new String("T" + i);
        }

        void run() {
            final int mean = c.weighted(2, 1) == 0 ? 40 : 160;
            while (c.more(mean)) {
                switch (c.weighted(16, 16, 4, 6, 3, 5, 4, 5, 4, 4, 3, 2)) {
                    case 0: add(id(c.pick(ids))); break;
                    case 1: tag(id(c.pick(ids)), name(c.pick(names))); break;
                    case 2: untag(id(c.pick(ids)), name(c.pick(names))); break;
                    case 3: drop(id(c.pick(ids))); break;
                    case 4: dropTerm(name(c.pick(names))); break;
                    case 5: expire(); break;
                    case 6: reschedule(id(c.pick(ids))); break;
                    case 7: enqueue(name(c.pick(names))); break;
                    case 8: poll(name(c.pick(names))); break;
                    case 9: handle(); break;
                    case 10: bulk(); break;
                    default: audit();
                }
                c.that(orders.size() == model.size() && timeouts.getSize() == model.size() && terms.size() == limits.size(),
                        "%s orders and %s timeouts for %s, %s terms for %s", orders.size(), timeouts.getSize(), model.size(), terms.size(), limits.size());
            }
            audit();
            if (reused) {
                c.nontrivial();
            }
        }

        void bulk() {
            final int k = 1 + c.skew(60);
            final int from = c.pick(ids);
            for (int i = 0; i < k; i++) {
                if (c.bool()) {
                    add(id((from + i) % ids));
                }
                tag(id((from + i) % ids), name((from + i * 7) % names));
            }
        }

        void add(final long id) {
            final int qty = c.range(-1000, 1000);
            final long exp = c.range(0, 500);
            c.op("add", id, exp, qty);
            final int e = orders.add(id);
            c.res(e);
            final Order known = model.get(id);
            if (known != null) {
                c.that(e == known.entry, "order %s is at entry %s, was added at %s", id, e, known.entry);
                fields.setInt(e, 0, qty);
                known.qty = qty;
                return;
            }
            if (!everOrders.add(e)) {
                reused = true;
            }
            for (Map.Entry<Long, Order> o : model.entrySet()) {
                c.that(o.getValue().entry != e, "orders %s and %s share entry %s", id, o.getKey(), e);
            }
            c.that(!index.withRight(e).entryIterator().hasNext(), "entry %s of a new order already has terms", e);
            final Order o = new Order();
            o.entry = e;
            o.expire = exp;
            o.qty = qty;
            o.note = c.chance(1, 3) ? null : new String("n" + id);
            fields.setInt(e, 0, qty);
            fields.setInt(e, 1, timeouts.insert(exp, e));
            notes.setString(e, o.note);
            model.put(id, o);
        }

        void tag(final long id, final String term) {
            final Order o = model.get(id);
            if (o == null) {
                return;
            }
            c.op("tag", id, term);
            int t = terms.lookupEntry(term);
            if (t < 0) {
                final long limit = c.range(0, 1000);
                t = terms.put(term, limit);
                limits.put(term, limit);
                queued.put(term, new ArrayDeque<>());
                c.that(!index.withLeft(t).entryIterator().hasNext(), "entry %s of a new term already has orders", t);
                c.that(queues.size(t) == 0, "the queue of a new term is not empty");
            }
            index.put(t, orders.lookupEntry(id));
            o.terms.add(term);
        }

        void untag(final long id, final String term) {
            c.op("untag", id, term);
            final int t = terms.lookupEntry(term);
            final int e = orders.lookupEntry(id);
            if (t < 0 || e < 0) {
                c.that(!model.containsKey(id) || !limits.containsKey(term), "lost %s or %s", id, term);
                return;
            }
            final boolean was = index.remove(t, e) >= 0;
            c.that(was == model.get(id).terms.remove(term), "remove(%s, %s) says %s", id, term, was);
        }

        /** Removes everything that refers to an order, then the order. */
        void drop(final long id) {
            final Order o = model.get(id);
            c.op("drop", id);
            if (o == null) {
                c.that(orders.remove(id) == -1, "removing an unknown order");
                return;
            }
            int e = o.entry;
            if (reserving) {
                orders.removeAtAndReserve(e);
                c.that(orders.getKeyAt(e) == id, "reserved entry %s gives %s", e, orders.getKeyAt(e));
            }
            timeouts.removeAt(fields.getInt(e, 1));
            final IntIterator it = index.withRight(e).entryIterator();
            final List<Integer> es = new ArrayList<>();
            while (it.hasNext()) {
                es.add(it.next());
            }
            es.forEach(index::removeAt);
            notes.setString(e, null);
            for (String term : queued.keySet()) {
                final int t = terms.lookupEntry(term);
                for (int n = queues.size(t); n > 0; n--) {
                    final int x = queues.removeFirst(t);
                    if (x != e) {
                        queues.addLast(t, x);
                    }
                }
                queued.get(term).removeIf(x -> x == id);
            }
            for (int n = pending.size(); n > 0; n--) {
                final int x = pending.removeLast();
                if (x != e) {
                    pending.addFirst(x);
                }
            }
            waiting.removeIf(x -> x == id);
            if (reserving) {
                orders.freeReservedEntry(e);
            } else {
                e = orders.remove(id);
                c.that(e == o.entry, "removed order %s from entry %s, was at %s", id, e, o.entry);
            }
            model.remove(id);
        }

        void dropTerm(final String term) {
            c.op("dropTerm", term);
            final int t = terms.lookupEntry(term);
            if (t < 0) {
                return;
            }
            final List<Integer> rights = new ArrayList<>();
            index.withLeft(t).forEachValue(rights::add);
            for (int r : rights) {
                index.remove(t, r);
                model.get(orders.getKeyAt(r)).terms.remove(term);
            }
            model.forEach((id, o) -> c.that(!o.terms.contains(term), "order %s was not listed for %s", id, term));
            while (queues.size(t) > 0) {
                queues.removeLast(t);
            }
            c.that(terms.remove(term) == t, "term %s moved", term);
            limits.remove(term);
            queued.remove(term);
        }

        void expire() {
            final long now = c.range(0, 520);
            c.op("expire", now);
            final List<Long> want = new ArrayList<>();
            model.forEach((id, o) -> {
                if (o.expire < now) {
                    want.add(o.expire);
                }
            });
            want.sort(null);
            final List<Long> got = new ArrayList<>();
            while (!timeouts.isEmpty() && timeouts.getKeyAt(timeouts.peek()) < now) {
                final int h = timeouts.peek();
                got.add(timeouts.getKeyAt(h));
                final int e = timeouts.getValueAt(h);
                final long id = orders.getKeyAt(e);
                c.that(model.containsKey(id) && model.get(id).entry == e && model.get(id).expire == timeouts.getKeyAt(h), "the timeout of entry %s is not that of order %s", e, id);
                drop(id);
            }
            c.that(got.equals(want), "expired %s, expected %s", got, want);
        }

        void reschedule(final long id) {
            final Order o = model.get(id);
            if (o == null) {
                return;
            }
            final long exp = c.range(0, 500);
            c.op("reschedule", id, exp);
            timeouts.resetKey(fields.getInt(o.entry, 1), exp);
            o.expire = exp;
        }

        void enqueue(final String term) {
            final int t = terms.lookupEntry(term);
            if (t < 0) {
                return;
            }
            c.op("enqueue", term);
            final List<Integer> es = new ArrayList<>();
            index.withLeft(t).forEachValue(es::add);
            es.sort(null);
            for (int e : es) {
                if (c.bool()) {
                    queues.addLast(t, e);
                    queued.get(term).addLast(orders.getKeyAt(e));
                } else {
                    queues.addFirst(t, e);
                    queued.get(term).addFirst(orders.getKeyAt(e));
                }
                if (c.chance(1, 4)) {
                    pending.addLast(e);
                    waiting.addLast(orders.getKeyAt(e));
                }
            }
        }

        void poll(final String term) {
            final int t = terms.lookupEntry(term);
            if (t < 0 || queued.get(term).isEmpty()) {
                return;
            }
            c.op("poll", term);
            final long got = orders.getKeyAt(queues.removeFirst(t));
            final long want = queued.get(term).removeFirst();
            c.that(got == want, "polled order %s, expected %s", got, want);
        }

        void handle() {
            if (waiting.isEmpty()) {
                return;
            }
            c.op("handle");
            final long got = orders.getKeyAt(pending.removeFirst());
            final long want = waiting.removeFirst();
            c.that(got == want, "handled order %s, expected %s", got, want);
        }

        void audit() {
            c.op("audit");
            final Map<String, Set<Long>> byTerm = new HashMap<>();
            model.forEach((id, o) -> {
                c.that(orders.lookupEntry(id) == o.entry, "order %s is at %s, was added at %s", id, orders.lookupEntry(id), o.entry);
                c.that(fields.getInt(o.entry, 0) == o.qty, "quantity of %s is %s, not %s", id, fields.getInt(o.entry, 0), o.qty);
                c.that(notes.getString(o.entry) == o.note, "note of %s is %s, not %s", id, notes.getString(o.entry), o.note);
                final int h = fields.getInt(o.entry, 1);
                c.that(timeouts.isValidEntry(h) && timeouts.getKeyAt(h) == o.expire && timeouts.getValueAt(h) == o.entry, "timeout of %s is lost", id);
                final Set<String> got = new TreeSet<>();
                final Mapping m = index.withRight(o.entry);
                c.that(m.count() == o.terms.size(), "order %s has %s terms, not %s", id, m.count(), o.terms.size());
                m.forEachValue(t -> c.that(got.add(terms.getKeyAt(t)), "a term of order %s comes twice", id));
                c.that(got.equals(o.terms), "order %s has terms %s, not %s", id, got, o.terms);
                o.terms.forEach(t -> byTerm.computeIfAbsent(t, k -> new TreeSet<>()).add(id));
            });
            limits.forEach((term, limit) -> {
                final int t = terms.lookupEntry(term);
                c.that(t >= 0 && terms.getValueAt(t) == limit, "term %s lost its limit", term);
                final Set<Long> got = new TreeSet<>();
                index.withLeft(t).forEachValue(e -> c.that(got.add(orders.getKeyAt(e)), "an order of %s comes twice", term));
                c.that(got.equals(byTerm.getOrDefault(term, Set.of())), "term %s has orders %s, not %s", term, got, byTerm.get(term));
                final List<Long> q = new ArrayList<>();
                queues.iterator(t).forEach(e -> q.add(orders.getKeyAt(e)));
                c.that(q.equals(new ArrayList<>(queued.get(term))), "queue of %s is %s, not %s", term, q, queued.get(term));
            });
            final List<Long> p = new ArrayList<>();
            pending.forEach(e -> p.add(orders.getKeyAt(e)));
            c.that(p.equals(new ArrayList<>(waiting)), "pending orders are %s, not %s", p, waiting);
        }
    }

    // ------------------------------------------------------------------ C42
    static final String[] KINDS = {"set", "map", "deque", "hydra", "vector", "heap", "array", "store", "matrix", "sort", "bi", "type", "snowflake"};
    private static final ThreadMXBean MX = ManagementFactory.getThreadMXBean();
    private static final int IN_TURNS = 0;
    private static final int AT_ONCE = 1;
    private static final int WITHIN = 2;
    private static final long ALL_TAGS = ~Reach.REACH;

    private static final class Actor {
        final String kind;
        final String subject;
        final long seed;
        List<String> alone;
        List<String> together;
        String failure;

        Actor(final String kind, final String subject, final long seed) {
            this.kind = kind;
            this.subject = subject;
            this.seed = seed;
        }

        void body(final Ctx x) throws Exception {
            switch (kind) {
                case "set":
                case "map": {
                    final HashMachine.Profile p = new HashMachine.Profile();
                    p.iterate = 6;
                    p.forEach = 4;
                    p.held = 6;
                    final boolean one = x.bool(); // instance in the history
                    p.copy = one ? 0 : 3;
                    p.twoPercent = one ? 0 : p.twoPercent;
                    p.clear = 2;
                    p.maxDomain = 100;
                    new HashMachine(x, subject, p).run();
                    break;
                }
                case "deque": SeqProps.deque(x, subject); break;
                case "hydra": SeqProps.hydra(x, subject); break;
                case "vector": SeqProps.vector(x, subject); break;
                case "heap": new HeapProps.Machine(x, subject).run(); break;
                case "array": DataProps.arrays(x, subject); break;
                case "store": DataProps.store(x, subject, false); break;
                case "matrix": DataProps.store(x, subject, true); break;
                case "sort": DataProps.sort(x, subject); break;
                case "bi": new BiProps.Machine(x, subject).run(); break;
                case "type": TypeProps.calls(x, subject); break;
                default: SnowProps.script(x, subject);
            }
        }

        /** Null when it held. */
        String run(final Runnable onOp, final boolean first) {
            final Ctx x = new Ctx(new Src(seed), ALL_TAGS, 0, true, false);
            x.onOp(onOp);
            String failed = null;
            try {
                body(x);
            } catch (Abandon e) {
                failed = "abandoned";
            } catch (Violation e) {
                failed = e.getMessage();
            } catch (ThreadDeath | OutOfMemoryError e) {
                throw e;
            } catch (Throwable e) {
                failed = e + " at " + (e.getStackTrace().length == 0 ? "?" : e.getStackTrace()[0]);
            }
            if (first) {
                alone = x.trace();
            } else {
                together = x.trace();
            }
            return failed;
        }
    }

    private static String subjectOf(final Ctx c, final String kind) {
        switch (kind) {
            case "set": return c.oneOf(HashProps.SETS);
            case "map":
            case "heap":
            case "sort": return c.oneOf(HashProps.MAPS);
            case "type": return c.oneOf(TypeProps.ALL);
            case "bi": return c.oneOf(BiProps.BOTH);
            case "snowflake": return "all";
            default: return c.oneOf(SeqProps.ALL);
        }
    }

    /** Held shared by every case, and exclusively by one whose histories do not hold next to other cases. */
    private static final ReentrantReadWriteLock CASES = new ReentrantReadWriteLock(true);

    private static void isolated(final Ctx c, final String kind, final int how) {
        final int n = 2 + c.weighted(3, 1);
        final Actor[] as = new Actor[n];
        for (int i = 0; i < n; i++) {
            final String k = i == 0 || c.weighted(4, 1) == 0 ? kind : c.oneOf(KINDS);
            final String s = i > 0 && k.equals(kind) && c.weighted(4, 1) == 0 ? as[0].subject : subjectOf(c, k);
            as[i] = new Actor(k, s, c.weighted(4, 1) == 1 && i > 0 ? as[0].seed : c.bits64());
            if (i > 0 && k.equals(kind) && s.equals(as[0].subject)) {
                c.nontrivial();
            }
            c.op("history", k, s, as[i].seed);
        }
        final long order = c.bits64();
        CASES.readLock().lock();
        String failed;
        try {
            failed = alone(as);
            if (failed == null) {
                compare(c, as, how, order);
                return;
            }
        } finally {
            CASES.readLock().unlock();
        }
        CASES.writeLock().lock();
        try {
            if (alone(as) != null) {
                throw Abandon.INSTANCE; // breaks some other property by itself
            }
            compare(c, as, how, order);
            if (!failed.equals("abandoned")) {
                c.fail(-1L, "holds alone, but next to histories in other threads: " + failed.replace("%", "%%"));
            }
        } finally {
            CASES.writeLock().unlock();
        }
    }

    private static String alone(final Actor[] as) {
        for (Actor a : as) {
            final String failed = a.run(null, true);
            if (failed != null) {
                return failed;
            }
        }
        return null;
    }

    private static void compare(final Ctx c, final Actor[] as, final int how, final long order) {
        if (how == WITHIN) {
            within(c, as, new SplittableRandom(order));
            return;
        }
        together(c, as, how == AT_ONCE, new SplittableRandom(order));
        for (int i = 0; i < as.length; i++) {
            same(c, as[i], i);
        }
    }

    private static void same(final Ctx c, final Actor a, final int i) {
        c.that(a.failure == null, "history %s (%s %s) holds alone, but next to the others: " + String.valueOf(a.failure).replace("%", "%%"), i, a.kind, a.subject);
        if (!a.alone.equals(a.together)) {
            int d = 0;
            while (d < a.alone.size() && d < a.together.size() && a.alone.get(d).equals(a.together.get(d))) {
                d++;
            }
            c.fail(-1L, "history %s (%s %s) differs at step %s: alone %s, next to the others %s", i, a.kind, a.subject, d, d < a.alone.size() ? a.alone.get(d) : "end",
                    d < a.together.size() ? a.together.get(d) : "end");
        }
    }

    /** The first history, with whole runs of the others inside its operations and callbacks, in one thread. */
    private static void within(final Ctx c, final Actor[] as, final SplittableRandom rnd) {
        final int[] runs = {0};
        final int den = 1 << rnd.nextInt(6);
        final boolean[] inside = {false};
        as[0].failure = as[0].run(() -> {
            if (!inside[0] && runs[0] < 4 && rnd.nextInt(den) == 0) {
                inside[0] = true;
                runs[0]++;
                final int i = 1 + rnd.nextInt(as.length - 1);
                as[i].failure = as[i].run(null, false);
                same(c, as[i], i);
                inside[0] = false;
            }
        }, false);
        same(c, as[0], 0);
        c.label(runs[0] > 0 ? "nested" : "not nested");
    }

    @SuppressWarnings({"deprecation", "removal"})
    private static void together(final Ctx c, final Actor[] as, final boolean atOnce, final SplittableRandom rnd) {
        final int n = as.length;
        final Semaphore[] turn = new Semaphore[n];
        final boolean[] done = new boolean[n];
        final Thread[] ts = new Thread[n];
        final CyclicBarrier start = new CyclicBarrier(n);
        Arrays.setAll(turn, i -> new Semaphore(0));
        for (int i = 0; i < n; i++) {
            final int me = i;
            ts[i] = new Thread(null, () -> {
                try {
                    if (atOnce) {
                        start.await();
                        as[me].failure = as[me].run(null, false);
                        return;
                    }
                    turn[me].acquire();
                    as[me].failure = as[me].run(() -> {
                        if (rnd.nextInt(3) == 0) {
                            final int to = rnd.nextInt(n);
                            if (to != me && !done[to]) {
                                turn[to].release();
                                turn[me].acquireUninterruptibly();
                            }
                        }
                    }, false);
                } catch (InterruptedException | java.util.concurrent.BrokenBarrierException e) {
                    as[me].failure = e.toString();
                } catch (OutOfMemoryError e) {
                    as[me].failure = "abandoned";
                } finally {
                    done[me] = true;
                    if (!atOnce) {
                        for (int k = 0; k < n; k++) {
                            if (!done[k]) {
                                turn[k].release();
                                break;
                            }
                        }
                    }
                }
            }, "actor" + i, 64L << 20);
            ts[i].setDaemon(true);
            ts[i].start();
        }
        if (!atOnce) {
            turn[0].release();
        }
        try {
            for (int i = 0; i < n; i++) {
                while (true) {
                    ts[i].join(1000);
                    if (!ts[i].isAlive()) {
                        break;
                    }
                    for (Thread t : ts) {
                        if (MX.getThreadCpuTime(t.getId()) > 20_000_000_000L) {
                            for (Thread x : ts) {
                                x.stop();
                            }
                            c.fail(-1L, "a history that finishes alone does not finish next to the others");
                        }
                    }
                }
            }
        } catch (InterruptedException e) {
            for (Thread x : ts) {
                x.stop();
            }
            throw new ThreadDeath();
        }
        for (Actor a : as) {
            if ("abandoned".equals(a.failure) && a.together == null) {
                throw Abandon.INSTANCE;
            }
        }
    }
}
