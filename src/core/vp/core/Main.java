package vp.core;

import java.nio.file.Files;
import java.nio.file.Path;
import java.util.Map;

/** Main PROPERTY TIER EVIDENCE_DIR [REPLAY]. */
public final class Main {
    public static void main(final String[] a) throws Exception {
        final String id = a[0];
        if (id.equals("C47") && !(Main.class.getClassLoader() instanceof vp.work.Loader)) { // again, with the collections' work counted
            new vp.work.Loader().loadClass("vp.core.Main").getMethod("main", String[].class).invoke(null, (Object) a);
            return;
        }
        boolean thorough = a[1].equals("thorough");
        final Path evidence = Path.of(a[2]);
        final String env = System.getenv("VERIF_SEED");
        long seed = 1;
        if (env != null && !env.isEmpty()) {
            try {
                seed = Long.parseLong(env.trim());
            } catch (NumberFormatException e) {
                seed = env.hashCode();
            }
        }
        Path replay = null;
        if (a.length > 3) {
            replay = Path.of(a[3]);
            final Map<?, ?> m = (Map<?, ?>) Json.read(Files.readString(replay));
            thorough = m.get("tier").equals("thorough");
            seed = (Long) m.get("seed");
        }
        final Prop p = vp.props.Registry.get(id);
        final Runner r = new Runner(p, thorough, seed, Double.parseDouble(System.getProperty("vp.scale", "1")));
        final int rc = replay != null ? r.replay(replay) : r.run(evidence);
        System.out.flush();
        Runtime.getRuntime().halt(rc);
    }
}
