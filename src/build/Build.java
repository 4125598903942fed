import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import javax.tools.*;

/**
 * Build REPO WORK LIBDIR SRCDIR FAMILY... : renders the repository's templates and the harness's adapter
 * templates of the named families with the same renderer, and compiles repository + harness into WORK/classes.
 */
public final class Build {
    static final String[] EXCLUDED = {
        "BoolIndexedCollection.java", "BaseBoolHeap.java", "BaseBoolIndex.java", "BoolIndexedSet.java",
        "BoolSetAdapter.java"};

    public static void main(String[] a) throws Exception {
        Path repo = Path.of(a[0]), work = Path.of(a[1]), lib = Path.of(a[2]), src = Path.of(a[3]);
        List<String> fams = List.of(a).subList(4, a.length);
        Path gen = work.resolve("gen"), gen2 = work.resolve("gen2"), classes = work.resolve("classes");
        Files.createDirectories(classes);
        generate(repo.resolve("collections/src/main/templates"), gen);
        List<Path> files = new ArrayList<>();
        add(files, gen);
        add(files, repo.resolve("collections/src/main/java"));
        files.removeIf(p -> p.endsWith("module-info.java"));
        add(files, src.resolve("core"));
        for (String f : fams) {
            Path out = gen2.resolve(f);
            generate(src.resolve("sut").resolve(f), out);
            add(files, out);
        }
        String cp = list(lib).filter(p -> p.toString().endsWith(".jar")).map(Path::toString)
                .collect(Collectors.joining(":"));
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        StandardJavaFileManager fm = jc.getStandardFileManager(null, null, null);
        List<String> opts = List.of("-nowarn", "-proc:none", "-XDignore.symbol.file", "-g", "--release", "17",
                "-encoding", "UTF-8", "-d", classes.toString(), "-cp", cp);
        boolean ok = jc.getTask(null, fm, null, opts, null, fm.getJavaFileObjectsFromPaths(files)).call();
        if (!ok) {
            System.err.println("BUILD FAILED");
            System.exit(2);
        }
    }

    static void generate(Path templates, Path out) throws Exception {
        List<String> args = new ArrayList<>(List.of(templates.toString(), out.toString()));
        args.addAll(List.of(EXCLUDED));
        Generate.main(args.toArray(new String[0]));
    }

    static Stream<Path> list(Path dir) throws Exception {
        try (Stream<Path> s = Files.walk(dir)) {
            return s.filter(Files::isRegularFile).sorted().toList().stream();
        }
    }

    static void add(List<Path> files, Path dir) throws Exception {
        list(dir).filter(p -> p.toString().endsWith(".java")).forEach(files::add);
    }
}
