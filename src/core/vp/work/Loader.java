package vp.work;

import java.io.IOException;
import java.io.InputStream;
import java.util.HashSet;
import java.util.Set;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;

/** Loads the harness and the collections anew, the collections with calls that count their work. */
public final class Loader extends ClassLoader implements Opcodes {
    private static final String WORK = "vp/work/Work";

    public Loader() {
        super(Loader.class.getClassLoader());
    }

    @Override
    protected Class<?> loadClass(final String name, final boolean resolve) throws ClassNotFoundException {
        final boolean subject = name.startsWith("com.bytefacets.");
        if (!subject && (!name.startsWith("vp.") || name.startsWith("vp.work."))) {
            return super.loadClass(name, resolve);
        }
        synchronized (getClassLoadingLock(name)) {
            Class<?> c = findLoadedClass(name);
            if (c == null) {
                final byte[] b;
                try (InputStream in = getParent().getResourceAsStream(name.replace('.', '/') + ".class")) {
                    if (in == null) {
                        throw new ClassNotFoundException(name);
                    }
                    b = subject ? counted(in.readAllBytes()) : in.readAllBytes();
                } catch (IOException e) {
                    throw new ClassNotFoundException(name, e);
                }
                c = defineClass(name, b, 0, b.length);
            }
            if (resolve) {
                resolveClass(c);
            }
            return c;
        }
    }

    static byte[] counted(final byte[] code) {
        final ClassReader r = new ClassReader(code);
        final ClassWriter w = new ClassWriter(r, ClassWriter.COMPUTE_MAXS);
        r.accept(new ClassVisitor(ASM9, w) {
            @Override
            public MethodVisitor visitMethod(final int access, final String n, final String d, final String s, final String[] x) {
                return new Counting(super.visitMethod(access, n, d, s, x));
            }
        }, 0);
        return w.toByteArray();
    }

    private static final class Counting extends MethodVisitor {
        private final Set<Label> seen = new HashSet<>();

        Counting(final MethodVisitor m) {
            super(ASM9, m);
        }

        private void call(final String name, final String desc) {
            super.visitMethodInsn(INVOKESTATIC, WORK, name, desc, false);
        }

        @Override
        public void visitCode() {
            super.visitCode();
            call("tick", "()V");
        }

        @Override
        public void visitLabel(final Label l) {
            seen.add(l);
            super.visitLabel(l);
        }

        @Override
        public void visitJumpInsn(final int op, final Label l) {
            if (seen.contains(l)) { // backwards: a round of a loop
                call("tick", "()V");
            }
            super.visitJumpInsn(op, l);
        }

        @Override
        public void visitIntInsn(final int op, final int operand) {
            if (op == NEWARRAY) {
                super.visitInsn(DUP);
                call("add", "(I)V");
            }
            super.visitIntInsn(op, operand);
        }

        @Override
        public void visitTypeInsn(final int op, final String type) {
            if (op == ANEWARRAY) {
                super.visitInsn(DUP);
                call("add", "(I)V");
            }
            super.visitTypeInsn(op, type);
        }

        @Override
        public void visitMethodInsn(final int op, final String owner, final String name, final String desc, final boolean itf) {
            final boolean arrays = owner.equals("java/util/Arrays");
            if (owner.equals("java/lang/System") && name.equals("arraycopy") || arrays && name.equals("fill")) {
                call(name, desc);
                return;
            }
            super.visitMethodInsn(op, owner, name, desc, itf);
            if (arrays && name.startsWith("copyOf") || name.equals("clone") && owner.startsWith("[")
                    || owner.equals("java/lang/reflect/Array") && name.equals("newInstance")) {
                super.visitInsn(DUP);
                call("len", "(Ljava/lang/Object;)V");
            }
        }
    }
}
