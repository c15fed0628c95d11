package vf;
import com.fasterxml.jackson.databind.*;
import java.io.*;
import java.lang.annotation.Annotation;
import java.lang.reflect.*;
import java.math.BigDecimal;
import java.net.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.stream.*;
import javax.tools.*;
import javax.validation.constraints.*;

/** Compiles the generated code of each case, describes its classes, and runs what the case asks: jobs.json -> outs.json */
public class Main {
    @SuppressWarnings("unchecked")
    public static void main(String[] args) throws Exception {
        Map<String, Object> job = (Map<String, Object>) Json.parse(new String(Files.readAllBytes(Paths.get(args[0])), StandardCharsets.UTF_8));
        List<Object> cases = (List<Object>) job.get("cases");
        PrintStream err = System.err;
        System.setErr(new PrintStream(OutputStream.nullOutputStream()));
        ExecutorService pool = Executors.newFixedThreadPool(Math.min(8, Runtime.getRuntime().availableProcessors()));
        List<Future<Map<String, Object>>> fs = new ArrayList<>();
        for (Object c : cases) fs.add(pool.submit(() -> run((Map<String, Object>) c)));
        List<Object> outs = new ArrayList<>();
        for (Future<Map<String, Object>> f : fs) {
            try { outs.add(f.get(120, TimeUnit.SECONDS)); }
            catch (TimeoutException e) { outs.add(new LinkedHashMap<>(Map.of("st", "hang"))); }
            catch (ExecutionException e) { outs.add(new LinkedHashMap<>(Map.of("st", "driver", "msg", trace(e.getCause())))); }
        }
        Files.write(Paths.get(args[1]), Json.write(outs, -1).getBytes(StandardCharsets.UTF_8));
        System.exit(0);
    }
    static String trace(Throwable t) { StringWriter w = new StringWriter(); t.printStackTrace(new PrintWriter(w)); return w.toString(); }
    static Map<String, Object> obj(Object... kv) { Map<String, Object> m = new LinkedHashMap<>(); for (int i = 0; i < kv.length; i += 2) m.put((String) kv[i], kv[i + 1]); return m; }
    @SuppressWarnings("unchecked") static List<Object> list(Map<String, Object> m, String k) { Object o = m.get(k); return o == null ? new ArrayList<>() : (List<Object>) o; }
    @SuppressWarnings("unchecked") static Map<String, Object> map(Object o) { return (Map<String, Object>) o; }
    static String str(Map<String, Object> m, String k) { Object o = m.get(k); return o == null ? "" : (String) o; }

    static final JavaCompiler javac = ToolProvider.getSystemJavaCompiler();
    static Map<String, Object> run(Map<String, Object> c) throws Exception {
        Path dir = Paths.get(str(c, "dir")), out = Paths.get(str(c, "out"));
        Files.createDirectories(out);
        List<File> files;
        try (Stream<Path> s = Files.walk(dir)) { files = s.filter(p -> p.toString().endsWith(".java")).map(Path::toFile).sorted().collect(Collectors.toList()); }
        DiagnosticCollector<JavaFileObject> diags = new DiagnosticCollector<>();
        try (StandardJavaFileManager fm = javac.getStandardFileManager(diags, null, StandardCharsets.UTF_8)) {
            boolean ok = files.isEmpty() || javac.getTask(new StringWriter(), fm, diags, Arrays.asList("-proc:none", "-nowarn", "-Xlint:none", "-d", out.toString(), "-cp", System.getProperty("java.class.path")), null, fm.getJavaFileObjectsFromFiles(files)).call();
            if (!ok) {
                String msg = "";
                for (Diagnostic<? extends JavaFileObject> d : diags.getDiagnostics())
                    if (d.getKind() == Diagnostic.Kind.ERROR && msg.isEmpty()) msg = (d.getSource() == null ? "" : d.getSource().getName().replaceAll(".*/", "")) + ":" + d.getLineNumber() + ": " + d.getMessage(null);
                return obj("st", "does not compile", "msg", msg);
            }
        }
        try (URLClassLoader cl = new URLClassLoader(new URL[] { out.toUri().toURL() }, Main.class.getClassLoader())) {
            Map<String, Object> r = obj("st", "ok");
            List<Object> cs = new ArrayList<>();
            for (Object n : list(c, "classes")) cs.add(describe(cl, (String) n));
            r.put("classes", cs);
            List<Object> ps = new ArrayList<>();
            for (Object p : list(c, "probes")) ps.add(probe(cl, map(p)));
            r.put("results", ps);
            if (c.containsKey("server")) r.put("calls", Web.server(cl, map(c.get("server"))));
            if (c.containsKey("client")) r.put("calls", Web.client(cl, map(c.get("client"))));
            return r;
        }
    }

    // ---- declarations
    static String name(Type t) {
        if (t instanceof ParameterizedType) return name(((ParameterizedType) t).getRawType()) + "<" + Arrays.stream(((ParameterizedType) t).getActualTypeArguments()).map(Main::name).collect(Collectors.joining(",")) + ">";
        if (t instanceof Class) {
            Class<?> c = (Class<?>) t;
            if (c.isArray()) return name(c.getComponentType()) + "[]";
            return c.getEnclosingClass() == null ? c.getSimpleName() : name(c.getEnclosingClass()) + "." + c.getSimpleName();
        }
        return t.toString();
    }
    static List<Object> rules(AnnotatedElement e) {
        List<Object> l = new ArrayList<>();
        if (e.isAnnotationPresent(NotNull.class)) l.add("notnull");
        Pattern p = e.getAnnotation(Pattern.class);
        if (p != null) l.add("pattern " + p.regexp());
        Size s = e.getAnnotation(Size.class);
        if (s != null) { if (s.min() > 0) l.add("minsize " + s.min()); if (s.max() < Integer.MAX_VALUE) l.add("maxsize " + s.max()); }
        Min m = e.getAnnotation(Min.class);
        if (m != null) l.add("min " + m.value());
        Max x = e.getAnnotation(Max.class);
        if (x != null) l.add("max " + x.value());
        DecimalMin dm = e.getAnnotation(DecimalMin.class);
        if (dm != null) l.add("min " + new BigDecimal(dm.value()).stripTrailingZeros().toPlainString());
        DecimalMax dx = e.getAnnotation(DecimalMax.class);
        if (dx != null) l.add("max " + new BigDecimal(dx.value()).stripTrailingZeros().toPlainString());
        return l;
    }
    static Map<String, Object> describe(ClassLoader cl, String n) {
        Class<?> c;
        try { c = Class.forName(n, true, cl); } catch (Throwable t) { return obj("name", n.replaceAll(".*[.]", ""), "kind", "none", "exc", false, "fields", List.of(), "consts", List.of(), "methods", List.of()); }
        List<Object> fields = new ArrayList<>(), consts = new ArrayList<>(), methods = new ArrayList<>();
        String kind = c.isEnum() ? "enum" : c.isInterface() ? "interface" : "class";
        if (c.isEnum()) {
            for (Object e : c.getEnumConstants()) {
                String again = "";
                try { again = ((Enum<?>) c.getMethod("fromString", String.class).invoke(null, e.toString())).name(); } catch (Exception x) { again = "cannot be read"; }
                consts.add(Arrays.asList(((Enum<?>) e).name(), e.toString(), again));
            }
            try { c.getMethod("fromString", String.class).invoke(null, "no such!"); consts.add(Arrays.asList("reads anything")); }
            catch (InvocationTargetException x) { if (!(x.getCause() instanceof IllegalArgumentException)) consts.add(Arrays.asList("raises", x.getCause().toString())); }
            catch (Exception x) { consts.add(Arrays.asList("raises", x.toString())); }
        } else if (c.isInterface()) {
            for (Method m : c.getMethods()) methods.add(obj("n", m.getName(), "in", Arrays.stream(m.getGenericParameterTypes()).map(Main::name).collect(Collectors.toList()), "out", name(m.getGenericReturnType())));
        } else {
            for (Field f : c.getDeclaredFields()) {
                if (Modifier.isStatic(f.getModifiers()) || f.isSynthetic()) continue;
                String access = Modifier.isPublic(f.getModifiers()) ? "public" : Modifier.isPrivate(f.getModifiers()) ? "private" : "other";
                fields.add(obj("n", f.getName(), "t", name(f.getGenericType()), "acc", access + (Modifier.isFinal(f.getModifiers()) ? " final" : ""), "rules", rules(f)));
            }
            try { for (Object e : Class.forName(n + "$Variant", true, cl).getEnumConstants()) consts.add(Arrays.asList(((Enum<?>) e).name())); } catch (Throwable t) { }
        }
        return obj("name", c.getSimpleName(), "kind", kind, "exc", RuntimeException.class.isAssignableFrom(c), "fields", fields, "consts", consts, "methods", methods);
    }

    // ---- values
    static String cap(String s) { return s.substring(0, 1).toUpperCase(Locale.ROOT) + s.substring(1); }
    static Method one(Class<?> c, String n) {
        for (Method m : c.getMethods()) if (m.getName().equals(n) && m.getParameterCount() == 1) { m.setAccessible(true); return m; }
        throw new RuntimeException("no method " + n + " of " + c);
    }
    static Object get(Object o, String f) throws Exception {
        try { Method m = o.getClass().getMethod("get" + cap(f)); m.setAccessible(true); return m.invoke(o); } catch (NoSuchMethodException e) { return o.getClass().getField(f).get(o); }
    }
    /** an object of a generated class in the way its users make one: set is given the name of each field and tells whether there is a value */
    static Object make(Class<?> c, List<String> fields, java.util.function.BiFunction<String, Type, Object[]> value) throws Exception {
        boolean built = true;
        Object b;
        try { b = c.getMethod("builder").invoke(null); } catch (NoSuchMethodException e) { b = c.getConstructor().newInstance(); built = false; }
        for (String f : fields) {
            Method m = one(b.getClass(), f);
            Object[] v = value.apply(f, m.getGenericParameterTypes()[0]);
            if (v != null) b = m.invoke(b, v);
        }
        return built ? b.getClass().getMethod("build").invoke(b) : b;
    }
    static String json(Object o) throws Exception { return Json.write(Rs.om.tree(o), -1); }
    static List<String> fieldNames(Class<?> c) { return Arrays.stream(c.getDeclaredFields()).filter(f -> !Modifier.isStatic(f.getModifiers()) && !f.isSynthetic()).map(Field::getName).collect(Collectors.toList()); }
    static Object unchecked(Callable<Object> c) { try { return c.call(); } catch (Exception e) { throw new RuntimeException(e); } }
    static Map<String, Object> probe(ClassLoader cl, Map<String, Object> p) {
        String text = str(p, "text"), kind = str(p, "kind");
        String at = "";
        try {
            Class<?> c = Class.forName(str(p, "cls"), true, cl);
            Object o, w;
            try { o = Rs.om.value(Json.parse(text), c); } catch (Exception e) { return obj("st", "cannot be read", "msg", String.valueOf(e.getMessage())); }
            try { w = json(o); } catch (Exception e) { return obj("st", "cannot be written", "msg", String.valueOf(e.getMessage())); }
            Map<String, Object> r = obj("st", "ok", "json", w, "variant", "", "copies", "same");
            if (kind.equals("Struct")) {
                at = "setters";
                List<String> fs = fieldNames(c);
                Object k = make(c, fs, (f, t) -> new Object[] { unchecked(() -> get(o, f)) });
                if (!json(k).equals(w)) r.put("copies", "setters: " + json(k));
                try {
                    Object b = c.getMethod("toBuilder").invoke(o);
                    at = "toBuilder";
                    k = b.getClass().getMethod("build").invoke(b);
                    if (!json(k).equals(w)) r.put("copies", "toBuilder: " + json(k));
                } catch (NoSuchMethodException e) { r.put("copies", r.get("copies") + ", no builder"); }
            } else if (kind.equals("Union")) {
                at = "variant";
                Object v = c.getField("variant").get(o);
                r.put("variant", v == null ? "" : ((Enum<?>) v).name());
                if (v != null) {
                    Object k = one(c, "of" + cap(((Enum<?>) v).name())).invoke(null, c.getField(((Enum<?>) v).name()).get(o));
                    if (!json(k).equals(w)) r.put("copies", "of: " + json(k));
                    Object v2 = c.getField("variant").get(k);
                    if (v2 != v) r.put("copies", "of: variant " + v2);
                }
            } else if (kind.equals("UnitValue")) {
                at = "unit";
                Object k = null;
                for (Constructor<?> x : c.getConstructors()) if (x.getParameterCount() == 2) k = x.newInstance(c.getField("value").get(o), c.getField("unit").get(o));
                if (!json(k).equals(w)) r.put("copies", "parts: " + json(k));
                if (!o.toString().equals(Json.parse((String) w))) r.put("copies", "text: " + o);
            }
            r.put("text", kind.equals("Struct") || kind.equals("Union") ? String.valueOf(o) : "");
            return r;
        } catch (Throwable t) {
            Throwable u = t;
            while (u.getCause() != null && u.getCause() != u) u = u.getCause();
            return obj("st", "fails", "msg", at + ": " + u);
        }
    }
}
