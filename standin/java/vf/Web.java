package vf;
import com.fasterxml.jackson.databind.*;
import java.lang.annotation.Annotation;
import java.lang.reflect.*;
import java.math.BigDecimal;
import java.nio.charset.StandardCharsets;
import java.util.*;
import javax.ws.rs.*;
import javax.ws.rs.core.*;
import javax.ws.rs.ext.*;

/** Generated servers and clients: a dispatcher of JAX-RS resources, and calls of clients. */
class Web {
    static final ObjectMapper om = new ObjectMapper();
    static { om.times = true; }
    static Throwable root(Throwable t) { while ((t instanceof InvocationTargetException || t instanceof UndeclaredThrowableException) && t.getCause() != null) t = t.getCause(); return t; }
    static Object given(String text, Type t) { try { return om.value(Json.parse(text), t); } catch (Exception e) { throw new RuntimeException("given " + text, e); } }
    /** a request or response with the fields given: [[name, json]] */
    static Object fill(Class<?> c, List<Object> fields) throws Exception {
        Map<String, String> m = new LinkedHashMap<>();
        for (Object x : fields) m.put((String) ((List<?>) x).get(0), (String) ((List<?>) x).get(1));
        return Main.make(c, new ArrayList<>(m.keySet()), (f, t) -> new Object[] { given(m.get(f), t) });
    }
    static List<Object> fieldsOf(Object o) throws Exception {
        List<Object> l = new ArrayList<>();
        for (String f : Main.fieldNames(o.getClass())) {
            Object v = Main.get(o, f);
            l.add(Main.obj("n", f, "z", v == null, "json", v == null ? "null" : Json.write(om.tree(v), -1)));
        }
        return l;
    }
    static List<Object> pairs(List<String[]> q) { List<Object> l = new ArrayList<>(); for (String[] s : q) l.add(Arrays.asList(s[0], s[1])); return l; }

    // ---- the server
    static class Fault extends RuntimeException { final int status; Fault(int s) { status = s; } }
    static List<String> segs(String p) { List<String> l = new ArrayList<>(); for (String s : p.split("/")) if (!s.isEmpty()) l.add(s); return l; }
    static <A extends Annotation> A find(Annotation[] as, Class<A> c) { for (Annotation a : as) if (c.isInstance(a)) return c.cast(a); return null; }
    static Object convert(ClassLoader cl, String provider, Class<?> c, String s, int bad) {
        if (c == String.class) return s;
        try {
            if (!provider.isEmpty()) try {
                ParamConverterProvider p = (ParamConverterProvider) Class.forName(provider, true, cl).getConstructor().newInstance();
                ParamConverter<?> k = p.getConverter(c, c, new Annotation[0]);
                if (k != null) return k.fromString(s);
            } catch (ClassNotFoundException e) { }
            try { return c.getConstructor(String.class).newInstance(s); } catch (NoSuchMethodException e) { }
            for (String n : c.isEnum() ? new String[] { "fromString", "valueOf" } : new String[] { "valueOf", "fromString" })
                try { return c.getMethod(n, String.class).invoke(null, s); } catch (NoSuchMethodException e) { }
        } catch (Exception e) { throw new Fault(bad); }
        throw new RuntimeException("a parameter cannot be of " + c);
    }
    static String first(List<Object> q, String n, boolean fold) { for (Object x : q) { String k = (String) ((List<?>) x).get(0); if (fold ? k.equalsIgnoreCase(n) : k.equals(n)) return (String) ((List<?>) x).get(1); } return null; }

    @SuppressWarnings("unchecked")
    static List<Object> server(ClassLoader cl, Map<String, Object> in) throws Exception {
        Class<?> rc = Class.forName(Main.str(in, "resources"), true, cl);
        String model = Main.str(in, "model"), provider = model + ".Util$InstantConverterProvider";
        boolean service = in.get("service") == Boolean.TRUE;
        Object res = rc.getConstructor().newInstance();
        Map<String, Object>[] answer = new Map[1];
        List<Object> seen = new ArrayList<>();
        for (Field f : rc.getDeclaredFields()) if (f.isAnnotationPresent(javax.inject.Inject.class)) {
            f.setAccessible(true);
            f.set(res, Proxy.newProxyInstance(cl, new Class<?>[] { f.getType() }, (p, m, args) -> {
                seen.add(Main.obj("action", m.getName(), "fields", fieldsOf(args[0])));
                Map<String, Object> a = answer[0];
                switch (Main.str(a, "kind")) {
                case "err": throw new RuntimeException(Main.str(a, "msg"));
                case "exc":
                    Object e = Rs.om.value(Json.parse(Main.str(a, "json")), Class.forName(model + "." + Main.str(a, "type"), true, cl));
                    if (!service) throw (RuntimeException) e;
                    Class<?> se = Class.forName(model + ".ServiceException", true, cl);
                    throw (RuntimeException) se.getMethod("entity", Object.class).invoke(se.getConstructor(String.class).newInstance("se"), e);
                }
                return fill(m.getReturnType(), Main.list(a, "fields"));
            }));
        }
        List<String> base = segs(rc.getAnnotation(Path.class).value());
        List<Object> outs = new ArrayList<>();
        for (Object x : Main.list(in, "calls")) {
            Map<String, Object> c = Main.map(x);
            answer[0] = Main.map(c.get("answer"));
            seen.clear();
            List<Object> path = Main.list(c, "segs");
            String status = "404", body = null;
            List<String[]> headers = new ArrayList<>();
            boolean other = false;
            for (Method m : rc.getMethods()) {
                if (!m.isAnnotationPresent(Path.class)) continue;
                List<String> t = new ArrayList<>(base);
                t.addAll(segs(m.getAnnotation(Path.class).value()));
                Map<String, String> vars = new LinkedHashMap<>();
                boolean ok = t.size() == path.size();
                for (int i = 0; ok && i < t.size(); i++) {
                    if (t.get(i).startsWith("{")) vars.put(t.get(i).substring(1, t.get(i).length() - 1), (String) path.get(i));
                    else ok = t.get(i).equals(path.get(i));
                }
                if (!ok) continue;
                String method = "";
                for (Annotation a : m.getAnnotations()) if (a.annotationType().isAnnotationPresent(HttpMethod.class)) method = a.annotationType().getAnnotation(HttpMethod.class).value();
                if (!method.equals(Main.str(c, "method"))) { other = true; continue; }
                other = false;
                Response r;
                try {
                    Object[] args = new Object[m.getParameterCount()];
                    for (int i = 0; i < args.length; i++) {
                        Annotation[] as = m.getParameterAnnotations()[i];
                        Class<?> pt = m.getParameterTypes()[i];
                        DefaultValue dv = find(as, DefaultValue.class);
                        QueryParam q = find(as, QueryParam.class);
                        HeaderParam h = find(as, HeaderParam.class);
                        PathParam p = find(as, PathParam.class);
                        if (q == null && h == null && p == null) { args[i] = entity(Main.str(c, "body"), c.get("body") != null, m.getGenericParameterTypes()[i]); continue; }
                        String s = q != null ? first(Main.list(c, "query"), q.value(), false) : h != null ? first(Main.list(c, "headers"), h.value(), true) : vars.get(p.value());
                        if (s == null && dv != null) s = dv.value();
                        args[i] = s == null ? null : convert(cl, provider, pt, s, h != null ? 400 : 404);
                    }
                    r = (Response) m.invoke(res, args);
                } catch (Fault f) { r = Response.status(f.status).build(); }
                catch (InvocationTargetException e) {
                    if (e.getCause() instanceof WebApplicationException) r = ((WebApplicationException) e.getCause()).getResponse();
                    else r = Response.status(500).build();
                }
                try {
                    body = Rs.write(r.entity);
                    status = String.valueOf(r.status);
                    for (Map.Entry<String, String> e : r.headers.entrySet()) headers.add(new String[] { e.getKey().toLowerCase(Locale.ROOT), e.getValue() });
                } catch (Exception e) { status = "500 cannot be written: " + e; }
                break;
            }
            if (other) status = "405";
            outs.add(Main.obj("status", status, "headers", pairs(headers), "body", body == null ? List.of() : List.of(body), "seen", new ArrayList<>(seen)));
        }
        return outs;
    }
    static Object entity(String text, boolean there, Type t) {
        if (!there || text.trim().isEmpty()) throw new Fault(400);
        try { return Rs.read(text, t); } catch (Exception e) { throw new Fault(400); }
    }

    // ---- the client
    static List<Object> client(ClassLoader cl, Map<String, Object> in) throws Exception {
        String model = Main.str(in, "model"), pkg = Main.str(in, "pkg");
        Class<?> cc = Class.forName(pkg + "." + Main.str(in, "cls"), true, cl), conf = Class.forName(pkg + ".ClientConfig", true, cl);
        Object client = cc.getConstructor(conf).newInstance(Proxy.newProxyInstance(cl, new Class<?>[] { conf }, (p, m, a) -> Main.str(in, "target")));
        List<Object> outs = new ArrayList<>();
        for (Object x : Main.list(in, "calls")) {
            Map<String, Object> c = Main.map(x), a = Main.map(c.get("answer"));
            List<Object> reqs = new ArrayList<>();
            Rs.transport.set(q -> {
                List<Object> sg = new ArrayList<>();
                String p = q.path.startsWith("/") ? q.path.substring(1) : q.path;
                for (String s : p.split("/", -1)) sg.add(java.net.URLDecoder.decode(s, StandardCharsets.UTF_8));
                reqs.add(Main.obj("method", q.method, "segs", sg, "query", pairs(q.query), "headers", pairs(q.headers), "body", q.body == null ? List.of() : List.of(q.body)));
                Response r = Response.status(Integer.parseInt(Main.str(a, "status"))).build();
                for (Object h : Main.list(a, "headers")) r.headers.put((String) ((List<?>) h).get(0), (String) ((List<?>) h).get(1));
                r.text = (String) a.get("body");
                return r;
            });
            String action = Main.str(c, "action");
            Method m = null;
            for (Method k : cc.getMethods()) if (k.getName().equals(action) && k.getParameterCount() == 1) m = k;
            Map<String, Object> o = Main.obj("kind", "ok", "type", "", "fields", List.of(), "json", "null", "msg", "");
            if (m == null) { o.put("kind", "no method"); outs.add(Main.obj("reqs", reqs, "res", o)); continue; }
            Object req = fill(m.getParameterTypes()[0], Main.list(c, "fields"));
            try {
                Object r = m.invoke(client, req);
                if (r == null) o.put("kind", "nothing"); else o.put("fields", fieldsOf(r));
            } catch (InvocationTargetException e) {
                Throwable t = e.getCause();
                o.put("kind", "err");
                o.put("msg", String.valueOf(t));
                if (t.getClass().getName().equals(model + ".ServiceException")) { Object en = t.getClass().getField("entity").get(t); if (en != null) { o.put("kind", "exc"); o.put("type", en.getClass().getSimpleName()); o.put("json", Main.json(en)); } }
                else if (t.getClass().getClassLoader() == cl) { o.put("kind", "exc"); o.put("type", t.getClass().getSimpleName()); o.put("json", Main.json(t)); }
            }
            outs.add(Main.obj("reqs", reqs, "res", o));
        }
        return outs;
    }
}
