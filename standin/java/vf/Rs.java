package vf;
import com.fasterxml.jackson.databind.*;
import java.lang.reflect.Type;
import java.util.*;
import javax.ws.rs.client.*;
import javax.ws.rs.core.Response;

/** Message bodies as Jersey with its Jackson feature has them, and a client whose transport is the case's. */
public class Rs {
    public static final ObjectMapper om = new ObjectMapper();
    public static Object read(String text, Type t) {
        if (t == String.class) return text;
        if (t == byte[].class) return text.getBytes(java.nio.charset.StandardCharsets.UTF_8);
        if (text.trim().isEmpty()) { if (t == Void.class) return null; throw new RuntimeException("no content"); }
        try { return om.value(Json.parse(text), t); } catch (Exception e) { throw new RuntimeException(e); }
    }
    public static String write(Object o) {
        if (o == null) return null;
        if (o instanceof String) return (String) o;
        if (o instanceof byte[]) return new String((byte[]) o, java.nio.charset.StandardCharsets.UTF_8);
        try { return Json.write(om.tree(o), -1); } catch (Exception e) { throw new RuntimeException(e); }
    }

    public static class Request {
        public String method, path = "", body, type;
        public final List<String[]> query = new ArrayList<>(), headers = new ArrayList<>();
    }
    public interface Transport { Response send(Request r); }
    public static final ThreadLocal<Transport> transport = new ThreadLocal<>();

    static String encode(String s, boolean slash) {
        StringBuilder b = new StringBuilder();
        for (byte c : s.getBytes(java.nio.charset.StandardCharsets.UTF_8)) {
            char d = (char) (c & 0xff);
            if ((d < 128 && Character.isLetterOrDigit(d)) || "-._~".indexOf(d) >= 0 || (d == '/' && !slash)) b.append(d);
            else b.append(String.format("%%%02X", (int) d));
        }
        return b.toString();
    }
    static String text(Object v) { return v.toString(); }

    private static class Target implements WebTarget {
        final String base, path; final Map<String, String> vars; final List<String[]> query;
        Target(String base, String path, Map<String, String> vars, List<String[]> query) { this.base = base; this.path = path; this.vars = vars; this.query = query; }
        public WebTarget path(String p) {
            String l = path.endsWith("/") ? path.substring(0, path.length() - 1) : path;
            return new Target(base, p.isEmpty() ? path : l + (p.startsWith("/") ? p : "/" + p), vars, query);
        }
        public WebTarget resolveTemplate(String n, Object v) { return resolveTemplate(n, v, true); }
        public WebTarget resolveTemplate(String n, Object v, boolean slash) {
            if (v == null) throw new NullPointerException("template " + n);
            Map<String, String> m = new LinkedHashMap<>(vars);
            m.put(n, encode(text(v), slash));
            return new Target(base, path, m, query);
        }
        public WebTarget queryParam(String n, Object... v) {
            List<String[]> q = new ArrayList<>(query);
            if (v == null || (v.length == 1 && v[0] == null)) q.removeIf(x -> x[0].equals(n));
            else for (Object o : v) q.add(new String[] { n, text(o) });
            return new Target(base, path, vars, q);
        }
        public Invocation.Builder request(String... types) {
            Request r = new Request();
            java.util.regex.Matcher m = java.util.regex.Pattern.compile("\\{([^}]*)\\}").matcher(path);
            StringBuilder b = new StringBuilder();
            int at = 0;
            while (m.find()) {
                String v = vars.get(m.group(1));
                if (v == null) throw new IllegalStateException("unresolved " + m.group());
                b.append(path, at, m.start()).append(v);
                at = m.end();
            }
            b.append(path.substring(at));
            r.path = b.toString();
            r.query.addAll(query);
            return new Builder(r);
        }
        public Invocation.Builder request() { return request(new String[0]); }
    }
    private static class Builder implements Invocation.Builder {
        final Request r;
        Builder(Request r) { this.r = r; }
        public Invocation.Builder header(String n, Object v) {
            if (v == null) r.headers.removeIf(x -> x[0].equalsIgnoreCase(n));
            else r.headers.add(new String[] { n.toLowerCase(Locale.ROOT), text(v) });
            return this;
        }
        public Invocation.Builder accept(String... t) { return this; }
        public Response get() { return method("GET"); }
        public Response delete() { return method("DELETE"); }
        public Response head() { return method("HEAD"); }
        public Response options() { return method("OPTIONS"); }
        public Response put(Entity<?> e) { return method("PUT", e); }
        public Response post(Entity<?> e) { return method("POST", e); }
        public Response method(String m) { return method(m, null); }
        public Response method(String m, Entity<?> e) {
            r.method = m;
            if (e != null && e.getEntity() != null) {
                r.body = write(e.getEntity());
                r.type = e.type;
                r.headers.removeIf(x -> x[0].equals("content-type"));
                r.headers.add(new String[] { "content-type", e.type });
            }
            return transport.get().send(r);
        }
    }
    public static Client client() {
        return new Client() {
            public WebTarget target(String uri) {
                String p = uri.replaceFirst("^https?://[^/]*", "");
                return new Target(uri, p, new LinkedHashMap<>(), new ArrayList<>());
            }
            public void close() { }
        };
    }
}
