package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	. "verif/harness/kit"
)

// Generated Go servers and clients, run over loopback.  A server is given HTTP
// requests, and an implementation that tells what it was called with and answers
// what the case says; a client calls an HTTP server that does the same.

func goConfOf(in J, key string) bool {
	for _, x := range List(in, "conf") {
		if p := x.([]interface{}); p[0] == key {
			return p[1] == "true" || p[1] == true
		}
	}
	return false
}

func goHttpRegistry(c *goCase, files map[string]string) error {
	server, client := goConfOf(c.in, "server"), goConfOf(c.in, "client")
	b := &strings.Builder{}
	fmt.Fprintf(b, "package %s\n\nimport \"reflect\"\n", c.pkg)
	if server {
		b.WriteString("import \"net/http\"\n")
	}
	b.WriteString("\nvar VfTypes = map[string]reflect.Type{\n")
	typ := func(n string) { fmt.Fprintf(b, "%q: reflect.TypeOf((*%s)(nil)).Elem(),\n", n, n) }
	for _, t := range typeList(c.in) {
		typ(Str(t, "name"))
	}
	acts := []string{}
	for _, h := range List(Sub(c.in, "schema"), "http") {
		n := capName(Str(h.(J), "name"))
		typ(n + "Request")
		typ(n + "Response")
		acts = append(acts, n)
	}
	b.WriteString("}\n\n")
	if server {
		b.WriteString("type vfImpl struct {\n\tf func(action string, req interface{}) (interface{}, error)\n}\n\n")
		for _, n := range acts {
			fmt.Fprintf(b, "func (i *vfImpl) %s(req *%sRequest) (*%sResponse, error) {\n\tr, err := i.f(%q, req)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn r.(*%sResponse), nil\n}\n\n", n, n, n, n, n)
		}
		b.WriteString("func VfServer(base string, f func(action string, req interface{}) (interface{}, error)) http.Handler {\n\treturn InitServer(&vfImpl{f}, base)\n}\n\n")
	}
	if client {
		b.WriteString("func VfCall(target, action string, req interface{}) (interface{}, error) {\n\tc, err := NewClient(target)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tswitch action {\n")
		for _, n := range acts {
			fmt.Fprintf(b, "\tcase %q:\n\t\treturn c.%s(req.(*%sRequest))\n", n, n, n)
		}
		b.WriteString("\t}\n\tpanic(action)\n}\n")
	}
	return os.WriteFile(filepath.Join(c.dir, "zz_vf.go"), []byte(b.String()), 0644)
}

const goHttpProg = `
type impl = func(action string, req interface{}) (interface{}, error)

type side struct {
	server func(base string, f impl) http.Handler
	client func(target, action string, req interface{}) (interface{}, error)
}

var sides = []side{
%s}

func list(v J, k string) []interface{} { l, _ := v[k].([]interface{}); return l }
func str(v J, k string) string         { s, _ := v[k].(string); return s }

// the fields of a request or response: unset, or what they write as JSON
func fieldsOf(v interface{}) []interface{} {
	r := []interface{}{}
	rv := reflect.ValueOf(v).Elem()
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		o := J{"n": rv.Type().Field(i).Name, "z": f.IsZero(), "v": J{"k": "null"}}
		if !f.IsZero() {
			w, err := encoded(f.Interface())
			if err != nil {
				w = J{"k": "cannot be written"}
			}
			o["v"] = w
		}
		r = append(r, o)
	}
	return r
}

// sets the fields that the case gives values
func fill(t reflect.Type, fields []interface{}) interface{} {
	v := reflect.New(t)
	for _, x := range fields {
		p := x.(J)
		n := str(p, "n")
		f := v.Elem().FieldByName(string(n[0]&^0x20) + n[1:])
		if err := json.Unmarshal([]byte(text(p["v"].(J))), f.Addr().Interface()); err != nil {
			panic(err)
		}
	}
	return v.Interface()
}

func content(b []byte) []interface{} {
	if len(bytes.TrimSpace(b)) == 0 {
		return []interface{}{}
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil || d.More() {
		return []interface{}{J{"k": "raw"}}
	}
	return []interface{}{abs(x)}
}

func bodyText(l []interface{}) string {
	if len(l) == 0 {
		return ""
	}
	if v := l[0].(J); v["k"] != "raw" {
		return text(v)
	}
	return "{nope"
}

func headerList(h http.Header) []interface{} {
	r := []interface{}{}
	for k, v := range h {
		r = append(r, []interface{}{strings.ToLower(k), strings.Join(v, "|")})
	}
	return r
}

func queryList(q url.Values) []interface{} {
	r := []interface{}{}
	for k, v := range q {
		for _, x := range v {
			r = append(r, []interface{}{k, x})
		}
	}
	return r
}

func segments(p string) []interface{} {
	r := []interface{}{}
	for _, s := range strings.Split(strings.TrimPrefix(p, "/"), "/") {
		u, err := url.PathUnescape(s)
		if err != nil {
			u = "?" + s
		}
		r = append(r, u)
	}
	return r
}

func performServer(p *pkg, sd *side, in J) J {
	var answer J
	seen := []interface{}{}
	f := func(action string, req interface{}) (interface{}, error) {
		seen = append(seen, J{"action": action, "fields": fieldsOf(req)})
		switch str(answer, "kind") {
		case "err":
			return nil, errors.New(str(answer, "msg"))
		case "exc":
			v := reflect.New(p.types[str(answer, "type")])
			if err := json.Unmarshal([]byte(text(answer["v"].(J))), v.Interface()); err != nil {
				panic(err)
			}
			return nil, v.Interface().(error)
		}
		return fill(p.types[action+"Response"], list(answer, "fields")), nil
	}
	srv := httptest.NewUnstartedServer(nil)
	srv.Config.ErrorLog = log.New(io.Discard, "", 0)
	srv.Config.Handler = sd.server("http://localhost:8080"+str(in, "base"), f)
	srv.Start()
	defer srv.Close()
	tr := &http.Transport{DisableKeepAlives: true}
	client := &http.Client{Transport: tr, Timeout: 20 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	outs := []interface{}{}
	for _, x := range list(in, "calls") {
		call := x.(J)
		answer, seen = call["answer"].(J), []interface{}{}
		u := srv.URL
		for _, s := range list(call, "segs") {
			u += "/" + url.PathEscape(s.(string))
		}
		q := url.Values{}
		for _, kv := range list(call, "query") {
			q.Add(kv.([]interface{})[0].(string), kv.([]interface{})[1].(string))
		}
		if len(q) > 0 {
			u += "?" + q.Encode()
		}
		var body io.Reader
		if b := list(call, "body"); len(b) > 0 {
			body = strings.NewReader(bodyText(b))
		}
		req, err := http.NewRequest(str(call, "method"), u, body)
		if err != nil {
			panic(err)
		}
		if body != nil {
			req.Header.Set("Content-Type", "application/json")
		}
		for _, kv := range list(call, "headers") {
			req.Header.Set(kv.([]interface{})[0].(string), kv.([]interface{})[1].(string))
		}
		res, err := client.Do(req)
		if err != nil {
			outs = append(outs, J{"status": "none", "headers": []interface{}{}, "body": []interface{}{}, "seen": seen})
			continue
		}
		b, _ := io.ReadAll(res.Body)
		res.Body.Close()
		outs = append(outs, J{"status": fmt.Sprint(res.StatusCode), "headers": headerList(res.Header), "body": content(b), "seen": seen})
	}
	return J{"calls": outs}
}

func performClient(p *pkg, sd *side, in J) J {
	var answer J
	reqs := []interface{}{}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		reqs = append(reqs, J{"method": r.Method, "segs": segments(r.URL.EscapedPath()), "query": queryList(r.URL.Query()), "headers": headerList(r.Header), "body": content(b)})
		for _, kv := range list(answer, "headers") {
			w.Header().Set(kv.([]interface{})[0].(string), kv.([]interface{})[1].(string))
		}
		w.Header().Set("Connection", "close")
		st, _ := strconv.Atoi(str(answer, "status"))
		w.WriteHeader(st)
		io.WriteString(w, bodyText(list(answer, "body")))
	}))
	defer srv.Close()
	http.DefaultClient.Timeout = 20 * time.Second
	outs := []interface{}{}
	for _, x := range list(in, "calls") {
		call := x.(J)
		answer, reqs = call["answer"].(J), []interface{}{}
		action := str(call, "action")
		action = strings.ToUpper(action[:1]) + action[1:]
		req := fill(p.types[action+"Request"], list(call, "fields"))
		res, err := sd.client(srv.URL+str(in, "base"), action, req)
		o := J{"kind": "ok", "type": "", "fields": []interface{}{}, "v": J{"k": "null"}}
		if err != nil {
			o["kind"] = "err"
			t := reflect.TypeOf(err)
			for n, pt := range p.types {
				if t == reflect.PtrTo(pt) && pt.Name() == n {
					o["kind"], o["type"] = "exc", n
					if w, e := encoded(err); e == nil {
						o["v"] = w
					}
				}
			}
		} else if rv := reflect.ValueOf(res); !rv.IsValid() || rv.IsNil() {
			o["kind"] = "nothing"
		} else {
			o["fields"] = fieldsOf(res)
		}
		outs = append(outs, J{"reqs": reqs, "res": o})
	}
	return J{"calls": outs}
}

func perform(p *pkg, in J) J {
	var sd *side
	for i := range pkgs {
		if &pkgs[i] == p {
			sd = &sides[i]
		}
	}
	return try(func() J {
		if str(in, "side") == "client" {
			return performClient(p, sd, in)
		}
		return performServer(p, sd, in)
	})
}
`

func goHttpMain(good []*goCase) string {
	imps, tab, sides := &strings.Builder{}, &strings.Builder{}, &strings.Builder{}
	for _, p := range []string{"errors", "io", "log", "net/http", "net/http/httptest", "net/url", "strings"} {
		fmt.Fprintf(imps, "\t%q\n", p)
	}
	for i, c := range good {
		fmt.Fprintf(imps, "\tq%d %q\n", i, c.imp)
		fmt.Fprintf(tab, "\t{q%d.VfTypes, nil, nil, nil},\n", i)
		s, cl := "nil", "nil"
		if goConfOf(c.in, "server") {
			s = fmt.Sprintf("q%d.VfServer", i)
		}
		if goConfOf(c.in, "client") {
			cl = fmt.Sprintf("q%d.VfCall", i)
		}
		fmt.Fprintf(sides, "\t{%s, %s},\n", s, cl)
	}
	return fmt.Sprintf(goProgHead, imps.String(), tab.String()) + fmt.Sprintf(goHttpProg, sides.String()) + "\nvar _ = log.Println\nvar _ = errors.New\n"
}

func init() {
	Batches["go.http"] = func(ins []J) []J { return goBatch(ins, true, goHttpRegistry, goHttpMain) }
}
