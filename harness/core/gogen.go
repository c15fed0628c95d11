package main

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"

	. "verif/harness/kit"
)

// Go code of the generator, built and run.  A case is one schema: its code
// becomes one package of a program that describes the declared types by
// reflection and reads and writes values with them.

func goConf(in J) *sadl.Data {
	conf := sadl.NewData()
	for _, x := range List(in, "conf") {
		p := x.([]interface{})
		conf.Put(p[0].(string), p[1])
	}
	return conf
}

// files under a directory, relative
func filesIn(dir string) []string {
	r := []string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			r = append(r, filepath.ToSlash(rel))
		}
		return nil
	})
	sort.Strings(r)
	return r
}

func readAll(dir string) map[string]string {
	m := map[string]string{}
	for _, f := range filesIn(dir) {
		b, _ := os.ReadFile(filepath.Join(dir, f))
		m[f] = string(b)
	}
	return m
}

// exportInto runs an exporter on the schema of a case, twice, and returns the
// files of the first run, or an observation that ends the case.
func exportInto(in J, dir string, export func(m *sadl.Model, dir string, conf *sadl.Data) error) (map[string]string, J) {
	type res struct {
		files map[string]string
		out   J
	}
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				ch <- res{nil, J{"st": "panic", "msg": Trim(fmt.Sprint(r))}}
			}
		}()
		run := func(d string) (map[string]string, J) {
			m, err := sadl.NewModel(ToSchema(Sub(in, "schema")))
			if err != nil {
				panic(err)
			}
			before := fmt.Sprint(FromSchema(&m.Schema))
			err = export(m, d, goConf(in))
			if fmt.Sprint(FromSchema(&m.Schema)) != before {
				return nil, J{"st": "changed the model"}
			}
			if err != nil {
				return nil, J{"st": "err"}
			}
			return readAll(d), nil
		}
		f, o := run(dir)
		if o == nil {
			again, err := os.MkdirTemp("", "again")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(again)
			f2, _ := run(again)
			if fmt.Sprint(f) != fmt.Sprint(f2) {
				o = J{"st": "varies"}
			}
		}
		ch <- res{f, o}
	}()
	select {
	case r := <-ch:
		return r.files, r.out
	case <-time.After(30 * time.Second):
		return nil, J{"st": "hang"}
	}
}

type goCase struct {
	in, out J
	dir     string // of the package
	imp     string // import path
	pkg     string
}

var buildError = regexp.MustCompile(`^# (\S+)`)

// goBatch builds the packages of a batch and runs the program over them.
func goBatch(ins []J, standins bool, prepare func(c *goCase, files map[string]string) error, mainSrc func(cs []*goCase) string) []J {
	root := os.Getenv("VF_HARNESS")
	if root == "" {
		panic("VF_HARNESS")
	}
	base, err := os.MkdirTemp(root, "gen")
	if err != nil {
		panic(err)
	}
	if os.Getenv("VF_KEEP") == "" {
		defer os.RemoveAll(base)
	}
	cases := []*goCase{}
	for i, in := range ins {
		c := &goCase{in: in}
		cases = append(cases, c)
		top := filepath.Join(base, fmt.Sprintf("p%d", i))
		os.MkdirAll(top, 0755)
		files, o := exportInto(in, top, golang.Export)
		if o != nil {
			c.out = o
			os.RemoveAll(top)
			continue
		}
		names := []interface{}{}
		for _, f := range filesIn(top) {
			names = append(names, f)
		}
		c.out = J{"st": "ok", "files": names}
		if len(names) == 0 {
			continue
		}
		c.dir = filepath.Dir(filepath.Join(top, names[0].(string)))
		rel, _ := filepath.Rel(root, c.dir)
		c.imp = "verif/harness/" + filepath.ToSlash(rel)
		for f, text := range files {
			ast, err := parser.ParseFile(token.NewFileSet(), f, text, parser.PackageClauseOnly)
			if err != nil {
				c.out["st"] = "not Go"
				break
			}
			c.pkg = ast.Name.Name
			if c.pkg == "main" { // so that it can be imported
				text = strings.Replace(text, "\npackage main\n", "\npackage mainpkg\n", 1)
				os.WriteFile(filepath.Join(top, f), []byte(text), 0644)
			}
		}
		if Str(c.out, "st") != "ok" {
			continue
		}
		c.out["pkg"] = c.pkg
		if c.pkg == "main" {
			c.pkg = "mainpkg"
		}
		if err := prepare(c, files); err != nil {
			panic(err)
		}
	}
	rel, _ := filepath.Rel(root, base)
	build := func(what string) string {
		for _, extra := range [][]string{nil, {"-overlay", filepath.Join(root, "overlay_core.json")}} {
			args := append([]string{"build"}, extra...)
			if strings.HasSuffix(what, "/...") {
				args = append(args, what)
			} else {
				args = append(args, "-o", filepath.Join(base, "prog"), what)
			}
			cmd := exec.Command("go", args...)
			cmd.Dir = root
			cmd.Env = append(os.Environ(), "GOMAXPROCS=8")
			b, err := cmd.CombinedOutput()
			if err == nil {
				return ""
			}
			if extra != nil || !strings.Contains(string(b), "boynton/sadl\n") {
				return string(b)
			}
		}
		return ""
	}
	text := build("./" + filepath.ToSlash(rel) + "/...")
	errs := map[string]string{}
	at := ""
	for _, l := range strings.Split(text, "\n") {
		if m := buildError.FindStringSubmatch(l); m != nil {
			at = m[1]
		} else if strings.Contains(l, ".go:") { // also what keeps a package from being loaded
			k := at
			for _, c := range cases {
				if c.imp != "" && strings.Contains(l, strings.TrimPrefix(c.imp, "verif/harness/")+"/") {
					k = c.imp
				}
			}
			if errs[k] == "" {
				errs[k] = l
			}
		}
	}
	good := []*goCase{}
	for _, c := range cases {
		if c.imp == "" || Str(c.out, "st") != "ok" {
			continue
		}
		if e, bad := errs[c.imp]; bad {
			c.out = J{"st": "does not compile", "msg": Trim(e)}
			continue
		}
		good = append(good, c)
	}
	if text != "" && len(errs) == 0 {
		panic("go build: " + text)
	}
	mdir := filepath.Join(base, "zmain")
	program := func(l []*goCase) string {
		os.MkdirAll(mdir, 0755)
		if err := os.WriteFile(filepath.Join(mdir, "main.go"), []byte(mainSrc(l)), 0644); err != nil {
			panic(err)
		}
		return build("./" + filepath.ToSlash(rel) + "/zmain")
	}
	if good = buildable(good, program); len(good) > 0 {
		runProgram(filepath.Join(base, "prog"), base, good)
	}
	outs := []J{}
	for _, c := range cases {
		outs = append(outs, c.out)
	}
	return outs
}

// buildable leaves out the cases that a program with them cannot be built for.
func buildable(good []*goCase, program func([]*goCase) string) []*goCase {
	drop := func(bad map[*goCase]bool, e string) {
		left := []*goCase{}
		for _, c := range good {
			if bad[c] {
				c.out = J{"st": "does not compile", "msg": Trim(e)}
			} else {
				left = append(left, c)
			}
		}
		good = left
	}
	for try := 0; len(good) > 0; try++ {
		e := program(good)
		if e == "" {
			break
		}
		bad := map[*goCase]bool{}
		for _, c := range good {
			if strings.Contains(e, strings.TrimPrefix(c.imp, "verif/harness/")+"/") {
				bad[c] = true
			}
		}
		if len(bad) == 0 { // look for one that cannot be built on its own
			h := good
			for len(h) > 1 {
				a, b := h[:len(h)/2], h[len(h)/2:]
				if program(a) != "" {
					h = a
				} else if program(b) != "" {
					h = b
				} else {
					panic("go build of the program: " + e)
				}
			}
			e = program(h)
			if e == "" {
				panic("go build of the program: not the same again")
			}
			bad[h[0]] = true
		}
		if try == 5 { // enough is known
			for _, c := range good {
				bad[c] = true
			}
		}
		drop(bad, e)
	}
	return good
}

// runProgram gives the program the cases; a case that ends it is an observation.
func runProgram(prog, base string, good []*goCase) {
	cf := filepath.Join(base, "cases.json")
	of := filepath.Join(base, "outs.json")
	l := []interface{}{}
	for _, c := range good {
		l = append(l, c.in)
	}
	b, _ := json.Marshal(l)
	os.WriteFile(cf, b, 0644)
	for from := 0; from < len(good); {
		os.Remove(of)
		cmd := exec.Command(prog, cf, of, fmt.Sprint(from))
		done := make(chan error, 1)
		var msg strings.Builder
		cmd.Stderr = &msg
		if err := cmd.Start(); err != nil {
			panic(err)
		}
		go func() { done <- cmd.Wait() }()
		kind := "crash"
		select {
		case <-done:
		case <-time.After(120 * time.Second):
			cmd.Process.Kill()
			<-done
			kind = "hang"
		}
		b, _ := os.ReadFile(of)
		n := 0
		for _, line := range strings.Split(string(b), "\n") {
			if line == "" {
				continue
			}
			var o J
			if err := json.Unmarshal([]byte(line), &o); err != nil {
				break
			}
			for k, v := range o {
				good[from+n].out[k] = v
			}
			n++
		}
		from += n
		if from < len(good) {
			good[from].out = J{"st": kind, "msg": Trim(msg.String())}
			from++
		}
	}
}

func typeList(in J) []J {
	r := []J{}
	for _, t := range List(Sub(in, "schema"), "types") {
		r = append(r, t.(J))
	}
	return r
}

func goService(in J) string {
	name := Str(Sub(in, "schema"), "name")
	for _, x := range List(in, "conf") {
		if p := x.([]interface{}); p[0] == "name" {
			name = p[1].(string)
		}
	}
	return strings.ToUpper(name[:1]) + name[1:]
}

func capName(s string) string { return strings.ToUpper(s[:1]) + s[1:] }

func isNumber(t string) bool {
	switch t {
	case "Int8", "Int16", "Int32", "Int64", "Float32", "Float64":
		return true
	}
	return false
}

// the names of the package that the program looks at
func goRegistry(c *goCase, files map[string]string) error {
	b := &strings.Builder{}
	fmt.Fprintf(b, "package %s\n\nimport \"reflect\"\n\nvar VfTypes = map[string]reflect.Type{\n", c.pkg)
	typ := func(n string) { fmt.Fprintf(b, "%q: reflect.TypeOf((*%s)(nil)).Elem(),\n", n, n) }
	all := ""
	for _, t := range files {
		all += t
	}
	for _, t := range typeList(c.in) {
		typ(Str(t, "name"))
	}
	for _, h := range List(Sub(c.in, "schema"), "http") {
		n := capName(Str(h.(J), "name"))
		typ(n + "Request")
		typ(n + "Response")
	}
	typ(goService(c.in))
	b.WriteString("}\n\nvar VfConsts = map[string]interface{}{\n")
	for _, t := range typeList(c.in) {
		ts := Sub(t, "ts")
		switch Str(ts, "type") {
		case "Enum":
			for _, e := range List(ts, "elements") {
				fmt.Fprintf(b, "%q: %s,\n", Str(e.(J), "symbol"), Str(e.(J), "symbol"))
			}
		case "Union":
			for _, v := range List(ts, "variants") {
				n := Str(t, "name") + "VariantTag" + capName(Str(v.(J), "name"))
				fmt.Fprintf(b, "%q: %s,\n", n, n)
			}
		}
	}
	b.WriteString("}\n\nvar VfFuncs = map[string]func(string) interface{}{\n")
	fn := func(n, f string) {
		fmt.Fprintf(b, "%q: func(s string) interface{} { return %s(s) },\n", n, f)
	}
	for _, t := range typeList(c.in) {
		if isNumber(Str(Sub(t, "ts"), "type")) {
			fn(Str(t, "name"), Str(t, "name")+"FromString")
		}
	}
	for _, n := range []string{"Decimal", "Timestamp"} {
		if strings.Contains(all, "\ntype "+n+" struct") {
			fn(n, n+"FromString")
		}
	}
	b.WriteString("}\n")
	return os.WriteFile(filepath.Join(c.dir, "zz_vf.go"), []byte(b.String()), 0644)
}

const goProgHead = `package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"strconv"
	"time"
%s)

type J = map[string]interface{}

type pkg struct {
	types  map[string]reflect.Type
	consts map[string]interface{}
	funcs  map[string]func(string) interface{}
	run    func(in J) J
}

var pkgs = []pkg{
%s}

func render(t reflect.Type) string {
	if t.PkgPath() != "" {
		if t.PkgPath() == "github.com/boynton/sadl" {
			return "sadl." + t.Name()
		}
		return t.Name()
	}
	return under(t)
}

func under(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Ptr:
		return "*" + render(t.Elem())
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			return "[]byte"
		}
		return "[]" + render(t.Elem())
	case reflect.Map:
		return "map[" + render(t.Key()) + "]" + render(t.Elem())
	case reflect.Interface:
		if t.NumMethod() == 0 {
			return "any"
		}
		return t.String()
	}
	return t.Kind().String()
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func describe(n string, t reflect.Type) J {
	fields, methods := []interface{}{}, []interface{}{}
	if t.Kind() == reflect.Struct && render(t) == n {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fields = append(fields, J{"n": f.Name, "t": render(f.Type), "tag": f.Tag.Get("json")})
		}
	}
	if t.Kind() == reflect.Interface && render(t) == n {
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			sig := []interface{}{}
			for k := 0; k < m.Type.NumIn(); k++ {
				sig = append(sig, render(m.Type.In(k)))
			}
			sig = append(sig, "->")
			for k := 0; k < m.Type.NumOut(); k++ {
				sig = append(sig, render(m.Type.Out(k)))
			}
			methods = append(methods, J{"n": m.Name, "sig": sig})
		}
	}
	u := under(t)
	if t.Kind() == reflect.Interface && t.NumMethod() > 0 {
		u = "interface"
	}
	return J{"name": n, "is": render(t), "under": u, "fields": fields, "methods": methods, "error": reflect.PtrTo(t).Implements(errType)}
}

func abs(v interface{}) J {
	switch x := v.(type) {
	case nil:
		return J{"k": "null"}
	case string:
		return J{"k": "str", "s": x}
	case bool:
		return J{"k": "bool", "b": x}
	case json.Number:
		return J{"k": "num", "n": string(x)}
	case []interface{}:
		a := []interface{}{}
		for _, e := range x {
			a = append(a, abs(e))
		}
		return J{"k": "arr", "a": a}
	case map[string]interface{}:
		o := []interface{}{}
		for k, e := range x {
			o = append(o, J{"n": k, "v": abs(e)})
		}
		return J{"k": "obj", "o": o}
	}
	return J{"k": "other"}
}

func text(v J) string {
	b := &bytes.Buffer{}
	switch v["k"] {
	case "null":
		return "null"
	case "str":
		e := json.NewEncoder(b)
		e.SetEscapeHTML(false)
		e.Encode(v["s"])
		return string(bytes.TrimSpace(b.Bytes()))
	case "bool":
		return fmt.Sprint(v["b"])
	case "num":
		return v["n"].(string)
	case "arr":
		s := "["
		for i, e := range v["a"].([]interface{}) {
			if i > 0 {
				s += ", "
			}
			s += text(e.(J))
		}
		return s + "]"
	case "obj":
		s := "{"
		for i, e := range v["o"].([]interface{}) {
			if i > 0 {
				s += ", "
			}
			s += strconv.Quote(e.(J)["n"].(string)) + ": " + text(e.(J)["v"].(J))
		}
		return s + "}"
	}
	panic("value")
}

func encoded(v interface{}) (J, error) {
	b, err := json.Marshal(v)
	if err != nil {
		return nil, err
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	return abs(x), nil
}

func try(f func() J) (out J) {
	defer func() {
		if r := recover(); r != nil {
			out = J{"st": "panic"}
		}
	}()
	return f()
}

func main() {
	time.Local = time.FixedZone("away", 5*3600+1800)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var cases []J
	if err := json.Unmarshal(b, &cases); err != nil {
		panic(err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(out)
	enc.SetEscapeHTML(false)
	from, _ := strconv.Atoi(os.Args[3])
	for i := from; i < len(cases); i++ {
		enc.Encode(perform(&pkgs[i], cases[i]))
	}
	out.Close()
}
`

const goModelProg = `
func perform(p *pkg, in J) J {
	types, consts, results, strs := []interface{}{}, []interface{}{}, []interface{}{}, []interface{}{}
	for n, t := range p.types {
		types = append(types, describe(n, t))
	}
	for n, c := range p.consts {
		consts = append(consts, []interface{}{n, fmt.Sprint(c)})
	}
	for _, x := range in["probes"].([]interface{}) {
		pr := x.(J)
		results = append(results, try(func() J {
			v := reflect.New(p.types[pr["type"].(string)])
			if err := json.Unmarshal([]byte(text(pr["v"].(J))), v.Interface()); err != nil {
				return J{"st": "err"}
			}
			w, err := encoded(v.Interface())
			if err != nil {
				return J{"st": "cannot be written"}
			}
			return J{"st": "ok", "v": w}
		}))
	}
	for _, x := range in["texts"].([]interface{}) {
		s := x.(string)
		for n, f := range p.funcs {
			strs = append(strs, try(func() J {
				v := f(s)
				if rv := reflect.ValueOf(v); rv.Kind() == reflect.Ptr && rv.IsNil() {
					return J{"st": "nil", "f": n, "s": s}
				}
				return J{"st": "ok", "f": n, "s": s, "text": fmt.Sprint(v)}
			}))
		}
	}
	return J{"types": types, "consts": consts, "results": results, "strs": strs}
}
`

func goModelMain(good []*goCase) string {
	imps, tab := &strings.Builder{}, &strings.Builder{}
	for i, c := range good {
		fmt.Fprintf(imps, "\tq%d %q\n", i, c.imp)
		fmt.Fprintf(tab, "\t{q%d.VfTypes, q%d.VfConsts, q%d.VfFuncs, nil},\n", i, i, i)
	}
	return fmt.Sprintf(goProgHead, imps.String(), tab.String()) + goModelProg
}

func init() {
	Batches["go.model"] = func(ins []J) []J { return goBatch(ins, false, goRegistry, goModelMain) }
}
