package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/boynton/sadl/java"

	. "verif/harness/kit"
)

// Java code of the generator, compiled against stand-ins of its libraries and
// run in one JVM per batch: standin/java/vf.

var javaClasses struct {
	sync.Once
	dir string
}

func javaSetup() string {
	javaClasses.Do(func() {
		root := filepath.Dir(os.Getenv("VF_HARNESS"))
		src, cls := filepath.Join(root, "java-src"), filepath.Join(root, "java-cls")
		run := func(name string, args ...string) {
			if b, err := exec.Command(name, args...).CombinedOutput(); err != nil {
				panic(name + ": " + string(b))
			}
		}
		run("python3", filepath.Join(root, "standin/java/split.py"), src)
		files := []string{}
		for _, d := range []string{src, filepath.Join(root, "standin/java/vf")} {
			for _, f := range filesIn(d) {
				if strings.HasSuffix(f, ".java") {
					files = append(files, filepath.Join(d, f))
				}
			}
		}
		run("javac", append([]string{"-nowarn", "-d", cls}, files...)...)
		javaClasses.dir = cls
	})
	return javaClasses.dir
}

// JSON text of a value of the specification
func jsonText(v J) string {
	switch v["k"] {
	case "null":
		return "null"
	case "str":
		b := &bytes.Buffer{}
		e := json.NewEncoder(b)
		e.SetEscapeHTML(false)
		e.Encode(v["s"])
		return strings.TrimSpace(b.String())
	case "bool":
		return fmt.Sprint(v["b"])
	case "num":
		return v["n"].(string)
	case "arr":
		l := []string{}
		for _, e := range v["a"].([]interface{}) {
			l = append(l, jsonText(e.(J)))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case "obj":
		l := []string{}
		for _, e := range v["o"].([]interface{}) {
			l = append(l, jsonText(J{"k": "str", "s": e.(J)["n"]})+": "+jsonText(e.(J)["v"].(J)))
		}
		return "{" + strings.Join(l, ", ") + "}"
	case "raw":
		return "{nope"
	}
	panic("value")
}

func jsonAbs(text string) J {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil || d.More() {
		return J{"k": "raw"}
	}
	return absJson(x)
}

func absJson(v interface{}) J {
	switch x := v.(type) {
	case nil:
		return J{"k": "null"}
	case string:
		return J{"k": "str", "s": x}
	case bool:
		return J{"k": "bool", "b": x}
	case json.Number:
		return J{"k": "num", "n": string(x)}
	case []interface{}:
		a := []interface{}{}
		for _, e := range x {
			a = append(a, absJson(e))
		}
		return J{"k": "arr", "a": a}
	case map[string]interface{}:
		o := []interface{}{}
		keys := []string{}
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			o = append(o, J{"n": k, "v": absJson(x[k])})
		}
		return J{"k": "obj", "o": o}
	}
	return J{"k": "other"}
}

// javaBatch generates the code of the cases; job tells what the JVM is to do with one, done takes what it says
func javaBatch(ins []J, job func(in J, files []string) J, done func(in, out J) J) []J {
	os.Setenv("DOMAIN", "vf.example")
	base, err := os.MkdirTemp("", "java")
	if err != nil {
		panic(err)
	}
	if os.Getenv("VF_KEEP") == "" {
		defer os.RemoveAll(base)
	}
	outs := make([]J, len(ins))
	jobs, ix := []interface{}{}, []int{}
	for i, in := range ins {
		dir := filepath.Join(base, fmt.Sprintf("p%d", i))
		os.MkdirAll(dir, 0755)
		_, o := exportInto(in, dir, java.Export)
		if o != nil {
			outs[i] = o
			continue
		}
		files := filesIn(dir)
		j := job(in, files)
		j["dir"], j["out"] = dir, filepath.Join(base, fmt.Sprintf("c%d", i))
		jobs = append(jobs, j)
		ix = append(ix, i)
		names := []interface{}{}
		for _, f := range files {
			names = append(names, f)
		}
		outs[i] = J{"files": names}
	}
	if len(jobs) > 0 {
		jf, of := filepath.Join(base, "jobs.json"), filepath.Join(base, "outs.json")
		b, _ := json.Marshal(J{"cases": jobs})
		os.WriteFile(jf, b, 0644)
		cls := javaSetup()
		if b, err := exec.Command("java", "-Duser.timezone=Asia/Kolkata", "-Xss4m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", cls, "vf.Main", jf, of).CombinedOutput(); err != nil {
			panic("java: " + string(b))
		}
		b, err := os.ReadFile(of)
		if err != nil {
			panic(err)
		}
		d := json.NewDecoder(bytes.NewReader(b))
		d.UseNumber()
		var res []J
		if err := d.Decode(&res); err != nil {
			panic(err)
		}
		for k, o := range res {
			i := ix[k]
			if Str(o, "st") == "driver" {
				panic("java driver: " + Str(o, "msg"))
			}
			if Str(o, "st") == "ok" {
				o = done(ins[i], o)
				o["files"] = outs[i]["files"]
			}
			outs[i] = o
		}
	}
	return outs
}

func confText(in J, key, def string) string {
	for _, x := range List(in, "conf") {
		if p := x.([]interface{}); p[0] == key {
			return fmt.Sprint(p[1])
		}
	}
	return def
}

func javaModelPackage(in J) string {
	pkg := confText(in, "package", "")
	if pkg == "" {
		dom := confText(in, "domain", "")
		if dom == "" {
			pkg = Str(Sub(in, "schema"), "namespace")
			if pkg == "" {
				dom = "vf.example"
			}
		}
		if pkg == "" {
			l := strings.Split(dom, ".")
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			pkg = strings.Join(l, ".")
		}
	}
	return pkg
}

// the name and kind of the class that a type goes by
func javaClassOf(in J, name string) (string, string) {
	for {
		next := ""
		for _, t := range typeList(in) {
			if Str(t, "name") == name {
				k := Str(Sub(t, "ts"), "type")
				switch k {
				case "Struct", "Enum", "Union", "UnitValue":
					return name, k
				}
				next = k
			}
		}
		if next == "" {
			return "", ""
		}
		name = next
	}
}

func javaModelJob(in J, files []string) J {
	mp := confText(in, "model-package", javaModelPackage(in)+".model") + "."
	classes := []interface{}{}
	for _, t := range typeList(in) {
		if n, _ := javaClassOf(in, Str(t, "name")); n == Str(t, "name") {
			classes = append(classes, mp+capName(n))
		}
	}
	for _, h := range List(Sub(in, "schema"), "http") {
		n := capName(Str(h.(J), "name"))
		classes = append(classes, mp+n+"Request", mp+n+"Response")
	}
	classes = append(classes, mp+goService(in))
	probes := []interface{}{}
	for _, x := range List(in, "probes") {
		n, k := javaClassOf(in, Str(x.(J), "type"))
		probes = append(probes, J{"cls": mp + capName(n), "kind": k, "text": jsonText(Sub(x.(J), "v"))})
	}
	return J{"classes": classes, "probes": probes}
}

func javaModelDone(in, out J) J {
	results := []interface{}{}
	for _, x := range List(out, "results") {
		r := x.(J)
		if Str(r, "st") == "ok" {
			r["v"] = jsonAbs(Str(r, "json"))
			r["tv"] = jsonAbs(Str(r, "text"))
			delete(r, "json")
			delete(r, "text")
		}
		results = append(results, r)
	}
	return J{"st": "ok", "classes": out["classes"], "results": results}
}

func javaFields(l []interface{}) []interface{} {
	r := []interface{}{}
	for _, x := range l {
		r = append(r, []interface{}{Str(x.(J), "n"), jsonText(Sub(x.(J), "v"))})
	}
	return r
}

// values instead of JSON text
func javaSeen(l []interface{}) []interface{} {
	for _, x := range l {
		f := x.(J)
		f["v"] = jsonAbs(Str(f, "json"))
		delete(f, "json")
	}
	return l
}

func javaContent(l []interface{}) []interface{} {
	r := []interface{}{}
	for _, x := range l {
		if s := x.(string); strings.TrimSpace(s) != "" {
			r = append(r, jsonAbs(s))
		}
	}
	return r
}

func javaHttpJob(in J, files []string) J {
	pkg := javaModelPackage(in)
	model := confText(in, "model-package", pkg+".model")
	name := goService(in)
	calls := []interface{}{}
	server := Str(in, "side") == "server"
	for _, x := range List(in, "calls") {
		c, j := x.(J), J{}
		for k, v := range c {
			j[k] = v
		}
		a := J{}
		for k, v := range Sub(c, "answer") {
			a[k] = v
		}
		body := func(o J, l []interface{}) {
			delete(o, "body")
			if len(l) > 0 {
				o["body"] = jsonText(l[0].(J))
			}
		}
		if server {
			body(j, List(c, "body"))
			a["fields"] = javaFields(List(a, "fields"))
			if n, _ := javaClassOf(in, Str(a, "type")); n != "" {
				a["type"] = capName(n)
			}
			a["json"] = jsonText(Sub(a, "v"))
			delete(a, "v")
		} else {
			n := Str(c, "action")
			j["action"] = strings.ToLower(n[:1]) + n[1:]
			j["fields"] = javaFields(List(c, "fields"))
			body(a, List(a, "body"))
		}
		j["answer"] = a
		calls = append(calls, j)
	}
	if server {
		return J{"server": J{"resources": confText(in, "server-package", pkg+".server") + "." + name + "Resources", "model": model, "service": confText(in, "service-exception", "") == "true", "calls": calls}}
	}
	return J{"client": J{"model": model, "pkg": confText(in, "client-package", pkg+".client"), "cls": name + "Client", "target": "http://localhost:8080" + Str(in, "base"), "calls": calls}}
}

func javaHttpDone(in, out J) J {
	for _, x := range List(out, "calls") {
		o := x.(J)
		if Str(in, "side") == "server" {
			o["body"] = javaContent(List(o, "body"))
			for _, s := range List(o, "seen") {
				javaSeen(List(s.(J), "fields"))
			}
			continue
		}
		for _, q := range List(o, "reqs") {
			q.(J)["body"] = javaContent(List(q.(J), "body"))
		}
		r := Sub(o, "res")
		javaSeen(List(r, "fields"))
		r["v"] = jsonAbs(Str(r, "json"))
		delete(r, "json")
	}
	return J{"st": "ok", "calls": List(out, "calls")}
}

func init() {
	Batches["java.http"] = func(ins []J) []J { return javaBatch(ins, javaHttpJob, javaHttpDone) }
	Batches["java.model"] = func(ins []J) []J { return javaBatch(ins, javaModelJob, javaModelDone) }
}
