package main

import (
	"encoding/xml"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/golang"
	"github.com/boynton/sadl/java"

	. "verif/harness/kit"
)

// Exports into a directory, one after the other; each also into an empty one.

func pairsOf(m map[string]string) []interface{} {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r := []interface{}{}
	for _, k := range keys {
		r = append(r, []interface{}{k, m[k]})
	}
	return r
}

func hashText(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

// what is at the paths: a hash of the text, or "dir" for the directories that were there before
func listing(dir string, before []interface{}) map[string]string {
	m := map[string]string{}
	for p, text := range readAll(dir) {
		m[p] = hashText(text)
	}
	for _, x := range before {
		b := x.(J)
		if fi, err := os.Stat(filepath.Join(dir, Str(b, "path"))); err == nil && fi.IsDir() && Str(b, "kind") == "dir" {
			m[Str(b, "path")] = "dir"
		}
	}
	return m
}

var packageLine = regexp.MustCompile(`(?m)^\s*package\s+([\w.]+)`)

func heads(files map[string]string, header string) []interface{} {
	r := []interface{}{}
	keys := []string{}
	for k := range files {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		pkg := ""
		if m := packageLine.FindStringSubmatch(files[k]); m != nil {
			pkg = m[1]
		}
		r = append(r, J{"path": k, "headed": strings.HasPrefix(files[k], header), "pkg": pkg})
	}
	return r
}

type pomDep struct {
	Group    string `xml:"groupId"`
	Artifact string `xml:"artifactId"`
	Version  string `xml:"version"`
	Scope    string `xml:"scope"`
	Type     string `xml:"type"`
}

func (d pomDep) abs() J {
	return J{"group": d.Group, "artifact": d.Artifact, "version": d.Version, "scope": d.Scope, "type": d.Type}
}

func absPom(text string) []interface{} {
	var p struct {
		XMLName   xml.Name `xml:"http://maven.apache.org/POM/4.0.0 project"`
		Model     string   `xml:"modelVersion"`
		Group     string   `xml:"groupId"`
		Artifact  string   `xml:"artifactId"`
		Version   string   `xml:"version"`
		Packaging string   `xml:"packaging"`
		Name      string   `xml:"name"`
		Managed   []pomDep `xml:"dependencyManagement>dependencies>dependency"`
		Deps      []pomDep `xml:"dependencies>dependency"`
		Props     struct {
			All []struct {
				XMLName xml.Name
				Text    string `xml:",chardata"`
			} `xml:",any"`
		} `xml:"properties"`
		Main string `xml:"build>plugins>plugin>configuration>mainClass"`
	}
	if err := xml.Unmarshal([]byte(text), &p); err != nil {
		return []interface{}{J{"bad": err.Error()}}
	}
	managed, deps := []interface{}{}, []interface{}{}
	for _, d := range p.Managed {
		managed = append(managed, d.abs())
	}
	for _, d := range p.Deps {
		deps = append(deps, d.abs())
	}
	props := []interface{}{}
	for _, x := range p.Props.All {
		props = append(props, []interface{}{x.XMLName.Local, strings.TrimSpace(x.Text)})
	}
	return []interface{}{J{"bad": "", "model": p.Model, "group": p.Group, "artifact": p.Artifact, "version": p.Version, "packaging": p.Packaging, "name": p.Name,
		"managed": managed, "deps": deps, "props": props, "main": p.Main}}
}

func exportOnce(in, step J, dir string) (st string) {
	defer func() {
		if r := recover(); r != nil {
			st = "panic"
		}
	}()
	m, err := sadl.NewModel(ToSchema(List(in, "schemas")[Int(step, "which")-1].(J)))
	if err != nil {
		panic(err)
	}
	export := golang.Export
	if Str(in, "lang") == "java" {
		export = java.Export
	}
	if err := export(m, dir, goConf(step)); err != nil {
		return "err"
	}
	return "ok"
}

func init() {
	Ops["gen.project"] = func(in J) J {
		for _, k := range []string{"DOMAIN", "HOSTNAME"} {
			old, was := os.LookupEnv(k)
			if v := Str(Sub(in, "env"), strings.ToLower(k)); v != "" {
				os.Setenv(k, v)
			} else {
				os.Unsetenv(k)
			}
			defer func(k string) {
				if was {
					os.Setenv(k, old)
				} else {
					os.Unsetenv(k)
				}
			}(k)
		}
		base, err := os.MkdirTemp("", "vfproj")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(base)
		dir := filepath.Join(base, "out")
		os.MkdirAll(dir, 0755)
		before := List(in, "before")
		for _, x := range before {
			p := filepath.Join(dir, Str(x.(J), "path"))
			if Str(x.(J), "kind") == "dir" {
				os.MkdirAll(p, 0755)
			} else {
				os.MkdirAll(filepath.Dir(p), 0755)
				text := "mine, " + Str(x.(J), "path")
				if Str(x.(J), "kind") == "empty" {
					text = ""
				}
				if err := os.WriteFile(p, []byte(text), 0644); err != nil {
					panic(err)
				}
			}
		}
		steps := []interface{}{}
		at := pairsOf(listing(dir, before))
		for i, x := range List(in, "steps") {
			step := x.(J)
			alone := filepath.Join(base, fmt.Sprintf("alone%d", i))
			os.MkdirAll(alone, 0755)
			o := J{}
			CaptureStdout(func() { o["freshst"] = exportOnce(in, step, alone) })
			files := readAll(alone)
			fresh := map[string]string{}
			for p, text := range files {
				fresh[p] = hashText(text)
			}
			said := CaptureStdout(func() { o["st"] = exportOnce(in, step, dir) })
			kept := []interface{}{}
			for _, l := range strings.Split(said, "\n") {
				// the longest path of a file that the line speaks of
				best := ""
				for p := range fresh {
					if strings.Contains(l, filepath.Join(dir, p)) && len(p) > len(best) {
						best = p
					}
				}
				if best != "" {
					kept = append(kept, best)
				}
			}
			o["kept"] = kept
			o["fresh"] = pairsOf(fresh)
			o["dir"] = pairsOf(listing(dir, before))
			o["heads"] = heads(files, confText(step, "header", ""))
			o["pom"] = []interface{}{}
			if text, ok := files["pom.xml"]; ok {
				o["pom"] = absPom(text)
			}
			steps = append(steps, o)
		}
		return J{"before": at, "steps": steps}
	}
}
