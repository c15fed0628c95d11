package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/boynton/sadl"

	. "verif/harness/kit"
)

// jsonValue is an abstract value as encoding/json would produce it.
func jsonValue(v J) interface{} {
	switch Str(v, "k") {
	case "num":
		var f float64
		if _, err := fmt.Sscan(Str(v, "n"), &f); err != nil {
			panic(err)
		}
		return f
	case "arr":
		a := make([]interface{}, 0)
		for _, e := range List(v, "a") {
			a = append(a, jsonValue(e.(J)))
		}
		return a
	case "obj":
		m := make(map[string]interface{}, 0)
		for _, e := range List(v, "o") {
			m[Str(e.(J), "n")] = jsonValue(Sub(e.(J), "v"))
		}
		return m
	}
	return Value(v, true)
}

func absJSON(s string) J {
	var v interface{}
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return J{"k": "invalid"}
	}
	return AbsValue(v)
}

func viaFile(d *sadl.Data, ext string) (*sadl.Data, error) {
	dir, err := os.MkdirTemp("", "vfdata")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "x"+ext)
	if err := sadl.DataToFile(d, path); err != nil {
		return nil, err
	}
	return sadl.DataFromFile(path)
}

func storeRun(in J) J {
	d := sadl.NewData()
	seen := []interface{}{}
	for _, e := range List(in, "steps") {
		s := e.(J)
		path := Strs(s, "path")
		var r J
		switch Str(s, "o") {
		case "putas":
			// a number or text as the code itself holds it
			v, k := jsonValue(Sub(s, "v")), Str(s, "key")
			switch t := Str(s, "t"); t {
			case "int32":
				d.Put(k, int32(v.(float64)))
			case "int":
				d.Put(k, int(v.(float64)))
			case "ptr":
				text := v.(string)
				d.Put(k, &text)
			default:
				n, err := sadl.ParseDecimal(Str(Sub(s, "v"), "n"))
				if err != nil {
					panic(err)
				}
				if t == "dec" {
					d.Put(k, *n)
				} else {
					d.Put(k, n)
				}
			}
			r = J{"st": "ok"}
		case "file":
			nd, err := viaFile(d, Str(s, "t"))
			if err == nil {
				d = nd
			}
			r = J{"st": St(err)}
		case "mstr", "mbool", "mint", "mint64", "marray", "mmap", "mget", "mstrs", "mdec":
			m, k := d.AsMap(), path[0]
			switch Str(s, "o") {
			case "mstr":
				r = J{"s": sadl.GetString(m, k)}
			case "mbool":
				r = J{"b": sadl.GetBool(m, k)}
			case "mint":
				r = J{"s": fmt.Sprint(sadl.GetInt(m, k))}
			case "mint64":
				r = J{"s": fmt.Sprint(sadl.GetInt64(m, k))}
			case "marray":
				r = J{"v": AbsValue(sadl.GetArray(m, k))}
			case "mmap":
				r = J{"v": AbsValue(sadl.GetMap(m, k))}
			case "mstrs":
				q := []interface{}{}
				for _, x := range sadl.GetStringArray(m, k) {
					q = append(q, x)
				}
				r = J{"q": q}
			case "mdec":
				r = J{"v": AbsValue(sadl.GetDecimal(m, k))}
			case "mget":
				r = J{"v": AbsValue(sadl.Get(m, k))}
			}
		case "put":
			d.Put(Str(s, "key"), jsonValue(Sub(s, "v")))
			r = J{"st": "ok"}
		case "putin":
			// through the part of the store at the path (a part that is not an object is not changed)
			if sub := d.GetData(path...); sub.AsMap() != nil {
				sub.Put(Str(s, "key"), jsonValue(Sub(s, "v")))
			}
			r = J{"st": "ok"}
		case "load":
			b, _ := json.Marshal(jsonValue(Sub(s, "v")))
			var nd *sadl.Data
			var err error
			switch Str(s, "t") {
			case "unmarshal":
				nd = sadl.NewData()
				err = json.Unmarshal(b, nd)
			case "as":
				nd = sadl.AsData(jsonValue(Sub(s, "v")))
			case ".json", ".yaml":
				nd, err = viaFile(sadl.AsData(jsonValue(Sub(s, "v"))), Str(s, "t"))
			default:
				nd, err = sadl.DataFromJsonString(string(b))
			}
			if err == nil {
				d = nd
			}
			r = J{"st": St(err)}
		case "get":
			r = J{"v": AbsValue(d.Get(path...))}
		case "has":
			r = J{"b": d.Has(path...)}
		case "str":
			r = J{"s": d.GetString(path...)}
		case "bool":
			r = J{"b": d.GetBool(path...)}
		case "int":
			r = J{"s": fmt.Sprint(d.GetInt(path...))}
		case "int64":
			r = J{"s": fmt.Sprint(d.GetInt64(path...))}
		case "float":
			r = J{"s": ffmt(d.GetFloat64(path...))}
		case "array":
			r = J{"v": AbsValue(d.GetArray(path...))}
		case "strs":
			q := []interface{}{}
			for _, x := range d.GetStringArray(path...) {
				q = append(q, x)
			}
			r = J{"q": q}
		case "dec":
			r = J{"v": AbsValue(d.GetDecimal(path...))}
		case "map":
			r = J{"v": AbsValue(d.GetMap(path...))}
		case "data":
			r = J{"v": absJSON(d.GetData(path...).String())}
		case "isnil":
			r = J{"b": d.IsNil()}
		case "json":
			b, err := json.Marshal(d)
			if err != nil {
				b = []byte("!")
			}
			r = J{"v": absJSON(string(b))}
		case "cfgstr", "cfgbool", "cfgint":
			g := sadl.Generator{Config: d}
			switch Str(s, "o") {
			case "cfgstr":
				r = J{"s": g.GetConfigString(path[0], "dflt")}
			case "cfgbool":
				r = J{"b": g.GetConfigBool(path[0], Bool(s, "d"))}
			case "cfgint":
				r = J{"s": fmt.Sprint(g.GetConfigInt(path[0], 42))}
			}
		}
		seen = append(seen, r)
	}
	return J{"st": "ok", "seen": seen}
}

// "BIG" stands for more text than any buffer in the way holds
var bigText = strings.Repeat("0123456789abcdef", 6000)

func grow(s string) string   { return strings.ReplaceAll(s, "BIG", bigText) }
func shrink(s string) string { return strings.ReplaceAll(s, bigText, "BIG") }

func genRun(in J) J {
	dir, err := os.MkdirTemp("", "vfgen")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	conf := sadl.NewData()
	if Bool(in, "force") {
		conf.Put("force-overwrite", true)
	}
	g := &sadl.Generator{Config: conf, OutDir: dir}
	seen := []interface{}{}
	for _, e := range List(in, "steps") {
		s := e.(J)
		text := ""
		switch Str(s, "o") {
		case "begin":
			g.Begin()
		case "emit":
			g.Emit(grow(Str(s, "s")))
		case "tmpl":
			switch Str(s, "p") {
			case "parse":
				g.EmitTemplate("t", "T{{if}", nil, nil)
			case "exec":
				g.EmitTemplate("t", "T{{.Nope.Nope}}", struct{ X int }{1}, nil)
			default:
				g.EmitTemplate("t", "{{.}}", Str(s, "s"), nil)
			}
		case "end":
			text = shrink(g.End())
		case "write":
			p := filepath.Join(dir, Str(s, "p"))
			if Str(s, "p") == "full" {
				p = "/dev/full"
			}
			g.WriteFile(p, grow(Str(s, "s")))
		}
		files := []interface{}{}
		ents, _ := os.ReadDir(dir)
		sort.Slice(ents, func(i, j int) bool { return ents[i].Name() < ents[j].Name() })
		for _, f := range ents {
			b, _ := os.ReadFile(filepath.Join(dir, f.Name()))
			files = append(files, []interface{}{f.Name(), shrink(string(b))})
		}
		seen = append(seen, J{"err": g.Err != nil, "s": text, "files": files})
	}
	return J{"st": "ok", "seen": seen}
}

func init() {
	Ops["store.run"] = storeRun
	Ops["gen.run"] = genRun
	Ops["comment.layout"] = func(in J) J {
		ind := strings.Repeat(" ", Int(in, "left"))
		t := sadl.FormatComment(ind, Str(in, "prefix"), Str(in, "comment"), Int(in, "max"), Bool(in, "pad"))
		return J{"st": "ok", "text": t}
	}
}
