package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/openapi"
	"github.com/ghodss/yaml"

	. "verif/harness/kit"
)

// The abstract OpenAPI document of the specification (spec/OpenApi.tla), to and
// from the JSON of OpenAPI 3 (and to the JSON of Swagger 2).  The JSON is taken
// as a generic value, so that the names of its members are observed too.

const oasPrefix = "#/components/schemas/"
const swPrefix = "#/definitions/"

type absOas struct{ extra []string }

func (a *absOas) known(what string, m J, keys ...string) {
	for k := range m {
		ok := false
		for _, x := range keys {
			if x == k {
				ok = true
			}
		}
		if !ok {
			a.extra = append(a.extra, what+"."+k)
		}
	}
}

func sortedKeys(m J) []string {
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

func jint(v interface{}) int {
	switch n := v.(type) {
	case json.Number:
		i, err := n.Int64()
		if err != nil || i > 2000000000 || i < -2000000000 {
			return 2000000000
		}
		return int(i)
	}
	return 0
}

func optInt(m J, k string) []interface{} {
	if v, ok := m[k]; ok {
		return []interface{}{jint(v)}
	}
	return []interface{}{}
}

func optNum(m J, k string) []interface{} {
	if v, ok := m[k].(json.Number); ok {
		d, err := sadl.ParseDecimal(v.String())
		if err != nil {
			return []interface{}{v.String()}
		}
		return []interface{}{d.String()}
	}
	return []interface{}{}
}

func optVal(m J, k string) []interface{} {
	if v, ok := m[k]; ok && v != nil {
		return []interface{}{AbsValue(v)}
	}
	return []interface{}{}
}

func strOf(m J, k string) string {
	s, _ := m[k].(string)
	return s
}

func strList(v interface{}) []interface{} {
	r := []interface{}{}
	if l, ok := v.([]interface{}); ok {
		for _, e := range l {
			if s, ok := e.(string); ok {
				r = append(r, s)
			} else {
				r = append(r, fmt.Sprintf("?%v", e))
			}
		}
	}
	return r
}

func (a *absOas) schema(v interface{}) J {
	m, ok := v.(J)
	if !ok {
		m = J{}
		if v != nil {
			a.extra = append(a.extra, fmt.Sprintf("schema is %T", v))
		}
	}
	a.known("schema", m, "$ref", "type", "format", "description", "enum", "example", "minimum", "maximum", "minLength", "maxLength", "pattern",
		"minItems", "maxItems", "items", "required", "properties", "minProperties", "maxProperties", "additionalProperties", "oneOf")
	ref := strOf(m, "$ref")
	if ref != "" {
		if strings.HasPrefix(ref, oasPrefix) {
			ref = ref[len(oasPrefix):]
		} else {
			ref = "?" + ref
		}
	}
	props := []interface{}{}
	if pm, ok := m["properties"].(J); ok {
		for _, k := range sortedKeys(pm) {
			props = append(props, J{"n": k, "s": a.schema(pm[k])})
		}
	}
	opt := func(k string) []interface{} {
		if s, ok := m[k]; ok && s != nil {
			return []interface{}{a.schema(s)}
		}
		return []interface{}{}
	}
	one := []interface{}{}
	if l, ok := m["oneOf"].([]interface{}); ok {
		for _, s := range l {
			one = append(one, a.schema(s))
		}
	}
	return J{"ref": ref, "type": strOf(m, "type"), "format": strOf(m, "format"), "desc": strOf(m, "description"), "enum": strList(m["enum"]),
		"example": optVal(m, "example"), "min": optNum(m, "minimum"), "max": optNum(m, "maximum"), "minlen": jint(m["minLength"]), "maxlen": optInt(m, "maxLength"),
		"pattern": strOf(m, "pattern"), "minitems": jint(m["minItems"]), "maxitems": optInt(m, "maxItems"), "items": opt("items"),
		"required": strList(m["required"]), "props": props, "minprops": jint(m["minProperties"]), "maxprops": optInt(m, "maxProperties"),
		"addl": opt("additionalProperties"), "oneof": one}
}

func (a *absOas) examples(m J) []interface{} {
	r := []interface{}{}
	if em, ok := m["examples"].(J); ok {
		for _, k := range sortedKeys(em) {
			e, _ := em[k].(J)
			a.known("example", e, "value")
			r = append(r, J{"n": k, "v": AbsValue(e["value"])})
		}
	}
	return r
}

func (a *absOas) content(v interface{}) []interface{} {
	r := []interface{}{}
	if m, ok := v.(J); ok {
		for _, k := range sortedKeys(m) {
			mt, _ := m[k].(J)
			a.known("content", mt, "schema", "example", "examples")
			sch := []interface{}{}
			if mt["schema"] != nil {
				sch = append(sch, a.schema(mt["schema"]))
			}
			r = append(r, J{"mt": k, "schema": sch, "example": optVal(mt, "example"), "examples": a.examples(mt)})
		}
	}
	return r
}

func isTrue(v interface{}) bool { b, _ := v.(bool); return b }

func (a *absOas) params(v interface{}) []interface{} {
	r := []interface{}{}
	if l, ok := v.([]interface{}); ok {
		for _, e := range l {
			m, _ := e.(J)
			a.known("parameter", m, "name", "in", "description", "required", "schema", "example", "examples")
			sch := []interface{}{}
			if m["schema"] != nil {
				sch = append(sch, a.schema(m["schema"]))
			}
			r = append(r, J{"name": strOf(m, "name"), "in": strOf(m, "in"), "desc": strOf(m, "description"), "required": isTrue(m["required"]), "schema": sch,
				"example": optVal(m, "example"), "examples": a.examples(m)})
		}
	}
	return r
}

var oasMethods = []string{"get", "put", "post", "delete", "head", "patch", "options"}

func (a *absOas) op(m J) J {
	a.known("operation", m, "operationId", "summary", "description", "tags", "parameters", "requestBody", "responses")
	body := []interface{}{}
	if b, ok := m["requestBody"].(J); ok {
		a.known("requestBody", b, "description", "required", "content")
		body = append(body, J{"desc": strOf(b, "description"), "required": isTrue(b["required"]), "content": a.content(b["content"])})
	}
	resps := []interface{}{}
	if rm, ok := m["responses"].(J); ok {
		for _, k := range sortedKeys(rm) {
			rs, _ := rm[k].(J)
			a.known("response", rs, "description", "headers", "content")
			hs := []interface{}{}
			if hm, ok := rs["headers"].(J); ok {
				for _, h := range sortedKeys(hm) {
					hd, _ := hm[h].(J)
					a.known("header", hd, "description", "schema")
					sch := []interface{}{}
					if hd["schema"] != nil {
						sch = append(sch, a.schema(hd["schema"]))
					}
					hs = append(hs, J{"n": h, "desc": strOf(hd, "description"), "schema": sch})
				}
			}
			resps = append(resps, J{"status": k, "desc": strOf(rs, "description"), "headers": hs, "content": a.content(rs["content"])})
		}
	}
	return J{"id": strOf(m, "operationId"), "summary": strOf(m, "summary"), "tags": strList(m["tags"]), "params": a.params(m["parameters"]), "body": body, "resps": resps}
}

// absDoc projects the JSON of an OpenAPI 3 document.
func absDoc(data []byte) (J, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var m J
	if err := dec.Decode(&m); err != nil {
		return nil, err
	}
	a := &absOas{}
	a.known("document", m, "openapi", "info", "servers", "paths", "components", "externalDocs")
	info, _ := m["info"].(J)
	a.known("info", info, "title", "description", "version", "license", "contact", "termsOfService")
	lic := []interface{}{}
	if l, ok := info["license"].(J); ok && (strOf(l, "name") != "" || strOf(l, "url") != "") {
		lic = append(lic, J{"name": strOf(l, "name"), "url": strOf(l, "url")})
	}
	contact := []interface{}{}
	if c, ok := info["contact"].(J); ok && (strOf(c, "name") != "" || strOf(c, "url") != "" || strOf(c, "email") != "") {
		contact = append(contact, J{"name": strOf(c, "name"), "url": strOf(c, "url"), "email": strOf(c, "email")})
	}
	docs := []interface{}{}
	if d, ok := m["externalDocs"].(J); ok && (strOf(d, "description") != "" || strOf(d, "url") != "") {
		docs = append(docs, J{"desc": strOf(d, "description"), "url": strOf(d, "url")})
	}
	servers := []interface{}{}
	if l, ok := m["servers"].([]interface{}); ok {
		for _, s := range l {
			sm, _ := s.(J)
			servers = append(servers, strOf(sm, "url"))
		}
	}
	schemas := []interface{}{}
	if c, ok := m["components"].(J); ok {
		a.known("components", c, "schemas")
		if sm, ok := c["schemas"].(J); ok {
			for _, k := range sortedKeys(sm) {
				schemas = append(schemas, J{"n": k, "s": a.schema(sm[k])})
			}
		}
	}
	paths := []interface{}{}
	if pm, ok := m["paths"].(J); ok {
		for _, k := range sortedKeys(pm) {
			pi, _ := pm[k].(J)
			a.known("path", pi, append([]string{"parameters"}, oasMethods...)...)
			ops := []interface{}{}
			for _, mt := range oasMethods {
				if o, ok := pi[mt].(J); ok {
					ops = append(ops, J{"m": strings.ToUpper(mt), "op": a.op(o)})
				}
			}
			paths = append(paths, J{"p": k, "shared": a.params(pi["parameters"]), "ops": ops})
		}
	}
	if a.extra == nil {
		a.extra = []string{}
	}
	sort.Strings(a.extra)
	return J{"openapi": strOf(m, "openapi"), "title": strOf(info, "title"), "desc": strOf(info, "description"), "version": strOf(info, "version"), "license": lic,
		"terms": strOf(info, "termsOfService"), "contact": contact, "docs": docs, "servers": servers, "schemas": schemas, "paths": paths, "extra": a.extra}, nil
}

// ---- abstract to JSON

type conc struct{ v2 bool }

func put(m J, k string, v interface{}) {
	switch x := v.(type) {
	case string:
		if x == "" {
			return
		}
	case []interface{}:
		if len(x) == 0 {
			return
		}
	case bool:
		if !x {
			return
		}
	case nil:
		return
	}
	m[k] = v
}

func numJ(s string) interface{} { return json.Number(s) }

// plainVal is an abstract value as JSON
func plainVal(v J) interface{} {
	switch Str(v, "k") {
	case "str":
		return Str(v, "s")
	case "num":
		d, err := sadl.ParseDecimal(Str(v, "n"))
		if err != nil {
			panic(err)
		}
		return numJ(d.String())
	case "bool":
		return Bool(v, "b")
	case "arr":
		r := []interface{}{}
		for _, e := range List(v, "a") {
			r = append(r, plainVal(e.(J)))
		}
		return r
	case "obj":
		r := J{}
		for _, e := range List(v, "o") {
			r[Str(e.(J), "n")] = plainVal(Sub(e.(J), "v"))
		}
		return r
	}
	return nil
}

func (c conc) schema(s J) J {
	m := J{}
	c.schemaInto(m, s)
	return m
}

// a text that begins with # stands for something that is not a text
func oddEnum(l []interface{}) []interface{} {
	r := []interface{}{}
	for _, e := range l {
		if s := e.(string); len(s) > 1 && s[0] == '#' {
			var v interface{}
			if err := json.Unmarshal([]byte(s[1:]), &v); err != nil {
				panic(err)
			}
			r = append(r, v)
		} else {
			r = append(r, e)
		}
	}
	return r
}

func (c conc) schemaInto(m, s J) {
	if r := Str(s, "ref"); r != "" {
		if c.v2 {
			m["$ref"] = swPrefix + r
		} else {
			m["$ref"] = oasPrefix + r
		}
	}
	put(m, "type", Str(s, "type"))
	put(m, "format", Str(s, "format"))
	put(m, "description", Str(s, "desc"))
	put(m, "enum", oddEnum(List(s, "enum")))
	put(m, "pattern", Str(s, "pattern"))
	put(m, "required", List(s, "required"))
	for k, n := range map[string]string{"min": "minimum", "max": "maximum"} {
		for _, v := range List(s, k) {
			m[n] = numJ(v.(string))
		}
	}
	for k, n := range map[string]string{"minlen": "minLength", "minitems": "minItems", "minprops": "minProperties"} {
		if v := Int(s, k); v != 0 {
			m[n] = v
		}
	}
	for k, n := range map[string]string{"maxlen": "maxLength", "maxitems": "maxItems", "maxprops": "maxProperties"} {
		for _, v := range List(s, k) {
			m[n] = v
		}
	}
	for k, n := range map[string]string{"items": "items", "addl": "additionalProperties"} {
		for _, v := range List(s, k) {
			m[n] = c.schema(v.(J))
		}
	}
	for _, v := range List(s, "example") {
		m["example"] = plainVal(v.(J))
	}
	if l := List(s, "props"); len(l) > 0 {
		p := J{}
		for _, e := range l {
			p[Str(e.(J), "n")] = c.schema(Sub(e.(J), "s"))
		}
		m["properties"] = p
	}
	if l := List(s, "oneof"); len(l) > 0 {
		r := []interface{}{}
		for _, e := range l {
			r = append(r, c.schema(e.(J)))
		}
		m["oneOf"] = r
	}
}

func (c conc) content(l []interface{}) J {
	m := J{}
	for _, e := range l {
		mt := J{}
		for _, s := range List(e.(J), "schema") {
			mt["schema"] = c.schema(s.(J))
		}
		m[Str(e.(J), "mt")] = mt
	}
	return m
}

func (c conc) params(l []interface{}) []interface{} {
	r := []interface{}{}
	for _, e := range l {
		p := e.(J)
		m := J{}
		put(m, "name", Str(p, "name"))
		put(m, "in", Str(p, "in"))
		put(m, "required", Bool(p, "required"))
		for _, s := range List(p, "schema") {
			if c.v2 && Str(p, "in") != "body" {
				c.schemaInto(m, s.(J))
			} else {
				m["schema"] = c.schema(s.(J))
			}
		}
		delete(m, "description")
		put(m, "description", Str(p, "desc"))
		r = append(r, m)
	}
	return r
}

func (c conc) op(o J) J {
	m := J{}
	put(m, "operationId", Str(o, "id"))
	put(m, "summary", Str(o, "summary"))
	put(m, "tags", List(o, "tags"))
	put(m, "parameters", c.params(List(o, "params")))
	for _, b := range List(o, "body") {
		bm := J{"content": c.content(List(b.(J), "content"))}
		put(bm, "description", Str(b.(J), "desc"))
		put(bm, "required", Bool(b.(J), "required"))
		m["requestBody"] = bm
	}
	if c.v2 {
		put(m, "consumes", List(o, "consumes"))
		put(m, "produces", List(o, "produces"))
	}
	rs := J{}
	for _, e := range List(o, "resps") {
		r := e.(J)
		rm := J{}
		put(rm, "description", Str(r, "desc"))
		hs := J{}
		for _, h := range List(r, "headers") {
			hm := J{}
			for _, s := range List(h.(J), "schema") {
				if c.v2 {
					c.schemaInto(hm, s.(J))
				} else {
					hm["schema"] = c.schema(s.(J))
				}
			}
			delete(hm, "description")
			put(hm, "description", Str(h.(J), "desc"))
			hs[Str(h.(J), "n")] = hm
		}
		if len(hs) > 0 {
			rm["headers"] = hs
		}
		if c.v2 {
			for _, s := range List(r, "schema") {
				rm["schema"] = c.schema(s.(J))
			}
		} else if l := List(r, "content"); len(l) > 0 {
			rm["content"] = c.content(l)
		}
		rs[Str(r, "status")] = rm
	}
	if len(rs) > 0 {
		m["responses"] = rs
	}
	return m
}

func (c conc) doc(d J) J {
	m := J{}
	info := J{}
	put(info, "title", Str(d, "title"))
	put(info, "description", Str(d, "desc"))
	put(info, "version", Str(d, "version"))
	for _, l := range List(d, "license") {
		lm := J{}
		put(lm, "name", Str(l.(J), "name"))
		put(lm, "url", Str(l.(J), "url"))
		info["license"] = lm
	}
	put(info, "termsOfService", Str(d, "terms"))
	for _, c := range List(d, "contact") {
		cm := J{}
		put(cm, "name", Str(c.(J), "name"))
		put(cm, "url", Str(c.(J), "url"))
		put(cm, "email", Str(c.(J), "email"))
		info["contact"] = cm
	}
	for _, x := range List(d, "docs") {
		xm := J{}
		put(xm, "description", Str(x.(J), "desc"))
		put(xm, "url", Str(x.(J), "url"))
		m["externalDocs"] = xm
	}
	if len(info) > 0 {
		m["info"] = info
	}
	schemas := J{}
	for _, e := range List(d, "schemas") {
		schemas[Str(e.(J), "n")] = c.schema(Sub(e.(J), "s"))
	}
	paths := J{}
	for _, e := range List(d, "paths") {
		p := e.(J)
		pi := J{}
		put(pi, "parameters", c.params(List(p, "shared")))
		for _, o := range List(p, "ops") {
			pi[strings.ToLower(Str(o.(J), "m"))] = c.op(Sub(o.(J), "op"))
		}
		paths[Str(p, "p")] = pi
	}
	if c.v2 {
		put(m, "swagger", Str(d, "swagger"))
		put(m, "host", Str(d, "host"))
		put(m, "basePath", Str(d, "basepath"))
		put(m, "schemes", List(d, "schemes"))
		put(m, "consumes", List(d, "consumes"))
		put(m, "produces", List(d, "produces"))
		if len(schemas) > 0 {
			m["definitions"] = schemas
		}
		m["paths"] = paths
		return m
	}
	put(m, "openapi", Str(d, "openapi"))
	servers := []interface{}{}
	for _, u := range List(d, "servers") {
		servers = append(servers, J{"url": u})
	}
	put(m, "servers", servers)
	if len(schemas) > 0 {
		m["components"] = J{"schemas": schemas}
	}
	if Bool(d, "nopaths") {
		return m
	}
	m["paths"] = paths
	return m
}

// copies gives the path as often as the case says
func copies(path string, in J) []string {
	ps := []string{}
	for i := 0; i < Int(in, "files"); i++ {
		ps = append(ps, path)
	}
	return ps
}

// writeDoc writes the JSON (or YAML, by the extension of the name) into a file of a scratch directory.
func writeDoc(doc J, fname string) (string, func()) {
	dir, err := os.MkdirTemp("", "vfoas")
	if err != nil {
		panic(err)
	}
	data, err := json.Marshal(doc)
	if err == nil && filepath.Ext(fname) == ".yaml" {
		data, err = yaml.JSONToYAML(data)
	}
	if err != nil {
		panic(err)
	}
	path := filepath.Join(dir, fname)
	if err := os.WriteFile(path, data, 0644); err != nil {
		panic(err)
	}
	return path, func() { os.RemoveAll(dir) }
}

func oasJSON(m *sadl.Model) ([]byte, error) {
	doc, err := openapi.NewGenerator(m, sadl.NewData()).ExportToOAS3()
	if err != nil {
		return nil, err
	}
	data, err := json.Marshal(doc)
	if err != nil {
		panic("the exported document is not JSON: " + err.Error())
	}
	return data, nil
}

// repeat performs an import several times: it has to give the same model each time
func repeat(f func() (*sadl.Model, error)) J {
	var first J
	for i := 0; i < 5; i++ {
		m, err := f()
		var o J
		if err != nil {
			o = J{"st": "err"}
		} else {
			o = J{"st": "ok", "schema": FromSchema(&m.Schema)}
		}
		if i == 0 {
			first = o
		} else if !reflect.DeepEqual(first, o) {
			return J{"st": "varies", "first": first, "other": o}
		}
	}
	return first
}

func init() {
	export := func(in J) J {
		m := model(in)
		before := FromSchema(&m.Schema)
		data, err := oasJSON(m)
		if err != nil {
			said := CaptureStdout(func() { err = openapi.Export(m, sadl.NewData()) })
			if err == nil || said != "" {
				return J{"st": "prints what is refused"}
			}
			return J{"st": "err"}
		}
		data2, err2 := oasJSON(m)
		if err2 != nil || !bytes.Equal(data, data2) {
			return J{"st": "varies"}
		}
		var printed, exported interface{}
		var err3 error
		text := CaptureStdout(func() { err3 = openapi.Export(m, sadl.NewData()) })
		if err3 != nil || json.Unmarshal([]byte(text), &printed) != nil || json.Unmarshal(data, &exported) != nil || !reflect.DeepEqual(printed, exported) {
			return J{"st": "prints something else"}
		}
		if !reflect.DeepEqual(before, FromSchema(&m.Schema)) {
			return J{"st": "changed the model"}
		}
		doc, err := absDoc(data)
		if err != nil {
			return J{"st": "not JSON"}
		}
		return J{"st": "ok", "doc": doc}
	}
	Ops["oas.types"], Ops["oas.ops"] = export, export
	Ops["oas.import"] = func(in J) J {
		path, done := writeDoc(conc{}.doc(Sub(in, "doc")), Str(in, "fname"))
		defer done()
		return repeat(func() (*sadl.Model, error) { return openapi.Import(copies(path, in), sadl.NewData()) })
	}
	Ops["swagger.import"] = func(in J) J {
		path, done := writeDoc(conc{v2: true}.doc(Sub(in, "doc")), Str(in, "fname"))
		defer done()
		o := repeat(func() (*sadl.Model, error) { return openapi.ImportSwagger(copies(path, in), sadl.NewData()) })
		o["valid"], o["v3"] = openapi.IsValidSwaggerFile(path), openapi.IsValidFile(path)
		m3, err := openapi.LoadSwagger(path)
		if err != nil {
			o["load"] = "err"
			return o
		}
		o["load"] = "ok"
		data, err := json.Marshal(m3)
		if err != nil {
			return J{"st": "not JSON"}
		}
		if o["doc"], err = absDoc(data); err != nil {
			return J{"st": "not JSON"}
		}
		return o
	}
	Ops["oas.roundtrip"] = func(in J) J {
		data, err := oasJSON(model(in))
		if err != nil {
			return J{"st": "err"}
		}
		var doc J
		dec := json.NewDecoder(bytes.NewReader(data))
		dec.UseNumber()
		if err := dec.Decode(&doc); err != nil {
			return J{"st": "not JSON"}
		}
		path, done := writeDoc(doc, Str(in, "fname"))
		defer done()
		return repeat(func() (*sadl.Model, error) { return openapi.Import([]string{path}, sadl.NewData()) })
	}
}
