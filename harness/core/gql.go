package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/sadl/graphql"
	"github.com/graphql-go/graphql/language/ast"
	"github.com/graphql-go/graphql/language/parser"
	"github.com/graphql-go/graphql/language/source"

	. "verif/harness/kit"
)

// GraphQL documents of the specification (spec/GraphQL.tla), to and from text.

func gqlTypeText(t ast.Type) string {
	switch x := t.(type) {
	case *ast.Named:
		return x.Name.Value
	case *ast.List:
		return "[" + gqlTypeText(x.Type) + "]"
	case *ast.NonNull:
		return gqlTypeText(x.Type) + "!"
	}
	return fmt.Sprintf("%T", t)
}

func gdef(k, n string) J {
	return J{"k": k, "n": n, "desc": "", "fields": []interface{}{}, "syms": []interface{}{}, "members": []interface{}{}}
}

// the comment lines right before the line of each field, by type and field
func gqlComments(text string) map[string]string {
	out := map[string]string{}
	typ := ""
	var pending []string
	for _, l := range strings.Split(text, "\n") {
		s := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(s, "#"):
			pending = append(pending, strings.TrimPrefix(strings.TrimPrefix(s, "#"), " "))
			continue
		case strings.HasPrefix(s, "type "):
			typ = strings.Fields(s)[1]
		case strings.Contains(s, ":"):
			out[typ+"."+strings.TrimSpace(s[:strings.Index(s, ":")])] = strings.Join(pending, "\n")
		}
		pending = nil
	}
	return out
}

func gqlDefs(text string) ([]interface{}, error) {
	// the parser takes bytes for characters after a comment that is not all ASCII
	ascii := strings.Map(func(c rune) rune {
		if c > 126 {
			return '?'
		}
		return c
	}, text)
	doc, err := parser.Parse(parser.ParseParams{Source: &source.Source{Body: []byte(ascii), Name: "x"}, Options: parser.ParseOptions{NoLocation: true}})
	if err != nil {
		return nil, err
	}
	comments := gqlComments(text)
	defs := []interface{}{}
	for _, d := range doc.Definitions {
		switch x := d.(type) {
		case *ast.ObjectDefinition:
			g := gdef("type", x.Name.Value)
			fs := []interface{}{}
			for _, f := range x.Fields {
				desc := comments[x.Name.Value+"."+f.Name.Value]
				if f.Description != nil {
					desc = f.Description.Value
				}
				fs = append(fs, J{"n": f.Name.Value, "t": gqlTypeText(f.Type), "desc": desc})
			}
			g["fields"] = fs
			defs = append(defs, g)
		case *ast.EnumDefinition:
			g := gdef("enum", x.Name.Value)
			l := []interface{}{}
			for _, v := range x.Values {
				l = append(l, J{"n": v.Name.Value, "desc": ""})
			}
			g["syms"] = l
			defs = append(defs, g)
		case *ast.UnionDefinition:
			g := gdef("union", x.Name.Value)
			l := []interface{}{}
			for _, v := range x.Types {
				l = append(l, v.Name.Value)
			}
			g["members"] = l
			defs = append(defs, g)
		case *ast.ScalarDefinition:
			defs = append(defs, gdef("scalar", x.Name.Value))
		default:
			defs = append(defs, gdef(d.GetKind(), ""))
		}
	}
	return defs, nil
}

func gqlExport(in J) J {
	build := func() (*sadl.Model, *sadl.Data) {
		m, err := sadl.NewModel(ToSchema(Sub(in, "schema")))
		if err != nil {
			panic(err)
		}
		conf := sadl.NewData()
		sc := J{}
		for _, x := range List(in, "scalars") {
			p := x.([]interface{})
			sc[p[0].(string)] = p[1]
		}
		if len(sc) > 0 {
			conf.Put("custom-scalars", sc)
		}
		return m, conf
	}
	m, conf := build()
	before := fmt.Sprint(FromSchema(&m.Schema))
	text, err := graphql.FromSadl(m, conf)
	if fmt.Sprint(FromSchema(&m.Schema)) != before {
		return J{"st": "changed the model"}
	}
	if err != nil {
		return J{"st": "err"}
	}
	for i := 0; i < 4; i++ {
		m2, conf2 := build()
		again, err := graphql.FromSadl(m2, conf2)
		if err != nil || again != text {
			return J{"st": "varies"}
		}
	}
	// and what Export prints is that
	m3, conf3 := build()
	printed := CaptureStdout(func() { err = graphql.Export(m3, conf3) })
	if err != nil || strings.TrimSpace(printed) != strings.TrimSpace(text) {
		return J{"st": "prints something else"}
	}
	defs, err := gqlDefs(text)
	if err != nil {
		return J{"st": "not GraphQL"}
	}
	return J{"st": "ok", "defs": defs}
}

func gqlString(s string, style int) string {
	if style%2 == 1 && !strings.ContainsAny(s, "\\\"") {
		return "\"\"\"" + s + "\"\"\""
	}
	r := strings.NewReplacer("\\", "\\\\", "\"", "\\\"", "\n", "\\n")
	return "\"" + r.Replace(s) + "\""
}

func gqlText(defs []interface{}, style int) string {
	b := &strings.Builder{}
	desc := func(s, ind string) {
		if s != "" {
			fmt.Fprintf(b, "%s%s\n", ind, gqlString(s, style))
		}
	}
	ref := func(t J) string {
		s := Str(t, "n")
		for i := 0; i < Int(t, "lst"); i++ {
			if Bool(t, "inn") {
				s += "!"
			}
			s = "[" + s + "]"
		}
		if Bool(t, "nn") {
			s += "!"
		}
		return s
	}
	if style >= 2 {
		b.WriteString("# a document\n")
	}
	for _, x := range defs {
		d := x.(J)
		n := Str(d, "n")
		switch k := Str(d, "k"); k {
		case "type", "interface", "input":
			desc(Str(d, "desc"), "")
			fmt.Fprintf(b, "%s %s {\n", k, n)
			for i, y := range List(d, "fields") {
				f := y.(J)
				desc(Str(f, "desc"), "  ")
				args := ""
				if style >= 2 && i%2 == 0 && k == "type" {
					args = "(first: Int, after: String)"
				}
				sep := ""
				if style >= 2 {
					sep = ","
				}
				fmt.Fprintf(b, "  %s%s: %s%s\n", Str(f, "n"), args, ref(Sub(f, "t")), sep)
			}
			b.WriteString("}\n")
		case "enum":
			desc(Str(d, "desc"), "")
			fmt.Fprintf(b, "enum %s {\n", n)
			for _, y := range List(d, "syms") {
				desc(Str(y.(J), "desc"), "  ")
				fmt.Fprintf(b, "  %s\n", Str(y.(J), "n"))
			}
			b.WriteString("}\n")
		case "union":
			desc(Str(d, "desc"), "")
			fmt.Fprintf(b, "union %s = %s\n", n, strings.Join(Strs(d, "members"), " | "))
		case "scalar":
			desc(Str(d, "desc"), "")
			fmt.Fprintf(b, "scalar %s\n", n)
		case "schema":
			b.WriteString("schema {\n")
			for i, m := range Strs(d, "members") {
				fmt.Fprintf(b, "  %s: %s\n", []string{"query", "mutation", "subscription"}[i%3], m)
			}
			b.WriteString("}\n")
		case "extend":
			fmt.Fprintf(b, "extend type %s { zz: Int }\n", n)
		case "directive":
			fmt.Fprintf(b, "directive @d%s on FIELD\n", n)
		case "query":
			fmt.Fprintf(b, "query Q%s { a }\n", n)
		}
	}
	return b.String()
}

func gqlImport(in J) J {
	dir, err := os.MkdirTemp("", "gql")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "x.graphql")
	if err := os.WriteFile(path, []byte(gqlText(List(in, "defs"), Int(in, "style"))), 0644); err != nil {
		panic(err)
	}
	if !graphql.IsValidFile(path) {
		return J{"st": "not taken for GraphQL"}
	}
	return repeat(func() (*sadl.Model, error) {
		conf := sadl.NewData()
		if s := Str(in, "name"); s != "" {
			conf.Put("name", s)
		}
		if s := Str(in, "namespace"); s != "" {
			conf.Put("namespace", s)
		}
		return graphql.Import(copies(path, in), conf)
	})
}

func init() {
	Ops["gql.export"] = gqlExport
	Ops["gql.import"] = gqlImport
}
