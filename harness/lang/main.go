package main

import (
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/boynton/sadl"
	"github.com/boynton/scanner"

	. "verif/harness/kit"
)

// The language: parser and unparser, over a stand-in of the scanner.

func schemaOf(m *sadl.Model) J { return FromSchema(&m.Schema) }

func marked(annos map[string]string, inc string) {
	if v, ok := annos["x_include"]; ok && v == inc {
		annos["x_include"] = "INC"
	}
}

func init() {
	parse := func(in J) J {
		m, err := sadl.ParseSadlString(Str(in, "src"), sadl.NewData())
		if err != nil {
			return J{"st": "err", "msg": Trim(err.Error())}
		}
		s := schemaOf(m)
		m2, err := sadl.ParseSadlString(Str(in, "src"), sadl.NewData())
		return J{"st": "ok", "schema": s, "same": err == nil && reflect.DeepEqual(s, schemaOf(m2))}
	}
	Ops["sadl.parse"] = parse
	Ops["sadl.any"] = parse
	Ops["sadl.file"] = func(in J) J {
		dir, err := os.MkdirTemp("", "vf-lang")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		main, inc := filepath.Join(dir, "main.sadl"), filepath.Join(dir, "inc.sadl")
		names := strings.NewReplacer("\"INC\"", "\""+inc+"\"", "\"MAIN\"", "\""+main+"\"")
		os.WriteFile(main, []byte(names.Replace(Str(in, "main"))), 0600)
		os.WriteFile(inc, []byte(names.Replace(Str(in, "inc"))), 0600)
		read := func() (J, error) {
			m, err := sadl.ParseSadlFile(main, sadl.NewData())
			if err != nil {
				return nil, err
			}
			for _, td := range m.Types {
				marked(td.Annotations, inc)
			}
			for _, h := range m.Http {
				marked(h.Annotations, inc)
			}
			for _, op := range m.Operations {
				marked(op.Annotations, inc)
			}
			return schemaOf(m), nil
		}
		s, err := read()
		if err != nil {
			return J{"st": "err", "msg": Trim(strings.ReplaceAll(err.Error(), dir, ""))}
		}
		s2, err := read()
		return J{"st": "ok", "schema": s, "same": err == nil && reflect.DeepEqual(s, s2)}
	}
	Ops["sadl.back"] = func(in J) J {
		m, err := sadl.ParseSadlString(Str(in, "src"), sadl.NewData())
		if err != nil {
			return J{"st": "notread", "msg": Trim(err.Error())}
		}
		before := schemaOf(m)
		text := sadl.DecompileSadl(m)
		kept := reflect.DeepEqual(before, schemaOf(m))
		same := true
		for i := 0; i < 4; i++ {
			same = same && sadl.DecompileSadl(m) == text
		}
		m2, err := sadl.ParseSadlString(text, sadl.NewData())
		if err != nil {
			return J{"st": "err", "msg": Trim(err.Error()), "text": text}
		}
		return J{"st": "ok", "schema": schemaOf(m2), "same": same, "kept": kept, "text": text}
	}
}

// An extension that reads its directive in one of three ways, and says what it was given.
type extension struct {
	name, how string
	invalid   bool
	calls     *[]interface{}
	validated *[]interface{}
	mine      []interface{}
}

func (x *extension) Name() string        { return x.name }
func (x *extension) Result() interface{} { return x.mine }

func (x *extension) Parse(p *sadl.Parser) error {
	if len(*x.calls) > 200 {
		return p.Error("handed the same again and again")
	}
	note, said, words := p.CurrentComment(), "", []string{}
	err := x.read(p, &said, &words)
	list := []interface{}{}
	for _, w := range words {
		list = append(list, w)
	}
	*x.calls = append(*x.calls, J{"name": x.name, "note": note, "said": said, "words": list})
	x.mine = append(x.mine, strings.Join(words, " "))
	return err
}

func (x *extension) read(p *sadl.Parser, said *string, words *[]string) error {
	switch x.how {
	case "line":
		for {
			tok := p.GetToken()
			if tok == nil {
				p.UngetToken() // there is none
				return nil
			}
			if tok.Type == scanner.NEWLINE || tok.Type == scanner.LINE_COMMENT {
				p.UngetToken()
				return nil
			}
			*words = append(*words, tok.Text)
			if tok.Text == "bad" || len(*words) > 200 {
				return p.Error("bad word")
			}
		}
	case "block":
		if tok := p.GetToken(); tok == nil || tok.Type != scanner.OPEN_BRACE {
			return p.SyntaxError()
		}
		for {
			done, said2, err := p.IsBlockDone(*said)
			*said = said2
			if done || err != nil {
				return err
			}
			w, err := p.ExpectIdentifier()
			if err != nil {
				return err
			}
			*words = append(*words, w)
		}
	}
	return nil
}

func (x *extension) Validate(p *sadl.Parser) error {
	names := []interface{}{}
	for _, td := range p.Model().Types {
		names = append(names, td.Name)
	}
	*x.validated = append(*x.validated, J{"name": x.name, "types": names})
	if x.invalid {
		return p.Error("invalid")
	}
	return nil
}

func init() {
	Ops["sadl.extend"] = func(in J) J {
		dir, err := os.MkdirTemp("", "vf-lang")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		main, inc := filepath.Join(dir, "main.sadl"), filepath.Join(dir, "inc.sadl")
		src := strings.ReplaceAll(Str(in, "src"), "\"INC\"", "\""+inc+"\"")
		os.WriteFile(main, []byte(src), 0600)
		os.WriteFile(inc, []byte(Str(in, "incsrc")), 0600)
		calls, validated := []interface{}{}, []interface{}{}
		exts := []sadl.Extension{}
		for _, e := range List(in, "exts") {
			exts = append(exts, &extension{name: Str(e.(J), "name"), how: Str(e.(J), "how"), invalid: Bool(e.(J), "invalid"), calls: &calls, validated: &validated, mine: []interface{}{}})
		}
		var m *sadl.Model
		if Bool(in, "file") {
			m, err = sadl.ParseSadlFile(main, sadl.NewData(), exts...)
		} else {
			m, err = sadl.ParseSadlString(src, sadl.NewData(), exts...)
		}
		o := J{"st": "ok", "calls": calls, "validated": validated}
		if err != nil {
			o["st"], o["msg"] = "err", Trim(strings.ReplaceAll(err.Error(), dir, ""))
			return o
		}
		types := []interface{}{}
		for _, td := range m.Types {
			types = append(types, J{"name": td.Name, "comment": td.Comment})
		}
		results := []interface{}{}
		for k, v := range m.Extensions {
			results = append(results, []interface{}{k, v})
		}
		o["types"], o["about"], o["results"] = types, m.Comment, results
		return o
	}
}

func main() { Main() }
