package main

import (
	"encoding/json"
	"os"
	"path/filepath"

	"github.com/boynton/sadl/openapi"
	"github.com/ghodss/yaml"

	. "verif/harness/kit"
)

// load reads a document from a file, and gives what it is when written again
func loadDoc(text []byte, fname string) (string, J, bool, []byte) {
	dir, err := os.MkdirTemp("", "vfdoc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, fname)
	if filepath.Ext(fname) == ".yaml" {
		if text, err = yaml.JSONToYAML(text); err != nil {
			panic(err)
		}
	}
	if err := os.WriteFile(path, text, 0644); err != nil {
		panic(err)
	}
	valid := openapi.IsValidFile(path)
	m, err := openapi.Load(path)
	if err != nil {
		return "err", nil, valid, nil
	}
	out, err := json.Marshal(m)
	if err != nil {
		return "not JSON", nil, valid, nil
	}
	doc, err := savedDoc(out)
	if err != nil {
		return "not JSON", nil, valid, nil
	}
	return "ok", doc, valid, out
}

func init() {
	Ops["oas.document"] = func(in J) J {
		st, doc, valid, text := loadDoc([]byte(savedText(Sub(in, "doc"))), Str(in, "fname"))
		if st != "ok" {
			return J{"st": st, "valid": valid}
		}
		st2, again, _, _ := loadDoc(text, "again.json")
		if st2 != "ok" {
			return J{"st": "cannot be loaded again", "valid": valid}
		}
		return J{"st": "ok", "doc": doc, "valid": valid, "again": again}
	}
}
