package main

import (
	"bytes"
	"encoding/json"
	"strings"

	"github.com/boynton/sadl"

	. "verif/harness/kit"
)

// a JSON document as an abstract value, with its numbers as they are written
func savedDoc(text []byte) (J, error) {
	dec := json.NewDecoder(bytes.NewReader(text))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	return AbsValue(v), nil
}

// an abstract value as JSON text, keys in the order given
func savedText(v J) string {
	switch Str(v, "k") {
	case "null":
		return "null"
	case "num":
		return Str(v, "n")
	case "bool":
		if Bool(v, "b") {
			return "true"
		}
		return "false"
	case "str":
		b, _ := json.Marshal(Str(v, "s"))
		return string(b)
	case "arr":
		s := "["
		for i, e := range List(v, "a") {
			if i > 0 {
				s += ", "
			}
			s += savedText(e.(J))
		}
		return s + "]"
	}
	s := "{"
	for i, e := range List(v, "o") {
		if i > 0 {
			s += ",\n "
		}
		k, _ := json.Marshal(Str(e.(J), "n"))
		s += string(k) + ": " + savedText(Sub(e.(J), "v"))
	}
	return s + "}"
}

func init() {
	Ops["schema.save"] = func(in J) J {
		s := ToSchema(Sub(in, "schema"))
		s.Sadl = Str(in, "version")
		text, err := json.Marshal(s)
		if err != nil {
			return J{"st": "err", "msg": err.Error()}
		}
		doc, err := savedDoc(text)
		if err != nil {
			return J{"st": "err", "msg": err.Error()}
		}
		shown := sadl.Pretty(s)
		pretty, err := savedDoc([]byte(shown))
		if err != nil {
			return J{"st": "err", "msg": err.Error()}
		}
		var again, third sadl.Schema
		if err := json.Unmarshal(text, &again); err != nil {
			return J{"st": "err", "msg": err.Error()}
		}
		text2, err := json.Marshal(&again)
		if err != nil {
			return J{"st": "err", "msg": err.Error()}
		}
		if err := json.Unmarshal(text2, &third); err != nil {
			return J{"st": "err", "msg": err.Error()}
		}
		return J{"st": "ok", "doc": doc, "pretty": pretty, "plain": !strings.Contains(shown, "\\u00"), "schema": FromSchema(&again), "version": again.Sadl, "stable": sadl.Equivalent(&again, &third)}
	}
	Ops["schema.load"] = func(in J) J {
		var s sadl.Schema
		if err := json.Unmarshal([]byte(savedText(Sub(in, "doc"))), &s); err != nil {
			return J{"st": "err", "msg": err.Error()}
		}
		return J{"st": "ok", "schema": FromSchema(&s)}
	}
}
