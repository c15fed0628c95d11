package main

import (
	"github.com/boynton/sadl"

	. "verif/harness/kit"
)

func model(in J) *sadl.Model {
	m, err := sadl.NewModel(ToSchema(Sub(in, "schema")))
	if err != nil {
		panic("a case whose schema is not a model: " + err.Error())
	}
	return m
}

func init() {
	Ops["model.new"] = func(in J) J {
		m, err := sadl.NewModel(ToSchema(Sub(in, "schema")))
		if err != nil {
			return J{"st": "err"}
		}
		types, https := []interface{}{}, []interface{}{}
		for _, n := range Strs(in, "names") {
			if td := m.FindType(n); td != nil {
				types = append(types, J{"found": true, "name": td.Name, "ts": FromTypeSpec(&td.TypeSpec)})
			} else {
				types = append(types, J{"found": false})
			}
			if hd := m.FindHttp(n); hd != nil {
				https = append(https, J{"found": true, "def": FromHttp(hd)})
			} else {
				https = append(https, J{"found": false})
			}
		}
		return J{"st": "ok", "types": types, "http": https, "schema": FromSchema(&m.Schema)}
	}
	for _, op := range []string{"model.validate", "model.validatespec", "model.equiv", "model.equivname", "model.target"} {
		op := op
		Ops[op] = func(in J) J { return modelStep(model(in), op, in) }
	}
	// several questions of one model: no answer depends on what was asked before, and the model stays what it was
	Ops["model.session"] = func(in J) J {
		m := model(in)
		outs := []interface{}{}
		for _, q := range List(in, "steps") {
			st := q.(J)
			outs = append(outs, modelStep(m, Str(st, "op"), Sub(st, "in")))
		}
		return J{"st": "ok", "outs": outs, "schema": FromSchema(&m.Schema)}
	}
	Ops["model.inline"] = func(in J) J {
		m := model(in)
		err := m.ConvertInlineEnums()
		index := []interface{}{}
		for _, td := range m.Types {
			if f := m.FindType(td.Name); f != nil {
				index = append(index, FromTypeSpec(&f.TypeSpec))
			} else {
				index = append(index, "missing")
			}
		}
		return J{"st": St(err), "schema": FromSchema(&m.Schema), "index": index}
	}
}

func modelStep(m *sadl.Model, op string, in J) J {
	switch op {
	case "model.validate":
		return J{"st": St(m.Validate(Str(in, "context"), Str(in, "type"), Value(Sub(in, "value"), Bool(in, "plain"))))}
	case "model.validatespec":
		ts := ToTypeSpec(Sub(in, "ts"))
		return J{"st": St(m.ValidateAgainstTypeSpec(Str(in, "context"), &ts, Value(Sub(in, "value"), Bool(in, "plain"))))}
	case "model.equiv":
		a, b := ToTypeSpec(Sub(in, "a")), ToTypeSpec(Sub(in, "b"))
		aa := ToTypeSpec(Sub(in, "a"))
		return J{"st": "ok", "ab": m.EquivalentTypes(&a, &b), "ba": m.EquivalentTypes(&b, &a), "aa": m.EquivalentTypes(&a, &aa)}
	case "model.equivname":
		return J{"st": "ok", "ab": m.EquivalentTypesByName(Str(in, "a"), Str(in, "b")), "ba": m.EquivalentTypesByName(Str(in, "b"), Str(in, "a"))}
	case "model.target":
		ts, err := m.FindExampleType(&sadl.ExampleDef{Target: Str(in, "target")})
		if err != nil {
			return J{"st": "err"}
		}
		if ts == nil {
			return J{"st": "whole"}
		}
		return J{"st": "ok", "ts": FromTypeSpec(ts)}
	}
	panic("unknown step " + op)
}
