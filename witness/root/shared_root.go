package yarql_test

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/mjarkk/yarql"
)

type vM struct{}

// mustSchema parses a schema or reports a failure
func mustSchema(h *vh, name string, query, method interface{}, setup func(s *yarql.Schema)) *yarql.Schema {
	s := yarql.NewSchema()
	if setup != nil {
		setup(s)
	}
	if err := s.Parse(query, method, nil); err != nil {
		h.fail("schema does not parse", name, err, "no error")
		return nil
	}
	return s
}

// execute resolves a query and returns a copy of the response and the error messages
func execute(s *yarql.Schema, q string, opts yarql.ResolveOptions) (string, []string) {
	errs := s.Resolve([]byte(q), opts)
	msgs := []string{}
	for _, e := range errs {
		msgs = append(msgs, e.Error())
	}
	return string(s.Result), msgs
}

// data resolves a query without metadata
func data(s *yarql.Schema, q string, vars string) (string, []string) {
	return execute(s, q, yarql.ResolveOptions{NoMeta: true, Variables: vars})
}

// jsonProblem strictly checks one JSON document: syntax, duplicate keys, nothing trailing
func jsonProblem(b string) string {
	if !json.Valid([]byte(b)) {
		return "invalid JSON"
	}
	d := json.NewDecoder(strings.NewReader(b))
	d.UseNumber()
	type frame struct {
		obj  bool
		keys map[string]bool
		key  bool
	}
	var st []frame
	for {
		t, err := d.Token()
		if err != nil {
			break
		}
		if dl, ok := t.(json.Delim); ok {
			switch dl {
			case '{':
				st = append(st, frame{obj: true, keys: map[string]bool{}, key: true})
			case '[':
				st = append(st, frame{})
			default:
				st = st[:len(st)-1]
				if len(st) > 0 {
					st[len(st)-1].key = true
				}
			}
			continue
		}
		if len(st) == 0 {
			continue
		}
		f := &st[len(st)-1]
		if f.obj && f.key {
			k := t.(string)
			if f.keys[k] {
				return "duplicate key " + k
			}
			f.keys[k] = true
			f.key = false
		} else {
			f.key = true
		}
	}
	return ""
}

func fieldNames(h *vh, s *yarql.Schema, in string) []string {
	res, errs := data(s, "{__schema{queryType{fields{name}}}}", "")
	if len(errs) > 0 {
		h.fail("introspection fails", in, errs, "no errors")
		return nil
	}
	var out struct {
		Schema struct {
			QueryType struct {
				Fields []struct {
					Name string `json:"name"`
				} `json:"fields"`
			} `json:"queryType"`
		} `json:"__schema"`
	}
	if err := json.Unmarshal([]byte(res), &out); err != nil {
		h.fail("introspection is not JSON", in, res, err)
		return nil
	}
	names := []string{}
	for _, f := range out.Schema.QueryType.Fields {
		names = append(names, f.Name)
	}
	return names
}

func structOf(fields ...reflect.StructField) interface{} {
	return reflect.New(reflect.StructOf(fields)).Elem().Interface()
}

var _ = fmt.Sprint
