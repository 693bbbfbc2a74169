package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"
)

type recObl struct{ what, why string }

// jsonRecord checks that encoding/json keeps every field of a record apart from the others.
func jsonRecord(pkg *types.Package, name string) (out []recObl) {
	o := pkg.Scope().Lookup(name)
	if o == nil {
		return []recObl{{"record " + name, "no such type"}}
	}
	seen := map[string]string{}
	var walk func(T types.Type, path string, depth int)
	var keeps func(T types.Type, depth int) string
	methods := func(T types.Type) string {
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON", "MarshalText", "UnmarshalText"} {
			if f, _, _ := types.LookupFieldOrMethod(types.NewPointer(T), true, pkg, m); f != nil {
				if _, ok := f.(*types.Func); ok {
					return "has its own " + m
				}
			}
		}
		return ""
	}
	keeps = func(T types.Type, depth int) string {
		if depth > 10 {
			return "nested too deeply"
		}
		switch u := T.Underlying().(type) {
		case *types.Basic:
			if u.Info()&(types.IsString|types.IsBoolean|types.IsInteger) != 0 {
				return ""
			}
		case *types.Map:
			if b, ok := u.Key().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				return keeps(u.Elem(), depth+1)
			}
		case *types.Slice:
			return keeps(u.Elem(), depth+1)
		case *types.Pointer:
			return keeps(u.Elem(), depth+1)
		case *types.Struct:
			n, ok := T.(*types.Named)
			if !ok {
				return "an unnamed struct"
			}
			for _, r := range jsonRecord(pkg, n.Obj().Name()) {
				if r.why != "" {
					return r.what + ": " + r.why
				}
			}
			return ""
		}
		return fmt.Sprintf("type %s is not known to survive", T)
	}
	walk = func(T types.Type, path string, depth int) {
		st, ok := T.Underlying().(*types.Struct)
		if !ok {
			out = append(out, recObl{path, "not a struct"})
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			parts := strings.Split(tag, ",")
			nm := parts[0]
			what := path + "." + f.Name()
			if f.Embedded() && nm == "" {
				walk(deref(f.Type()), what, depth+1)
				continue
			}
			why := ""
			if !f.Exported() {
				why = "not exported"
			}
			if tag == "-" {
				why = "left out"
			}
			if nm == "" {
				nm = f.Name()
			}
			if p, ok := seen[strings.ToLower(nm)]; ok {
				why = "has the JSON name of " + p
			}
			seen[strings.ToLower(nm)] = what
			for _, opt := range parts[1:] {
				if opt != "omitempty" && opt != "string" {
					why = "option " + opt
				}
			}
			if n, ok := deref(f.Type()).(*types.Named); ok && why == "" {
				why = methods(n)
			}
			if why == "" {
				why = keeps(f.Type(), 0)
			}
			out = append(out, recObl{"field " + what, why})
		}
	}
	out = append(out, recObl{"record " + name, methods(o.Type())})
	walk(o.Type(), name, 0)
	return
}
