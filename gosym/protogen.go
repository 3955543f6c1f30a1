package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// protoCodec writes, for every struct of the package whose fields carry protobuf tags (or that has a
// ProtoMessage method), the two methods that the codec stand-in calls. Fields go in tag-number order.
func protoCodec(dir string, srcs map[string][]byte) ([]byte, error) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	fs := token.NewFileSet()
	pkg := ""
	structs := map[string]*ast.StructType{}
	msgs := map[string]bool{}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		p := filepath.Join(dir, e.Name())
		src := srcs[p]
		if src == nil {
			if src, err = os.ReadFile(p); err != nil {
				return nil, err
			}
		}
		f, err := parser.ParseFile(fs, p, src, 0)
		if err != nil {
			return nil, err
		}
		pkg = f.Name.Name
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				for _, s := range d.Specs {
					if ts, ok := s.(*ast.TypeSpec); ok {
						if st, ok := ts.Type.(*ast.StructType); ok {
							structs[ts.Name.Name] = st
						}
					}
				}
			case *ast.FuncDecl:
				if d.Name.Name == "ProtoMessage" && d.Recv != nil && len(d.Recv.List) == 1 {
					if se, ok := d.Recv.List[0].Type.(*ast.StarExpr); ok {
						if id, ok := se.X.(*ast.Ident); ok {
							msgs[id.Name] = true
						}
					}
				}
			}
		}
	}
	var names []string
	for n := range msgs {
		if structs[n] != nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var w bytes.Buffer
	fmt.Fprintf(&w, "package %s\n\nimport vproto %q\n\nvar _ = vproto.GetLen\n", pkg, shimRoot+"/vproto")
	type fld struct {
		num             int
		name, kind, typ string
	}
	for _, n := range names {
		var fl []fld
		for _, f := range structs[n].Fields.List {
			if f.Tag == nil || len(f.Names) != 1 {
				continue
			}
			tag, _ := strconv.Unquote(f.Tag.Value)
			pt := reflect.StructTag(tag).Get("protobuf")
			if pt == "" {
				continue
			}
			ps := strings.Split(pt, ",")
			num, _ := strconv.Atoi(ps[1])
			x := fld{num: num, name: f.Names[0].Name}
			switch t := f.Type.(type) {
			case *ast.Ident:
				x.typ = t.Name
				switch t.Name {
				case "bool":
					x.kind = "bool"
				case "string":
					x.kind = "str"
				default:
					if ps[0] != "varint" {
						return nil, fmt.Errorf("%s.%s: %s field not handled", n, x.name, ps[0])
					}
					x.kind = "i32"
				}
			case *ast.ArrayType:
				switch el := t.Elt.(type) {
				case *ast.Ident:
					if el.Name != "byte" {
						return nil, fmt.Errorf("%s.%s: list of %s not handled", n, x.name, el.Name)
					}
					x.kind = "bytes"
				case *ast.StarExpr:
					x.kind = "list"
					x.typ = el.X.(*ast.Ident).Name
				}
			}
			if x.kind == "" {
				return nil, fmt.Errorf("%s.%s: field type not handled", n, x.name)
			}
			fl = append(fl, x)
		}
		sort.SliceStable(fl, func(i, j int) bool { return fl[i].num < fl[j].num })
		fmt.Fprintf(&w, "\nfunc (m *%s) VMarshal() ([]byte, error) {\n\tvar b []byte\n", n)
		fmt.Fprintf(&w, "\tif m == nil {\n\t\treturn nil, nil\n\t}\n\tdef := true\n")
		for _, f := range fl {
			switch f.kind {
			case "i32":
				fmt.Fprintf(&w, "\tdef = vproto.And(def, m.%s == 0)\n", f.name)
			case "bool":
				fmt.Fprintf(&w, "\tdef = vproto.And(def, !m.%s)\n", f.name)
			default:
				fmt.Fprintf(&w, "\tdef = vproto.And(def, len(m.%s) == 0)\n", f.name)
			}
		}
		fmt.Fprintf(&w, "\tif def {\n\t\treturn nil, nil\n\t}\n")
		for _, f := range fl {
			switch f.kind {
			case "i32":
				fmt.Fprintf(&w, "\tb = vproto.PutI32(b, int32(m.%s))\n", f.name)
			case "bool":
				fmt.Fprintf(&w, "\tb = vproto.PutBool(b, m.%s)\n", f.name)
			case "str":
				fmt.Fprintf(&w, "\tb = vproto.PutStr(b, m.%s)\n", f.name)
			case "bytes":
				fmt.Fprintf(&w, "\tb = vproto.PutBytes(b, m.%s)\n", f.name)
			case "list":
				fmt.Fprintf(&w, "\tb = vproto.PutLen(b, len(m.%s))\n\tfor _, x := range m.%s {\n\t\tif x == nil {\n\t\t\treturn nil, vproto.NilElem()\n\t\t}\n\t\tr, err := x.VMarshal()\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\tb = vproto.PutBytes(b, r)\n\t}\n", f.name, f.name)
			}
		}
		fmt.Fprintf(&w, "\treturn b, nil\n}\n\nfunc (m *%s) VUnmarshal(b []byte) (err error) {\n", n)
		for _, f := range fl {
			switch f.kind {
			case "i32":
				fmt.Fprintf(&w, "\t{\n\t\tvar v int32\n\t\tif v, err = vproto.GetI32(&b); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tm.%s = %s(v)\n\t}\n", f.name, f.typ)
			case "bool":
				fmt.Fprintf(&w, "\tif m.%s, err = vproto.GetBool(&b); err != nil {\n\t\treturn err\n\t}\n", f.name)
			case "str":
				fmt.Fprintf(&w, "\tif m.%s, err = vproto.GetStr(&b); err != nil {\n\t\treturn err\n\t}\n", f.name)
			case "bytes":
				fmt.Fprintf(&w, "\tif m.%s, err = vproto.GetBytes(&b); err != nil {\n\t\treturn err\n\t}\n", f.name)
			case "list":
				fmt.Fprintf(&w, "\t{\n\t\tvar n int\n\t\tif n, err = vproto.GetLen(&b); err != nil {\n\t\t\treturn err\n\t\t}\n\t\tfor i := 0; i < n; i++ {\n\t\t\tr, err := vproto.GetBytes(&b)\n\t\t\tif err != nil {\n\t\t\t\treturn err\n\t\t\t}\n\t\t\tx := &%s{}\n\t\t\tif len(r) > 0 {\n\t\t\t\tif err := x.VUnmarshal(r); err != nil {\n\t\t\t\t\treturn err\n\t\t\t\t}\n\t\t\t}\n\t\t\tm.%s = append(m.%s, x)\n\t\t}\n\t}\n", f.typ, f.name, f.name)
			}
		}
		fmt.Fprintf(&w, "\treturn nil\n}\n")
	}
	return w.Bytes(), nil
}
