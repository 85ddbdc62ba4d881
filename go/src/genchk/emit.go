package genchk

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"pbt"
	"sort"
	"strings"
	"sync"
)

// RunSchemas are the schemas that a run of a check compiles and works with, of a kind: "data"
// for structs, "calls" for services, "consts" for enums and constants.
func RunSchemas(kind, tier string, seed int64) []*Schema {
	o, n := Gen{Services: true, Consts: true, Includes: true}, 96
	switch kind {
	case "calls":
		o.Consts, o.ManyFns = false, true
	case "consts":
		o.Services, o.ManyConsts = false, true
	}
	if tier == "thorough" {
		n *= 4
	}
	return Schemas(o, n, seed, kind)
}

// Schemas draws the schemas of a run, the smallest first.
func Schemas(o Gen, n int, seed int64, kind string) []*Schema {
	var ss []*Schema
	for i := 0; i < n; i++ {
		g := o
		g.LowIDs = true
		g.Prefix = fmt.Sprintf("%c%d", kind[0], i)
		g.Small = i%3 == 0
		var s *Schema
		pbt.Draw(seed, kind, i, func(t *pbt.T) { s = g.Schema(t) })
		ss = append(ss, s)
	}
	sort.SliceStable(ss, func(i, j int) bool { return len(ss[i].Encode()) < len(ss[j].Encode()) })
	return ss
}

// Emit runs the generator on every schema below gopath/src, and adds to each package the
// file that registers what it declares, and the package gendata which imports them all.
func Emit(ss []*Schema, gopath string) error {
	src := filepath.Join(gopath, "src")
	var imports, broken []string
	dirs, errs := make([]string, len(ss)), make([]error, len(ss))
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				dirs[i] = filepath.Join(os.Getenv("VERIF_WORK"), fmt.Sprintf("emit%d", i))
				if err := os.Mkdir(dirs[i], 0755); err != nil {
					panic("check error: " + err.Error())
				}
				errs[i] = emit1(ss[i], dirs[i])
			}
		}()
	}
	for i := range ss {
		next <- i
	}
	close(next)
	wg.Wait()
	for i, s := range ss {
		dir := dirs[i]
		if err := errs[i]; err != nil {
			broken = append(broken, fmt.Sprintf("\tgenreg.Broken[%d] = %q\n", i, err.Error()))
			os.RemoveAll(dir)
			continue
		}
		for _, p := range s.Programs {
			imports = append(imports, p.Import())
			to := filepath.Join(src, p.Import())
			if err := os.MkdirAll(to, 0755); err != nil {
				return err
			}
			fs, _ := filepath.Glob(filepath.Join(dir, p.Import(), "*.go"))
			for _, f := range fs {
				if err := os.Rename(f, filepath.Join(to, filepath.Base(f))); err != nil {
					return err
				}
			}
		}
		os.RemoveAll(dir)
	}
	var b strings.Builder
	b.WriteString("package gendata\n\nimport (\n\t\"genreg\"\n")
	for _, p := range imports {
		fmt.Fprintf(&b, "\t_ %q\n", p)
	}
	b.WriteString(")\n\nfunc init() {\n\t_ = genreg.Broken\n" + strings.Join(broken, "") + "}\n")
	if err := os.MkdirAll(filepath.Join(src, "gendata"), 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(src, "gendata", "gendata.go"), []byte(b.String()), 0644)
}

func emit1(s *Schema, dir string) error {
	if err := Run(s, dir); err != nil {
		return err
	}
	c := Check(s, dir, false)
	if c.Err != nil {
		return fmt.Errorf("%v  [%s]", c.Err, c.Source)
	}
	for _, p := range s.Programs {
		if err := os.WriteFile(filepath.Join(dir, p.Import(), "zz_verif_reg.go"), []byte(register(p, c.Pkgs[p.Import()])), 0644); err != nil {
			return err
		}
	}
	return nil
}

// register writes the file of a package that registers what the package declares. What it does
// not declare is not registered, which the checks find.
func register(p *Program, pk *types.Package) string {
	sc := pk.Scope()
	imps := map[string]bool{"genreg": true}
	pkgs := map[string]string{}
	q := func(o *types.Package) string {
		if o == pk {
			return ""
		}
		if pkgs[o.Path()] == "" { // not a name of its own: two may have the same
			pkgs[o.Path()] = fmt.Sprintf("verif_i%d", len(pkgs))
		}
		return pkgs[o.Path()]
	}
	ts := func(t types.Type) string { return types.TypeString(t, q) }
	var b, h strings.Builder
	for _, d := range p.Decls {
		key := p.Import() + "." + d.Name
		switch d.Kind {
		case "struct", "exception":
			if sc.Lookup("New"+GoName(d.Name)) != nil {
				fmt.Fprintf(&b, "\tgenreg.Structs[%q] = func() interface{} { return New%s() }\n", key, GoName(d.Name))
			}
		case "enum":
			fmt.Fprintf(&b, "\tgenreg.Enums[%q] = &genreg.Enum{Values: []interface{}{", key)
			for _, v := range d.Values {
				if n := GoName(d.Name) + "_" + v.Name; sc.Lookup(n) != nil {
					fmt.Fprintf(&b, "%s, ", n)
				} else {
					b.WriteString("nil, ")
				}
			}
			b.WriteString("}")
			if n := "From" + GoName(d.Name) + "String"; sc.Lookup(n) != nil {
				fmt.Fprintf(&b, ", From: func(s string) interface{} { return %s(s) }", n)
			}
			b.WriteString("}\n")
		}
	}
	for _, c := range p.Consts {
		if n := constName(sc, c); n != "" {
			o := sc.Lookup(n)
			x := n
			if k, ok := o.(*types.Const); ok {
				x = constValue(k, c.Ty)
			}
			fmt.Fprintf(&b, "\tgenreg.Consts[%q] = func() interface{} { return %s }\n", p.Import()+"."+c.Name, x)
		}
	}
	for _, v := range p.Services {
		n := GoName(v.Name)
		i, _ := sc.Lookup("I" + n).(*types.TypeName)
		if i == nil || sc.Lookup("New"+n+"ClientFactory") == nil || sc.Lookup("New"+n+"ClientProtocol") == nil || sc.Lookup("New"+n+"Processor") == nil {
			continue
		}
		it, ok := i.Type().Underlying().(*types.Interface)
		if !ok {
			continue
		}
		imps["thrift"] = true
		fmt.Fprintf(&b, "\tgenreg.Services[%q] = &genreg.Service{\n\t\tNewClient: func(t thrift.TTransport, f thrift.TProtocolFactory) interface{} { return New%sClientFactory(t, f) },\n"+
			"\t\tNewClientProtocol: func(t thrift.TTransport, in, out thrift.TProtocol) interface{} { return New%sClientProtocol(t, in, out) },\n"+
			"\t\tNewProcessor: func(h genreg.Handle) thrift.TProcessor { return New%sProcessor(&verif_%s{h}) },\n\t}\n", p.Import()+"."+v.Name, n, n, n, n)
		fmt.Fprintf(&h, "\ntype verif_%s struct{ h genreg.Handle }\n", n)
		for k := 0; k < it.NumMethods(); k++ {
			m := it.Method(k)
			sig := m.Type().(*types.Signature)
			var ps, as, rs []string
			for a := 0; a < sig.Params().Len(); a++ {
				ps = append(ps, fmt.Sprintf("a%d %s", a, ts(sig.Params().At(a).Type())))
				as = append(as, fmt.Sprintf("a%d", a))
			}
			body := ""
			for a := 0; a < sig.Results().Len(); a++ {
				t := ts(sig.Results().At(a).Type())
				rs = append(rs, fmt.Sprintf("r%d %s", a, t))
				body += fmt.Sprintf("\tif verif_o[%d] != nil {\n\t\tr%d = verif_o[%d].(%s)\n\t}\n", a, a, a, t)
			}
			fmt.Fprintf(&h, "\nfunc (verif_p *verif_%s) %s(%s) (%s) {\n\tverif_o := verif_p.h(%q, []interface{}{%s})\n%s\treturn\n}\n",
				n, m.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "), m.Name(), strings.Join(as, ", "), body)
		}
	}
	var paths []string
	for k := range imps {
		paths = append(paths, fmt.Sprintf("\t%q\n", k))
	}
	for k, n := range pkgs {
		paths = append(paths, fmt.Sprintf("\t%s %q\n", n, k))
	}
	sort.Strings(paths)
	return "package " + pk.Name() + "\n\nimport (\n" + strings.Join(paths, "") + ")\n\nfunc init() {\n\t_ = genreg.Broken\n" + b.String() + "}\n" + h.String()
}

// constName is the Go name of a constant: its own after that of its type, and for containers,
// whose types have no name, after something else that exports it.
func constName(sc *types.Scope, c *Const) string {
	switch {
	case c.Ty.K == "named":
		if n := GoName(c.Ty.Ref.Name) + "_" + GoName(c.Name); sc.Lookup(n) != nil {
			return n
		}
		return ""
	case !nested(c.Ty):
		k := c.Ty.K
		if k == "binary" {
			k = "string"
		}
		if n := GoName(k) + "_" + GoName(c.Name); sc.Lookup(n) != nil {
			return n
		}
		return ""
	}
	for _, n := range sc.Names() {
		t := strings.TrimSuffix(n, "_"+GoName(c.Name))
		if v, ok := sc.Lookup(n).(*types.Var); ok && t != n && v.Exported() && !strings.Contains(t, "_") && sc.Lookup(t) == nil {
			return n
		}
	}
	return ""
}

// constValue gives an untyped Go constant the type that fits it in an interface.
func constValue(k *types.Const, ty *Ty) string {
	if bt, ok := k.Type().(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 {
		switch ty.Is() {
		case "byte":
			return "byte(" + k.Name() + ")"
		case "double":
			return "float64(" + k.Name() + ")"
		case "bool", "string":
			return k.Name()
		}
		return "int64(" + k.Name() + ")"
	}
	return k.Name()
}
