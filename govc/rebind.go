package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Contracts name internal functions. A directive
//     //@ bind NAME func(PARAMS) (RESULTS)
// states the signature the contract is written for; when the current source has
// no such function, the contract is attached to the function that took its place:
// one with the same results and a permutation of the parameters (a receiver
// counts as a parameter). The contract is proved for that function like for any
// other, so a wrong guess cannot make a proof succeed.
//     //@ bindfields TYPE old:REGEXP ...
// does the same for the fields of an internal struct type, by their types.

type srcFunc struct {
	name   string
	recv   string // receiver type ("" for a function)
	params []string
	res    []string
}

func typeText(fs *token.FileSet, e ast.Expr) string {
	var b bytes.Buffer
	printer.Fprint(&b, fs, e)
	return b.String()
}

func fieldTypes(fs *token.FileSet, l *ast.FieldList) []string {
	var out []string
	if l == nil {
		return nil
	}
	for _, f := range l.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			out = append(out, typeText(fs, f.Type))
		}
	}
	return out
}

type srcField struct{ name, typ string }

// declarations of the package in the current source
func sourceDecls(pkg string) (fns []srcFunc, structs map[string][]srcField) {
	structs = map[string][]srcField{}
	files, _ := filepath.Glob(repo + "/" + pkg + "/*.go")
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		fs := token.NewFileSet()
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range a.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				s := srcFunc{name: x.Name.Name, params: fieldTypes(fs, x.Type.Params), res: fieldTypes(fs, x.Type.Results)}
				if x.Recv != nil && len(x.Recv.List) == 1 {
					s.recv = typeText(fs, x.Recv.List[0].Type)
				}
				fns = append(fns, s)
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					ts, ok := sp.(*ast.TypeSpec)
					if !ok {
						continue
					}
					st, ok := ts.Type.(*ast.StructType)
					if !ok {
						continue
					}
					var l []srcField
					for _, f := range st.Fields.List {
						for _, n := range f.Names {
							l = append(l, srcField{n.Name, typeText(fs, f.Type)})
						}
					}
					structs[ts.Name.Name] = l
				}
			}
		}
	}
	return
}

// permOf: want[i] = have[perm[i]]; equal types keep their order
func permOf(want, have []string) []int {
	if len(want) != len(have) {
		return nil
	}
	used := make([]bool, len(have))
	perm := []int{}
	for _, w := range want {
		k := -1
		for j, h := range have {
			if !used[j] && h == w {
				k = j
				break
			}
		}
		if k < 0 {
			return nil
		}
		used[k] = true
		perm = append(perm, k)
	}
	return perm
}

func sameList(a, b []string) bool { return strings.Join(a, ";") == strings.Join(b, ";") }

var bindRe = regexp.MustCompile(`(?m)^// ?@ bind (\S+) (func.*)$`)
var bindFRe = regexp.MustCompile(`(?m)^// ?@ bindfields (\S+) (.*)$`)

// rebind rewrites the contract files of every package for the current source.
func rebind(work string) {
	for _, p := range pkgNames {
		files, _ := filepath.Glob(verifDir + "/contracts/" + p + "/*.go")
		sort.Strings(files)
		text := map[string]string{}
		all := ""
		for _, f := range files {
			b, _ := os.ReadFile(f)
			text[f] = strings.ReplaceAll(string(b), "// @", "//@")
			all += text[f]
		}
		if !strings.Contains(all, "@ bind") {
			continue
		}
		fns, structs := sourceDecls(p)
		changed := false
		for _, m := range bindFRe.FindAllStringSubmatch(all, -1) {
			cur, ok := structs[m[1]]
			if !ok {
				continue
			}
			have := map[string]bool{}
			for _, f := range cur {
				have[f.name] = true
			}
			for _, w := range strings.Fields(m[2]) {
				i := strings.IndexByte(w, ':')
				old, re := w[:i], regexp.MustCompile("^(?:"+w[i+1:]+")$")
				if have[old] {
					continue
				}
				var cand []string
				for _, f := range cur {
					if re.MatchString(f.typ) {
						cand = append(cand, f.name)
					}
				}
				if len(cand) != 1 {
					continue
				}
				sel := regexp.MustCompile(`\b([a-z]\w*)\.` + old + `\b([^(])`)
				for f := range text {
					text[f] = sel.ReplaceAllString(text[f], "${1}."+cand[0]+"${2}")
				}
				changed = true
			}
		}
		for _, m := range bindRe.FindAllStringSubmatch(all, -1) {
			name := m[1]
			fs := token.NewFileSet()
			e, err := parser.ParseExprFrom(fs, "", m[2], 0)
			if err != nil {
				continue
			}
			ft, ok := e.(*ast.FuncType)
			if !ok {
				continue
			}
			want := srcFunc{name: name, params: fieldTypes(fs, ft.Params), res: fieldTypes(fs, ft.Results)}
			var cand []srcFunc
			exact := false
			for _, f := range fns {
				if f.recv == "" && f.name == name && sameList(f.params, want.params) && sameList(f.res, want.res) {
					exact = true
				}
			}
			if exact {
				continue
			}
			full := func(f srcFunc) []string {
				if f.recv != "" {
					return append([]string{f.recv}, f.params...)
				}
				return f.params
			}
			for pass := 0; pass < 2 && len(cand) == 0; pass++ {
				for _, f := range fns {
					if !sameList(f.res, want.res) || permOf(want.params, full(f)) == nil {
						continue
					}
					if pass == 0 && f.name == name || pass == 1 && !regexp.MustCompile(`\b`+f.name+`\b`).MatchString(all) {
						cand = append(cand, f)
					}
				}
			}
			if len(cand) != 1 {
				continue
			}
			f := cand[0]
			perm := permOf(want.params, full(f))
			tgt := f.name
			if f.recv != "" {
				tgt = "(" + f.recv + ")." + f.name
			}
			changed = true
			ident := true
			for i, k := range perm {
				ident = ident && i == k
			}
			call := regexp.MustCompile(`(^|[^\w.])` + name + `\(`)
			sumRe := regexp.MustCompile(`(?m)^//@ summary ` + name + `\n(func (\w+))`)
			extraIn := ""
			for fn, s := range text {
				sumName := ""
				if mm := sumRe.FindStringSubmatch(s); mm != nil {
					sumName = mm[2]
					s = sumRe.ReplaceAllString(s, "\n$1")
					extraIn = fn
				}
				var ls []string
				for _, l := range strings.Split(s, "\n") {
					if strings.HasPrefix(l, "//@ contract") || strings.HasPrefix(l, "//@ harness") {
						l = regexp.MustCompile(`(^|[ ,=])`+regexp.QuoteMeta(name)+`($|[ ,])`).ReplaceAllString(l, "${1}"+tgt+"${2}")
					} else if !strings.HasPrefix(l, "//") {
						l = call.ReplaceAllString(l, "${1}vBind_"+name+"(")
					}
					ls = append(ls, l)
				}
				s = strings.Join(ls, "\n")
				if sumName != "" {
					s += adapter("vSum_"+name, full(f), want, perm, sumName, "", "//@ summary "+tgt+"\n")
				}
				text[fn] = s
			}
			if extraIn == "" {
				extraIn = files[0]
			}
			inv := make([]int, len(perm))
			for i, k := range perm {
				inv[k] = i
			}
			text[extraIn] += adapter("vBind_"+name, want.params, srcFunc{res: want.res, params: full(f)}, inv, f.name, f.recv, "")
			_ = ident
			fmt.Fprintf(os.Stderr, "contract of %s attached to %s\n", name, tgt)
		}
		if changed {
			for f, s := range text {
				edited[repo+"/"+p+"/zz_govc_"+filepath.Base(f)] = []byte(s)
			}
		}
	}
	b, _ := json.Marshal(edited)
	os.WriteFile(work+"/edit.json", b, 0644)
}

// adapter: func NAME(p0 T0, ...) RES { return TO(p[perm]...) }
func adapter(name string, params []string, to srcFunc, perm []int, callee, recv, doc string) string {
	var ps, as []string
	for i, t := range params {
		ps = append(ps, fmt.Sprintf("p%d %s", i, t))
	}
	for i := range to.params {
		as = append(as, fmt.Sprintf("p%d", perm[i]))
	}
	c := callee + "(" + strings.Join(as, ", ") + ")"
	if recv != "" {
		c = as[0] + "." + callee + "(" + strings.Join(as[1:], ", ") + ")"
	}
	ret := "return "
	if len(to.res) == 0 {
		ret = ""
	}
	return fmt.Sprintf("\n\n%sfunc %s(%s) (%s) { %s%s }\n", doc, name, strings.Join(ps, ", "), strings.Join(to.res, ", "), ret, c)
}
