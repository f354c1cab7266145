package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// Contract files are compiled together with the current source. When the source
// was restructured (an internal function renamed, its signature changed) the
// contract functions that mention it do not compile; they are blanked out so
// that the remaining harnesses still decide the property.

var dropped = map[string]bool{}   // harness name
var dropWhy = map[string]string{} // harness name -> compiler message

var errRe = regexp.MustCompile(`(?m)^(\S*zz_govc_(\S+?)\.go|\S*/ov_(\w+)/f\d+\.go):(\d+):(\d+): (.*)$`)

// dropBroken blanks the declarations that contain the reported errors.
func dropBroken(work, msg string) bool {
	any := false
	ov := overlay(pkgNames)
	byFile := map[string]string{}
	for path, b := range ov {
		byFile[string(b)] = path
	}
	type at struct {
		line int
		msg  string
	}
	errs := map[string][]at{}
	for _, m := range errRe.FindAllStringSubmatch(msg, -1) {
		path := m[1]
		if strings.Contains(path, "/ov_") {
			b, _ := os.ReadFile(path)
			path = byFile[string(b)]
		} else if !filepath.IsAbs(path) {
			path = filepath.Join(repo, path)
		}
		if ov[path] == nil {
			continue
		}
		l, _ := strconv.Atoi(m[4])
		errs[path] = append(errs[path], at{l, m[6]})
	}
	for path, es := range errs {
		src := append([]byte{}, ov[path]...)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, path, src, parser.ParseComments)
		if err != nil {
			return false
		}
		blank := func(a, b token.Pos) {
			for i := fs.Position(a).Offset; i < fs.Position(b).Offset; i++ {
				if src[i] != '\n' {
					src[i] = ' '
				}
			}
			any = true
		}
		sn := filepath.Base(filepath.Dir(path))
		for _, e := range es {
			for _, d := range f.Decls {
				if e.line < fs.Position(d.Pos()).Line || e.line > fs.Position(d.End()).Line {
					continue
				}
				switch x := d.(type) {
				case *ast.FuncDecl:
					if x.Doc != nil {
						blank(x.Doc.Pos(), x.Doc.End())
					}
					blank(x.Pos(), x.End())
					dropped[sn+"."+x.Name.Name] = true
					if dropWhy[sn+"."+x.Name.Name] == "" {
						dropWhy[sn+"."+x.Name.Name] = e.msg
					}
				case *ast.GenDecl:
					for _, sp := range x.Specs {
						if e.line >= fs.Position(sp.Pos()).Line && e.line <= fs.Position(sp.End()).Line {
							if x.Lparen.IsValid() {
								blank(sp.Pos(), sp.End())
							} else {
								blank(x.Pos(), x.End())
							}
						}
					}
				}
			}
		}
		edited[path] = src
	}
	if any {
		b, _ := json.Marshal(edited)
		os.WriteFile(work+"/edit.json", b, 0644)
	}
	return any
}
