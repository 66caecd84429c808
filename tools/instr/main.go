// instr builds the build overlay for a check: it instruments the non-test files of the package in SRC
// (text insertion only, positions taken from the parser) and adds the runtime packages verifrt and vsync.
//
//	instr MODE SRC OUT RT
//
// MODE full:  verifrt.P() before every statement, package sync replaced by verifrt/vsync
// MODE points: verifrt.P() before every statement, real sync
// MODE plain: no change to the library; only the runtime packages are added
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "github.com/suiyunonghen/dxsvalue"

type ins struct {
	off  int
	end  int // >off: replace
	text string
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
}

func main() {
	mode, src, out, rt := os.Args[1], os.Args[2], os.Args[3], os.Args[4]
	replace := map[string]string{}
	die(os.MkdirAll(out, 0o755))
	for _, p := range []string{"verifrt", "vsync"} {
		fs, _ := filepath.Glob(filepath.Join(rt, p, "*.go"))
		for _, f := range fs {
			dst := filepath.Join(src, "verifrt", filepath.Base(f))
			if p == "vsync" {
				dst = filepath.Join(src, "verifrt", "vsync", filepath.Base(f))
			}
			replace[dst] = f
		}
	}
	if mode != "plain" {
		files, _ := filepath.Glob(filepath.Join(src, "*.go"))
		sort.Strings(files)
		ctx := build.Default
		for _, f := range files {
			name := filepath.Base(f)
			if strings.HasSuffix(name, "_test.go") {
				continue
			}
			if ok, err := ctx.MatchFile(src, name); err != nil || !ok {
				continue
			}
			b, err := os.ReadFile(f)
			die(err)
			res, err := instrument(name, b, mode == "full")
			die(err)
			o := filepath.Join(out, name)
			die(os.WriteFile(o, res, 0o644))
			replace[f] = o
		}
	}
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	die(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
}

func instrument(name string, src []byte, full bool) ([]byte, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	off := func(p token.Pos) int { return fset.PositionFor(p, false).Offset }
	var list []ins
	used := false
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			list = append(list, ins{off: off(s.Pos()), text: "verifrt.P();"})
			used = true
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			list = append(list, ins{off: off(x.Body.Lbrace) + 1, text: "verifrt.P();"})
			used = true
		case *ast.RangeStmt:
			list = append(list, ins{off: off(x.Body.Lbrace) + 1, text: "verifrt.P();"})
			used = true
		}
		return true
	})
	// case clauses sit directly in a switch body, which is a BlockStmt whose List holds the clauses:
	// drop insertions placed in front of clauses.
	drop := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CaseClause:
			drop[off(x.Pos())] = true
		case *ast.CommClause:
			drop[off(x.Pos())] = true
		}
		return true
	})
	var keep []ins
	for _, i := range list {
		if !drop[i.off] {
			keep = append(keep, i)
		}
	}
	if full {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "sync" {
				s := off(im.Path.Pos())
				t := strconv.Quote(base + "/verifrt/vsync")
				if im.Name == nil {
					t = "sync " + t
				}
				keep = append(keep, ins{off: s, end: s + len(im.Path.Value), text: t})
			}
		}
	}
	if used {
		keep = append(keep, ins{off: off(f.Name.End()), text: "; import verifrt \"" + base + "/verifrt\""})
	}
	sort.SliceStable(keep, func(a, b int) bool { return keep[a].off < keep[b].off })
	var o []byte
	pos := 0
	for _, i := range keep {
		o = append(o, src[pos:i.off]...)
		o = append(o, i.text...)
		pos = i.off
		if i.end > i.off {
			pos = i.end
		}
	}
	o = append(o, src[pos:]...)
	return o, nil
}
