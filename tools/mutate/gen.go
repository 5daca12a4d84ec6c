// Command gen lists single-point changes of the Go files given, one JSON line
// each: {"file", "line", "op", "from", "to", "start", "end", "text"}; the bytes
// start..end of the file are to be replaced by text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File, Op, From, Text string
	Line, Start, End     int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	dir := os.Args[1]
	fset := token.NewFileSet()
	pkgs, err := parser.ParseDir(fset, dir, func(i os.FileInfo) bool { return !strings.HasSuffix(i.Name(), "_test.go") }, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		var files []*ast.File
		for _, f := range p.Files {
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: importer.ForCompiler(fset, "source", nil), Error: func(error) {}}
		conf.Check(dir, fset, files, info)
		for name, f := range p.Files {
			src, _ := ioutil.ReadFile(name)
			abs, _ := filepath.Abs(name)
			one(enc, fset, f, abs, src, info)
		}
	}
}

func one(enc *json.Encoder, fset *token.FileSet, f *ast.File, name string, src []byte, info *types.Info) {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	emit := func(op string, from, to token.Pos, text string) {
		s, e := off(from), off(to)
		if string(src[s:e]) == text {
			return
		}
		enc.Encode(mut{File: name, Op: op, From: string(src[s:e]), Text: text, Line: fset.Position(from).Line, Start: s, End: e})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	bin := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	}
	asg := map[token.Token][]string{token.ADD_ASSIGN: {"-=", "="}, token.SUB_ASSIGN: {"+=", "="}, token.MUL_ASSIGN: {"/=", "="}, token.QUO_ASSIGN: {"*=", "="}, token.OR_ASSIGN: {"&="}, token.AND_ASSIGN: {"|="}, token.XOR_ASSIGN: {"|="}}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		// variables of the function by type, for wrong-variable changes
		vars := map[string][]types.Object{}
		ast.Inspect(fn, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if o, ok := info.Defs[id].(*types.Var); ok && o != nil && !o.IsField() && id.Name != "_" {
					k := o.Type().String()
					vars[k] = append(vars[k], o)
				}
			}
			return true
		})
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, t := range bin[x.Op] {
					if x.Op == token.ADD && t == "-" {
						if b, ok := info.Types[x].Type.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
							continue
						}
					}
					emit("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("operand", x.Pos(), x.End(), text(x.X))
					emit("operand", x.Pos(), x.End(), text(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						emit("constant", x.Pos(), x.End(), strconv.Itoa(v+1))
						if v > 0 {
							emit("constant", x.Pos(), x.End(), strconv.Itoa(v-1))
						}
					}
				}
				if x.Kind == token.FLOAT {
					v, err := strconv.ParseFloat(x.Value, 64)
					if err == nil {
						if v == 0 {
							emit("constant", x.Pos(), x.End(), "0.5")
						} else {
							emit("constant", x.Pos(), x.End(), fmt.Sprintf("(%s * 1000.0)", x.Value))
							emit("constant", x.Pos(), x.End(), fmt.Sprintf("(%s / 1000.0)", x.Value))
						}
					}
				}
			case *ast.AssignStmt:
				for _, t := range asg[x.Tok] {
					emit("assign", x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), t)
				}
				if x.Tok != token.DEFINE {
					blank := ""
					for i, r := range x.Rhs {
						_ = i
						if _, isCall := r.(*ast.CallExpr); isCall {
							blank += "_ = " + text(r) + ";"
						}
					}
					emit("delete", x.Pos(), x.End(), "")
				}
			case *ast.ExprStmt:
				emit("delete", x.Pos(), x.End(), "")
			case *ast.DeferStmt:
				emit("delete", x.Pos(), x.End(), "")
			case *ast.GoStmt:
				emit("nogo", x.Pos(), x.Call.Pos(), "")
			case *ast.IncDecStmt:
				emit("delete", x.Pos(), x.End(), "")
			case *ast.IfStmt:
				emit("condition", x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")")
				emit("condition", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false")
				emit("condition", x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true")
				if x.Else != nil {
					emit("noelse", x.Body.End(), x.Else.End(), "")
				}
			case *ast.BranchStmt:
				if x.Label == nil && x.Tok == token.BREAK {
					emit("branch", x.Pos(), x.End(), "continue")
				}
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit("branch", x.Pos(), x.End(), "break")
				}
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					emit("delete", x.Pos(), x.End(), "")
				}
			case *ast.UnaryExpr:
				if x.Op == token.SUB || x.Op == token.NOT {
					emit("unary", x.Pos(), x.End(), text(x.X))
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := info.Types[x.Args[i]].Type, info.Types[x.Args[i+1]].Type
					if a != nil && b != nil && types.Identical(a, b) {
						emit("swap", x.Args[i].Pos(), x.Args[i+1].End(), text(x.Args[i+1])+", "+text(x.Args[i]))
					}
				}
				if id, ok := x.Fun.(*ast.SelectorExpr); ok {
					alt := map[string]string{"Min": "Max", "Max": "Min", "Front": "Back", "Back": "Front", "PushBack": "PushFront", "InsertBefore": "InsertAfter", "RLock": "Lock", "Floor": "Ceil", "Ceil": "Floor"}
					if t, ok := alt[id.Sel.Name]; ok {
						emit("method", id.Sel.Pos(), id.Sel.End(), t)
					}
					if id.Sel.Name == "Abs" && len(x.Args) == 1 {
						emit("noabs", x.Pos(), x.End(), "("+text(x.Args[0])+")")
					}
					if id.Sel.Name == "Sqrt" && len(x.Args) == 1 {
						emit("nosqrt", x.Pos(), x.End(), "("+text(x.Args[0])+")")
					}
				}
			case *ast.Ident:
				o, ok := info.Uses[x].(*types.Var)
				if ok && !o.IsField() {
					for _, v := range vars[o.Type().String()] {
						if v != o && v.Name() != o.Name() && v.Pos() < x.Pos() && v.Parent() != nil && v.Parent().Contains(x.Pos()) {
							emit("variable", x.Pos(), x.End(), v.Name())
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					t := info.Types[r].Type
					if t == nil {
						continue
					}
					if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
						emit("return", r.Pos(), r.End(), "!("+text(r)+")")
					}
				}
			case *ast.SliceExpr:
				if x.Low != nil {
					emit("slice", x.Low.Pos(), x.Low.End(), "")
				}
				if x.High != nil && !x.Slice3 {
					emit("slice", x.High.Pos(), x.High.End(), "")
				}
			}
			return true
		})
	}
}
