// Command mutate lists small changes of a file: mutate FILE prints one JSON
// object {"file","line","op","old","new"} per change; mutate -apply N FILE
// rewrites FILE with the N-th.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	File     string `json:"file"`
	Line     int    `json:"line"`
	Op       string `json:"op"`
	Old      string `json:"old"`
	New      string `json:"new"`
	from, to int
}

func main() {
	apply := flag.Int("apply", -1, "")
	flag.Parse()
	file := flag.Arg(0)
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var ms []mut
	if strings.HasSuffix(file, ".go") {
		ms = goMuts(src)
	} else {
		ms = tplMuts(src)
	}
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].from < ms[j].from })
	if *apply >= 0 {
		m := ms[*apply]
		os.WriteFile(file, []byte(string(src[:m.from])+m.New+string(src[m.to:])), 0o644)
		return
	}
	for i, m := range ms {
		m.File = file
		m.Line = strings.Count(string(src[:m.from]), "\n") + 1
		b, _ := json.Marshal(m)
		fmt.Println(i, string(b))
	}
}

var swaps = map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}}

func goMuts(src []byte) []mut {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, 0)
	if err != nil {
		panic(err)
	}
	var ms []mut
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(op string, a, b token.Pos, n string) {
		ms = append(ms, mut{Op: op, Old: clip(string(src[off(a):off(b)])), New: n, from: off(a), to: off(b)})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok == token.VAR
		case *ast.BinaryExpr:
			if s, ok := x.X.(*ast.BasicLit); ok && s.Kind == token.STRING && x.Op == token.ADD {
				break
			}
			for _, o := range swaps[x.Op] {
				add("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add("left", x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]))
				add("right", x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]))
			}
		case *ast.IfStmt:
			if _, ok := x.Cond.(*ast.BinaryExpr); !ok {
				add("negate", x.Cond.Pos(), x.Cond.End(), "!("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
			}
			add("never", x.Cond.Pos(), x.Cond.End(), "false && ("+string(src[off(x.Cond.Pos()):off(x.Cond.End())])+")")
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add("int", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 1 {
						add("int", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			}
			if x.Kind == token.CHAR {
				add("char", x.Pos(), x.End(), "'~'")
			}
		case *ast.ExprStmt:
			add("drop", x.Pos(), x.End(), "")
		case *ast.DeferStmt:
			add("drop", x.Pos(), x.End(), "")
		case *ast.IncDecStmt:
			add("drop", x.Pos(), x.End(), "")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add("drop", x.Pos(), x.End(), "")
			}
		case *ast.CaseClause:
			if len(x.Body) > 0 {
				add("emptycase", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
			}
		case *ast.BranchStmt:
			if x.Tok == token.CONTINUE {
				add("branch", x.Pos(), x.Pos()+8, "break")
			}
			if x.Tok == token.BREAK && x.Label == nil {
				add("branch", x.Pos(), x.Pos()+5, "continue")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add("not", x.Pos(), x.Pos()+1, "")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add("bool", x.Pos(), x.End(), "false")
			}
			if x.Name == "false" {
				add("bool", x.Pos(), x.End(), "true")
			}
		}
		return true
	})
	return ms
}

func clip(s string) string {
	if len(s) > 80 {
		return s[:80]
	}
	return s
}

var tplRules = []struct {
	re  *regexp.Regexp
	new []string
}{
	{regexp.MustCompile(` == `), []string{" != "}},
	{regexp.MustCompile(` != `), []string{" == "}},
	{regexp.MustCompile(` < `), []string{" <= "}},
	{regexp.MustCompile(` <= `), []string{" < "}},
	{regexp.MustCompile(` > `), []string{" >= "}},
	{regexp.MustCompile(` >= `), []string{" > "}},
	{regexp.MustCompile(` && `), []string{" || "}},
	{regexp.MustCompile(` \|\| `), []string{" && "}},
	{regexp.MustCompile(` \+ 1\b`), []string{" + 2", ""}},
	{regexp.MustCompile(` - 1\b`), []string{" - 2", ""}},
	{regexp.MustCompile(`\b0\b`), []string{"1"}},
	{regexp.MustCompile(`\b1\b`), []string{"0", "2"}},
	{regexp.MustCompile(`\btrue\b`), []string{"false"}},
	{regexp.MustCompile(`\bfalse\b`), []string{"true"}},
	{regexp.MustCompile(`"mysql"`), []string{`"postgres"`, `"sqlite"`}},
	{regexp.MustCompile(`"postgres"`), []string{`"mysql"`}},
	{regexp.MustCompile(`"sqlite"`), []string{`"mysql"`, `"postgres"`}},
	{regexp.MustCompile(`\bASC\b`), []string{"DESC"}},
	{regexp.MustCompile(`\bDESC\b`), []string{"ASC"}},
	{regexp.MustCompile(`\bAND\b`), []string{"OR"}},
	{regexp.MustCompile(`\bNOT `), []string{""}},
	{regexp.MustCompile(`\bcontinue\b`), []string{"break"}},
}
var stmtLine = regexp.MustCompile(`^\t+([\w.\[\]]+\(.*\)|[\w.\[\], ]+ = .*[^({]|[\w.]+\+\+|[\w.]+ \+= .*|defer .*\)|return|continue|break)( //.*)?$`)
var ifLine = regexp.MustCompile(`^\t+(?:\} else )?if (?:[^;{]*; )?(.*) \{$`)

func tplMuts(src []byte) []mut {
	var ms []mut
	at := 0
	for _, l := range strings.SplitAfter(string(src), "\n") {
		line := strings.TrimSuffix(l, "\n")
		if t := strings.TrimSpace(line); !strings.HasPrefix(t, "//") && !strings.Contains(line, "{{- /*") && !strings.HasPrefix(t, "func ") {
			for _, r := range tplRules {
				for _, ix := range r.re.FindAllStringIndex(line, -1) {
					for _, n := range r.new {
						ms = append(ms, mut{Op: "re", Old: clip(t), New: n, from: at + ix[0], to: at + ix[1]})
					}
				}
			}
			if stmtLine.MatchString(line) {
				ms = append(ms, mut{Op: "drop", Old: clip(t), New: "", from: at, to: at + len(line)})
			}
			if m := ifLine.FindStringSubmatchIndex(line); m != nil {
				c := line[m[2]:m[3]]
				ms = append(ms, mut{Op: "never", Old: clip(t), New: "false && (" + c + ")", from: at + m[2], to: at + m[3]})
				ms = append(ms, mut{Op: "negate", Old: clip(t), New: "!(" + c + ")", from: at + m[2], to: at + m[3]})
			}
		}
		at += len(l)
	}
	return ms
}
