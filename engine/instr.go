package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// usesThreads reports whether harnesses of the property use Interleave.
func usesThreads(dir, prop string) bool {
	b, _ := os.ReadFile(filepath.Join(dir, strings.ToLower(prop)+".go"))
	return bytes.Contains(b, []byte("sym.Interleave("))
}

// instrument returns the sources of the repository's packages with a call of
// sym.Point before every statement, by file name.
func instrument(hdir string) (map[string][]byte, error) {
	c := exec.Command("go", "list", "-f", `{{range .GoFiles}}{{$.Dir}}/{{.}}{{"\n"}}{{end}}`, repoPath+"/ipv4", repoPath+"/ipv6")
	c.Dir = hdir
	out, err := c.Output()
	if err != nil {
		return nil, err
	}
	res := map[string][]byte{}
	for _, f := range strings.Fields(string(out)) {
		src, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if res[f], err = instrumentFile(f, src); err != nil {
			return nil, err
		}
	}
	return res, nil
}

func instrumentFile(name string, src []byte) ([]byte, error) {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var at []int
	points := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			default:
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
	}
	ast.Inspect(file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			points(n.List)
		case *ast.CaseClause:
			points(n.Body)
		case *ast.CommClause:
			points(n.Body)
		}
		return true
	})
	if len(at) == 0 {
		return src, nil
	}
	sort.Ints(at)
	var b bytes.Buffer
	end := fset.Position(file.Name.End()).Offset
	b.Write(src[:end])
	b.WriteString("; import symPoint_ \"verif/harness/sym\"")
	for _, o := range at {
		b.Write(src[end:o])
		b.WriteString("symPoint_.Point(); ")
		end = o
	}
	b.Write(src[end:])
	return b.Bytes(), nil
}

// writeOverlay writes the files and the overlay description for go build.
func writeOverlay(files map[string][]byte, work string) (string, error) {
	repl := map[string]string{}
	n := 0
	for f, src := range files {
		p := filepath.Join(work, fmt.Sprintf("instr%d.go", n))
		n++
		if err := os.WriteFile(p, src, 0o644); err != nil {
			return "", err
		}
		repl[f] = p
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	p := filepath.Join(work, "overlay.json")
	return p, os.WriteFile(p, b, 0o644)
}

// confirmRace runs the witness without a schedule under the race detector.
func (rp *reporter) confirmRace(v *Violation) (bool, string) {
	if rp.race == "" {
		bin := filepath.Join(rp.work, "replay_race")
		c := exec.Command("go", "build", "-race", "-o", bin, "./cmd/replay")
		c.Dir = rp.hdir
		c.Env = append(os.Environ(), "CGO_ENABLED=1")
		if out, err := c.CombinedOutput(); err != nil {
			return false, fmt.Sprintf("building with the race detector: %v %s", err, firstLine(string(out)))
		}
		rp.race = bin
	}
	w := Witness{Harness: v.Wit.Harness, Vals: map[string]uint64{}}
	for k, x := range v.Wit.Vals {
		w.Vals[k] = x
	}
	w.Vals["sched.free"] = 1
	ws := make([]Witness, 300)
	for i := range ws {
		ws[i] = w
	}
	out, err := (&reporter{bin: rp.race}).run(ws, 120*time.Second)
	if err != nil || len(out) == 0 {
		return false, fmt.Sprint(err)
	}
	for _, o := range out {
		if strings.Contains(o.Panic, "DATA RACE") {
			v.Msg += " (native: reported by the race detector)"
			return true, ""
		}
	}
	return false, "not reported by the race detector"
}
