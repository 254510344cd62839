package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A counterexample that needs a particular schedule is replayed natively with
// random delays before and after synchronization operations of the module's
// real code (inserted through an overlay), until one run shows the violation.

var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "Load": true, "Store": true, "Add": true,
	"CompareAndSwap": true, "Swap": true, "Do": true, "Wait": true, "Done": true, "Close": true, "Read": true, "Write": true, "Cancel": true, "close": true, "Sleep": true}

func hasSync(s ast.Stmt) bool {
	found := false
	ast.Inspect(s, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BlockStmt:
			return false
		case *ast.SendStmt, *ast.SelectStmt, *ast.GoStmt:
			found = true
			return false
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		case *ast.CallExpr:
			switch f := n.Fun.(type) {
			case *ast.SelectorExpr:
				found = found || syncNames[f.Sel.Name]
			case *ast.Ident:
				found = found || syncNames[f.Name]
			}
		}
		return true
	})
	return found
}

func noisy(path string, src []byte, imp string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, path, src, 0)
	if err != nil {
		return nil
	}
	at := map[int]bool{}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	list := func(l []ast.Stmt, lbrace token.Pos) {
		prev := false
		for _, s := range l {
			h := hasSync(s)
			if h || prev {
				at[off(s.Pos())] = true
			}
			prev = h
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List, n.Lbrace)
		case *ast.CaseClause:
			list(n.Body, n.Colon)
		case *ast.CommClause:
			list(n.Body, n.Colon)
		case *ast.GoStmt:
			if l, ok := n.Call.Fun.(*ast.FuncLit); ok && len(l.Body.List) > 0 {
				at[off(l.Body.List[0].Pos())] = true
			}
		case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			// their body lists hold clauses, not statements
			var b *ast.BlockStmt
			switch m := n.(type) {
			case *ast.SwitchStmt:
				b = m.Body
			case *ast.TypeSwitchStmt:
				b = m.Body
			case *ast.SelectStmt:
				b = m.Body
			}
			for _, c := range b.List {
				switch c := c.(type) {
				case *ast.CaseClause:
					list(c.Body, c.Colon)
				case *ast.CommClause:
					list(c.Body, c.Colon)
				}
				ast.Inspect(c, func(m ast.Node) bool {
					if g, ok := m.(*ast.GoStmt); ok {
						if l, ok := g.Call.Fun.(*ast.FuncLit); ok && len(l.Body.List) > 0 {
							at[off(l.Body.List[0].Pos())] = true
						}
					}
					switch m := m.(type) {
					case *ast.BlockStmt:
						clause := false
						for _, s := range m.List {
							switch s.(type) {
							case *ast.CaseClause, *ast.CommClause:
								clause = true
							}
						}
						if !clause {
							list(m.List, m.Lbrace)
						}
					case *ast.CaseClause:
						list(m.Body, m.Colon)
					case *ast.CommClause:
						list(m.Body, m.Colon)
					}
					return true
				})
			}
			return false
		}
		return true
	})
	if len(at) == 0 {
		return nil
	}
	var offs []int
	for o := range at {
		offs = append(offs, o)
	}
	sort.Ints(offs)
	var sb strings.Builder
	pkgEnd := off(f.Name.End())
	sb.Write(src[:pkgEnd])
	fmt.Fprintf(&sb, "; import zznoise %q", imp)
	last := pkgEnd
	for _, o := range offs {
		sb.Write(src[last:o])
		sb.WriteString("zznoise.Noise(); ")
		last = o
	}
	sb.Write(src[last:])
	return []byte(sb.String())
}

// buildNoise builds the harness with delays; empty when it cannot be built.
func (t *Target) buildNoise() string {
	if t.noise != "" {
		return strings.TrimPrefix(t.noise, "-")
	}
	t.noise = "-"
	rep := map[string]string{}
	i := 0
	put := func(dst string, c []byte) {
		f := filepath.Join(t.tmp, fmt.Sprintf("n%d.go", i))
		i++
		os.WriteFile(f, c, 0o644)
		rep[dst] = f
	}
	imp := t.modp + "/zzverif/zzsym"
	for dst, c := range t.overlay {
		put(dst, c)
	}
	root := filepath.Join(repo, t.module)
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil && p != root {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, _ := os.ReadFile(p)
		if c := noisy(p, src, imp); c != nil {
			put(p, c)
		}
		return nil
	})
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(t.tmp, "noise.json")
	os.WriteFile(ov, b, 0o644)
	bin := filepath.Join(t.tmp, "noisy")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzverif/zzmain")
	cmd.Dir = root
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "noise build: %v\n%s", err, out)
		return ""
	}
	t.noise = bin
	return bin
}

// confirmNoise tries to show a schedule-dependent violation.
func (t *Target) confirmNoise(fn string, params map[string]int, v *Violation) bool {
	bin := t.buildNoise()
	if bin == "" {
		return false
	}
	deadline := time.Now().Add(40 * time.Second)
	var n int64
	var found atomic.Bool
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !found.Load() && time.Now().Before(deadline) {
				k := atomic.AddInt64(&n, 1)
				if k > 1200 {
					return
				}
				r := t.nativeBin(bin, fn, params, v.Inputs, 5*time.Second, fmt.Sprintf("SYM_NOISE=%d", k))
				if matches(v, r) {
					mu.Lock()
					v.Native = firstLine(r.out)
					v.Reproduced = true
					mu.Unlock()
					found.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	return found.Load()
}

func matches(v *Violation, r nativeRes) bool {
	switch v.Kind {
	case "assert":
		return r.code == 3 && strings.Contains(r.out, "SYM-VIOLATION: ") || r.panicd
	case "panic", "fatal":
		return r.panicd
	case "deadlock":
		return r.timeout || r.dead
	case "steps":
		return r.timeout || r.panicd
	case "exit":
		return r.code != 0
	}
	return false
}
