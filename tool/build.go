package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/importer"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"verif.local/tool/instr"
)

var (
	repo    = envOr("VERIF_REPO", "/repo")
	verif   = envOr("VERIF_ROOT", "/verif")
	scratch string
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv(extra ...string) []string {
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		if strings.HasPrefix(k, "OM_") || k == "GOWORK" || k == "GOFLAGS" || k == "PORT" || k == "GOTOOLCHAIN" || k == "GOPROXY" || k == "GO111MODULE" {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-buildvcs=false", "GO111MODULE=on", "GOWORK="+filepath.Join(scratch, "go.work"))
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, extra...)
}

func run(dir string, env []string, name string, args ...string) ([]byte, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	var out, errb bytes.Buffer
	c.Stdout, c.Stderr = &out, &errb
	if err := c.Run(); err != nil {
		return out.Bytes(), fmt.Errorf("%s %s: %w\n%s", name, strings.Join(args, " "), err, tail(errb.String()+out.String(), 60))
	}
	return out.Bytes(), nil
}

func tail(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return strings.Join(l, "\n")
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		t := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(t, 0o755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.Create(t)
		if err != nil {
			return err
		}
		if _, err := io.Copy(out, in); err != nil {
			return err
		}
		return out.Close()
	})
}

// prepare makes the scratch workspace: a go.work like the repository's plus the
// runtime, the stand-ins and a copy of redigo to instrument.
func prepare() error {
	b, err := os.ReadFile(filepath.Join(repo, "go.work"))
	if err != nil {
		return err
	}
	re := regexp.MustCompile(`(?m)^(\s*(?:use\s+)?)\./`)
	work := re.ReplaceAllString(string(b), "${1}"+repo+"/")
	ts := filepath.Join(repo, "functions/golang/teamshooter")
	if _, err := os.Stat(filepath.Join(ts, "go.mod")); err == nil && !strings.Contains(work, ts) {
		work += "\nuse " + ts + "\n"
	}
	work += "\nuse " + filepath.Join(verif, "vrt") + "\nuse " + filepath.Join(scratch, "vdep") + "\n"
	// redigo
	core, err := os.ReadFile(filepath.Join(repo, "core/go.mod"))
	if err != nil {
		return err
	}
	m := regexp.MustCompile(`github.com/gomodule/redigo (v\S+)`).FindSubmatch(core)
	if m == nil {
		return fmt.Errorf("core/go.mod does not require redigo")
	}
	out, err := run("/", append(goEnv(), "GOWORK=off", "GOFLAGS=-mod=mod"), "go", "env", "GOMODCACHE")
	if err != nil {
		return err
	}
	red := filepath.Join(strings.TrimSpace(string(out)), "github.com/gomodule/redigo@"+string(m[1]))
	if err := copyTree(red, filepath.Join(scratch, "redigo")); err != nil {
		return err
	}
	// (the rewritten sources instantiate generic functions)
	rmod := filepath.Join(scratch, "redigo/go.mod")
	if b, err := os.ReadFile(rmod); err != nil {
		return err
	} else if err := os.WriteFile(rmod, regexp.MustCompile(`(?m)^go \d\S*`).ReplaceAll(b, []byte("go 1.21")), 0o644); err != nil {
		return err
	}
	work += "\nreplace github.com/gomodule/redigo => " + filepath.Join(scratch, "redigo") + "\n"
	if err := os.WriteFile(filepath.Join(scratch, "go.work"), []byte(work), 0o644); err != nil {
		return err
	}
	if b, err := os.ReadFile(filepath.Join(repo, "go.work.sum")); err == nil {
		if err := os.WriteFile(filepath.Join(scratch, "go.work.sum"), b, 0o644); err != nil {
			return err
		}
	}
	// the stand-ins' module
	if err := copyTree(filepath.Join(verif, "vdep"), filepath.Join(scratch, "vdep")); err != nil {
		return err
	}
	mod := "module verif.local/vdep\n\ngo 1.21\n\nrequire (\n"
	for _, l := range strings.Split(string(core), "\n") {
		l = strings.TrimSpace(l)
		if f := strings.Fields(l); len(f) >= 2 && strings.Contains(f[0], ".") && strings.HasPrefix(f[1], "v") && !strings.HasPrefix(f[0], "open-match.dev") && !strings.Contains(l, "=>") {
			mod += "\t" + l + "\n"
		}
	}
	mod += ")\n"
	if err := os.WriteFile(filepath.Join(scratch, "vdep/go.mod"), []byte(mod), 0o644); err != nil {
		return err
	}
	if b, err := os.ReadFile(filepath.Join(repo, "core/go.sum")); err == nil {
		if err := os.WriteFile(filepath.Join(scratch, "vdep/go.sum"), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

type listed struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	ImportMap  map[string]string
	Module     *struct {
		Path      string
		GoVersion string
	}
	Error *struct{ Err string }
}

func goList(dir string, env []string, pkgs []string) ([]*listed, error) {
	args := append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,GoFiles,CgoFiles,Export,Standard,ImportMap,Module,Error"}, pkgs...)
	out, err := run(dir, env, "go", args...)
	if err != nil {
		return nil, err
	}
	var ls []*listed
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		ls = append(ls, &l)
	}
	return ls, nil
}

// target is a package with a harness.
type target struct {
	name    string // directory under /verif/harness
	dir     string // package directory in the repository
	plain   bool   // build without instrumentation
	harness string // directory under /verif/harness, if not the name
	corepkg bool   // with core's own copies of the generated packages
}

var targets = map[string]*target{
	"core": {name: "core", dir: "core"},
	"mm":   {name: "mm", dir: "matchmaker-example"},
	// the real program, without the explorer's scheduler
	"sys":     {name: "sys", dir: "core", plain: true},
	"syscore": {name: "syscore", harness: "sys", dir: "core", plain: true, corepkg: true},
}

// build compiles the harness of t against the repository's present code.
func build(t *target) (string, error) {
	dir := filepath.Join(repo, t.dir)
	overlay := map[string]string{}
	env := goEnv()
	if t.corepkg {
		b, err := os.ReadFile(filepath.Join(scratch, "go.work"))
		if err != nil {
			return "", err
		}
		wf := filepath.Join(scratch, "corepkg.work")
		if err := os.WriteFile(wf, []byte(strings.ReplaceAll(string(b), repo+"/pkg/", repo+"/core/pkg/")), 0o644); err != nil {
			return "", err
		}
		if b, err := os.ReadFile(filepath.Join(scratch, "go.work.sum")); err == nil {
			os.WriteFile(filepath.Join(scratch, "corepkg.work.sum"), b, 0o644)
		}
		env = goEnv("GOWORK=" + wf)
	}
	ls, err := goList(dir, env, []string{"."})
	if err != nil {
		return "", err
	}
	exports := map[string]string{}
	for _, l := range ls {
		exports[l.ImportPath] = l.Export
	}
	fset := token.NewFileSet()
	lookup := func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	for _, l := range ls {
		red := l.ImportPath == "github.com/gomodule/redigo/redis"
		if t.plain || l.Standard || !red && !strings.HasPrefix(l.Dir, repo+"/") {
			continue
		}
		if strings.Contains(l.ImportPath, "/pkg/pb/") || strings.Contains(l.ImportPath, "/pkg/api/") {
			continue
		}
		p := &instr.Package{Path: l.ImportPath, Quiet: red, NoSwap: red}
		for _, f := range l.GoFiles {
			p.Files = append(p.Files, filepath.Join(l.Dir, f))
		}
		if l.Module != nil {
			p.GoVersion = l.Module.GoVersion
		}
		out := filepath.Join(scratch, "src", strings.ReplaceAll(l.ImportPath, "/", "_"))
		imp := importer.ForCompiler(fset, "gc", lookup)
		ov, err := instr.Rewrite(p, fset, imp, out)
		if err != nil {
			return "", err
		}
		for k, v := range ov {
			overlay[k] = v
		}
	}
	// Tests of the repository itself stay out of the harness binary.
	if es, err := os.ReadDir(dir); err == nil {
		for _, e := range es {
			if strings.HasSuffix(e.Name(), "_test.go") {
				stub := filepath.Join(scratch, "stub_"+e.Name())
				pk := "main"
				for _, l := range ls {
					if l.Dir == dir {
						pk = l.Name
					}
				}
				if err := os.WriteFile(stub, []byte("package "+pk+"\n"), 0o644); err != nil {
					return "", err
				}
				overlay[filepath.Join(dir, e.Name())] = stub
			}
		}
	}
	hd := filepath.Join(verif, "harness", t.name)
	if t.harness != "" {
		hd = filepath.Join(verif, "harness", t.harness)
	}
	es, err := os.ReadDir(hd)
	if err != nil {
		return "", err
	}
	var files, theirs []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") {
			files = append(files, filepath.Join(hd, e.Name()))
		}
	}
	for _, l := range ls {
		if l.Dir == dir {
			for _, f := range l.GoFiles {
				theirs = append(theirs, filepath.Join(dir, f))
			}
		}
	}
	copies, err := unclash(theirs, files, filepath.Join(scratch, "harness_"+t.name))
	if err != nil {
		return "", err
	}
	for _, f := range files {
		n := strings.TrimSuffix(filepath.Base(f), ".go")
		at := filepath.Join(dir, "zz_verif_"+strings.TrimSuffix(n, "_test")+"_test.go")
		if overlay[at] = f; copies[f] != "" {
			overlay[at] = copies[f]
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	of := filepath.Join(scratch, t.name+".overlay.json")
	if err := os.WriteFile(of, b, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(scratch, t.name+".test")
	if _, err := run(dir, env, "go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "."); err != nil {
		return "", err
	}
	return bin, nil
}

// buildMMF compiles the matchmaking function program.
func buildMMF() error {
	_, err := run(filepath.Join(repo, "mmf"), goEnv(), "go", "build", "-o", filepath.Join(scratch, "mmf.bin"), ".")
	return err
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
