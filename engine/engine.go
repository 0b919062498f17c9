package main

import (
	"bufio"
	"fmt"
	"go/types"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Engine holds the SSA form of the code under test, shared by all workers.
type Engine struct {
	prog      *ssa.Program
	hpkg      *ssa.Package
	codeMu    sync.RWMutex
	codes     map[*ssa.Function]*fnCode
	stubs     map[string]*ssa.Function
	implCache sync.Map
	methCache sync.Map
	methMu    sync.Mutex
	sizes     types.Sizes
	rtErrType types.Type
	errStrT   types.Type // *errors.errorString
	pkgs      map[string]*ssa.Package
	named     sync.Map
}

// goEnv returns the environment of the repository's own toolchain (from /opt/vp/env.sh).
func goEnv() []string {
	cmd := exec.Command("bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0")
	out, err := cmd.Output()
	env := os.Environ()
	if err == nil {
		env = nil
		for _, kv := range strings.Split(string(out), "\x00") {
			if kv != "" {
				env = append(env, kv)
			}
		}
	}
	set := func(k, v string) {
		for i, kv := range env {
			if strings.HasPrefix(kv, k+"=") {
				env[i] = k + "=" + v
				return
			}
		}
		env = append(env, k+"="+v)
	}
	set("GOFLAGS", "-mod=mod")
	set("GOPROXY", "off")
	set("GOWORK", "off")
	set("GOTOOLCHAIN", "local")
	set("CGO_ENABLED", "0")
	return env
}

func envGet(env []string, k string) string {
	for i := len(env) - 1; i >= 0; i-- {
		if strings.HasPrefix(env[i], k+"=") {
			return env[i][len(k)+1:]
		}
	}
	return ""
}

type loadErr struct{ msgs []string }

func (l *loadErr) Error() string { return strings.Join(l.msgs, "; ") }

// loadEngine type-checks and translates the package (with the overlay) to SSA.
func loadEngine(repo, pkg string, overlay map[string][]byte, env []string) (*Engine, error) {
	// the go command must be the repository's one
	os.Setenv("PATH", envGet(env, "PATH"))
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     env,
		Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, "./"+pkg)
	if err != nil {
		return nil, err
	}
	le := &loadErr{}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, "github.com/ftl/sdrainer") {
			return
		}
		for _, e := range p.Errors {
			le.msgs = append(le.msgs, e.Error())
		}
	})
	if len(le.msgs) > 0 {
		return nil, le
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, codes: map[*ssa.Function]*fnCode{}, stubs: map[string]*ssa.Function{}, pkgs: map[string]*ssa.Package{}}
	e.sizes = types.SizesFor("gc", "amd64")
	e.hpkg = spkgs[0]
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	prog.Build()
	if rt := e.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			e.rtErrType = t.Type()
		}
	}
	if p := e.pkgs["errors"]; p != nil {
		if t := p.Type("errorString"); t != nil {
			e.errStrT = types.NewPointer(t.Type())
		}
	}
	return e, nil
}

func f64bits(f float64) uint64     { return math.Float64bits(f) }
func f32frombits(u uint32) float32 { return math.Float32frombits(u) }
func f64frombits(u uint64) float64 { return math.Float64frombits(u) }

// skipInit lists packages whose initialisers must not run in the interpreter.
var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "internal/poll": true, "net": true, "reflect": true,
	"internal/godebug": true, "log": true, "internal/cpu": true, "time": false, "os/signal": true,
	"crypto/md5": true, "crypto": true, "math/rand": true, "internal/testlog": true, "internal/syscall/unix": true,
	"google.golang.org/grpc": true, "github.com/golang/protobuf/proto": true, "google.golang.org/protobuf/types/known/timestamppb": true,
}

func (w *Worker) panicText(v value) string {
	x, ok := v.(iface)
	if !ok {
		return w.renderT(v, kind{})
	}
	if x.t == nil {
		return "nil"
	}
	if w.eng.rtErrType != nil && types.Identical(x.t, w.eng.rtErrType) {
		if s, ok := x.v.(string); ok {
			return "runtime error: " + s
		}
	}
	switch y := x.v.(type) {
	case string:
		return y
	case *value:
		if y != nil {
			if st, ok := (*y).(structure); ok && len(st) > 0 {
				if s, ok := st[0].(string); ok {
					return s
				}
			}
		}
	}
	return x.t.String() + " " + w.renderT(x.v, kindOf(x.t))
}

// mkError builds an error value like errors.New.
func (w *Worker) mkError(msg value) value {
	c := new(value)
	*c = structure{msg}
	return iface{w.eng.errStrT, c}
}

// namedType finds a type by package path and name.
func (e *Engine) namedType(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	t := p.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

func readLines(f string) []string {
	fh, err := os.Open(f)
	if err != nil {
		return nil
	}
	defer fh.Close()
	var r []string
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		r = append(r, sc.Text())
	}
	return r
}

var _ = fmt.Sprint
