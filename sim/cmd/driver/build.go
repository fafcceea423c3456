package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"

	"verifsim/instr"
)

// pool.go as the simulation processes see it: the standard library's own pools
// (fmt, encoding/json) are a source of nondeterminism and of synchronisation
// between tasks that the code under test did not create. A pool that never
// keeps anything is a legal pool.
const poolSrc = `package sync

type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
`

// env of every go command: offline, independent of the caller's settings.
func goEnv() []string {
	e := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GORACE", "GODEBUG", "GOEXPERIMENT", "GOMAXPROCS", "GOOS", "GOARCH", "GOGC":
		default:
			e = append(e, kv)
		}
	}
	return append(e, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

func goroot() (string, error) {
	b, err := exec.Command("go", "env", "GOROOT").Output()
	return strings.TrimSpace(string(b)), err
}

type bins struct {
	dir                   string
	worker, wrace, oracle string
	sites                 string
	instr                 *instr.Result
}

func goBuild(dir string, args ...string) error {
	cmd := exec.Command("go", append([]string{"build"}, args...)...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("go build %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	return nil
}

// modfile makes a module file for the simulator that takes the library from lib.
func modfile(dir, name, lib string) (string, error) {
	p := filepath.Join(dir, name+".mod")
	if err := os.WriteFile(p, []byte("module verifsim\n\ngo 1.27\n\nrequire github.com/leodido/go-urn v0.0.0\n\nreplace github.com/leodido/go-urn => "+lib+"\n"), 0o644); err != nil {
		return "", err
	}
	b, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		b = nil
	}
	return p, os.WriteFile(filepath.Join(dir, name+".sum"), b, 0o644)
}

// build makes the simulation processes from the current source tree.
func build(dir string, race bool) (*bins, error) {
	b, err := buildAs(dir, race, "")
	if err != nil && b != nil && b.instr.Opaque == "" {
		// a use of the language the instrumentation has not met
		if c, err := buildAs(dir, race, "the instrumented source does not build"); err == nil {
			return c, nil
		}
	}
	if err != nil {
		return nil, err
	}
	return b, nil
}

func buildAs(dir string, race bool, opaque string) (*bins, error) {
	b := &bins{dir: dir, worker: dir + "/worker", wrace: dir + "/worker-race", oracle: dir + "/oracle", sites: dir + "/sites.json"}
	var err error
	if err := os.RemoveAll(dir + "/inst"); err != nil {
		return nil, err
	}
	if b.instr, err = instr.Tree(repo, dir+"/inst", opaque); err != nil {
		return nil, fmt.Errorf("instrumenting: %w", err)
	}
	js, _ := json.Marshal(b.instr.Sites)
	if err := os.WriteFile(b.sites, js, 0o644); err != nil {
		return nil, err
	}
	mi, err := modfile(dir, "inst", dir+"/inst")
	if err != nil {
		return nil, err
	}
	mp, err := modfile(dir, "plain", repo)
	if err != nil {
		return nil, err
	}
	root, err := goroot()
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(dir+"/pool.go", []byte(poolSrc), 0o644); err != nil {
		return nil, err
	}
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{root + "/src/sync/pool.go": dir + "/pool.go"}})
	if err := os.WriteFile(dir+"/overlay.json", ov, 0o644); err != nil {
		return nil, err
	}
	var wg sync.WaitGroup
	errs := make([]error, 3)
	run := func(i int, args ...string) {
		wg.Add(1)
		go func() { defer wg.Done(); errs[i] = goBuild(simDir, args...) }()
	}
	run(0, "-modfile="+mi, "-overlay="+dir+"/overlay.json", "-o", b.worker, "./cmd/worker")
	if race {
		run(1, "-race", "-modfile="+mi, "-overlay="+dir+"/overlay.json", "-o", b.wrace, "./cmd/worker")
	}
	run(2, "-modfile="+mp, "-o", b.oracle, "./cmd/oracle")
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return b, e
		}
	}
	return b, nil
}
