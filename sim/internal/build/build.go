// Package build makes the simulated servers from the current godis tree.
package build

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"simgodis/internal/instr"
	"simgodis/internal/rtov"
)

// Out is a finished build.
type Out struct {
	Dir   string
	Bin   map[string]string // "v2", "v1"
	Sites []instr.Site
}

var requireRE = regexp.MustCompile(`(?s)require\s*\((.*?)\)`)
var require1RE = regexp.MustCompile(`(?m)^require\s+([^\s(]+)\s+(\S+).*$`)

// Env is the environment for go commands.
func Env() []string {
	return append(os.Environ(), "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "CGO_ENABLED=0", "GOWORK=off", "GOOS=linux", "GOARCH=amd64")
}

// Build instruments repo and compiles the wanted servers into dir.
func Build(repo, simDir, dir string, want []string) (*Out, error) {
	o := &Out{Dir: dir, Bin: map[string]string{}}
	rt := filepath.Join(dir, "rt")
	tree := filepath.Join(dir, "godis")
	for _, d := range []string{rt, tree} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			return nil, err
		}
	}
	c := exec.Command("go", "env", "GOROOT")
	c.Env = Env()
	c.Dir = simDir
	b, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go env: %w", err)
	}
	ov, err := rtov.Write(strings.TrimSpace(string(b)), rt)
	if err != nil {
		return nil, err
	}
	j, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, j, 0o644); err != nil {
		return nil, err
	}
	if o.Sites, err = instr.Copy(repo, tree); err != nil {
		return nil, fmt.Errorf("instrument: %w", err)
	}
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	var mod strings.Builder
	mod.WriteString("module simgodis\n\ngo 1.27\n\nrequire github.com/yusank/godis v0.0.0\n")
	for _, m := range requireRE.FindAllStringSubmatch(string(gm), -1) {
		fmt.Fprintf(&mod, "\nrequire (%s)\n", m[1])
	}
	for _, m := range require1RE.FindAllStringSubmatch(string(gm), -1) {
		fmt.Fprintf(&mod, "\nrequire %s %s\n", m[1], m[2])
	}
	fmt.Fprintf(&mod, "\nreplace github.com/yusank/godis => %s\n\nreplace golang.org/x/sys => %s\n", tree, filepath.Join(simDir, "simsys"))
	g, err := patchGnet(repo, filepath.Join(dir, "gnet"))
	if err != nil {
		return nil, err
	}
	if g {
		fmt.Fprintf(&mod, "\nreplace github.com/panjf2000/gnet => %s\n", filepath.Join(dir, "gnet"))
	}
	mf := filepath.Join(dir, "go.mod")
	if err := os.WriteFile(mf, []byte(mod.String()), 0o644); err != nil {
		return nil, err
	}
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), gs, 0o644); err != nil {
		return nil, err
	}
	for _, w := range want {
		tags := "faketime"
		if strings.HasSuffix(w, "1") {
			tags += ",v1"
		}
		cmd := "./cmd/sim" + w
		if w == "dbg2" { // the shipped server with the debug tag
			tags += ",debug"
			cmd = "./cmd/simv2"
		}
		bin := filepath.Join(dir, "sim"+w)
		args := []string{"build", "-trimpath", "-overlay", ovf, "-modfile", mf, "-tags", tags, "-o", bin}
		c := exec.Command("go", append(args, cmd)...)
		c.Env = Env()
		if r, ok := strings.CutPrefix(w, "race"); ok {
			// the race detector watches the server, not the simulator around it
			args = append(args, "-race", "-gcflags=simgodis/...=-race=false", "-gcflags=golang.org/x/sys/...=-race=false", "./cmd/simv"+r)
			c = exec.Command("go", args...)
			c.Env = append(Env(), "CGO_ENABLED=1")
		}
		c.Dir = simDir
		if b, err := c.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("go build sim%s: %w\n%s", w, err, b)
		}
		o.Bin[w] = bin
	}
	return o, nil
}

// patchGnet repairs, in the simulated build only, the one defect of gnet v1.6.3
// that would hide others: closeConn gives the outbound ring buffer of a
// connection with unsent data to the buffer pool twice, after which two later
// connections share one buffer. known-findings.txt records it; a spec with
// raw_dep runs gnet as it is. A gnet without that text is left alone.
func patchGnet(repo, dir string) (bool, error) {
	c := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/panjf2000/gnet")
	c.Env = Env()
	c.Dir = repo
	b, err := c.Output()
	if err != nil {
		return false, nil // not used any more
	}
	from := strings.TrimSpace(string(b))
	src, err := os.ReadFile(filepath.Join(from, "eventloop_unix.go"))
	if err != nil {
		return false, nil
	}
	i := strings.Index(string(src), "func (el *eventloop) closeConn(")
	if i < 0 {
		return false, nil
	}
	const rel = "c.outboundBuffer.Release()"
	j := strings.Index(string(src[i:]), rel)
	if j < 0 {
		return false, nil
	}
	s := string(src[:i+j]) + "if simhook.RawDep { " + rel + " }" + string(src[i+j+len(rel):])
	s = strings.Replace(s, "package gnet", `package gnet; import simhook "simgodis/simhook"`, 1)
	err = filepath.Walk(from, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || strings.HasSuffix(p, "_test.go") || !strings.HasSuffix(p, ".go") && filepath.Base(p) != "go.mod" {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		d, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if rel == "eventloop_unix.go" {
			d = []byte(s)
		}
		if err := os.MkdirAll(filepath.Dir(filepath.Join(dir, rel)), 0o755); err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(dir, rel), d, 0o644)
	})
	return err == nil, err
}
