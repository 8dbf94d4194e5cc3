// Package driver searches seeds, minimises what it finds, writes replays and
// evidence.
package driver

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"simgodis/internal/build"
	"simgodis/internal/instr"
	"simgodis/oracle"
	"simgodis/spec"
)

// Runner executes specs in child processes.
type Runner struct {
	B   *build.Out
	Dir string
	n   atomic.Uint64
	// Lost counts runs killed by the wall-clock watchdog or by the machine.
	Lost atomic.Uint64
}

// Run is one executed spec.
type Run struct {
	Spec  *spec.Spec
	Res   *spec.Result
	V     *oracle.Verdict
	Crash string // stderr of a crashed server
	Err   error  // the run could not be executed: not a finding
	Raw   []byte
	Rec   []byte   // schedule record, when asked for
	Pre   []uint64 // preemption steps of a crashed run
}

// Key classifies the run's first finding.
func (r *Run) Key() string {
	if r == nil || r.V == nil || len(r.V.Findings) == 0 {
		return ""
	}
	return r.V.Findings[0].Kind
}

// Text describes all findings.
func (r *Run) Text() string {
	var b strings.Builder
	for _, f := range r.V.Findings {
		fmt.Fprintf(&b, "[%s] %s\n", f.Kind, f.Text)
	}
	return b.String()
}

func (x *Runner) resolve(sp *spec.Spec) {
	for i := range sp.Stalls {
		s := &sp.Stalls[i]
		s.Lo, s.Hi = 0, 0
		if s.Site == "" {
			continue
		}
		s.Lo, s.Hi = siteRange(x.B.Sites, s.Site)
	}
}

func siteRange(sites []instr.Site, name string) (int, int) {
	file, fn, _ := strings.Cut(name, ":")
	lo, hi := -1, 0
	for i, s := range sites {
		if strings.HasPrefix(s.File, file) && (fn == "" || s.Func == fn) {
			if lo < 0 {
				lo = i
			}
			hi = i + 1
		}
	}
	if lo < 0 {
		return 1 << 30, 1<<30 + 1 // never reached
	}
	return lo, hi
}

// WallLimit bounds one child process. It only guards against a hung machine: an
// endless loop in the server ends the run by its statement budget, one in a
// library by its processor time.
var WallLimit = 60 * time.Second

// CPULimit is how many seconds of processor time a run may take.
const CPULimit = 25

// watch sends SIGQUIT to a run that takes too much processor time; the run ends
// with a dump of its goroutines.
func watch(pid int, ended <-chan struct{}, spun *atomic.Bool) {
	t := time.NewTimer(CPULimit * time.Second)
	defer t.Stop()
	for {
		select {
		case <-ended:
			return
		case <-t.C:
		}
		b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
		if err != nil {
			return
		}
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 13 {
			return
		}
		if ticks, _ := strconv.Atoi(f[11]); ticks >= CPULimit*100 {
			spun.Store(true)
			_ = syscall.Kill(pid, syscall.SIGQUIT)
			return
		}
		t.Reset(time.Second)
	}
}

const recSize = 1 << 20
const preLen = 1 << 16

// Do runs one spec. With rec, the schedule is recorded too.
func (x *Runner) Do(sp *spec.Spec, rec bool) *Run {
	out := &Run{Spec: sp}
	x.resolve(sp)
	id := x.n.Add(1)
	sf := filepath.Join(x.Dir, fmt.Sprintf("spec%d.json", id))
	b, err := json.Marshal(sp)
	if err != nil {
		out.Err = err
		return out
	}
	if err := os.WriteFile(sf, b, 0o600); err != nil {
		out.Err = err
		return out
	}
	defer os.Remove(sf)
	ctx, cancel := context.WithTimeout(context.Background(), WallLimit)
	defer cancel()
	cmd := exec.CommandContext(ctx, x.B.Bin[sp.Server], sf)
	cmd.Env = []string{"GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOGC=off", "GOTRACEBACK=all", "PATH=/usr/bin:/bin", "TZ=UTC"}
	if strings.HasPrefix(sp.Server, "race") {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0")
	}
	cmd.Dir = x.Dir
	var recf, pref *os.File
	if rec {
		recf, pref = x.tmp(recSize), x.tmp(8*preLen)
		if recf == nil || pref == nil {
			out.Err = fmt.Errorf("no space for the schedule record")
			return out
		}
		defer func() { recf.Close(); os.Remove(recf.Name()); pref.Close(); os.Remove(pref.Name()) }()
		cmd.Env = append(cmd.Env, "SIM_REC="+recf.Name(), "SIM_PRE="+pref.Name())
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		out.Err = err
		return out
	}
	cmd.ExtraFiles = []*os.File{pw}
	var tail tailBuf
	cmd.Stdout, cmd.Stderr = nil, &tail
	if sp.OutFull {
		full, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			out.Err = err
			return out
		}
		defer full.Close()
		cmd.Stdout = full
	}
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		out.Err = err
		return out
	}
	pw.Close()
	ended, spun := make(chan struct{}), new(atomic.Bool)
	go watch(cmd.Process.Pid, ended, spun)
	var res bytes.Buffer
	_, rerr := res.ReadFrom(pr)
	pr.Close()
	close(ended)
	werr := cmd.Wait()
	if rec {
		out.Rec, _ = os.ReadFile(recf.Name())
		if pb, err := os.ReadFile(pref.Name()); err == nil {
			for i := 0; i+8 <= len(pb); i += 8 {
				v := *(*uint64)(unsafe.Pointer(&pb[i]))
				if v == 0 {
					break
				}
				out.Pre = append(out.Pre, v)
			}
		}
	}
	if ctx.Err() != nil {
		x.Lost.Add(1)
		out.Err = fmt.Errorf("run exceeded %v of real time", WallLimit)
		return out
	}
	if f := os.Getenv("SIM_STDERR"); f != "" { // for whoever looks into a run
		_ = os.WriteFile(f, []byte(tail.String()), 0o600)
	}
	out.Raw = res.Bytes()
	r := &spec.Result{}
	if rerr == nil && res.Len() > 0 && json.Unmarshal(res.Bytes(), r) == nil && r.OK {
		out.Res = r
		if strings.HasPrefix(sp.Server, "race") {
			out.V = oracle.Light(r)
			out.V.Findings = append(races(tail.String()), out.V.Findings...)
			return out
		}
		out.V = oracle.Check(sp, r)
		return out
	}
	// the process ended without a result
	txt := tail.String()
	if spun.Load() {
		if strings.HasPrefix(sp.Server, "race") {
			out.Err = fmt.Errorf("run took more than %d s of processor time", CPULimit)
			return out
		}
		t := txt[max(0, strings.LastIndex(txt, "SIGQUIT")):]
		if i := strings.Index(t, "goroutine "); i >= 0 {
			t = t[i:]
		}
		out.V = &oracle.Verdict{Findings: []oracle.Finding{{Kind: "livelock", Text: fmt.Sprintf("livelock: the server took %d s of processor time and did not get on: %s", CPULimit, head(t, 1800))}}}
		out.Res = &spec.Result{}
		return out
	}
	if ee, ok := werr.(*exec.ExitError); ok {
		ws := ee.Sys().(syscall.WaitStatus)
		if ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			x.Lost.Add(1)
			out.Err = fmt.Errorf("run was killed from outside")
			return out
		}
		switch {
		case strings.Contains(txt, "simkern:") || strings.Contains(txt, "simgodis/harness.") && harnessPanic(txt):
			out.Err = fmt.Errorf("simulator failure: %s", head(txt, 2000))
		case strings.Contains(txt, "panic:") || strings.Contains(txt, "fatal error:") || strings.Contains(txt, "panic during"):
			out.Crash = txt
			out.V = &oracle.Verdict{Findings: []oracle.Finding{{Kind: "crash", Text: "the server process died: " + head(panicPart(txt), 1800)}}}
			out.Res = &spec.Result{}
		default:
			out.V = &oracle.Verdict{Findings: []oracle.Finding{{Kind: "crash", Text: fmt.Sprintf("the server process ended by itself (%v) before the scenario was over: %s", werr, head(lastLines(txt), 800))}}}
			out.Res = &spec.Result{}
		}
		return out
	}
	if werr == nil {
		out.V = &oracle.Verdict{Findings: []oracle.Finding{{Kind: "crash", Text: "the server process exited with status 0 before the scenario was over: " + head(lastLines(txt), 800)}}}
		out.Res = &spec.Result{}
		return out
	}
	out.Err = fmt.Errorf("run failed: %v %v", werr, rerr)
	return out
}

// harnessPanic: the goroutine that panicked is in harness code itself.
func harnessPanic(txt string) bool {
	p := panicPart(txt)
	i := strings.Index(p, "goroutine ")
	if i < 0 {
		return false
	}
	fr := p[i:]
	for _, l := range strings.Split(fr, "\n")[1:] {
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || l == "" {
			continue
		}
		return strings.HasPrefix(l, "simgodis/harness.")
	}
	return false
}

func (x *Runner) tmp(size int64) *os.File {
	f, err := os.CreateTemp(x.Dir, "rec")
	if err != nil {
		return nil
	}
	if f.Truncate(size) != nil {
		return nil
	}
	return f
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func panicPart(s string) string {
	i := strings.Index(s, "panic:")
	j := strings.Index(s, "fatal error:")
	if i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		return s
	}
	return s[i:]
}

func lastLines(s string) string {
	if len(s) > 800 {
		s = s[len(s)-800:]
	}
	return s
}

// tailBuf keeps the first 16 KB and the last 256 KB of what is written; the
// frame headers of faketime output are dropped.
type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<20 {
		// keep a panic's beginning
		if i := bytes.Index(t.b, []byte("panic:")); i >= 0 && i < 1<<19 {
			t.b = t.b[:1<<20]
		} else {
			t.b = append(t.b[:16<<10:16<<10], t.b[len(t.b)-(256<<10):]...)
		}
	}
	return len(p), nil
}

// String strips the playback framing: "\0\0PB" + 8 byte time + 4 byte length.
func (t *tailBuf) String() string {
	var out []byte
	b := t.b
	for {
		i := bytes.Index(b, []byte("\x00\x00PB"))
		if i < 0 || len(b) < i+16 {
			out = append(out, b...)
			break
		}
		out = append(out, b[:i]...)
		b = b[i+16:]
	}
	return string(out)
}
