package check

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"gpgpmc/explore"
)

// childEnv names the board of the process that does the exploring.
const childEnv = "GPGPMC_CHILD"

// head keeps the beginning of what is written.
type head struct {
	b bytes.Buffer
}

func (h *head) Write(p []byte) (int, error) {
	if n := 256<<10 - h.b.Len(); n > 0 {
		h.b.Write(p[:min(n, len(p))])
	}
	return len(p), nil
}

// supervise runs the checker in a child process.  If the child does not come to
// its own end, the code under test has ended the process: the executions that were
// under way are run again, each in a process of its own, and one that ends its
// process again is a violation.  If none does by itself, the code cannot stand
// being run in parallel (a violation of C24); any other property is then decided
// with one execution at a time.
func supervise(prop, tier, root string, secs int, replay bool) int {
	runtime.LockOSThread() // for Pdeathsig
	dir, err := os.MkdirTemp("", "gpgpmc")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	n := 0
	run := func(limit time.Duration, quiet bool, env []string, args ...string) (*explore.Board, int, string) {
		n++
		path := filepath.Join(dir, "board"+strconv.Itoa(n))
		b, err := explore.OpenBoard(path)
		if err != nil {
			fmt.Println(err)
			return nil, 2, ""
		}
		cmd := exec.Command(self, args...)
		var h head
		cmd.Stdout, cmd.Stderr = os.Stdout, &h
		if quiet {
			cmd.Stdout = io.Discard
		}
		cmd.Env = append(append(os.Environ(), childEnv+"="+path), env...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := cmd.Start(); err != nil {
			fmt.Println(err)
			return b, 2, ""
		}
		var t *time.Timer
		if limit > 0 {
			t = time.AfterFunc(limit, func() { cmd.Process.Kill() })
		}
		cmd.Wait()
		if t != nil && !t.Stop() {
			return b, -1, h.b.String() // killed: says nothing
		}
		code := cmd.ProcessState.ExitCode()
		if code < 0 {
			code = 2
		}
		if b.IsDone() {
			os.Stderr.WriteString(h.b.String())
		}
		return b, code, h.b.String()
	}
	t0 := time.Now()
	args := []string{"-prop", prop, "-tier", tier, "-root", root, "-secs", strconv.Itoa(secs)}
	if replay {
		args = os.Args[1:]
	}
	b, code, out := run(0, false, nil, args...)
	if b == nil || b.IsDone() || code == 3 { // 3: the explorer found itself diverging
		os.Stderr.WriteString(map[bool]string{true: out}[code == 3])
		return code
	}
	if replay {
		fmt.Printf("replay: VIOLATION property=%s: the code under test ends the process (exit status %d)\n%s\n", prop, code, firstLines(out, 40))
		return 1
	}
	one := func(b *explore.Board, code int, out string) bool {
		space := b.SpaceName()
		for _, tr := range b.Running() {
			r := &Replay{Property: prop, Space: space, Tier: tier, Trace: tr}
			j, _ := json.Marshal(r)
			f := filepath.Join(dir, "replay.json")
			os.WriteFile(f, j, 0o600)
			rb, rc, rout := run(150*time.Second, true, nil, "-root", dir, "-replay", f)
			if rb == nil || rc < 0 || rb.IsDone() {
				continue
			}
			report(b, prop, tier, root, space, tr, fmt.Sprintf("the code under test ends the whole process (exit status %d): %s", rc, firstLines(rout, 2)), rout, t0)
			return true
		}
		return false
	}
	if one(b, code, out) {
		return 1
	}
	fmt.Printf("%s [%s] the process ended (exit status %d): %s\n", prop, b.SpaceName(), code, firstLines(out, 2))
	if prop == "C24" && Blame(out) {
		report(b, prop, tier, root, b.SpaceName(), nil, "parsers running in parallel end the whole process: "+firstLines(out, 2), out, t0)
		return 1
	}
	left := secs - int(time.Since(t0).Seconds())
	if left < 60 {
		left = 60
	}
	args[len(args)-1] = strconv.Itoa(left)
	fmt.Printf("%s: none of the executions under way does that by itself; again, one at a time\n", prop)
	b, code, out = run(0, false, []string{"GPGPMC_WORKERS=1"}, args...)
	if b == nil || b.IsDone() {
		return code
	}
	if one(b, code, out) {
		return 1
	}
	if Blame(out) {
		var tr []int
		if r := b.Running(); len(r) > 0 {
			tr = r[0]
		}
		report(b, prop, tier, root, b.SpaceName(), tr, "the code under test ends the whole process after the executions before: "+firstLines(out, 2), out, t0)
		return 1
	}
	os.Stderr.WriteString(out)
	return 2
}

// Blame tells whether a crash report shows the code under test.
func Blame(out string) bool {
	return (strings.Contains(out, "fatal error:") || strings.Contains(out, "panic:")) && strings.Contains(out, "github.com/spiegel-im-spiegel/gpgpdump/")
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	return strings.Join(l[:min(n, len(l))], " | ")
}

func report(b *explore.Board, prop, tier, root, space string, trace []int, what, out string, t0 time.Time) {
	x := &Ctx{Prop: prop, Tier: tier, start: t0, root: root, outcomes: map[string]bool{}, Extra: map[string]any{}, execs: b.Count(), states: b.Count(), steps: b.Count()}
	x.violate(space, trace, what, map[string]any{"report": strings.Split(firstLinesOf(out, 60), "\n")})
}

func firstLinesOf(s string, n int) string {
	l := strings.Split(s, "\n")
	return strings.Join(l[:min(n, len(l))], "\n")
}
