// Package toolsim executes the rewriting tools under simulated file system
// failures, short and interrupted calls, full disks and kills at any instant,
// and judges what they leave behind.
package toolsim

import (
	"bufio"
	"bytes"
	_ "embed"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

//go:embed hook.go.txt
var hookSrc string

// Patch puts the fault plan between the tool and the kernel: it rewrites the
// standard library's syscall_linux.go.
func Patch(src []byte) ([]byte, error) {
	s := string(src)
	const mark = "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\n"
	const after = "func rawSyscallNoError("
	i, j := strings.Index(s, mark), strings.Index(s, after)
	if i < 0 || j < i {
		return nil, errors.New("the standard library's syscall_linux.go does not look as expected")
	}
	s = s[:i] + s[j:]
	if !strings.Contains(s, "\t\"sync\"\n") {
		s = strings.Replace(s, "import (\n", "import (\n\t\"sync\"\n", 1)
	}
	return []byte(s + hookSrc), nil
}

// File is a file that exists before the run.
type File struct {
	Name    string `json:"name"`
	Content []byte `json:"content"`
	Mode    uint32 `json:"mode"`
}

// Scn is one simulated run.
type Scn struct {
	Tool   string `json:"tool"` // removecomments, snake2camel
	Layout string `json:"layout"`
	File   File   `json:"file"`
	Others []File `json:"others,omitempty"`
	Plan   []Flt  `json:"plan,omitempty"`
	// Peer is another run that is under way at the same time.
	Peer *Peer `json:"peer,omitempty"`
	// Again: a tool is run once more on what the first run left, under the plan Then.
	Again bool  `json:"again,omitempty"`
	Then  []Flt `json:"then,omitempty"`
	// Next is the tool of the second run, if it is not the same.
	Next string `json:"next,omitempty"`
	// Second is another file of the directory that tools are run on later.
	Second *File `json:"second,omitempty"`
	Env    Env   `json:"env"`
	// Steps are what happens after the first run.
	Steps []Step `json:"steps,omitempty"`
}

// Env is what the processes find themselves in.
type Env struct {
	Umask int `json:"umask"`
	// TmpApart: the directory for temporary files is another file system.
	TmpApart bool `json:"tmp_apart,omitempty"`
	// Std: stderr-full, stderr-gone, stdout-full, stdout-gone
	Std string `json:"std,omitempty"`
}

// Step is one more run, on the file or on the second one, which may have been
// changed before by someone else.
type Step struct {
	Tool   string  `json:"tool"`
	Second bool    `json:"second,omitempty"`
	Change *Change `json:"change,omitempty"`
	Plan   []Flt   `json:"plan,omitempty"`
}

// Change is what someone else does to a file between two runs.
type Change struct {
	Content []byte `json:"content"`
	Rename  bool   `json:"rename,omitempty"` // a new file takes the place of the old one
	Time    string `json:"time,omitempty"`   // kept (from the old content), past, future
	Mode    uint32 `json:"mode,omitempty"`   // 0: as it was
	Exact   bool   `json:"exact,omitempty"`  // Content is the whole content; if not, it is put in front of the current one
}

// Peer is a second process: the same or the other tool on the same file or on
// another one of the directory.
type Peer struct {
	Tool  string `json:"tool"`
	File  *File  `json:"file,omitempty"` // nil: the same file
	Plan  []Flt  `json:"plan,omitempty"`
	Turns []int  `json:"turns"` // how many calls the first process makes, then the second, ...
}

// Flt is one entry of the fault plan. See hook.go.txt for the meaning.
type Flt struct {
	Op  string `json:"op"`
	At  int    `json:"at"`
	Arg int    `json:"arg,omitempty"`
	Err int    `json:"err,omitempty"`
}

func (f Flt) String() string {
	e := ""
	if f.Err != 0 {
		e = " " + syscall.Errno(f.Err).Error()
	}
	switch f.Op {
	case "e":
		return fmt.Sprintf("call %d fails:%s", f.At, e)
	case "E":
		return fmt.Sprintf("call %d and all later calls of its kind fail:%s", f.At, e)
	case "s":
		return fmt.Sprintf("call %d moves at most %d bytes", f.At, f.Arg)
	case "i":
		return fmt.Sprintf("calls %d to %d are interrupted", f.At, f.At+f.Arg-1)
	case "k":
		return fmt.Sprintf("killed before call %d", f.At)
	case "x":
		return fmt.Sprintf("signal %d before call %d", f.Arg, f.At)
	case "K":
		return fmt.Sprintf("killed after call %d", f.At)
	case "p":
		return fmt.Sprintf("killed in call %d after %d bytes", f.At, f.Arg)
	case "l":
		return fmt.Sprintf("call %d reports%s and what was written beyond byte %d is lost", f.At, e, f.Arg)
	case "d":
		return fmt.Sprintf("the disk is full after %d bytes", f.Arg)
	case "w":
		return fmt.Sprintf("no call moves more than %d bytes", f.Arg)
	case "P":
		return fmt.Sprintf("the power fails before call %d; of what is not flushed, %d bytes per file are on disk", f.At, f.Arg)
	case "Q":
		return fmt.Sprintf("the power fails after call %d; of what is not flushed, %d bytes per file are on disk", f.At, f.Arg)
	case "r":
		return fmt.Sprintf("the file system is read-only from call %d on", f.At)
	}
	return f.Op
}

// benign entries are no failure.
func (f Flt) benign() bool { return f.Op == "s" || f.Op == "i" || f.Op == "w" }

// deadly entries end the process.
func (f Flt) deadly() bool {
	return f.Op == "k" || f.Op == "K" || f.Op == "p" || f.Op == "P" || f.Op == "Q" || f.Op == "x"
}

// ends: the process ended the way the entry says.
func (f Flt) ends(o *Outcome) bool {
	if f.Op == "x" {
		return o.Signal == syscall.Signal(f.Arg) || o.Fired["signal"] > 0
	}
	return f.deadly() && o.Signal == syscall.SIGKILL
}

func planText(plan []Flt) string {
	t := []string{}
	for _, f := range plan {
		t = append(t, fmt.Sprintf("%s%d,%d,%d", f.Op, f.At, f.Arg, f.Err))
	}
	return strings.Join(t, ";")
}

// Call is one file system call of the tool.
type Call struct {
	Kind  string
	Res   int
	Fault string
}

// Outcome is what a run left behind.
type Outcome struct {
	Calls   []Call
	Exit    int // exit status; -1 if killed
	Hang    bool
	Signal  syscall.Signal
	Stderr  string
	Content string // old, new, same (old and new are equal), missing, other: ...
	Class   map[string]string
	Hash    uint64
	Fired   map[string]int
	// Undisturbed counts the later runs nothing happened to.
	Undisturbed int
	Err         error // of the harness
}

// Transformed is the complete transformed content of the file.
func Transformed(tool string, in []byte) []byte {
	if tool == "removecomments" {
		return uncomment(in)
	}
	return camel(in)
}

// uncomment deletes the lines starting with //line, together with the white
// space (including empty lines) in front of them.
func uncomment(in []byte) []byte {
	var out []byte
	for i := 0; i < len(in); {
		j := i
		for j < len(in) && (in[j] == ' ' || in[j] == '\t' || in[j] == '\n' || in[j] == '\r' || in[j] == '\f') {
			j++
		}
		if bytes.HasPrefix(in[j:], []byte("//line")) {
			k := bytes.IndexByte(in[j:], '\n')
			if k < 0 {
				return out
			}
			i = j + k + 1
			continue
		}
		k := bytes.IndexByte(in[i:], '\n')
		if k < 0 {
			return append(out, in[i:]...)
		}
		out = append(out, in[i:i+k+1]...)
		i += k + 1
	}
	return out
}

// camel turns x_y into xY, the last one of a line first, until there is none.
func camel(in []byte) []byte {
	lines := bytes.Split(in, []byte("\n"))
	for n, l := range lines {
		l = bytes.Clone(l)
	again:
		for i := len(l) - 2; i > 0; i-- {
			if l[i] != '_' || !alnum(l[i+1]) {
				continue
			}
			j := i - 1
			for j > 0 && l[j] >= '0' && l[j] <= '9' {
				j--
			}
			if l[j] < 'a' || l[j] > 'z' {
				continue
			}
			if c := l[i+1]; c >= 'a' && c <= 'z' {
				l[i+1] = c - 'a' + 'A'
			}
			l = append(l[:i], l[i+1:]...)
			goto again
		}
		lines[n] = l
	}
	return bytes.Join(lines, []byte("\n"))
}

func alnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// mustFail: the arguments or the file make success impossible.
func (s *Scn) mustFail() bool {
	switch s.Layout {
	case "missing", "missing-dir", "directory", "unreadable", "no-argument", "two-arguments", "three-arguments", "empty-argument", "dangling":
		return true
	}
	return false
}

// mayFail: whether the tool can do its work depends on how it does it.
func (s *Scn) mayFail() bool { return s.Layout == "ro-dir" || s.File.Mode&0o600 != 0o600 }

// removalFails: a call failed while the tool was removing files.
func (o *Outcome) removalFails() bool {
	removing := false
	for _, c := range o.Calls {
		removing = removing || c.Kind == "unlink"
		if removing && (c.Fault != "-" && c.Fault != "capped" || c.Kind == "unlink" && c.Res < 0) {
			return true
		}
	}
	return false
}

// Uid the tools run under.
const Uid = 65534

// Sim executes runs.
type Sim struct {
	env     Env
	Bin     map[string]string // tool: program
	Scratch string
	Unpriv  bool
	n       int
}

// Run executes one scenario.
func (m *Sim) Run(s *Scn, id string) *Outcome {
	o := &Outcome{Class: map[string]string{}, Fired: map[string]int{}}
	base := filepath.Join(m.Scratch, "t-"+id)
	dir := filepath.Join(base, "w")
	own := *m // other runs go on at the same time
	own.env, m = s.Env, &own
	defer func() {
		os.Chmod(dir, 0o700)
		os.RemoveAll(base)
	}()
	must := func(err error) {
		if err != nil && o.Err == nil {
			o.Err = err
		}
	}
	put := func(p string, c []byte, mode uint32) {
		must(os.WriteFile(p, c, 0o600))
		if m.Unpriv {
			must(os.Chown(p, Uid, Uid))
		}
		must(os.Chmod(p, os.FileMode(mode)))
	}
	must(os.MkdirAll(dir, 0o755))
	must(os.Mkdir(filepath.Join(base, "tmp"), 0o755))
	path := filepath.Join(dir, s.File.Name)
	real := path
	exists := true
	switch s.Layout {
	case "missing", "missing-dir":
		exists = false
	case "directory":
		exists = false
		must(os.Mkdir(path, 0o755))
	case "symlink", "symlink-out", "symlink-chain", "symlink-absolute":
		real = filepath.Join(dir, "target-of-link")
		if s.Layout == "symlink-out" {
			must(os.Mkdir(filepath.Join(base, "elsewhere"), 0o755))
			real = filepath.Join(base, "elsewhere", "target")
			must(os.Chmod(filepath.Join(base, "elsewhere"), 0o755))
			if m.Unpriv {
				must(os.Chown(filepath.Join(base, "elsewhere"), Uid, Uid))
			}
		}
		rel, _ := filepath.Rel(dir, real)
		switch s.Layout {
		case "symlink-absolute":
			rel = real
		case "symlink-chain":
			must(os.Symlink(rel, filepath.Join(dir, "link-to-link")))
			rel = "link-to-link"
		}
		must(os.Symlink(rel, path))
	case "symlink-dir":
		must(os.Mkdir(filepath.Join(base, "elsewhere"), 0o755))
		if m.Unpriv {
			must(os.Chown(filepath.Join(base, "elsewhere"), Uid, Uid))
		}
		must(os.Symlink("../elsewhere", filepath.Join(dir, "link-to-directory")))
		path = filepath.Join(dir, "link-to-directory", s.File.Name)
		real = path
	case "dangling":
		exists = false
		must(os.Symlink("nothing-there", path))
	}
	if exists {
		put(real, s.File.Content, s.File.Mode)
	}
	if s.Layout == "hardlink" {
		must(os.Link(path, filepath.Join(dir, "other-name")))
	}
	for _, f := range s.Others {
		put(filepath.Join(dir, f.Name), f.Content, f.Mode)
	}
	if s.Second != nil {
		put(filepath.Join(dir, s.Second.Name), s.Second.Content, s.Second.Mode)
	}
	if s.Peer != nil && s.Peer.File != nil {
		put(filepath.Join(dir, s.Peer.File.Name), s.Peer.File.Content, s.Peer.File.Mode)
	}
	if m.Unpriv {
		must(os.Chown(dir, Uid, Uid))
		must(os.Chown(filepath.Join(base, "tmp"), Uid, Uid))
	}
	if s.Layout == "ro-dir" {
		must(os.Chmod(dir, 0o555))
	}
	var args []string
	cwd := base
	switch s.Layout {
	case "no-argument":
	case "two-arguments":
		args = []string{path, filepath.Join(base, "tmp", "more")}
	case "three-arguments":
		args = []string{path, path, path}
	case "empty-argument":
		args = []string{""}
	case "relative":
		cwd, args = dir, []string{s.File.Name}
	case "relative-dot":
		cwd, args = base, []string{"./w/../w/" + s.File.Name}
	case "missing-dir":
		args = []string{filepath.Join(dir, "no-such-directory", s.File.Name)}
	default:
		args = []string{path}
	}
	if o.Err != nil {
		return o
	}
	main := &proc{tool: s.Tool, args: args, plan: s.Plan, out: o}
	procs := []*proc{main}
	var peer *proc
	peerPath := path
	if s.Peer != nil {
		if s.Peer.File != nil {
			peerPath = filepath.Join(dir, s.Peer.File.Name)
		}
		peer = &proc{tool: s.Peer.Tool, args: []string{peerPath}, plan: s.Peer.Plan, out: &Outcome{Class: map[string]string{}, Fired: map[string]int{}}}
		procs = append(procs, peer)
	}
	if o.Err = m.exec(base, cwd, procs, s.Peer); o.Err != nil {
		return o
	}
	v := view{base: base, dir: dir, known: map[string]bool{}, others: s.Others, std: s.Env.Std, own: map[string]bool{path: true, real: true}}
	for _, n := range []string{s.File.Name, "other-name", "target-of-link", "elsewhere/target", "link-to-link", "link-to-directory", "elsewhere/" + s.File.Name} {
		v.known[n] = true
	}
	for _, f := range s.Others {
		v.known[f.Name] = true
	}
	t := target{tool: s.Tool, path: path, real: real, exists: exists, orig: s.File.Content, mode: s.File.Mode, mustFail: s.mustFail(), mayFail: s.mayFail(), layout: s.Layout}
	if s.Layout == "hardlink" {
		t.extra = filepath.Join(dir, "other-name")
	}
	switch {
	case peer == nil:
		v.judge(main, &t)
		v.surroundings(o, procs)
	case s.Peer.File == nil:
		// either transformed content, or both transformations one after the other
		a, b := Transformed(s.Tool, t.orig), Transformed(s.Peer.Tool, t.orig)
		t.also = [][]byte{b, Transformed(s.Peer.Tool, a), Transformed(s.Tool, b)}
		v.judge(main, &t)
		if peer.out.Exit == 0 && o.Content == "old" && o.Class["status"] == "" && !bytes.Equal(b, t.orig) {
			o.Class["status"] = "the other run's exit status is zero although the file's content is old"
		}
		o.adopt(peer.out, "the run at the same time: ", v.ending(peer, &t))
		v.surroundings(o, procs)
	default:
		v.known[s.Peer.File.Name] = true
		v.judge(main, &t)
		u := target{tool: s.Peer.Tool, path: peerPath, real: peerPath, exists: true, orig: s.Peer.File.Content, mode: s.Peer.File.Mode, layout: "plain"}
		v.judge(peer, &u)
		o.adopt(peer.out, "the run at the same time, on another file: ", true)
		v.surroundings(o, procs)
	}
	if s.Again && len(o.Class) == 0 {
		// Whatever the first run left behind is there when the tool is run again.
		if b, err := os.ReadFile(path); err == nil && exists {
			t.orig, t.also = b, nil
		}
		if t.extra != "" { // still the same file?
			a, err := os.Stat(path)
			b, err2 := os.Stat(t.extra)
			if err != nil || err2 != nil || !os.SameFile(a, b) {
				t.extra = ""
			}
		}
		v.leftovers()
		if s.Next != "" {
			t.tool = s.Next
		}
		again := &proc{tool: t.tool, args: args, plan: s.Then, out: &Outcome{Class: map[string]string{}, Fired: map[string]int{}}}
		if o.Err = m.exec(base, cwd, []*proc{again}, nil); o.Err != nil {
			return o
		}
		v.judge(again, &t)
		v.surroundings(again.out, []*proc{again})
		o.Calls = append(o.Calls, Call{Kind: "run-again", Fault: "-"})
		o.adopt(again.out, "the run after it: ", true)
		o.Exit, o.Signal, o.Content = again.out.Exit, again.out.Signal, again.out.Content
	}
	if len(s.Steps) > 0 {
		second := target{exists: true, layout: "plain"}
		if s.Second != nil {
			second.path = filepath.Join(dir, s.Second.Name)
			second.real, second.orig, second.mode = second.path, s.Second.Content, s.Second.Mode
		}
		for k := range o.Class {
			delete(o.Class, k) // the first run is other checks' business
		}
		m.history(s, o, &v, base, cwd, args, &t, &second)
		if o.Err != nil {
			return o
		}
	}
	h := fnv.New64a()
	fmt.Fprint(h, s.Tool, s.Layout, s.File.Mode, o.Calls, o.Exit, o.Content, len(s.Others))
	h.Write(s.File.Content)
	o.Hash = h.Sum64()
	return o
}

// history carries out the steps after the first run. A run nothing happens to
// must do its work, whatever happened before.
func (m *Sim) history(s *Scn, o *Outcome, v *view, base, cwd string, args []string, t, second *target) {
	for i := range s.Steps {
		st := &s.Steps[i]
		at, other, a := t, second, args
		if st.Second {
			if s.Second == nil {
				continue
			}
			at, other, a = second, t, []string{second.path}
		}
		if st.Change != nil {
			if o.Err = m.change(at, st.Change); o.Err != nil {
				return
			}
		}
		var err error
		if at.orig, err = os.ReadFile(at.path); err != nil {
			return // a run before lost it
		}
		fi, err := os.Stat(at.path)
		if err != nil {
			return
		}
		at.mode, at.mayFail, at.also = uint32(fi.Mode().Perm()), fi.Mode().Perm()&0o600 != 0o600, nil
		var otherWas []byte
		if other.path != "" {
			otherWas, _ = os.ReadFile(other.path)
		}
		at.tool, at.extra = st.Tool, ""
		v.leftovers()
		p := &proc{tool: st.Tool, args: a, plan: st.Plan, out: &Outcome{Class: map[string]string{}, Fired: map[string]int{}}}
		if o.Err = m.exec(base, cwd, []*proc{p}, nil); o.Err != nil {
			return
		}
		undisturbed := true
		for _, f := range st.Plan {
			undisturbed = undisturbed && f.benign()
		}
		o.Calls = append(o.Calls, Call{Kind: fmt.Sprintf("run-%d", i+2), Fault: "-"})
		if undisturbed {
			v.judge(p, at)
			v.surroundings(p.out, []*proc{p})
			if other.path != "" {
				if b, err := os.ReadFile(other.path); err != nil || !bytes.Equal(b, otherWas) {
					p.out.Class["other-file"] = "the file an earlier run was given has changed"
				}
			}
			for _, k := range []string{"hang", "status", "needless", "content", "mode", "other-file", "litter", "silent"} {
				if d := p.out.Class[k]; d != "" && o.Class["history"] == "" {
					o.Class["history"] = fmt.Sprintf("run %d, which nothing happened to: %s: %s", i+2, k, d)
				}
			}
			p.out.Content = at.state(at.path)
			o.Undisturbed++
		}
		o.adopt(p.out, "", false)
		o.Exit, o.Signal, o.Content, o.Stderr = p.out.Exit, p.out.Signal, p.out.Content, p.out.Stderr
		if o.Class["history"] != "" {
			return
		}
	}
}

// change is another program's doing: a generator that writes the file anew, a
// tool that puts an older version back, time stamps included.
func (m *Sim) change(t *target, c *Change) error {
	fi, err := os.Stat(t.path)
	if err != nil {
		return nil
	}
	b := c.Content
	if !c.Exact {
		old, err := os.ReadFile(t.path)
		if err != nil {
			return err
		}
		b = append(bytes.Clone(b), old...)
	}
	mode := fi.Mode().Perm()
	if c.Mode != 0 {
		mode = os.FileMode(c.Mode)
	}
	to := t.real
	if c.Rename {
		to = filepath.Join(filepath.Dir(t.real), "being-written")
	}
	if err := os.WriteFile(to, b, 0o600); err != nil {
		return err
	}
	if m.Unpriv && c.Rename {
		if err := os.Chown(to, Uid, Uid); err != nil {
			return err
		}
	}
	if c.Rename || c.Mode != 0 {
		if err := os.Chmod(to, mode); err != nil {
			return err
		}
	}
	when := fi.ModTime()
	switch c.Time {
	case "past":
		when = time.Unix(1, 0)
	case "future":
		when = time.Unix(4e9, 0)
	}
	if c.Time != "" {
		if err := os.Chtimes(to, when, when); err != nil {
			return err
		}
	}
	if c.Rename {
		return os.Rename(to, t.real)
	}
	return nil
}

// digits that change from run to run: names of temporary files, addresses
var digits = regexp.MustCompile(`0x[0-9a-f]+|[0-9]{4,}`)

// proc is one simulated process.
type proc struct {
	tool   string
	base   string
	args   []string
	plan   []Flt
	out    *Outcome
	cmd    *exec.Cmd
	turn   *os.File      // a byte here lets it make its next call
	waits  chan struct{} // it waits for its turn, or has ended (closed)
	trace  bytes.Buffer
	stderr bytes.Buffer
	timer  *time.Timer
	ended  bool
}

// exec executes processes; two of them take turns.
func (m *Sim) exec(base, cwd string, procs []*proc, peer *Peer) error {
	for _, p := range procs {
		p.base = base
		pr, pw, err := os.Pipe()
		if err != nil {
			return err
		}
		tr, tw, err := os.Pipe()
		if err != nil {
			return err
		}
		p.turn, p.waits = tw, make(chan struct{}, 1)
		p.cmd = exec.Command(m.Bin[p.tool], p.args...)
		cmd := p.cmd
		cmd.Dir = cwd
		cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + base + "/tmp", "TMPDIR=" + base + "/tmp", "PWD=" + cwd, "GOMAXPROCS=1", "GOGC=off", "VSIM_PLAN=" + planText(p.plan)}
		if peer != nil {
			cmd.Env = append(cmd.Env, "VSIM_TURNS=1")
		}
		cmd.Env = append(cmd.Env, fmt.Sprint("VSIM_UMASK=", m.env.Umask))
		if m.env.TmpApart {
			cmd.Env = append(cmd.Env, "VSIM_TMP="+base+"/tmp/")
		}
		cmd.ExtraFiles = []*os.File{pw, tr}
		if m.Unpriv {
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: Uid, Gid: Uid, NoSetGroups: true}}
		}
		cmd.Stderr, cmd.Stdout = &p.stderr, io.Discard
		std, err := m.std(cmd)
		if err == nil {
			err = cmd.Start()
			if std != nil {
				std.Close()
			}
		}
		pw.Close()
		tr.Close()
		if err != nil {
			pr.Close()
			tw.Close()
			return err
		}
		go func() {
			in := bufio.NewReader(pr)
			for {
				l, err := in.ReadString('\n')
				if l == "T\n" {
					p.waits <- struct{}{}
					continue
				}
				p.trace.WriteString(l)
				if err != nil {
					break
				}
			}
			pr.Close()
			close(p.waits)
		}()
		p.timer = time.AfterFunc(30*time.Second, func() { cmd.Process.Kill() })
		// it has come to its first call
		if _, ok := <-p.waits; !ok {
			p.ended = true
		}
	}
	step := func(p *proc) bool {
		if p.ended {
			return false
		}
		p.turn.Write([]byte{'g'})
		_, ok := <-p.waits
		p.ended = !ok
		return true
	}
	if peer != nil {
		for i, n := range peer.Turns {
			for n = min(n, 5000); n > 0 && step(procs[i%2]); n-- {
			}
		}
		for more := true; more; {
			more = false
			for _, p := range procs {
				for n := 5000; n > 0 && step(p); n-- { // it may be waiting for the other one
				}
				more = more || !p.ended
			}
		}
	}
	for _, p := range procs {
		p.finish()
	}
	return nil
}

// std gives the process a standard output or standard error that takes nothing.
func (m *Sim) std(cmd *exec.Cmd) (f *os.File, err error) {
	which, how, ok := strings.Cut(m.env.Std, "-")
	if !ok {
		return nil, nil
	}
	if how == "full" {
		f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
	} else {
		var r *os.File
		if r, f, err = os.Pipe(); err == nil {
			r.Close()
		}
	}
	if err != nil {
		return nil, err
	}
	if which == "stderr" {
		cmd.Stderr = f
	} else {
		cmd.Stdout = f
	}
	return f, nil
}

func (p *proc) finish() {
	for range p.waits {
	}
	p.cmd.Wait()
	p.turn.Close()
	o := p.out
	o.Hang = !p.timer.Stop()
	o.Stderr = digits.ReplaceAllString(strings.ReplaceAll(p.stderr.String(), p.base, "DIR"), "N")
	o.Exit = p.cmd.ProcessState.ExitCode()
	if ws, ok := p.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		o.Signal = ws.Signal()
	}
	for _, l := range strings.Split(p.trace.String(), "\n") {
		f := strings.Fields(l)
		if len(f) != 4 {
			continue
		}
		r, _ := strconv.Atoi(f[2])
		o.Calls = append(o.Calls, Call{Kind: f[1], Res: r, Fault: f[3]})
		if f[3] != "-" {
			o.Fired[f[3]]++
		}
	}
}

// adopt takes over what another process of the run did.
func (o *Outcome) adopt(x *Outcome, who string, judged bool) {
	for k, n := range x.Fired {
		o.Fired[k] += n
	}
	o.Calls = append(o.Calls, x.Calls...)
	o.Hang = o.Hang || x.Hang
	if !judged {
		return
	}
	for k, d := range x.Class {
		if o.Class[k] == "" {
			o.Class[k] = who + d
		}
	}
}

// target is the file a process is given.
type target struct {
	tool, path, real, extra, layout string
	exists, mustFail, mayFail       bool
	orig                            []byte
	also                            [][]byte // other contents that are complete
	mode                            uint32
}

func (t *target) state(p string) string {
	want := Transformed(t.tool, t.orig)
	b, err := os.ReadFile(p)
	switch {
	case err != nil:
		return "missing"
	case bytes.Equal(b, want) && bytes.Equal(b, t.orig):
		return "same"
	case bytes.Equal(b, want):
		return "new"
	}
	for _, c := range t.also {
		if bytes.Equal(b, c) {
			return "new"
		}
	}
	switch {
	case bytes.Equal(b, t.orig):
		return "old"
	case bytes.HasPrefix(want, b):
		return fmt.Sprintf("other: the first %d of %d bytes of the transformed content", len(b), len(want))
	case bytes.HasPrefix(b, want):
		return fmt.Sprintf("other: the transformed content followed by %d bytes more", len(b)-len(want))
	}
	return fmt.Sprintf("other: %d bytes (original %d, transformed %d)", len(b), len(t.orig), len(want))
}

// view is what is judged.
type view struct {
	base, dir string
	known     map[string]bool // file names there may be, relative to dir, or to base if not in it
	others    []File
	own       map[string]bool
	std       string
}

// judge judges the file a process was given, and how the process ended.
func (v *view) judge(p *proc, t *target) {
	o := p.out
	if t.exists {
		o.Content = t.state(t.path)
		if o.Content == "missing" || strings.HasPrefix(o.Content, "other") {
			o.Class["content"] = "the file's content is now " + o.Content
		}
		if fi, err := os.Stat(t.path); err == nil {
			if got := uint32(fi.Mode().Perm()); got != t.mode {
				o.Class["mode"] = fmt.Sprintf("the file's permission bits are now %04o, they were %04o", got, t.mode)
			}
			if x := fi.Mode() & (os.ModeSetuid | os.ModeSetgid | os.ModeSticky); x != 0 {
				o.Class["mode"] = fmt.Sprintf("the file's mode is now %v", fi.Mode())
			}
			if !fi.Mode().IsRegular() {
				o.Class["mode"] = "the file is no regular file any more"
			}
		}
		if li, err := os.Lstat(t.path); err == nil && t.real != t.path && li.Mode()&os.ModeSymlink == 0 {
			o.Class["mode"] = "the symbolic link the tool was given is none any more"
		}
		if t.layout == "symlink-chain" {
			if li, err := os.Lstat(filepath.Join(filepath.Dir(t.path), "link-to-link")); err != nil || li.Mode()&os.ModeSymlink == 0 {
				o.Class["mode"] = "a symbolic link on the way to the file is none any more"
			}
		}
		extra := t.extra
		if t.real != t.path {
			extra = t.real
		}
		if extra != "" {
			if c := t.state(extra); c == "missing" || strings.HasPrefix(c, "other") {
				o.Class["other-file"] = fmt.Sprintf("the content of %s, the same file under another name, is now %s", filepath.Base(extra), c)
			}
			if fi, err := os.Stat(extra); err == nil && uint32(fi.Mode().Perm()) != t.mode {
				o.Class["other-file"] = fmt.Sprintf("the permission bits of %s are now %04o, they were %04o", filepath.Base(extra), fi.Mode().Perm(), t.mode)
			}
		}
	}
	v.ending(p, t)
}

// ending judges how the process ended.
func (v *view) ending(p *proc, t *target) bool {
	o := p.out
	planned := false
	for _, f := range p.plan {
		if f.ends(o) && !o.Hang && o.Exit != 0 {
			planned = true
		}
	}
	failed := o.Fired["errno"]+o.Fired["sticky"]+o.Fired["readonly"]+o.Fired["disk-full"]+o.Fired["lost"] > 0
	content := t.state(t.path)
	achieved := t.exists && !t.mustFail && (content == "new" || content == "same")
	switch {
	case o.Hang:
		o.Class["hang"] = "the tool does not end"
	case planned:
	case o.Exit == 0 && !achieved:
		why := "the file's content is " + content
		if t.mustFail {
			why = "the tool was called with " + t.layout
		}
		o.Class["status"] = "exit status zero although " + why
	case o.Exit != 0 && !failed && !t.mustFail && !t.mayFail:
		o.Class["needless"] = fmt.Sprintf("exit status %d (signal %d) although nothing failed: %s", o.Exit, o.Signal, clip(o.Stderr))
	case strings.HasPrefix(v.std, "stderr"):
	case o.Exit != 0 && strings.TrimSpace(o.Stderr) == "":
		o.Class["silent"] = fmt.Sprintf("exit status %d (signal %d) without a message on standard error", o.Exit, o.Signal)
	}
	return true
}

// surroundings judges the rest of the directory.
func (v *view) surroundings(o *Outcome, procs []*proc) {
	for _, f := range v.others {
		p := filepath.Join(v.dir, f.Name)
		b, err := os.ReadFile(p)
		fi, err2 := os.Lstat(p)
		switch {
		case err != nil || err2 != nil:
			o.Class["other-file"] = "another file of the directory is gone: " + f.Name
		case !bytes.Equal(b, f.Content):
			o.Class["other-file"] = fmt.Sprintf("the content of another file of the directory, %s, changed", f.Name)
		case uint32(fi.Mode().Perm()) != f.Mode:
			o.Class["other-file"] = fmt.Sprintf("the permission bits of another file of the directory, %s, are now %04o, they were %04o", f.Name, fi.Mode().Perm(), f.Mode)
		}
	}
	// A tool that ends by itself leaves nothing lying about, unless it was kept from removing it.
	for _, p := range procs {
		if p.out.Signal != 0 || p.out.Fired["signal"] > 0 || p.out.Hang || p.out.removalFails() {
			return
		}
	}
	v.each(func(name string) {
		if !v.known[name] {
			o.Class["litter"] = fmt.Sprintf("the tool leaves the file %s behind", filepath.Base(name))
		}
	})
}

func (v *view) each(f func(name string)) {
	for _, d := range []string{".", "tmp", "elsewhere"} {
		at := v.dir
		if d != "." {
			at = filepath.Join(v.base, d)
		}
		l, _ := os.ReadDir(at)
		for _, e := range l {
			f(filepath.Join(d, e.Name()))
		}
	}
}

// leftovers of a run are nothing to complain about in the next one.
func (v *view) leftovers() { v.each(func(name string) { v.known[name] = true }) }

func clip(s string) string {
	s = strings.TrimSpace(s)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// Trace is the run for the reader.
func (o *Outcome) Trace() []string {
	t := []string{}
	for i, c := range o.Calls {
		if i >= 60 && c.Fault == "-" {
			continue
		}
		r := fmt.Sprint(c.Res)
		if c.Res < 0 {
			r = syscall.Errno(-c.Res).Error()
		}
		l := fmt.Sprintf("call %d: %s = %s", i, c.Kind, r)
		if c.Fault != "-" {
			l += "   <== " + c.Fault
		}
		t = append(t, l)
	}
	return append(t, fmt.Sprintf("exit status %d, file: %s, standard error: %q", o.Exit, o.Content, clip(o.Stderr)))
}
