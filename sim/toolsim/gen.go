package toolsim

import (
	"fmt"
	"strings"
	"syscall"

	"verifsim/rnd"
)

// Content makes a file content.
func Content(r *rnd.R, tool string) []byte {
	var b strings.Builder
	n := r.N(12)
	switch {
	case r.P(12):
		n = 0
	case r.P(12):
		n = r.In(60, 500)
	}
	word := func() string {
		return rnd.Pick(r, "x", "foo", "machine", "go", "err", "s2", "a1b", "X", "fo_o", "a_b", "_x", "x_", "snake_case", "a_b_c", "x1_2_y", "_actions", "__", "Foo_bar", "m.data_x", "é_a", "a_é", "9_a", "a__b")
	}
	for i := 0; i < n; i++ {
		switch r.N(8) {
		case 0, 1:
			fmt.Fprintf(&b, "%s//line %s:%d", rnd.Pick(r, "", "\t", "  ", " \t", "\n\n"), word(), r.N(900))
		case 2:
			b.WriteString(rnd.Pick(r, "//lin", "//linex", "x //line a", "/ /line", "//", "// line", "//line", " \f//line", "\v//line"))
		case 3:
		default:
			for k := r.N(6); k >= 0; k-- {
				b.WriteString(word())
				b.WriteString(rnd.Pick(r, " ", "", ".", "(", "_", "\t", " := "))
			}
		}
		if r.P(30) {
			b.Write([]byte{0xff, 0x00, '_', 'a'})
		}
		switch {
		case i == n-1 && r.P(3):
		case r.P(6):
			b.WriteString("\r\n")
		default:
			b.WriteString("\n")
		}
	}
	out := b.String()
	if r.P(40) && out != "" {
		// larger than one buffer of any likely size
		big := 70000
		if tool == "snake2camel" {
			// the tool's cost is in the number of identifiers per line
			out += strings.Repeat(strings.Repeat("x", 3000)+"\n", 1+big/3000) + "a_b\n"
		} else {
			out = strings.Repeat(out+"\n", 1+big/(len(out)+1))
		}
	}
	if r.P(40) { // one line longer than what line readers take
		out += strings.Repeat(rnd.Pick(r, "x", "0", " "), r.In(65530, 70000)) + rnd.Pick(r, "", "\n", " a_b\n")
	}
	return []byte(out)
}

// Gen makes a scenario without faults.
func Gen(r *rnd.R) *Scn {
	s := &Scn{Tool: rnd.Pick(r, "removecomments", "snake2camel"), Layout: "plain"}
	s.File.Name = rnd.Pick(r, "machine.go", "machine.go", "machine.go", "a", "with space.go", ".hidden", "ünï.go", "x.tmp", "100%d.go", "st*r.go", strings.Repeat("n", 200)+".go")
	s.File.Content = Content(r, s.Tool)
	if r.P(2) {
		// certainly something to do
		s.File.Content = append(s.File.Content, "\n//line y:1\nz_z = 1\n"...)
	}
	s.File.Mode = rnd.Pick[uint32](r, 0o644, 0o644, 0o664, 0o600, 0o666, 0o640, 0o755, 0o777, 0o622, 0o606)
	s.Env = Env{Umask: rnd.Pick(r, 0o22, 0o22, 0o2, 0, 0o77, 0o27), TmpApart: r.P(3)}
	if r.P(10) {
		s.Env.Std = rnd.Pick(r, "stderr-full", "stderr-gone", "stdout-full", "stdout-gone")
	}
	if r.P(4) {
		s.Layout = rnd.Pick(r, "symlink", "symlink-out", "symlink-chain", "symlink-absolute", "symlink-dir", "hardlink", "relative", "relative-dot", "relative", "ro-dir", "missing", "missing-dir", "directory", "unreadable", "no-argument", "two-arguments", "three-arguments", "empty-argument", "dangling")
	}
	if s.Layout == "unreadable" {
		s.File.Mode = rnd.Pick[uint32](r, 0, 0o200, 0o244)
	} else if r.P(25) {
		s.File.Mode = rnd.Pick[uint32](r, 0o444, 0o400, 0o555)
	}
	if r.P(2) {
		for _, n := range []string{".tmp", ".bak", "~", ".new", ".orig", ".swp", ".old", "tmp", ".1"} {
			if r.P(2) && len(s.File.Name) < 100 {
				s.Others = append(s.Others, File{Name: s.File.Name + n})
			}
		}
		for _, n := range []string{"tmp", "temp", ".tmp", "temp.go", "." + s.File.Name, "." + s.File.Name + ".tmp", "tmp-" + s.File.Name, "." + s.File.Name + ".swp", "other.go", "removecomments.tmp", "snake2camel.tmp"} {
			if r.P(2) && n != s.File.Name && len(n) < 200 {
				s.Others = append(s.Others, File{Name: n})
			}
		}
		for i := range s.Others {
			s.Others[i].Content = Content(r, "snake2camel")
			s.Others[i].Mode = rnd.Pick[uint32](r, 0o644, 0o644, 0o600, 0o444)
		}
	}
	return s
}

var errnos = map[string][]syscall.Errno{
	"open":     {syscall.EIO, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ENOSPC, syscall.EROFS, syscall.ENOMEM, syscall.EDQUOT, syscall.ENOENT, syscall.EPERM},
	"read":     {syscall.EIO, syscall.ESTALE},
	"write":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT, syscall.EFBIG, syscall.EPERM},
	"close":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
	"stat":     {syscall.EIO, syscall.ENOMEM, syscall.EACCES, syscall.ESTALE},
	"rename":   {syscall.EIO, syscall.EACCES, syscall.EPERM, syscall.EXDEV, syscall.ENOSPC, syscall.EROFS, syscall.EDQUOT},
	"unlink":   {syscall.EIO, syscall.EACCES, syscall.EBUSY, syscall.EROFS},
	"chmod":    {syscall.EPERM, syscall.EIO, syscall.EROFS},
	"truncate": {syscall.EIO, syscall.EPERM, syscall.EFBIG, syscall.ENOSPC},
	"fsync":    {syscall.EIO, syscall.ENOSPC, syscall.EDQUOT},
}

// GenPlan makes a fault plan, given the calls of the run without faults.
func GenPlan(r *rnd.R, s *Scn, calls []Call) []Flt {
	n := len(calls)
	size := len(s.File.Content) + 2
	amount := func() int {
		switch r.N(4) {
		case 0:
			return r.N(4)
		case 1:
			return size - r.N(min(size, 8))
		}
		return r.N(size)
	}
	at := func() (int, string) {
		if n == 0 {
			return r.N(4), "open"
		}
		// data calls are where most can go wrong
		if r.P(3) {
			c := []int{}
			for i := range calls {
				switch calls[i].Kind {
				case "write", "rename", "close", "truncate":
					c = append(c, i)
				}
			}
			if len(c) > 0 {
				i := c[r.N(len(c))]
				return i, calls[i].Kind
			}
		}
		i := r.N(n + 2)
		if i >= n {
			return i, rnd.Pick(r, "open", "write", "close", "rename", "unlink")
		}
		return i, calls[i].Kind
	}
	errno := func(k string) int {
		e := errnos[k]
		if len(e) == 0 || r.P(8) {
			return int(syscall.EIO)
		}
		return int(e[r.N(len(e))])
	}
	benign := func() Flt {
		i, k := at()
		switch r.N(4) {
		case 0:
			return Flt{Op: "i", At: i, Arg: r.In(1, 5)}
		case 1:
			return Flt{Op: "w", Arg: 1 + max(r.N(40), size/100)}
		default:
			_ = k
			return Flt{Op: "s", At: i, Arg: max(1, amount())}
		}
	}
	failing := func() Flt {
		i, k := at()
		switch r.N(8) {
		case 0:
			return Flt{Op: "d", Arg: amount()}
		case 1:
			return Flt{Op: "r", At: i}
		case 2:
			return Flt{Op: "E", At: i, Err: errno(k)}
		case 3, 4:
			if k == "close" || k == "fsync" {
				return Flt{Op: "l", At: i, Arg: amount(), Err: errno(k)}
			}
		}
		return Flt{Op: "e", At: i, Err: errno(k)}
	}
	kill := func() Flt {
		i, k := at()
		if k == "write" && r.P(2) {
			return Flt{Op: "p", At: i, Arg: amount()}
		}
		if r.P(5) {
			return Flt{Op: "x", At: i, Arg: int(rnd.Pick(r, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP))}
		}
		if r.P(3) {
			keep := 0
			if r.P(3) {
				keep = amount()
			}
			return Flt{Op: rnd.Pick(r, "P", "Q"), At: i, Arg: keep}
		}
		return Flt{Op: rnd.Pick(r, "k", "K"), At: i}
	}
	var p []Flt
	switch r.N(10) {
	case 0, 1:
		for k := r.In(1, 4); k > 0; k-- {
			p = append(p, benign())
		}
	case 2, 3, 4:
		p = append(p, kill())
	case 5, 6:
		p = append(p, failing())
	case 7:
		p = append(p, failing(), failing())
	case 8:
		p = append(p, failing(), kill())
	case 9:
		p = append(p, benign(), rnd.Pick(r, failing, kill)())
	}
	return p
}

// Vary makes one of the runs of a scenario: faults, perhaps another process at
// the same time, perhaps another run after it.
func Vary(r *rnd.R, s *Scn, calls []Call) *Scn {
	c := *s
	c.Plan = GenPlan(r, s, calls)
	deadly := false
	for _, f := range c.Plan {
		deadly = deadly || f.deadly()
	}
	peer := false
	if s.Layout == "plain" || s.Layout == "relative" {
		peer = r.P(6)
	}
	if deadly && r.P(2) || r.P(12) {
		c.Again = true
		if r.P(3) {
			c.Next = rnd.Pick(r, "removecomments", "snake2camel")
		}
		if r.P(3) {
			c.Then = GenPlan(r, s, calls)
		}
	}
	if !peer || s.Peer != nil {
		return &c
	}
	p := &Peer{Tool: rnd.Pick(r, s.Tool, "removecomments", "snake2camel")}
	if r.P(2) {
		p.File = &File{Name: rnd.Pick(r, "other-machine.go", "b.go", "zz"), Content: Content(r, p.Tool), Mode: rnd.Pick[uint32](r, 0o644, 0o600, 0o664)}
	}
	if r.P(2) {
		c.Plan = nil
	}
	if r.P(3) {
		p.Plan = GenPlan(r, s, calls)
	}
	switch r.N(3) {
	case 0: // the other runs from start to end at some point
		p.Turns = []int{r.N(len(calls) + 2), 1 << 20}
	default:
		for k := r.In(2, 12); k > 0; k-- {
			p.Turns = append(p.Turns, r.In(1, 6))
		}
	}
	c.Peer = p
	return &c
}

// History makes a sequence of runs on the file of the scenario and on another
// one, some of them disturbed, with changes by others in between. The last run
// is undisturbed.
func History(r *rnd.R, s *Scn, calls []Call) *Scn {
	c := *s
	switch c.Layout {
	case "plain", "symlink", "symlink-out", "symlink-chain", "symlink-absolute", "symlink-dir", "relative", "relative-dot":
	default:
		c.Layout = "plain"
	}
	if c.File.Mode&0o600 != 0o600 {
		c.File.Mode = 0o644
	}
	if r.P(3) {
		c.Second = &File{Name: rnd.Pick(r, "other-machine.go", "b.go", "zz", "sub.go"), Content: Content(r, c.Tool), Mode: rnd.Pick[uint32](r, 0o644, 0o600, 0o664)}
		for _, f := range c.Others {
			if f.Name == c.Second.Name || c.File.Name == c.Second.Name {
				c.Second = nil
				break
			}
		}
	}
	disturb := func() []Flt {
		if r.P(3) {
			return nil
		}
		return GenPlan(r, &c, calls)
	}
	c.Plan = disturb()
	tool := func() string {
		if r.P(4) {
			return rnd.Pick(r, "removecomments", "snake2camel")
		}
		return c.Tool
	}
	// contents the file has had
	had := [][]byte{c.File.Content, Transformed(c.Tool, c.File.Content)}
	n := r.In(1, 4)
	if r.P(20) {
		n = r.In(5, 12)
	}
	for i := 0; i < n; i++ {
		st := Step{Tool: tool(), Second: c.Second != nil && r.P(3)}
		if i < n-1 {
			st.Plan = disturb()
		} else if r.P(4) {
			st.Plan = []Flt{{Op: "w", Arg: 1 + max(r.N(40), len(c.File.Content)/100)}}
		}
		if r.P(2) {
			ch := &Change{Exact: true, Rename: r.P(2), Time: rnd.Pick(r, "", "kept", "kept", "past", "future")}
			last := had[r.N(len(had))]
			switch r.N(6) {
			case 0:
				ch.Content = Content(r, st.Tool)
			case 1: // as it was
				ch.Content = last
			case 2: // a few bytes differ, the size does not
				ch.Content = append([]byte{}, last...)
				for k := r.In(1, 3); k > 0 && len(ch.Content) > 0; k-- {
					ch.Content[r.N(len(ch.Content))] = rnd.Pick[byte](r, 'x', 'y', '_', 'a', '\n', ' ')
				}
			case 3: // something is added to what is there
				ch.Content, ch.Exact = []byte(rnd.Pick(r, "//line q:7\n", "p_q = 3\n", "x", "\n")), false
			case 4:
				ch.Content = last[:r.N(len(last)+1)]
			case 5:
				ch.Content = append(append([]byte{}, last...), rnd.Pick(r, "//line q:7\n", "p_q = 3\n", "\n", "_a", "0")...)
			}
			if r.P(5) {
				ch.Mode = rnd.Pick[uint32](r, 0o600, 0o644, 0o666, 0o755)
			}
			had = append(had, ch.Content, Transformed(st.Tool, ch.Content))
			st.Change = ch
		}
		c.Steps = append(c.Steps, st)
	}
	return &c
}
