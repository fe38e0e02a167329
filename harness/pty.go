package main

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"pgregory.net/rapid"
)

// Running the binary on a terminal of its own.

func ioctl(fd, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// onTerminal runs the binary with its output on a pseudo terminal of the given size.
func (x *Ctx) onTerminal(cols, rows int, conf string, path string, args ...string) (Run, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return Run{}, err
	}
	defer m.Close()
	var n, unlock int32
	if err := ioctl(m.Fd(), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		return Run{}, err
	}
	if err := ioctl(m.Fd(), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return Run{}, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return Run{}, err
	}
	ws := [4]uint16{uint16(rows), uint16(cols), 0, 0}
	if err := ioctl(s.Fd(), syscall.TIOCSWINSZ, unsafe.Pointer(&ws)); err != nil {
		s.Close()
		return Run{}, err
	}
	// no output processing: line ends as written
	var tio syscall.Termios
	if err := ioctl(s.Fd(), syscall.TCGETS, unsafe.Pointer(&tio)); err == nil {
		tio.Oflag &^= syscall.OPOST
		_ = ioctl(s.Fd(), syscall.TCSETS, unsafe.Pointer(&tio))
	}
	dir := x.Tmp()
	cf := filepath.Join(dir, "vt-conf.toml")
	if err := os.WriteFile(cf, []byte(conf), 0644); err != nil {
		harness("%v", err)
	}
	cmd := exec.Command(os.Getenv("VT_GOLEDGER"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"GOLEDGER_CONF=" + cf, "HOME=" + dir, "LANG=en", "PATH=" + path, "GOMEMLIMIT=2GiB"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdout = s
	var eb strings.Builder
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		s.Close()
		harness("%v", err)
	}
	s.Close()
	ended := guard(cmd)
	timer := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
	var out strings.Builder
	io.Copy(&out, m) // ends with EIO once nothing has the terminal open
	err = cmd.Wait()
	if why := ended(); why != "" {
		return Run{out.String(), cut(eb.String(), 2000) + "\n(did not end: " + why + ")", -1, syscall.SIGXCPU}, nil
	}
	if !timer.Stop() {
		harness("goledger on a terminal did not end in 120 s")
	}
	r := Run{Out: out.String(), Err: eb.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		r.Code = ee.ExitCode()
		if w, ok := ee.Sys().(syscall.WaitStatus); ok && w.Signaled() {
			r.Sig = w.Signal()
		}
	}
	return r, nil
}

// TermCase is a register on a terminal.
type TermCase struct {
	R          RegCase
	Cols, Rows int
	Pager      bool
}

func genTermCase(t *rapid.T) TermCase {
	c := TermCase{R: genTextReg(t), Cols: pick(t, []int{intn(t, 30, 120, "cols"), intn(t, 50, 90, "cols2"), 300}, "colsk"), Rows: pick(t, []int{3, 24, 1000}, "rows"), Pager: chance(t, 50, "pager")}
	c.R.Combined = chance(t, 60, "tcomb")
	return c
}

func clip(s string, w int) string {
	r := []rune(visible(s))
	if w < 0 {
		w = 0
	}
	if len(r) > w {
		return string(r[:w])
	}
	return string(r) + strings.Repeat(" ", w-len(r))
}

func checkTerm(tc TermCase, x *Ctx) error {
	c := tc.R
	x.WriteFiles(c.L.Files)
	parts := c.want(c.model())
	b, err := loadFile(filepath.Join(x.Tmp(), c.L.Main))
	if err != nil {
		return viol("%v", err)
	}
	dec := b.GetCCYDecimals()
	path := filepath.Join(x.Tmp(), "bin")
	os.MkdirAll(path, 0755)
	if tc.Pager {
		os.WriteFile(filepath.Join(path, "less"), []byte("#!/bin/sh\nexec /bin/cat\n"), 0755)
	}
	al := []string{"-l", c.L.Main, "--ccy=" + c.Base, "--lang=" + c.Lang, fmt.Sprintf("--colour=%v", c.Colour)}
	if c.All {
		al = append(al, "--all")
	}
	r, err := x.onTerminal(tc.Cols, tc.Rows, benignConf, path, append(al, c.args("Text")...)...)
	if err != nil {
		x.Label("no terminal available")
		return nil
	}
	if e := r.crash(); e != nil {
		return viol("on a terminal %d wide: %v\n%s", tc.Cols, e, c)
	}
	if r.Code != 0 {
		return viol("on a terminal %d wide: exit %d: %s\n%s", tc.Cols, r.Code, r.Err, c)
	}
	got := tableLines(strings.ReplaceAll(r.Out, "\r\n", "\n"))
	for i := range got {
		got[i] = normSpace(got[i])
	}
	fail := func(why string) error {
		return viol("on a terminal %d wide: %s; printed\n%s\n%s", tc.Cols, why, cut(strings.Join(got, "\n"), 2500), c)
	}
	at := 0
	for _, p := range parts {
		if !c.Combined && strings.TrimSpace(visible(p.Acct)) != "" {
			if at >= len(got) || squeeze(got[at]) != squeeze(p.Acct) {
				return fail(fmt.Sprintf("no line for account %q", p.Acct))
			}
			at++
		}
		rows := c.regTable(p, dec)
		full := renderTable(rows)
		if at+len(rows) > len(got) {
			return fail("lines missing")
		}
		lines := got[at : at+len(rows)]
		at += len(rows)
		nsh, dw := len(rows[0])-3, 0
		for _, r := range rows {
			dw = max(dw, len([]rune(visible(r[0].text))))
		}
		width := make([]int, nsh)
		sum := 0
		for j := range width {
			for _, r := range rows {
				width[j] = max(width[j], len([]rune(visible(r[j+1].text))))
			}
			sum += width[j]
		}
		total := len([]rune(full[0]))
		fixed := total - sum
		if total <= tc.Cols {
			for i := range lines {
				if lines[i] != normSpace(full[i]) {
					return fail(fmt.Sprintf("line %q, expected %q", lines[i], full[i]))
				}
			}
			continue
		}
		x.NT()
		x.Label("narrow")
		room := max(tc.Cols-fixed, 0)
		if room > 0 {
			x.Label("narrow, cut to the terminal")
		}
		// amounts and dates in full, the other columns cut to some widths using the room there is
		try := func(w []int) bool {
			for i, r := range rows {
				s := clip(r[0].text, dw)
				for j := range w {
					s += " " + clip(r[j+1].text, w[j])
				}
				f := []rune(full[i])
				s += string(f[dw+nsh+sum:])
				if normSpace(s) != lines[i] {
					return false
				}
			}
			return true
		}
		ok := false
		var rec func(j, left int, w []int)
		rec = func(j, left int, w []int) {
			if ok {
				return
			}
			if j == nsh-1 {
				if left <= width[j] {
					ok = try(append(w, left))
				}
				return
			}
			for k := 0; k <= left && k <= width[j] && !ok; k++ {
				rec(j+1, left-k, append(append([]int{}, w...), k))
			}
		}
		rec(0, room, nil)
		if !ok {
			return fail(fmt.Sprintf("the table does not fit expected\n%s\nwith payees and accounts cut to %d columns in all", strings.Join(full, "\n"), room))
		}
	}
	if at != len(got) {
		return fail("more lines than expected")
	}
	return nil
}

// ScreenCase is any reading command, on a terminal and with its output to a pipe.
type ScreenCase struct {
	CmdCase
	Cols   int
	Rows   int
	Pager  string
	Colour bool
}

func genScreen(t *rapid.T) ScreenCase {
	c := ScreenCase{CmdCase: genCmd(t), Cols: pick(t, []int{1, 20, 80, 60000}, "cols"), Rows: pick(t, []int{2, 5, 5, 24, 1000}, "rows"), Pager: pick(t, []string{"", "cat", "cat", "slow", "slow", "quit"}, "pager"), Colour: chance(t, 50, "colour")}
	if chance(t, 50, "table") {
		c.Args = pick(t, [][]string{{"report", "--type=Text", "--sum=true"}, {"report", "--type=Text", "--sum=true", "--splitby=monthly"}, {"register", "--type=Text", "--combined", "--", "."}, {"register", "--", "."}, {"accts"}, {"accts", "--all"}}, "tablecmd")
	}
	return c
}

// checkScreen: a terminal that is wide enough shows what would be printed to a pipe.
func checkScreen(c ScreenCase, x *Ctx) error {
	d := x.WriteFiles(c.L.Files)
	a := args("-l", c.L.Main, fmt.Sprintf("--colour=%v", c.Colour))
	if c.Cfg.Base != "" {
		a = append(a, "--ccy="+c.Cfg.Base)
	}
	a = args(a, "--divider="+c.Cfg.Divider, c.Args)
	piped := x.goledger(d, benignConf, nil, a...)
	if err := piped.crash(); err != nil {
		return viol("%q: %v\n%s", a, err, filesText(c.L.Files))
	}
	path := filepath.Join(d, "bin")
	os.MkdirAll(path, 0755)
	done := filepath.Join(d, "pager.ended")
	script := map[string]string{
		"cat":  "exec /bin/cat",
		"slow": ": >" + done + ".begun\n/bin/cat >" + done + ".got\n/bin/cat " + done + ".got\nexec >&- 2>&-\n/bin/sleep 0.15\n: >" + done,
		"quit": "exec /usr/bin/head -c 200",
	}[c.Pager]
	if script != "" {
		os.WriteFile(filepath.Join(path, "less"), []byte("#!/bin/sh\n"+script+"\n"), 0755)
	}
	cols := 60000
	if c.Args[0] != "register" {
		cols = c.Cols // only registers are cut to the terminal
	}
	r, err := x.onTerminal(cols, c.Rows, benignConf, path, a...)
	if err != nil {
		x.Label("no terminal available")
		return nil
	}
	x.Label("%s", c.Args[0])
	if err := r.crash(); err != nil {
		return viol("on a terminal of %d lines, pager %q: %q: %v\n%s", c.Rows, c.Pager, a, err, filesText(c.L.Files))
	}
	eol := strings.NewReplacer("\r\n", "\n").Replace
	got, want := eol(r.Out), eol(piped.Out)
	lines := strings.Count(want, "\n")
	if lines > c.Rows {
		x.NT()
		x.Label("longer than the terminal")
	}
	if c.Pager == "quit" {
		if !strings.HasPrefix(want, got) && got != want {
			return viol("on a terminal of %d lines with a pager that is left early, %q prints\n%s\nto a pipe\n%s\n%s", c.Rows, a, cut(got, 1500), cut(want, 1500), filesText(c.L.Files))
		}
		return nil
	}
	if got != want || r.Code != piped.Code {
		return viol("on a terminal of %d lines, pager %q, %q prints (exit %d, %s)\n%s\nto a pipe (exit %d)\n%s\n%s", c.Rows, c.Pager, a, r.Code, r.Err, cut(got, 1500), piped.Code, cut(want, 1500), filesText(c.L.Files))
	}
	if _, err := os.Stat(done + ".begun"); err == nil {
		x.Label("pager used")
		if _, err := os.Stat(done); err != nil {
			return viol("%q ended before its pager did\n%s", a, filesText(c.L.Files))
		}
		if read, _ := os.ReadFile(done + ".got"); eol(string(read)) != want && (c.Args[0] != "register" || has(c.Args, "--combined")) {
			return viol("of the table of %q the pager only got\n%s\nof\n%s\n%s", a, cut(string(read), 1500), cut(want, 1500), filesText(c.L.Files))
		}
	}
	return nil
}
