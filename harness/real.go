package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/mescanne/goledger/book"
	"github.com/mescanne/goledger/cmd/accounts"
	"github.com/mescanne/goledger/cmd/app"
	"github.com/mescanne/goledger/cmd/currencies"
	"github.com/mescanne/goledger/cmd/export"
	"github.com/mescanne/goledger/cmd/generate"
	"github.com/mescanne/goledger/cmd/importer"
	regcmd "github.com/mescanne/goledger/cmd/register"
	"github.com/mescanne/goledger/cmd/reports"
)

// Access to the code under test: its packages in process, and the goledger binary.

func loadFile(file string) (*book.Book, error) {
	a := app.App{Ledger: file, Lang: "en", Divider: ":"}
	return a.LoadBook()
}

// observe reads a book's content through its public accessors.
func observe(b *book.Book) MBook {
	var m MBook
	for _, t := range b.Transactions() {
		for _, p := range t {
			m.Posts = append(m.Posts, MPost{
				Date: int(p.GetDate()), Payee: p.GetPayee(), TNotes: []string{t.GetTransactionNote()},
				Acct: p.GetAccount(), CCY: p.GetCCY(), Val: rcopy(p.GetAmount()),
				Notes: []string{p.GetPostNote()}, Bal: rcopy(p.GetBalance()),
			})
		}
	}
	for _, pair := range b.GetPricePairs() {
		for _, p := range b.GetPriceList(pair.Unit, pair.CCY) {
			m.Prices = append(m.Prices, MPrice{int(p.GetDate()), pair.Unit, pair.CCY, rcopy(p.GetPrice())})
		}
	}
	return m
}

func noBal(ps []MPost) []MPost {
	o := append([]MPost{}, ps...)
	for i := range o {
		o[i].Bal = nil
	}
	return o
}

// buildBook makes a book from model postings (which must be grouped by transaction and balanced).
func buildBook(m MBook) *book.Book {
	b := book.NewBookBuilder()
	for i, p := range m.Posts {
		if i == 0 || m.Posts[i-1].Date != p.Date || m.Posts[i-1].Payee != p.Payee {
			b.NewTransaction(book.Date(p.Date), p.Payee, first(p.TNotes))
		}
		b.AddPosting(p.Acct, p.CCY, rcopy(p.Val), first(p.Notes))
	}
	for _, p := range m.Prices {
		b.AddPrice(book.Date(p.Date), p.Unit, p.CCY, rcopy(p.Val))
	}
	return finishBuild(b)
}

func first(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return l[0]
}

// Cfg is what a configuration file would set.
type Cfg struct {
	Ledger   string
	Base     string
	Divider  string
	Lang     string
	Colour   bool
	All      bool
	Macros   map[string][]string
	Report   reports.TransactionReport
	Register regcmd.RegisterReport
	Export   export.ExportReport
	Imports  map[string]*importer.ImportDef
	Gens     map[string]*generate.Generate
}

// cli runs one command in process. Output is what the command writes to its
// output writer and to os.Stdout.
func cli(c Cfg, args ...string) (string, error) {
	out, _, err := cliBoth(c, args...)
	return out, err
}

func cliBoth(c Cfg, args ...string) (string, string, error) {
	var buf bytes.Buffer
	if c.Divider == "" {
		c.Divider = ":"
	}
	if c.Lang == "" {
		c.Lang = "en"
	}
	a := &app.App{Ledger: c.Ledger, BaseCCY: c.Base, Divider: c.Divider, Lang: c.Lang, Colour: c.Colour, All: c.All, Macros: c.Macros, Output: &buf}
	root := a.LoadCommand()
	if c.Export.Type == "" {
		c.Export.Type = "Ledger"
	}
	if c.Register.Type == "" {
		c.Register.Type = "Text"
		c.Register.Asc = true
	}
	if c.Report.Type == "" {
		c.Report.Type = "Text"
	}
	if c.Report.Combineby == "" {
		c.Report.Combineby = "none"
	}
	accounts.Add(root, a)
	reports.Add(root, a, &c.Report)
	regcmd.Add(root, a, &c.Register)
	currencies.Add(root, a)
	export.Add(root, a, &c.Export)
	importer.Add(root, a, c.Imports)
	generate.Add(root, a, c.Gens)
	root.SetArgs(args)
	extra, err := captureStdout(func() error { return root.Execute() })
	return extra + buf.String(), extra, err
}

// captureStdout runs f with os.Stdout and os.Stderr redirected to files.
func captureStdout(f func() error) (string, error) {
	o, err := os.CreateTemp("", "out")
	if err != nil {
		harness("%v", err)
	}
	os.Remove(o.Name())
	oldO, oldE := os.Stdout, os.Stderr
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		harness("%v", err)
	}
	os.Stdout, os.Stderr = o, null
	defer func() {
		os.Stdout, os.Stderr = oldO, oldE
		o.Close()
		null.Close()
	}()
	ferr := f()
	if _, err := o.Seek(0, 0); err != nil {
		harness("%v", err)
	}
	b, err := io.ReadAll(o)
	if err != nil {
		harness("%v", err)
	}
	return string(b), ferr
}

// ---- the goledger binary ----------------------------------------------------

type Run struct {
	Out, Err string
	Code     int
	Sig      syscall.Signal
}

const benignConf = "divider = \":\"\n"

// goledger runs the real binary in dir with the given configuration text ("" = minimal one)
// and arguments. A timeout is a harness error only if the process used little CPU.
func (x *Ctx) goledger(dir string, conf string, env []string, args ...string) Run {
	bin := os.Getenv("VT_GOLEDGER")
	if bin == "" {
		harness("VT_GOLEDGER is not set")
	}
	if conf == "" {
		conf = benignConf
	}
	cf := filepath.Join(dir, "vt-conf.toml")
	if err := os.WriteFile(cf, []byte(conf), 0644); err != nil {
		harness("%v", err)
	}
	e := append([]string{"GOLEDGER_CONF=" + cf, "HOME=" + dir, "LANG=en", "PATH=" + os.Getenv("PATH")}, env...)
	return runBinary(bin, dir, e, nil, args...)
}

func runBinary(bin, dir string, env []string, stdin []byte, args ...string) Run {
	for _, a := range args {
		if strings.Contains(a, "\x00") {
			panic(outside{"no argument of a process can contain a NUL"})
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append(env, "GOMEMLIMIT=2GiB", "TZ="+os.Getenv("TZ"))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if stdin != nil {
		cmd.Stdin = bytes.NewReader(stdin)
	}
	err := cmd.Start()
	if err == nil {
		ended := guard(cmd)
		err = cmd.Wait()
		if why := ended(); why != "" {
			return Run{o.String(), cut(e.String(), 2000) + "\n(did not end: " + why + ")", -1, syscall.SIGXCPU}
		}
	}
	if ctx.Err() != nil {
		harness("goledger %v did not end in 120 s (CPU %v)", args, cmd.ProcessState.UserTime()+cmd.ProcessState.SystemTime())
	}
	r := Run{Out: o.String(), Err: e.String()}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			harness("running goledger: %v", err)
		}
		r.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Sig = ws.Signal()
			if r.Sig == syscall.SIGKILL {
				harness("goledger was killed")
			}
		}
	}
	return r
}

// crash says whether the run ended in a crash rather than a result or an error message.
func (r Run) crash() error {
	if r.Sig != 0 || r.Code < 0 {
		return viol("ended by signal %v: %s", r.Sig, cut(r.Err, 1500))
	}
	if r.Code == 2 && (strings.Contains(r.Err, "goroutine ") || strings.Contains(r.Err, "panic:") || strings.Contains(r.Err, "fatal error:")) {
		return viol("crashed: %s", cut(r.Err, 1500))
	}
	if r.Code != 0 && strings.TrimSpace(r.Err) == "" && strings.TrimSpace(r.Out) == "" {
		return viol("exit status %d without any message", r.Code)
	}
	return nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func args(a ...any) []string {
	var o []string
	for _, v := range a {
		switch w := v.(type) {
		case string:
			o = append(o, w)
		case []string:
			o = append(o, w...)
		default:
			o = append(o, fmt.Sprint(w))
		}
	}
	return o
}

func dateOfBook(d int) book.Date { return book.Date(d) }

var _ = big.NewRat

func finishBuild(b *book.Builder) *book.Book { return b.Build() }
