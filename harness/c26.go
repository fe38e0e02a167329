package main

import (
	"fmt"
	"html"
	"path/filepath"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// C26: the HTML report.

type HTMLCase struct {
	SumCase
	Plain   bool   // --sum=false
	CSS     string // --htmlcss
	CSSFile bool
}

var markupWords = []string{"<b>bold</b>", "a & b", "&amp;", "&lt;i&gt;", "<script>alert(1)</script>", "5 > 3 < 4", "O'Neil", "</div>", "<!-- x -->", "&#34;", "a&b", "&copy;", "%s %d", "--><br/>", "]]>", "&", "<", "x=\"1\""}

func genHTML(t *rapid.T) HTMLCase {
	c := HTMLCase{SumCase: genSumCase(t)}
	if chance(t, 60, "markup") {
		// the ledger again with payees that look like markup
		s := genSpec(t)
		s.Accts = genAccts(t, 8)
		s.Trans = intn(t, 1, 8, "ntrans")
		if !has(s.CCYs, c.Base) {
			s.CCYs = append(s.CCYs, c.Base)
		}
		s.Payees = nil
		for i := intn(t, 1, 4, "npayees"); i > 0; i-- {
			p := pick(t, markupWords, "mp")
			if strings.Contains(p, `"`) && strings.Contains(p, ";") {
				p = "<i>"
			}
			s.Payees = append(s.Payees, p)
		}
		c.L = genLedger(t, s, chance(t, 50, "plain"))
		c.Ops, c.Credit, c.Hidden = nil, "", ""
		if chance(t, 70, "skip") {
			c.Split = "skip"
		}
		word := func(l string) string {
			for {
				if w := pick(t, markupWords, l); !strings.ContainsAny(w, "/%") {
					return w
				}
			}
		}
		for i := intn(t, 0, 3, "nmarkupops"); i > 0; i-- {
			if len(c.L.Want.Posts) == 0 {
				break
			}
			p := pick(t, c.L.Want.Posts, "mpost")
			switch intn(t, 0, 2, "mk") {
			case 0:
				c.Ops = append(c.Ops, Op{Kind: "mapccy", Re: "^" + regexp.QuoteMeta(p.CCY) + "$", To: word("mc")})
			case 1:
				c.Ops = append(c.Ops, Op{Kind: "map", Re: "^" + regexp.QuoteMeta(p.Acct), To: word("ma")})
			default:
				c.Ops = append(c.Ops, Op{Kind: "map", Re: ":", To: c.Div + word("ms")})
			}
		}
		if chance(t, 15, "markupbase") {
			for _, o := range c.Ops {
				if o.Kind == "mapccy" {
					c.Base = o.To
				}
			}
		}
	}
	c.Plain = chance(t, 35, "unsummarised")
	c.Lang = pick(t, langs, "lang")
	c.Colour = chance(t, 50, "colour")
	if chance(t, 20, "css") {
		c.CSS = pick(t, []string{"div { display: flex; }", ".post { margin: 1px }\n.pos > b { color: green }", "/* 100% %s & \"x\" */"}, "csstext")
		c.CSSFile = chance(t, 50, "cssfile")
	}
	return c
}

func (c HTMLCase) htmlArgs(x *Ctx, typ string) []string {
	a := c.args(typ)
	for i := range a {
		if a[i] == "--sum" && c.Plain {
			a[i] = "--sum=false"
		}
		if a[i] == "--" {
			var f []string
			if typ == "HTML" && c.CSS != "" {
				if c.CSSFile {
					f = append(f, "--htmlcss=file:"+filepath.Join(x.Tmp(), "my.css"))
				} else {
					f = append(f, "--htmlcss="+c.CSS)
				}
			}
			return append(append(append([]string{}, a[:i]...), f...), a[i:]...)
		}
	}
	return a
}

// htmlNode is an element of a page of the strict form: no void elements, no comments.
type htmlNode struct {
	Tag   string
	Class []string
	Kids  []*htmlNode
	Text  string // unescaped text directly inside
}

var (
	reTag    = regexp.MustCompile(`^<(/?)([a-zA-Z][a-zA-Z0-9]*)((?:\s+[a-zA-Z-]+="[^"<>&]*")*)\s*>`)
	reClass  = regexp.MustCompile(`\sclass="([^"]*)"`)
	reEntity = regexp.MustCompile(`^&(#[0-9]+|#[xX][0-9a-fA-F]+|[a-zA-Z][a-zA-Z0-9]*);`)
)

// parsePage reads a page strictly: every element closed in order, no stray markup characters.
func parsePage(s string) (*htmlNode, error) {
	root := &htmlNode{}
	stack := []*htmlNode{root}
	pos := 0
	where := func() string {
		lo := pos - 60
		if lo < 0 {
			lo = 0
		}
		return fmt.Sprintf("at byte %d, after %q", pos, s[lo:pos])
	}
	for pos < len(s) {
		top := stack[len(stack)-1]
		switch {
		case s[pos] == '<':
			if strings.HasPrefix(s[pos:], "<!DOCTYPE ") || strings.HasPrefix(s[pos:], "<!doctype ") {
				if i := strings.IndexByte(s[pos:], '>'); i > 0 && len(root.Kids) == 0 {
					pos += i + 1
					continue
				}
			}
			m := reTag.FindStringSubmatch(s[pos:])
			if m == nil {
				return nil, viol("%s: not a tag: %q", where(), cut(s[pos:], 40))
			}
			if m[1] == "/" {
				if top.Tag != m[2] || m[3] != "" {
					return nil, viol("%s: %q closes <%s>", where(), m[0], top.Tag)
				}
				stack = stack[:len(stack)-1]
				pos += len(m[0])
				continue
			}
			n := &htmlNode{Tag: m[2]}
			if k := reClass.FindStringSubmatch(m[3]); k != nil {
				n.Class = strings.Fields(k[1])
			}
			top.Kids = append(top.Kids, n)
			stack = append(stack, n)
			pos += len(m[0])
			if n.Tag == "style" {
				i := strings.Index(s[pos:], "</style>")
				if i < 0 {
					return nil, viol("%s: <style> isn't closed", where())
				}
				n.Text = s[pos : pos+i]
				pos += i
			}
		case s[pos] == '&':
			m := reEntity.FindString(s[pos:])
			if m == "" {
				return nil, viol("%s: a bare &: %q", where(), cut(s[pos:], 40))
			}
			u := html.UnescapeString(m)
			if u == m {
				return nil, viol("%s: unknown entity %s", where(), m)
			}
			top.Text += u
			pos += len(m)
		default:
			top.Text += s[pos : pos+1]
			pos++
		}
	}
	if len(stack) != 1 {
		return nil, viol("<%s> isn't closed", stack[len(stack)-1].Tag)
	}
	return root, nil
}

func (n *htmlNode) is(tag string, class ...string) bool {
	if n.Tag != tag {
		return false
	}
	for _, c := range class {
		if !has(n.Class, c) {
			return false
		}
	}
	return true
}

func (n *htmlNode) name() string { return fmt.Sprintf("<%s class=%q>", n.Tag, n.Class) }

// only checks that an element has only white space as text of its own, and the given children.
func (n *htmlNode) only(kids ...[]string) error {
	if strings.TrimSpace(n.Text) != "" {
		return viol("%s contains the text %q", n.name(), n.Text)
	}
	if len(n.Kids) != len(kids) {
		return viol("%s contains %d elements, expected %d", n.name(), len(n.Kids), len(kids))
	}
	for i, k := range kids {
		if !n.Kids[i].is(k[0], k[1:]...) {
			return viol("%s contains %s, expected %v", n.name(), n.Kids[i].name(), k)
		}
	}
	return nil
}

type htmlLine struct {
	Depth                 int
	Label, Amount, Sign   string
	IndentClass, DiffWord string
}

func (n *htmlNode) lines(depth int, out *[]htmlLine) error {
	if strings.TrimSpace(n.Text) != "" {
		return viol("%s contains the text %q", n.name(), n.Text)
	}
	for _, k := range n.Kids {
		switch {
		case k.is("div", "indentbox"):
			if err := k.lines(depth+1, out); err != nil {
				return err
			}
		case k.is("div", "post"):
			if err := k.only([]string{"div", "account"}, []string{"div", "amount"}); err != nil {
				return err
			}
			a, v := k.Kids[0], k.Kids[1]
			if len(a.Kids) > 0 || len(v.Kids) > 0 {
				return viol("elements inside a line's account or amount: %q %q", a.Text, v.Text)
			}
			l := htmlLine{Depth: depth, Label: a.Text, Amount: normSpace(v.Text)}
			for _, c := range v.Class {
				if c == "pos" || c == "neg" {
					l.Sign += c
				}
			}
			for _, c := range k.Class {
				if strings.HasPrefix(c, "indent") {
					l.IndentClass = c
				} else if strings.HasSuffix(c, "indent") {
					l.DiffWord = c
				}
			}
			*out = append(*out, l)
		default:
			return viol("%s contains %s", n.name(), k.name())
		}
	}
	return nil
}

func (c HTMLCase) expected(x *Ctx) ([]SumCol, map[string]int, error) {
	var re *regexp.Regexp
	if c.Credit != "" {
		re = regexp.MustCompile(c.Credit)
	}
	b, cols, err := c.observed(x, re, c.Hidden)
	if err != nil {
		return nil, nil, err
	}
	if c.Plain {
		cols = observeSum(b.Transactions())
	}
	return cols, b.GetCCYDecimals(), nil
}

func checkHTML(c HTMLCase, x *Ctx) error {
	x.WriteFiles(c.L.Files)
	cols, dec, err := c.expected(x)
	if err != nil {
		return err
	}
	css := c.CSS
	if c.CSSFile && css != "" {
		x.WriteFiles(map[string]string{"my.css": css})
	}
	cfg := c.cfg(x)
	cfg.Ledger = filepath.Join(x.Tmp(), c.L.Main)
	page, err := cli(cfg, c.htmlArgs(x, "HTML")...)
	if err != nil {
		return viol("%q: %v\n%s", c.htmlArgs(x, "HTML"), err, c)
	}
	if err := c.checkPage(page, cols, dec, css); err != nil {
		return viol("%v\n%q\nlines:\n%s\npage:\n%s\n%s", err, c.htmlArgs(x, "HTML"), dumpCols(cols), cut(page, 6000), c)
	}
	// the same lines as JSON
	js, err := cli(cfg, c.htmlArgs(x, "Json")...)
	if err != nil {
		return viol("%q: %v\n%s", c.htmlArgs(x, "Json"), err, c)
	}
	if len(cols) > 0 {
		if err := diffSumJSON(js, cols, c.SumCase); err != nil {
			return err
		}
	}
	deep, marked := 0, false
	for _, col := range cols {
		marked = marked || strings.ContainsAny(col.Payee, `<>&"'`)
		for _, r := range col.Rows {
			if r.Level > deep {
				deep = r.Level
			}
			marked = marked || strings.ContainsAny(r.Term+r.CCY, `<>&"'`)
		}
	}
	if marked {
		x.Label("characters of markup")
	}
	if deep > 1 {
		x.Label("nesting of %d", deep)
	}
	if c.Plain {
		x.Label("not summarised")
	}
	if css != "" {
		x.Label("style of its own")
	}
	if len(cols) > 1 {
		x.Label("several blocks")
	}
	if len(cols) > 0 && (marked || deep > 0) {
		x.NT()
	}
	return nil
}

func (c HTMLCase) checkPage(page string, cols []SumCol, dec map[string]int, css string) error {
	if strings.Contains(page, "\x1b") {
		return viol("the page contains terminal codes")
	}
	root, err := parsePage(page)
	if err != nil {
		return err
	}
	if err := root.only([]string{"html"}); err != nil {
		return err
	}
	h := root.Kids[0]
	if err := h.only([]string{"head"}, []string{"body"}); err != nil {
		return err
	}
	style := false
	for _, k := range h.Kids[0].Kids {
		if k.Tag == "style" {
			style = true
			if css != "" && strings.TrimSpace(k.Text) != strings.TrimSpace(css) {
				return viol("style %q, expected %q", k.Text, css)
			}
			if css == "" && !strings.Contains(k.Text, "indentbox") {
				return viol("default style without the classes of the page: %q", k.Text)
			}
		}
	}
	if !style {
		return viol("no style")
	}
	if err := h.Kids[1].only([]string{"div", "reports"}); err != nil {
		return err
	}
	all := h.Kids[1].Kids[0]
	if strings.TrimSpace(all.Text) != "" || len(all.Kids) != len(cols) {
		return viol("%d blocks, expected %d, text %q", len(all.Kids), len(cols), all.Text)
	}
	for i, blk := range all.Kids {
		col := cols[i]
		if !blk.is("div", "report") {
			return viol("block %d is %s", i, blk.name())
		}
		if err := blk.only([]string{"div", "header"}, []string{"div", "posts"}); err != nil {
			return err
		}
		want := [][]string{{"div", "date"}}
		if col.Payee != "" {
			want = append(want, []string{"div", "payee"})
		}
		head := blk.Kids[0]
		if err := head.only(want...); err != nil {
			return err
		}
		if d := head.Kids[0].Text; d != dateText(col.Date) {
			return viol("block %d: date %q, expected %q", i, d, dateText(col.Date))
		}
		if col.Payee != "" {
			if p := head.Kids[1]; p.Text != col.Payee || len(p.Kids) > 0 {
				return viol("block %d: payee %q, expected %q", i, p.Text, col.Payee)
			}
		}
		var ls []htmlLine
		if err := blk.Kids[1].lines(0, &ls); err != nil {
			return err
		}
		if len(ls) != len(col.Rows) {
			return viol("block %d: %d lines, expected %d", i, len(ls), len(col.Rows))
		}
		for j, l := range ls {
			r := col.Rows[j]
			m := money(c.Lang, dec, r.CCY, r.Val)
			sign := "pos"
			if r.Val.Sign() < 0 {
				sign = "neg"
			}
			w := htmlLine{Depth: r.Level, Label: r.Term, Amount: normSpace(m.sym + m.text), Sign: sign, IndentClass: fmt.Sprintf("indent%d", r.Level), DiffWord: l.DiffWord}
			if l != w {
				return viol("block %d, line %d: %+v, expected %+v", i, j, l, w)
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "random ledgers (with payees, accounts and currencies full of <, >, &, quotes and entities in more than half), all splits, conversion, summary options, dividers, languages, styles and colour settings; the page is read by a strict parser (every element closed in order, no bare < or &), and its blocks and lines compared with those of the report and of its JSON form. Non-trivial = something shown contains characters of markup, or lines are nested",
		Assumptions: []string{
			"a style sheet is the user's own text and inserted as it is; it doesn't contain </style>",
			"the order and values of the lines are those of the summary, which C08 judges",
		},
		Facets: []*Facet{
			facet("page", 8000, 250000, genHTML, checkHTML),
			facet("binary", 120, 3000, genHTML, func(c HTMLCase, x *Ctx) error {
				x.WriteFiles(c.L.Files)
				if c.CSS != "" && c.CSSFile {
					x.WriteFiles(map[string]string{"my.css": c.CSS})
				}
				cols, dec, err := c.expected(x)
				if err != nil {
					return err
				}
				c.Lang = "en"
				r := x.goledger(x.Tmp(), "divider = "+tomlStr(c.Div)+"\n", nil, append([]string{"-l", c.L.Main, "--ccy=" + c.Base}, c.htmlArgs(x, "HTML")...)...)
				if r.Code != 0 {
					return viol("%q: exit %d %s\n%s", c.htmlArgs(x, "HTML"), r.Code, r.Err, c)
				}
				if len(cols) > 0 {
					x.NT()
				}
				if err := c.checkPage(r.Out, cols, dec, c.CSS); err != nil {
					return viol("%v\n%q\nlines:\n%s\npage:\n%s\n%s", err, c.htmlArgs(x, "HTML"), dumpCols(cols), cut(r.Out, 6000), c)
				}
				return nil
			}),
		},
	})
}
