package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/mescanne/goledger/cmd/download"
	"github.com/spf13/cobra"
	"pgregory.net/rapid"
)

// C20: bank syncs against a simulated bank.

// The fake clock starts at 2000-01-01 in every case, but goledger's pause
// between requests knows the time of the last request of the case before, and
// would sleep for hours once enough requests were made. So after half an hour
// of such requests the cases start a day (or more) later.
var bubbleBase, bubbleEnd time.Time

// inBubble runs f under a fake clock (which starts at bubbleBase and advances when everything sleeps).
func inBubble(f func() error) (err error) {
	if theT == nil {
		harness("no *testing.T")
	}
	ran := false
	synctest.Test(theT, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if h, ok := r.(harnessError); ok {
					err = errors.New("harness: " + h.msg)
				} else {
					err = viol("panic: %v\n%s", r, trimStack(debug.Stack()))
				}
			}
			ran = true
			if now := time.Now(); now.After(bubbleEnd) {
				bubbleEnd = now
			}
		}()
		if bubbleBase.IsZero() {
			bubbleBase = time.Now()
		}
		for bubbleEnd.After(bubbleBase.Add(30 * time.Minute)) {
			bubbleBase = bubbleBase.Add(24 * time.Hour)
		}
		time.Sleep(time.Until(bubbleBase))
		bankEpoch = bubbleBase.Add(-(152*24 + 12) * time.Hour)
		err = f()
	})
	if !ran {
		harness("the fake clock did not run")
	}
	if err != nil && strings.HasPrefix(err.Error(), "harness: ") {
		harness("%v", err)
	}
	return err
}

// BTrans are new transactions of one feed: N of them, Gap seconds apart.
type BTrans struct {
	Acct, Feed int
	N, Gap     int
	Wait       int // seconds after the feed's newest
	Body       int
}

// BFault makes one request fail.
type BFault struct {
	What string // the request: whoami accounts transactions identifiers feed spaces payees requisition basic details token
	Acct int
	Nth  int
	Kind string
	Arg  int
}

// BStep changes the bank and then syncs.
type BStep struct {
	New     []BTrans
	Update  []int // transactions with new content
	Rename  bool  // account data change
	AddAcct bool
	Close   int // the n-th feed beyond the first is no longer listed (-1 = none)
	Fault   *BFault
	All     bool // --alldata
	Expired bool // the token in the state file has expired
	Late    int  // a transaction that appears with a time long past
}

type BankCase struct {
	Bank      string
	Accts     int
	Feeds     int
	Limited   bool // only the last 89 days without fresh authorisation
	Exclusive bool // since excludes the time itself
	Zone      bool // Monzo's times are written with various offsets
	File      string
	Prior     bool // state file with transactions that the bank no longer knows
	Steps     []BStep
}

var faultKinds = []string{"net", "500", "404", "401", "403", "429", "400", "204", "304", "cut", "empty", "bodyerr", "html", "type", "noid", "badid", "nullitem", "null", "trailing", "badtime", "string"}

func genBank(t *rapid.T) BankCase {
	c := BankCase{
		Bank: pick(t, []string{"monzo", "monzo", "starling", "starling", "nordigen"}, "bank"), Accts: intn(t, 1, 3, "accts"), Feeds: intn(t, 1, 4, "feeds"),
		Limited: chance(t, 25, "limited"), Exclusive: chance(t, 30, "excl"),
		File:  pick(t, []string{"state.json", "state.json.gz", "sub/dir/state.json", "sub/state.gz"}, "file"),
		Prior: chance(t, 30, "prior"),
	}
	c.Zone = chance(t, 30, "zone")
	whats := map[string][]string{
		"monzo":    {"whoami", "accounts", "transactions", "transactions", "token"},
		"starling": {"accounts", "identifiers", "feed", "feed", "spaces", "payees"},
		"nordigen": {"requisition", "basic", "details", "transactions", "transactions", "token"},
	}[c.Bank]
	big := c.Bank == "monzo" && chance(t, 60, "big")
	for i, n := 0, intn(t, 1, 4, "steps"); i < n; i++ {
		s := BStep{All: chance(t, 15, "all"), Rename: chance(t, 30, "rename"), AddAcct: chance(t, 15, "addacct"), Expired: chance(t, 12, "expired"), Close: -1}
		if chance(t, 20, "late") {
			s.Late = intn(t, 1, 400, "lateat")
		}
		if chance(t, 15, "close") {
			s.Close = intn(t, 1, 3, "closed")
		}
		for j, m := 0, intn(t, 0, 4, "new"); j < m; j++ {
			b := BTrans{Acct: intn(t, 0, 2, "acct"), Feed: intn(t, 0, 3, "feed"), N: intn(t, 0, 6, "n"), Gap: pick(t, []int{0, 1, 20, 59, 60, 61, 3600, 86400}, "gap"),
				Wait: pick(t, []int{0, 1, 30, 60, 61, 3600, 86400 * 5, 86400 * 25, 86400 * 100}, "wait"), Body: intn(t, 0, 99, "body")}
			if big && chance(t, 60, "burst") {
				b.N = pick(t, []int{98, 99, 100, 101, 150, 199, 200, 201, 260}, "burstn")
				b.Gap = pick(t, []int{0, 1, 1, 2, 30, 60, 61, 3600, 40000}, "burstgap")
			}
			s.New = append(s.New, b)
		}
		for j, m := 0, intn(t, 0, 2, "updates"); j < m; j++ {
			s.Update = append(s.Update, intn(t, 0, 400, "upd"))
		}
		if chance(t, 45, "fault") {
			s.Fault = &BFault{What: pick(t, whats, "what"), Acct: intn(t, 0, 2, "facct"), Nth: pick(t, []int{0, 0, 0, 1, 2}, "nth"), Kind: pick(t, faultKinds, "kind"), Arg: intn(t, 0, 1000, "arg")}
			if s.Fault.What == "token" && chance(t, 85, "texpired") {
				s.Expired = true
			}
		}
		c.Steps = append(c.Steps, s)
	}
	return c
}

type bItem struct {
	id      string
	created time.Time
	updated time.Time
	ver     int
	body    int
	late    bool // may lie before the time from which a bank asks for changes
}

func (i *bItem) json(bank string, zone bool) map[string]any {
	m := map[string]any{}
	bodies := []any{nil, "plain", "Käse & <b>\"x\"</b>\u2028", 12.5, -1250, 0.1, true, []any{}, map[string]any{}, []any{1, nil, "x", map[string]any{"a": []any{0.25}}}, map[string]any{"name": "M", "address": map[string]any{"city": "İzmir", "lat": 51.5185}}, "", "null", 1e21, 9007199254740991}
	m["description"] = bodies[(i.body*7+i.ver)%len(bodies)]
	m["merchant"] = bodies[(i.body+3*i.ver)%len(bodies)]
	m["amount"] = i.body*100 + i.ver
	switch bank {
	case "monzo":
		m["id"] = i.id
		m["created"] = i.created.Format("2006-01-02T15:04:05.999Z")
		if zone {
			m["created"] = i.created.In(time.FixedZone("", []int{0, 3600, -5 * 3600, 5*3600 + 1800}[i.body/30%4])).Format("2006-01-02T15:04:05.999Z07:00")
		}
	case "starling":
		m["feedItemUid"] = i.id
		// a planned payment's time lies after its last change, a late booking's before
		days := []int{0, 0, 45, 0, 200, -30}[i.body%6]
		m["transactionTime"] = i.created.AddDate(0, 0, days).Format("2006-01-02T15:04:05.000Z")
		m["updatedAt"] = i.updated.Format("2006-01-02T15:04:05.000Z")
	case "nordigen":
		m["transactionId"] = i.id
		m["bookingDate"] = i.created.Format("2006-01-02")
	}
	return m
}

type bFeed struct {
	id     string
	items  []*bItem
	closed bool
}

type bAcct struct {
	id    string
	feeds []*bFeed
	ver   int
}

type fakeBank struct {
	c       *BankCase
	accts   []*bAcct
	clock   time.Time // of the bank's transactions
	nextID  int
	fault   *BFault
	hits    map[string]int
	fired   bool
	effect  bool // the fault must make the sync fail
	reqs    int
	tooMany bool
	bad     string // a request a bank would not understand
	whoami  bool
	tokens  int
	body    string          // of the request
	valid   map[string]bool // the access tokens in force (nil: all)
	refresh string          // the refresh token in force: each works once
}

func (b *fakeBank) addAcct() {
	a := &bAcct{id: fmt.Sprintf("acc-%d", len(b.accts))}
	nf := 1
	if b.c.Bank == "starling" {
		nf = b.c.Feeds
	}
	for i := 0; i < nf; i++ {
		a.feeds = append(a.feeds, &bFeed{id: fmt.Sprintf("cat-%d-%d", len(b.accts), i)})
	}
	b.accts = append(b.accts, a)
}

func (b *fakeBank) acctJSON(a *bAcct) map[string]any {
	m := map[string]any{"description": fmt.Sprintf("Account <%d> & co", a.ver), "closed": a.ver%2 == 1, "owners": []any{map[string]any{"n": a.ver}}}
	switch b.c.Bank {
	case "monzo":
		m["id"] = a.id
	case "starling":
		m["accountUid"] = a.id
		m["defaultCategory"] = a.feeds[0].id
		m["createdAt"] = bankEpoch.AddDate(0, 0, -1).Format("2006-01-02T15:04:05.000Z")
	}
	return m
}

// Transactions lie around the time of the fake clock's start, so that the 89 days matter.
var bankEpoch time.Time // 152.5 days before bubbleBase

func (b *fakeBank) visible(f *bFeed, since string) ([]*bItem, bool) {
	items := append([]*bItem{}, f.items...)
	key := func(i *bItem) time.Time {
		if b.c.Bank == "starling" {
			return i.updated
		}
		return i.created
	}
	sort.SliceStable(items, func(x, y int) bool { return key(items[x]).Before(key(items[y])) })
	if since == "" {
		return items, true
	}
	t, err := time.Parse(time.RFC3339, since)
	if err != nil {
		for k, i := range items { // an identifier
			if i.id == since {
				return items[k+1:], true
			}
		}
		return nil, false
	}
	var out []*bItem
	for _, i := range items {
		if key(i).After(t) || key(i).Equal(t) && !b.c.Exclusive {
			out = append(out, i)
		}
	}
	return out, true
}

func (b *fakeBank) acct(id string) *bAcct {
	for _, a := range b.accts {
		if a.id == id {
			return a
		}
	}
	return nil
}

func (b *fakeBank) oldest() time.Time {
	return time.Now().AddDate(0, 0, -89).Add(-time.Minute)
}

// list makes a list of transactions as reply elements.
func (b *fakeBank) list(items []*bItem) []any {
	out := []any{}
	for _, i := range items {
		out = append(out, i.json(b.c.Bank, b.c.Zone))
	}
	return out
}

// answer gives the kind of a request, its account, and the reply.
func (b *fakeBank) answer(r *http.Request) (what string, acct int, status int, reply any) {
	q := r.URL.Query()
	p := strings.Trim(r.URL.Path, "/")
	idx := func(id string) int {
		for i, a := range b.accts {
			if a.id == id {
				return i
			}
		}
		return -1
	}
	seg := strings.Split(p, "/")
	host := r.URL.Host
	post := r.Method == "POST"
	tok, auth := strings.CutPrefix(r.Header.Get("Authorization"), "Bearer ")
	auth = auth && strings.HasPrefix(tok, "tok") && (b.valid == nil || b.valid[tok])
	form, _ := url.ParseQuery(b.body)
	// grant issues a new token
	grant := func() string {
		b.tokens++
		tok := fmt.Sprintf("tok-new-%d", b.tokens)
		if !b.faulty("token") {
			if b.valid != nil {
				b.valid[tok] = true
			}
			b.refresh = fmt.Sprintf("r-%d", b.tokens)
		}
		return tok
	}
	switch b.c.Bank {
	case "monzo":
		if host != "api.monzo.com" {
			break
		}
		switch {
		case p == "oauth2/token" && post:
			id, secret, _ := r.BasicAuth()
			if form.Get("grant_type") != "refresh_token" || form.Get("refresh_token") != b.refresh || form.Get("client_id")+id != "id" || form.Get("client_secret")+secret != "secret" {
				return "token", 0, 400, map[string]any{"code": "bad_request.invalid_refresh"}
			}
			tok := grant()
			return "token", 0, 200, map[string]any{"access_token": tok, "token_type": "Bearer", "refresh_token": b.refresh, "expires_in": 3600}
		case !auth:
			return "auth", 0, 401, map[string]any{}
		case p == "ping/whoami":
			return "whoami", 0, 200, map[string]any{"authenticated": true, "client_id": "c", "user_id": "u"}
		case p == "accounts":
			var l []any
			for _, a := range b.accts {
				l = append(l, b.acctJSON(a))
			}
			return "accounts", 0, 200, map[string]any{"accounts": l}
		case p == "transactions":
			a := b.acct(q.Get("account_id"))
			if a == nil {
				return "transactions", -1, 200, map[string]any{"transactions": []any{}}
			}
			since := q.Get("since")
			items, ok := b.visible(a.feeds[0], since)
			if !ok {
				return "transactions", idx(a.id), 400, map[string]any{}
			}
			if b.c.Limited {
				if t, err := time.Parse(time.RFC3339, since); since == "" || err == nil && t.Before(b.oldest()) {
					return "transactions", idx(a.id), 403, map[string]any{"code": "forbidden.verification_required"}
				}
			}
			limit := 100
			if n, err := strconv.Atoi(q.Get("limit")); err == nil && n < limit {
				limit = n
			}
			if len(items) > limit {
				items = items[:limit]
			}
			return "transactions", idx(a.id), 200, map[string]any{"transactions": b.list(items)}
		}
	case "starling":
		if host != "api.starlingbank.com" {
			break
		}
		switch {
		case !auth:
			return "auth", 0, 401, map[string]any{}
		case p == "api/v2/accounts":
			var l []any
			for _, a := range b.accts {
				l = append(l, b.acctJSON(a))
			}
			return "accounts", 0, 200, map[string]any{"accounts": l}
		case p == "api/v2/payees":
			return "payees", 0, 200, map[string]any{"payees": b.payees()}
		case len(seg) == 5 && seg[2] == "accounts" && seg[4] == "identifiers" && b.acct(seg[3]) != nil:
			return "identifiers", idx(seg[3]), 200, b.identifiers(b.acct(seg[3]))
		case len(seg) == 5 && seg[2] == "account" && seg[4] == "spaces" && b.acct(seg[3]) != nil:
			return "spaces", idx(seg[3]), 200, b.spaces(b.acct(seg[3]))
		case len(seg) == 7 && seg[2] == "feed" && seg[3] == "account" && seg[5] == "category" && b.acct(seg[4]) != nil:
			for _, f := range b.acct(seg[4]).feeds {
				if f.id == seg[6] {
					items, ok := b.visible(f, q.Get("changesSince"))
					if !ok || q.Get("changesSince") == "" {
						return "feed", idx(seg[4]), 400, map[string]any{}
					}
					return "feed", idx(seg[4]), 200, map[string]any{"feedItems": b.list(items)}
				}
			}
		}
	case "nordigen":
		if host != "ob.nordigen.com" {
			break
		}
		switch {
		case (p == "api/v2/token/new" || p == "api/v2/token/refresh") && post:
			if !(form.Get("secret_id") == "id" && form.Get("secret_key") == "secret") && !(seg[len(seg)-1] == "refresh" && form.Get("refresh") == b.refresh) {
				return "token", 0, 401, map[string]any{}
			}
			tok := grant()
			m := map[string]any{"access": tok, "access_expires": 86400, "refresh": b.refresh, "refresh_expires": 2592000}
			return "token", 0, 200, m
		case !auth:
			return "auth", 0, 401, map[string]any{}
		case p == "api/v2/requisitions/req-1":
			return "requisition", 0, 200, b.requisition()
		case len(seg) >= 4 && seg[2] == "accounts" && b.acct(seg[3]) != nil:
			a := b.acct(seg[3])
			switch strings.Join(seg[4:], "/") {
			case "":
				return "basic", idx(a.id), 200, b.identifiers(a)
			case "details":
				return "details", idx(a.id), 200, map[string]any{"account": b.acctJSON(a)}
			case "transactions":
				items, _ := b.visible(a.feeds[0], "")
				if b.c.Limited { // the bank only gives the last 89 days
					var in []*bItem
					for _, i := range items {
						if !i.created.Before(b.oldest()) {
							in = append(in, i)
						}
					}
					items = in
				}
				pend := []any{}
				if a.ver%2 == 0 {
					pend = b.list([]*bItem{{id: "pending-" + a.id, created: bankEpoch}})
				}
				return "transactions", idx(a.id), 200, map[string]any{"transactions": map[string]any{"booked": b.list(items), "pending": pend}}
			}
		}
	}
	b.bad = r.Method + " " + r.URL.String()
	return "?", 0, 404, map[string]any{}
}

func (b *fakeBank) payees() []any {
	l := []any{}
	for _, a := range b.accts {
		l = append(l, map[string]any{"payeeUid": "p" + a.id, "n": a.ver})
	}
	return l
}

func (b *fakeBank) identifiers(a *bAcct) any {
	return map[string]any{"iban": "GB" + a.id, "version": a.ver, "list": []any{nil, "x<y"}}
}

func (b *fakeBank) spaces(a *bAcct) any {
	goals, spend := []any{}, []any{}
	for i, f := range a.feeds[1:] {
		if f.closed {
			continue
		}
		if i%2 == 0 {
			goals = append(goals, map[string]any{"savingsGoalUid": f.id, "name": fmt.Sprintf("Goal %d/%d", i, a.ver), "target": nil})
		} else {
			spend = append(spend, map[string]any{"spaceUid": f.id, "name": fmt.Sprintf("Space %d/%d", i, a.ver), "x": 1.5})
		}
	}
	return map[string]any{"savingsGoals": goals, "spendingSpaces": spend}
}

func (b *fakeBank) requisition() map[string]any {
	var ids []any
	v := 0
	for _, a := range b.accts {
		ids = append(ids, a.id)
		v += a.ver
	}
	return map[string]any{"id": "req-1", "link": "https://x/y", "accounts": ids, "status": v}
}

type errBody struct{ r io.Reader }

func (e errBody) Read(p []byte) (int, error) {
	n, err := e.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset by peer")
	}
	return n, err
}

// faulty says whether the requests for tokens fail.
func (b *fakeBank) faulty(what string) bool { return b.fault != nil && b.fault.What == what }

func (b *fakeBank) RoundTrip(r *http.Request) (*http.Response, error) {
	b.reqs++
	if b.reqs > 400 {
		b.tooMany = true
		return nil, errors.New("too many requests")
	}
	if r.Body != nil {
		body, _ := io.ReadAll(r.Body)
		b.body = string(body)
		r.Body.Close()
	} else {
		b.body = ""
	}
	what, acct, status, reply := b.answer(r)
	body, err := json.Marshal(reply)
	if err != nil {
		harness("%v", err)
	}
	var rd io.Reader
	f := b.fault
	if f != nil && f.What == what && (what == "token" || acct < 0 || f.Acct%len(b.accts) == acct || what == "accounts" || what == "payees" || what == "whoami" || what == "requisition") {
		n := b.hits[what]
		b.hits[what]++
		if (n == f.Nth || what == "token") && status == 200 { // (the OAuth library asks for a token twice)
			b.fired, b.effect = true, true
			if f.Kind == "net" {
				return nil, errors.New("dial tcp: connection refused")
			}
			status, body, rd = b.damage(f, what, reply, body)
		}
	}
	if rd == nil {
		rd = bytes.NewReader(body)
	}
	return &http.Response{Status: strconv.Itoa(status), StatusCode: status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(rd), ContentLength: -1, Request: r}, nil
}

// damage gives the reply with the fault applied. Where a fault of the kind makes
// no sense for the request, the reply is cut short instead.
func (b *fakeBank) damage(f *BFault, what string, reply any, body []byte) (int, []byte, io.Reader) {
	cutAt := func() (int, []byte, io.Reader) {
		return 200, body[:f.Arg%len(body)], nil
	}
	listKey := map[string]string{"monzo/accounts": "accounts", "monzo/transactions": "transactions", "starling/accounts": "accounts", "starling/feed": "feedItems", "starling/spaces": "savingsGoals", "nordigen/transactions": "booked"}[b.c.Bank+"/"+what]
	idKey := map[string]string{"monzo/accounts": "id", "monzo/transactions": "id", "starling/accounts": "accountUid", "starling/feed": "feedItemUid", "starling/spaces": "savingsGoalUid", "nordigen/transactions": "transactionId"}[b.c.Bank+"/"+what]
	var m map[string]any
	json.Unmarshal(body, &m)
	if what == "transactions" && b.c.Bank == "nordigen" {
		m = m["transactions"].(map[string]any)
	}
	var list []any
	if listKey != "" {
		list, _ = m[listKey].([]any)
	}
	remake := func() (int, []byte, io.Reader) {
		var v any = m
		if what == "transactions" && b.c.Bank == "nordigen" {
			v = map[string]any{"transactions": m}
		}
		n, _ := json.Marshal(v)
		return 200, n, nil
	}
	typed := listKey != "" || what == "whoami" || what == "requisition" || what == "payees"
	switch f.Kind {
	case "500", "404", "401", "403", "429", "400", "204", "304":
		n, _ := strconv.Atoi(f.Kind)
		if n == 403 && b.c.Bank == "monzo" && what == "transactions" && f.Nth == 0 {
			n = 500 // the bank's way of saying that only recent transactions can be had
		}
		if n == 204 && what == "token" {
			n = 500 // any 2xx with a token in it is as good as another
		}
		return n, body, nil
	case "empty":
		return 200, nil, nil
	case "bodyerr":
		return 200, nil, errBody{bytes.NewReader(body[:f.Arg%(len(body)+1)])}
	case "html":
		return 200, []byte("<html><body>Maintenance</body></html>"), nil
	case "trailing":
		return 200, append(append([]byte{}, body...), []string{"}", " x", "{}", "\n<html>", ",", "]"}[f.Arg%6]...), nil
	case "type":
		if typed {
			return 200, []byte([]string{"[]", "7", "\"x\"", "true"}[f.Arg%4]), nil
		}
	case "null":
		if typed {
			return 200, []byte("null"), nil
		}
	case "string":
		if listKey != "" {
			m[listKey] = "x"
			return remake()
		}
		if what == "payees" {
			return 200, []byte(`{"payees":"x"}`), nil
		}
		if what == "whoami" {
			return 200, []byte(`{"authenticated":false}`), nil
		}
		if what == "requisition" {
			m["accounts"] = "x"
			return remake()
		}
	case "noid", "badid", "nullitem":
		if what == "requisition" {
			k := []string{"id", "link", "accounts"}[f.Arg%3]
			if f.Kind == "noid" {
				delete(m, k)
			} else {
				m[k] = 5
			}
			return remake()
		}
		if l, _ := m["spendingSpaces"].([]any); what == "spaces" && (len(list) == 0 || f.Arg%2 == 1) {
			list, idKey = l, "spaceUid"
		}
		if b.c.Bank == "starling" && what == "accounts" {
			idKey = []string{"accountUid", "defaultCategory", "createdAt"}[f.Arg/3%3]
		}
		if len(list) > 0 {
			i := f.Arg % len(list)
			switch f.Kind {
			case "noid":
				delete(list[i].(map[string]any), idKey)
			case "badid":
				list[i].(map[string]any)[idKey] = 12
			case "nullitem":
				list[i] = nil
			}
			return remake()
		}
	case "badtime":
		if len(list) > 0 && b.c.Bank == "monzo" && what == "transactions" {
			list[f.Arg%len(list)].(map[string]any)["created"] = []any{"", "yesterday", "2020-13-01T00:00:00Z", 5, nil}[f.Arg%5]
			return remake()
		}
		if len(list) > 0 && b.c.Bank == "starling" && what == "feed" {
			it, k := list[f.Arg%len(list)].(map[string]any), []string{"updatedAt", "transactionTime"}[f.Arg%2]
			switch f.Arg / 2 % 3 {
			case 0:
				delete(it, k)
			case 1:
				it[k] = 5
			default:
				it[k] = nil
			}
			return remake()
		}
	}
	return cutAt()
}

// ---- the state file -----------------------------------------------------------

func readState(file string) (any, bool, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, false, nil
		}
		return nil, false, err
	}
	if strings.HasSuffix(file, ".gz") {
		z, err := gzip.NewReader(bytes.NewReader(b))
		if err != nil {
			return nil, true, err
		}
		if b, err = io.ReadAll(z); err != nil {
			return nil, true, err
		}
	}
	var v any
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, true, err
	}
	return v, true, nil
}

func writeState(file string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		harness("%v", err)
	}
	if strings.HasSuffix(file, ".gz") {
		var o bytes.Buffer
		z := gzip.NewWriter(&o)
		z.Write(b)
		z.Close()
		b = o.Bytes()
	}
	os.MkdirAll(filepath.Dir(file), 0755)
	if err := os.WriteFile(file, b, 0644); err != nil {
		harness("%v", err)
	}
}

func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		harness("%v", err)
	}
	var o any
	json.Unmarshal(b, &o)
	return o
}

func obj(v any, keys ...string) map[string]any {
	for _, k := range keys {
		m, _ := v.(map[string]any)
		if m == nil {
			return nil
		}
		v = m[k]
		if v == nil { // Go field names match in any case
			for n, w := range m {
				if strings.EqualFold(n, k) {
					v = w
				}
			}
		}
	}
	m, _ := v.(map[string]any)
	return m
}

func field(m map[string]any, k string) any {
	for n, v := range m {
		if strings.EqualFold(n, k) {
			return v
		}
	}
	return nil
}

// feeds gives feed identifier -> transaction identifier -> content of a state.
func stateFeeds(bank string, st any) map[string]map[string]any {
	out := map[string]map[string]any{}
	switch bank {
	case "monzo":
		out[""] = obj(st, "transactions")
	case "starling":
		for id := range obj(st, "accounts") {
			for cat, v := range obj(st, "accounts", id, "feeditems") {
				m, _ := v.(map[string]any)
				out[id+"/"+cat] = m
			}
		}
	case "nordigen":
		for id := range obj(st, "accounts") {
			out[id] = obj(st, "accounts", id, "transactions")
		}
	}
	return out
}

func compareFeeds(got, want map[string]map[string]any) error {
	for f, m := range want {
		for id, v := range m {
			g, ok := got[f][id]
			if !ok {
				return viol("transaction %s of %q is not in the state file", id, f)
			}
			if !reflect.DeepEqual(g, norm(v)) {
				return viol("transaction %s of %q is %v in the state file, expected %v", id, f, g, v)
			}
		}
	}
	for f, m := range got {
		for id := range m {
			if _, ok := want[f][id]; !ok {
				return viol("the state file has a transaction %s in %q that the bank never gave", id, f)
			}
		}
	}
	return nil
}

func stripToken(v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	o := map[string]any{}
	for k, w := range m {
		if !strings.EqualFold(k, "token") {
			o[k] = w
		}
	}
	return o
}

func copyFeeds(m map[string]map[string]any) map[string]map[string]any {
	o := map[string]map[string]any{}
	for f, n := range m {
		o[f] = map[string]any{}
		for k, v := range n {
			o[f][k] = v
		}
	}
	return o
}

func (c *BankCase) initialState(b *fakeBank) any {
	exp := time.Now().AddDate(1, 0, 0).Format(time.RFC3339)
	old := map[string]any{}
	if c.Prior {
		for i := 0; i < 3; i++ {
			it := &bItem{id: fmt.Sprintf("old-%d", i), created: bankEpoch.AddDate(-1, 0, i), updated: bankEpoch.AddDate(-1, 0, i), body: i}
			old[it.id] = it.json(c.Bank, c.Zone)
		}
	}
	switch c.Bank {
	case "monzo":
		m := map[string]any{"token": map[string]any{"access_token": "tok", "token_type": "Bearer", "refresh_token": "r", "expiry": exp}}
		if c.Prior {
			m["transactions"] = old
		}
		return m
	case "starling":
		if !c.Prior {
			return nil
		}
		a := b.accts[0]
		return map[string]any{"accounts": map[string]any{a.id: map[string]any{"account": b.acctJSON(a), "spaces": b.spaces(a), "identifiers": nil, "feeditems": map[string]any{a.feeds[0].id: old}}}, "Payees": nil}
	}
	m := map[string]any{
		"Token":       map[string]any{"Access": "tok", "AccessExpires": exp, "Refresh": "r", "RefreshExpires": exp},
		"Institution": map[string]any{"id": "BANK", "name": "Bank"},
		"Requisition": b.requisition(),
	}
	if c.Prior {
		m["Accounts"] = map[string]any{b.accts[0].id: map[string]any{"Basic": nil, "Details": nil, "Transactions": old}}
	}
	return m
}

func (c *BankCase) sync(file string, all bool) (err error) {
	d := download.Download{}
	d.Monzo.ClientID, d.Monzo.ClientSecret = "id", "secret"
	d.Nordigen.ClientID, d.Nordigen.ClientSecret = "id", "secret"
	d.Starling.PersonalAccessToken = "tok-personal"
	root := &cobra.Command{Use: "x", SilenceUsage: true, SilenceErrors: true}
	root.SetOut(io.Discard)
	root.SetErr(io.Discard)
	download.Add(root, &d)
	a := []string{"download", c.Bank, file}
	if all && c.Bank == "starling" {
		a = append(a, "--alldata")
	}
	root.SetArgs(a)
	_, err = captureStdout(root.Execute)
	return err
}

func checkBank(c BankCase, x *Ctx) error {
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	return inBubble(func() error { return c.run(x) })
}

func (c *BankCase) run(x *Ctx) error {
	b := &fakeBank{c: c, valid: map[string]bool{"tok": true, "tok-personal": true}, refresh: "r"}
	http.DefaultTransport = b
	for i := 0; i < c.Accts; i++ {
		b.addAcct()
	}
	file := filepath.Join(x.Tmp(), c.File)
	if st := c.initialState(b); st != nil {
		writeState(file, st)
	}
	pst, _, err := readState(file)
	if err != nil {
		harness("%v", err)
	}
	known := stateFeeds(c.Bank, pst)
	var all []*bItem
	clock := bankEpoch
	feedOf := func(t BTrans) (*bAcct, *bFeed) {
		a := b.accts[t.Acct%len(b.accts)]
		return a, a.feeds[t.Feed%len(a.feeds)]
	}
	x.Label("%s", c.Bank)
	for n, s := range c.Steps {
		where := fmt.Sprintf("sync %d", n+1)
		if s.AddAcct {
			b.addAcct()
		}
		if s.Rename {
			b.accts[n%len(b.accts)].ver++
		}
		for _, t := range s.New {
			_, f := feedOf(t)
			if f.closed {
				continue
			}
			at := clock.Add(time.Duration(t.Wait) * time.Second)
			for i := 0; i < t.N; i++ {
				b.nextID++
				it := &bItem{id: fmt.Sprintf("tx-%d", b.nextID), created: at.Add(time.Duration(b.nextID%1000) * time.Millisecond), body: t.Body + i}
				it.updated = it.created
				f.items = append(f.items, it)
				all = append(all, it)
				clock = it.created.Truncate(time.Second)
				at = at.Add(time.Duration(t.Gap) * time.Second)
			}
		}
		if s.Late > 0 {
			if _, f := feedOf(BTrans{Acct: s.Late, Feed: s.Late / 3}); !f.closed {
				b.nextID++
				at := bankEpoch.Add(time.Duration(s.Late) * 11 * time.Hour)
				if at.After(clock) {
					at = bankEpoch
				}
				it := &bItem{id: fmt.Sprintf("tx-%d", b.nextID), created: at, updated: at, body: s.Late, late: true}
				f.items = append(f.items, it)
				all = append(all, it)
				x.Label("late entry")
			}
		}
		for _, u := range s.Update {
			if len(all) > 0 {
				it := all[u%len(all)]
				it.ver++
				it.late = false
				clock = clock.Add(time.Second)
				it.updated = clock
			}
		}
		if s.Close > 0 {
			for _, a := range b.accts {
				if s.Close < len(a.feeds) {
					a.feeds[s.Close].closed = true
				}
			}
		}
		if s.Expired {
			if st, ok, _ := readState(file); ok && c.Bank != "starling" {
				m := st.(map[string]any)
				past := time.Now().Add(-time.Hour).Format(time.RFC3339)
				for k, v := range m {
					if strings.EqualFold(k, "token") {
						tm := v.(map[string]any)
						for f := range tm {
							if strings.EqualFold(f, "expiry") || strings.EqualFold(f, "accessexpires") {
								tm[f] = past
							}
						}
						m[k] = tm
					}
				}
				writeState(file, m)
				b.valid = map[string]bool{}
				x.Label("expired token")
			}
		}
		before, _ := os.ReadFile(file)
		bst, _, _ := readState(file)

		b.fault, b.hits, b.fired, b.effect, b.reqs, b.tooMany, b.bad = s.Fault, map[string]int{}, false, false, 0, false, ""
		err := c.sync(file, s.All)
		if b.tooMany {
			return viol("%s: %s does not end: more than 400 requests (last error %v)\n%s", where, c.Bank, err, c.describe())
		}
		if b.bad != "" {
			return viol("%s: a request the bank does not know: %s (%v)", where, b.bad, err)
		}
		st, _, serr := readState(file)
		if b.fired {
			x.Label("fault %s", s.Fault.Kind)
			x.Label("fault at %s", s.Fault.What)
			x.NT()
			if err == nil {
				return viol("%s: the reply to %s (account %d, request %d) failed with %q, yet the sync reports success\n%s", where, s.Fault.What, s.Fault.Acct, s.Fault.Nth, s.Fault.Kind, c.describe())
			}
			after, _ := os.ReadFile(file)
			same := bytes.Equal(before, after)
			if !same && serr == nil && b.tokens > 0 {
				same = reflect.DeepEqual(stripToken(st), stripToken(normState(c.Bank, bst)))
			}
			if !same {
				return viol("%s: it failed (%v) but changed the state file from %s to %s\n%s", where, err, cut(string(before), 800), cut(string(after), 800), c.describe())
			}
			continue
		}
		if err != nil {
			return viol("%s: failed although the bank answered everything: %v\n%s", where, err, c.describe())
		}
		if serr != nil {
			return viol("%s: the state file cannot be read: %v", where, serr)
		}
		// what must be there: everything known plus everything the bank shows
		want := copyFeeds(known)
		total := 0
		for _, a := range b.accts {
			for _, f := range a.feeds {
				key := map[string]string{"monzo": "", "starling": a.id + "/" + f.id, "nordigen": a.id}[c.Bank]
				if want[key] == nil {
					want[key] = map[string]any{}
				}
				if f.closed && c.Bank == "starling" {
					continue
				}
				for _, i := range f.items {
					if c.Limited && c.Bank != "starling" && i.created.Before(b.oldest()) {
						continue
					}
					total++
					want[key][i.id] = i.json(c.Bank, c.Zone)
				}
				if len(f.items) > 100 {
					x.Label("more than a page")
				}
			}
		}
		got := stateFeeds(c.Bank, st)
		if c.Bank == "starling" && !s.All {
			// a sync of the recent changes need not see it
			for _, a := range b.accts {
				for _, f := range a.feeds {
					key := a.id + "/" + f.id
					for _, i := range f.items {
						if _, ok := got[key][i.id]; i.late && !ok && known[key][i.id] == nil {
							delete(want[key], i.id)
						}
					}
				}
			}
		}
		if c.Limited && c.Bank != "starling" {
			// at the edge of the 89 days either is right
			edge := map[string]bool{}
			for _, i := range all {
				if d := i.created.Sub(b.oldest()); d > -2*time.Minute && d < 2*time.Minute {
					edge[i.id] = true
				}
			}
			for f := range want {
				for id := range edge {
					if v, ok := got[f][id]; ok {
						want[f][id] = v
					} else {
						delete(want[f], id)
					}
				}
			}
		}
		if err := compareFeeds(got, want); err != nil {
			return viol("%s of %s: %v\n%s", where, c.Bank, err, c.describe())
		}
		known = want
		if total > 0 && n > 0 {
			x.NT()
		}
		if err := c.compareRest(b, st); err != nil {
			return viol("%s of %s: %v\n%s", where, c.Bank, err, c.describe())
		}
		// once more without changes
		b.fault, b.reqs = nil, 0
		if err := c.sync(file, s.All); err != nil {
			return viol("%s repeated: %v\n%s", where, err, c.describe())
		}
		st2, _, err := readState(file)
		if err != nil || !reflect.DeepEqual(stripToken(st), stripToken(st2)) {
			return viol("%s repeated without changes: the state file went from %v to %v (%v)\n%s", where, st, st2, err, c.describe())
		}
	}
	return nil
}

// normState is a state as the client writes it when it only renews the token.
func normState(bank string, st any) any {
	m, ok := st.(map[string]any)
	if !ok || bank != "monzo" {
		return st
	}
	o := map[string]any{}
	for k, v := range m {
		o[k] = v
	}
	for _, k := range []string{"transactions", "accounts"} {
		if _, ok := o[k]; !ok {
			o[k] = nil
		}
	}
	return o
}

// compareRest compares the account data.
func (c *BankCase) compareRest(b *fakeBank, st any) error {
	same := func(what string, got, want any) error {
		if !reflect.DeepEqual(got, norm(want)) {
			return viol("%s is %v in the state file, expected %v", what, got, norm(want))
		}
		return nil
	}
	var errs []error
	for _, a := range b.accts {
		g := obj(st, "accounts", a.id)
		if g == nil {
			return viol("account %s is not in the state file", a.id)
		}
		switch c.Bank {
		case "monzo":
			errs = append(errs, same("account "+a.id, g, b.acctJSON(a)))
		case "starling":
			errs = append(errs, same("account "+a.id, field(g, "account"), b.acctJSON(a)), same("identifiers of "+a.id, field(g, "identifiers"), b.identifiers(a)), same("spaces of "+a.id, field(g, "spaces"), b.spaces(a)))
		case "nordigen":
			errs = append(errs, same("basic of "+a.id, field(g, "basic"), b.identifiers(a)), same("details of "+a.id, field(g, "details"), map[string]any{"account": b.acctJSON(a)}))
		}
	}
	switch c.Bank {
	case "starling":
		m, _ := st.(map[string]any)
		errs = append(errs, same("payees", field(m, "payees"), b.payees()))
	case "nordigen":
		errs = append(errs, same("requisition", obj(st, "requisition"), b.requisition()), same("institution", obj(st, "institution"), map[string]any{"id": "BANK", "name": "Bank"}))
	}
	for _, e := range errs {
		if e != nil {
			return e
		}
	}
	return nil
}

func (c *BankCase) describe() string {
	b, _ := json.Marshal(c)
	return string(b)
}

var _ = url.Values{}

// DamagedCase damages the state file before a sync.
type DamagedCase struct {
	Bank string
	File string
	Cut  int
	Junk string
	Kind string
}

func genRawState(t *rapid.T) DamagedCase {
	return DamagedCase{Bank: pick(t, []string{"monzo", "starling", "nordigen"}, "bank"), File: pick(t, []string{"s.json", "s.json.gz"}, "file"), Cut: intn(t, 0, 3000, "cut"),
		Junk: pick(t, []string{"x", "{", "}", "[]", "\x00", "\"", "7"}, "junk"), Kind: pick(t, []string{"cut", "cut", "append", "type", "dir", "notgz"}, "kind")}
}

func checkRawState(c DamagedCase, x *Ctx) error {
	old := http.DefaultTransport
	defer func() { http.DefaultTransport = old }()
	return inBubble(func() error {
		bc := &BankCase{Bank: c.Bank, Accts: 1, Feeds: 2, File: c.File, Prior: true}
		b := &fakeBank{c: bc, hits: map[string]int{}}
		http.DefaultTransport = b
		b.addAcct()
		file := filepath.Join(x.Tmp(), c.File)
		st := bc.initialState(b)
		plain, _ := json.Marshal(st)
		writeState(file, st)
		raw, _ := os.ReadFile(file)
		switch c.Kind {
		case "cut":
			raw = raw[:c.Cut%len(raw)]
		case "append":
			plain = append(plain, c.Junk...)
			raw = plain
			if strings.HasSuffix(c.File, ".gz") {
				var o bytes.Buffer
				z := gzip.NewWriter(&o)
				z.Write(plain)
				z.Close()
				raw = o.Bytes()
			}
		case "type":
			raw = []byte("[1]")
		case "notgz":
			if strings.HasSuffix(c.File, ".gz") {
				raw = plain
			} else {
				raw = []byte("\x1f\x8b\x08")
			}
		case "dir":
			os.Remove(file)
			os.Mkdir(file, 0755)
			raw = nil
		}
		if c.Kind != "dir" {
			os.WriteFile(file, raw, 0644)
		}
		x.NT()
		x.Label("%s", c.Kind)
		err := bc.sync(file, false)
		if err == nil {
			return viol("a sync over a damaged state file (%s) reports success", c.Kind)
		}
		if c.Kind != "dir" {
			after, _ := os.ReadFile(file)
			if !bytes.Equal(raw, after) {
				return viol("a sync over a damaged state file (%s) failed (%v) but changed it", c.Kind, err)
			}
		}
		return nil
	})
}

func init() {
	register(&Prop{
		ID:     "C20",
		Bubble: true,
		Rule:   "histories of a simulated Monzo, Starling or Nordigen behind a fake HTTP transport and a fake clock: accounts and feeds appear, change and close, transactions are added (bursts around the page size, equal and close times, long gaps) and updated, tokens expire, late entries appear with old times, a request of a chosen kind fails (network, status, cut, wrong type, null, missing or wrong identifier, trailing data), then the download command runs; the state file is compared with a reference map after every sync, and every successful sync is repeated. Non-trivial = a fault that was hit, or a later sync with transactions",
		Assumptions: []string{
			"the bank gives a feed's transactions from the requested time on in order of time, Monzo at most 100 at a time and, without fresh authorisation, only those of the last 89 days (403 otherwise)",
			"the bank takes a transaction's identifier as well as a time to continue from",
			"a renewed token may be saved even if the sync then fails",
			"interactive first authorisation (browser, country and bank choice) is not exercised",
		},
		Facets: []*Facet{
			facet("history", 1500, 30000, genBank, checkBank),
			facet("damaged", 300, 3000, genRawState, checkRawState),
		},
	})
}
