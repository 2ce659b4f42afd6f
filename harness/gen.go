package main

// Generating scenarios: common parts.

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"sort"
	"strings"
)

type gen struct {
	*rand.Rand
	id  string
	cnt int
}

func newGen(id string) *gen {
	h := fnv.New64a()
	h.Write([]byte(id))
	return &gen{Rand: rand.New(rand.NewSource(seed*1000003 + int64(h.Sum64()>>1))), id: id}
}

func (g *gen) pick(q ...string) string { return q[g.Intn(len(q))] }
func (g *gen) chance(pct int) bool     { return g.Intn(100) < pct }
func (g *gen) of(q []string) string    { return q[g.Intn(len(q))] }

// some is a random selection of between lo and hi elements, in random order.
func (g *gen) some(q []string, lo, hi int) []string {
	if hi > len(q) {
		hi = len(q)
	}
	n := lo + g.Intn(hi-lo+1)
	p := g.Perm(len(q))
	var r []string
	for _, i := range p[:n] {
		r = append(r, q[i])
	}
	return r
}

// n is q in the quick tier and t in the thorough one.
func (g *gen) n(q, t int) int {
	if thorough() {
		return t
	}
	if m := more[g.id]; m > 0 {
		return q * m
	}
	return q
}

// more: the quick checks of these properties have time for so many times as many
// scenarios.
var more = map[string]int{"C03": 3, "C04": 3, "C05": 4, "C06": 4, "C07": 3, "C08": 4, "C09": 5, "C10": 4, "C11": 5, "C12": 5, "C13": 4, "C14": 4, "C15": 3,
	"C16": 4, "C17": 3, "C18": 3, "C19": 3, "C20": 3, "C21": 2, "C22": 2, "C23": 3, "C24": 3, "C25": 3, "C26": 2, "C28": 3, "C29": 2, "C30": 2, "C31": 3}

// name is a fresh session name.
func (g *gen) name() string {
	g.cnt++
	return fmt.Sprintf("s%d", g.cnt)
}

func conn(c, rip string) Step        { return Step{Ev: "conn", C: c, Rip: rip} }
func cmd(c, verb, arg string) Step   { return Step{Ev: "cmd", C: c, Verb: verb, Arg: arg} }
func raw(c, line string) Step        { return Step{Ev: "cmd", C: c, Line: line} }
func msg(c string, b ...string) Step { return Step{Ev: "msg", C: c, Body: b} }
func quit(c string) Step             { return cmd(c, "QUIT", "") }
func abort(c string) Step            { return Step{Ev: "abort", C: c} }
func file(p, t string) Step          { return Step{Ev: "file", Path: p, Text: t} }
func gone(p string) Step             { return Step{Ev: "file", Path: p, Gone: true} }

// unreadable puts a directory in the place of a file.
func unreadable(p string) Step { return Step{Ev: "file", Path: p, Gone: true, Junk: "dir"} }
func (g *gen) away(p string) Step {
	if g.chance(35) {
		return unreadable(p)
	}
	return gone(p)
}

func clock(n int) Step { return Step{Ev: "clock", Now: n} }
func statsStep() Step  { return Step{Ev: "stats"} }

func (sc *Scenario) add(st ...Step) { sc.Steps = append(sc.Steps, st...) }

// ----- pools

var ripPool = []string{"198.51.100.7", "198.51.100.8", "203.0.113.9", "203.0.113.200", "2001:db8::7", "2001:db8:1::25", "10.1.2.3", "192.0.2.77"}
var ripDns = []string{"198.51.100.7", "198.51.100.8", "203.0.113.9", "2001:db8::7"}

var domPool = []string{"example.com", "sub.example.com", "Example.COM", "notexample.com", "example.org", "mail.example.org",
	"a.b.example.org", "com", "localhost", "spam.test", "x.spam.test", "nodns.test"}
var localPool = []string{"a", "fred", "Fred", "postmaster", "bob.smith", "x+y", "\"q q\"", "jim"}
var oddAddrs = []string{"noat", "a@unqual", "@route:u@example.com", "@example.com", "a@", "@", "a@b@example.com", "<a@example.com",
	"a@example.com>", "a@[192.0.2.1]", "a@example.com.", "a@exa..mple.com", "a@@example.com", "\"q q\"@example.com", "a\"b@example.com",
	"a..b@example.com", "a@.example.com", "a@example.com\"", "@a.com,@b.com:c@d.com", "a@sub_x.example.com", "Postmaster", "a@-x.example.com",
	"@@x.com", "a@com", "..@x.org", "\"", "\"\"", ">"}

func (g *gen) addr() string {
	if g.chance(12) {
		return g.of(oddAddrs)
	}
	return g.of(localPool) + "@" + g.of(domPool)
}

func (g *gen) plainAddr() string {
	return g.pick("a", "fred", "Fred", "jim", "bob.smith") + "@" + g.pick("example.com", "sub.example.com", "example.org", "a.b.example.org", "Example.COM", "spam.test")
}

var heloPool = []string{"mx.example.com", "MX.Example.com", "mx.example.org", "example.com", "localhost", "nodots", "sub.mx.example.org", "spam.test",
	"[198.51.100.7]", "198.51.100.7", "[192.0.2.25]", "192.0.2.25", "[10.0.0.1]", "10.0.0.1", "mx.example.org.", "a:b", ".", ""}

func (g *gen) helo() string { return g.of(heloPool) }

// addrPat is a pattern that may well match one of the addresses.
func (g *gen) addrPat() string {
	switch g.Intn(9) {
	case 0:
		return "<>"
	case 1:
		return "@"
	case 2:
		return strings.ToLower(g.pick("a", "fred", "postmaster", "jim")) + "@"
	case 3, 4:
		return "@" + g.pick("example.com", "EXAMPLE.com", "sub.example.com", "example.org", "spam.test", "com")
	case 5:
		return "@." + g.pick("example.com", "example.org", "com", "test", "spam.test")
	default:
		return g.plainAddr()
	}
}

func (g *gen) hostPat() string {
	switch g.Intn(5) {
	case 0, 1:
		return "." + g.pick("example.com", "example.org", "org", "test", "Example.COM")
	case 2:
		return g.pick("mx.example.org.", ".example.org.", "localhost", ".mx.example.org")
	default:
		return g.pick("mx.example.com", "mx.example.org", "example.com", "spam.test", "nodots", "MX.example.com")
	}
}

func (g *gen) ipPat() string {
	return g.pick("198.51.100.7", "198.51.100.0/24", "198.51.100.8/31", "203.0.113.0/25", "203.0.113.128/25", "0.0.0.0/0", "2001:db8::/32",
		"2001:db8::7", "2001:DB8:0:0::7", "2001:db8:1::/48", "::/0", "10.0.0.0/8", "192.0.2.77/32")
}

// The zone most scenarios use.
func stdZone() Zone {
	return Zone{
		Names: []NameEnt{
			{N: "mx.example.org.", A: []string{"198.51.100.7"}},
			{N: "mx2.example.org.", A: []string{"198.51.100.99"}},
			{N: "client.example.com.", A: []string{"198.51.100.8", "203.0.113.9"}},
			{N: "v6.example.com.", A: []string{"2001:db8::7"}},
			{N: "example.com.", A: []string{"203.0.113.80"}, Mx: []MX{{10, "mx.example.org."}}},
			{N: "sub.example.com.", A: []string{"203.0.113.81"}},
			{N: "example.org.", A: []string{}, Mx: []MX{{10, "nowhere.example.org."}, {20, "mx.example.org."}}},
			{N: "spam.test.", A: []string{"10.9.9.9"}},
			{N: "a.b.example.org.", MxSt: "fail"},
			{N: "notexample.com.", A: []string{}, Mx: []MX{{0, "."}}},
			{N: "7.100.51.198.bl.test.", A: []string{"127.0.0.2"}},
			{N: "9.113.0.203.bl2.test.", A: []string{"127.0.0.3", "127.0.0.4"}},
			{N: "spam.test.dbl.test.", A: []string{"127.0.1.2"}},
			{N: "mx.example.org.dbl.test.", A: []string{"127.0.1.2"}},
			{N: "example.com.dbl.test.", A: []string{"127.0.1.2"}},
		},
		Ptr: []PtrEnt{
			{"198.51.100.7", []string{"mx.example.org."}},
			{"198.51.100.8", []string{"client.example.com.", "mx2.example.org.", "gone.example.com."}},
			{"203.0.113.9", []string{"client.example.com."}},
			{"2001:db8::7", []string{"v6.example.com."}},
			{"203.0.113.200", []string{"gone.example.com."}},
		},
	}
}

// ----- rules

var addrAttrWords = []string{"unqualified", "route", "quoted", "noat", "garbage", "resolves", "baddom", "unknown", "bad"}
var heloAttrWords = []string{"helo", "ehlo", "none", "bogus", "nodots", "bareip", "properip", "myip", "remip", "otherip", "ip"}
var dnsAttrWords = []string{"nodns", "inconsistent", "noforward", "good", "exists"}

// ruleGen makes rules from parts that can be switched.
type ruleGen struct {
	*gen
	files   []string // pattern files to use
	ops     []string // operators to use
	maxPh   int
	noWiths bool
	withs   []string // options to use
	phases  []string
}

func (r *ruleGen) opts(q []string) string { return strings.Join(r.some(q, 1, 3), ",") }

func (r *ruleGen) arg(pat func() string) string {
	if len(r.files) > 0 && r.chance(20) {
		f := r.of(r.files)
		return r.pick("file:"+f, "./"+f, "file:./"+f)
	}
	p := pat()
	if r.chance(15) {
		p = strings.ToUpper(p)
	}
	if strings.ContainsAny(p, "\" ();,") || p == "" || r.chance(10) {
		return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(p) + "\""
	}
	return p
}

func (r *ruleGen) op() string {
	ops := r.ops
	if ops == nil {
		ops = []string{"all", "from", "from", "to", "to", "helo", "host", "ip", "source", "from-has", "to-has", "helo-has", "dns", "tls", "dnsbl", "dbl"}
	}
	o := r.of(ops)
	switch o {
	case "from", "to":
		return o + " " + r.arg(r.addrPat)
	case "helo", "host", "source":
		if o == "helo" && r.chance(20) {
			o = "ehlo"
		}
		return o + " " + r.arg(r.hostPat)
	case "ip":
		if len(r.files) > 0 && r.chance(15) {
			return "ip file:" + r.of(r.files)
		}
		return "ip " + r.ipPat()
	case "from-has", "to-has":
		return o + " " + r.opts(addrAttrWords)
	case "helo-has":
		return o + " " + r.opts(heloAttrWords)
	case "dns":
		return o + " " + r.opts(dnsAttrWords)
	case "tls":
		return o + " " + r.pick("on", "off")
	case "dnsbl":
		return o + " " + r.pick("bl.test", "bl2.test.", "bl3.test")
	case "dbl":
		return o + " " + r.pick("host", "ehlo", "helo", "from", "any", "host,from", "ehlo,from") + " " + r.pick("dbl.test", "dbl2.test.")
	}
	return o
}

func (r *ruleGen) term(d int) string {
	switch {
	case d > 0 && r.chance(18):
		return "not " + r.term(d-1)
	case d > 0 && r.chance(15):
		return "(" + r.andl(d-1) + ")"
	}
	return r.op()
}

func (r *ruleGen) orl(d int) string {
	s := r.term(d)
	for r.chance(22) {
		s += " or " + r.term(d)
	}
	return s
}

func (r *ruleGen) andl(d int) string {
	s := r.orl(d)
	for r.chance(28) {
		s += " " + r.orl(d)
	}
	return s
}

func (r *ruleGen) with() string {
	ws := r.withs
	if ws == nil {
		ws = []string{"message", "note"}
	}
	var q []string
	for _, w := range r.some(ws, 1, 2) {
		switch w {
		case "message":
			q = append(q, "message "+r.pick("no", "\"go away\"", "\"line one\nline two\"", "\"100% certain %s\"", "\"\\\"quoted\\\" \\\\ back\"", "m"+fmt.Sprint(r.Intn(9))))
		case "note":
			q = append(q, "note "+r.pick("n1", "n2", "\"a note\"", "\"50% of %d\"", "n"+fmt.Sprint(r.Intn(9))))
		case "savedir":
			q = append(q, "savedir "+r.pick("spool", "spool2"))
		case "savedir!":
			q = append(q, "savedir "+r.pick("spool2", "nodir"))
		case "tls-opt":
			q = append(q, "tls-opt "+r.pick("off", "no-client"))
		default:
			q = append(q, w)
		}
	}
	return strings.Join(q, " ")
}

func (r *ruleGen) rule() string {
	phs := r.phases
	if phs == nil {
		phs = []string{"", "", "", "", "@connect ", "@helo ", "@from ", "@to ", "@data ", "@message "}
	}
	for {
		ph := r.of(phs)
		act := r.pick("accept", "reject", "reject", "stall", "stall", "set-with")
		if r.noWiths && act == "set-with" {
			act = "stall"
		}
		n := 1
		for r.chance(15) {
			n++
		}
		var cl []string
		for i := 0; i < n; i++ {
			s := r.andl(2)
			if !r.noWiths && (act == "set-with" || r.chance(30)) {
				s += " with " + r.with()
			}
			cl = append(cl, s)
		}
		t := ph + act + " " + strings.Join(cl, r.pick("; ", ";\n  ", " ; "))
		// keep to rules that the language allows: the phase must not be too early
		if ph != "" && phaseNo[strings.TrimSpace(ph)] < needOf(t) {
			continue
		}
		return t
	}
}

var phaseNo = map[string]int{"@connect": 1, "@helo": 2, "@from": 3, "@to": 4, "@data": 5, "@message": 6}

// needOf is a rough lower bound for the phase a rule needs; being wrong only
// makes a rules file ill-formed, which the specification knows about.
func needOf(t string) int {
	n := 0
	up := func(k int) {
		if k > n {
			n = k
		}
	}
	for _, w := range strings.FieldsFunc(t, func(c rune) bool { return strings.ContainsRune(" ();\n", c) }) {
		switch w {
		case "helo", "ehlo", "helo-has":
			up(2)
		case "from", "from-has", "source", "tls":
			up(3)
		case "to", "to-has":
			up(4)
		}
		if strings.Contains(w, "from") || w == "any" {
			up(3)
		}
		if strings.Contains(w, "lo,") || strings.Contains(w, ",ehlo") || strings.Contains(w, ",helo") {
			up(2)
		}
	}
	return n
}

func (r *ruleGen) rules(lo, hi int) string {
	var b strings.Builder
	n := lo + r.Intn(hi-lo+1)
	for i := 0; i < n; i++ {
		if r.chance(10) {
			b.WriteString("# a comment\n\n")
		}
		b.WriteString(r.rule() + "\n")
	}
	return b.String()
}

// ----- conversations

// body is a message that is not the same as others.
func (g *gen) body() []string {
	g.cnt++
	q := []string{fmt.Sprintf("Subject: m%d", g.cnt), "", g.pick("hello", "line", ".dot line", "") + fmt.Sprint(g.Intn(1000))}
	if g.chance(20) {
		q = append(q, "", "..", "trailing  ")
	}
	if g.chance(10) {
		q = []string{"no header at all " + fmt.Sprint(g.cnt), "x"}
	}
	if g.chance(12) {
		n := fmt.Sprint(g.cnt)
		q = [][]string{{"", "an empty first line " + n}, {"", "Subject: late " + n, "", "x"}, {"Subject: only headers " + n}, {"Subject: headers " + n, ""}, {"one-line-" + n}, {"", "", n}, {" begins with a space " + n, "", "x"},
			{"From x Mon Jan 1 00:00:00 2020", "Subject: " + n, "", "x"}, {"X: " + n, "Received: from a", "\tby b", "", "x"}, {".", "Subject: " + n, "", "."}}[g.Intn(10)]
	}
	return q
}

// talkOpts says what happens in a random conversation.
type talkOpts struct {
	rip, lip   string
	from, to   func() string
	helo       func() string
	steps      int
	odd        int // percentage of out-of-order commands
	noMsg      bool
	noEnd      bool
	tls        int // percentage
	abortEnd   bool
	multiHelo  int
	transPct   int // percentage of complete transactions
	moreRcpts  int
	plantFault func() Step
}

// talk is a random conversation of session c: mostly in order.
func (g *gen) talk(c string, o talkOpts) []Step {
	if o.from == nil {
		o.from = func() string {
			if g.chance(15) {
				return ""
			}
			return g.addr()
		}
	}
	if o.to == nil {
		o.to = func() string {
			a := g.addr()
			for strings.HasPrefix(a, "<") || a == ">" {
				a = g.addr()
			}
			return a
		}
	}
	if o.helo == nil {
		o.helo = g.helo
	}
	if o.rip == "" {
		o.rip = g.of(ripPool)
	}
	q := []Step{{Ev: "conn", C: c, Rip: o.rip, Lip: o.lip}}
	hello := func() {
		q = append(q, cmd(c, g.pick("EHLO", "EHLO", "HELO"), o.helo()))
	}
	hello()
	if g.chance(30 + o.multiHelo) {
		hello()
	}
	if o.tls > 0 && g.chance(o.tls) {
		q = append(q, Step{Ev: "starttls", C: c, Works: true}, cmd(c, "EHLO", o.helo()))
	}
	n := o.steps
	if n == 0 {
		n = 1 + g.Intn(3)
	}
	for i := 0; i < n; i++ {
		for k := 0; k < 1+g.Intn(2); k++ {
			q = append(q, cmd(c, "MAIL", o.from()))
		}
		for k := 0; k < 1+g.Intn(3+o.moreRcpts); k++ {
			q = append(q, cmd(c, "RCPT", o.to()))
		}
		if g.chance(o.odd) {
			q = append(q, g.oddCmd(c, o))
		}
		if !o.noMsg && g.chance(75) {
			q = append(q, cmd(c, "DATA", ""), msg(c, g.body()...))
		}
		if g.chance(30) {
			q = append(q, cmd(c, "RSET", ""))
		}
		if g.chance(10 + o.multiHelo) {
			hello()
		}
	}
	if o.noEnd {
		return q
	}
	if o.abortEnd && g.chance(50) {
		return append(q, abort(c))
	}
	return append(q, quit(c))
}

func (g *gen) oddCmd(c string, o talkOpts) Step {
	switch g.Intn(10) {
	case 0:
		return cmd(c, "NOOP", "")
	case 1:
		return cmd(c, "RSET", "")
	case 2:
		return cmd(c, "DATA", "")
	case 3:
		return cmd(c, "BAD", "x")
	case 4:
		return cmd(c, "MAIL", o.from())
	case 5:
		return raw(c, "RCPT TO:<>")
	case 6:
		return raw(c, "MAIL FROM: nobrackets@example.com")
	case 7:
		return raw(c, g.pick("HELP", "VRFY root", "EXPN x", "DATA now", "mail from:<a@example.com> SIZE=100"))
	case 8:
		return cmd(c, "RCPT", o.to())
	}
	return cmd(c, "EHLO", o.helo())
}

func sortMoves(q [][]int) {
	sort.Slice(q, func(i, j int) bool {
		a, b := q[i], q[j]
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
}

func sortedVals(m map[string]string) []string {
	var q []string
	for _, v := range m {
		q = append(q, v)
	}
	sort.Strings(q)
	return q
}
