package main

// Scenarios for the properties about rules and their language.

import (
	"fmt"
	"strings"
)

// patFiles are pattern files that most rule scenarios can use.
func patFiles() []FileEnt {
	return []FileEnt{
		{"pl1", "# patterns\n@example.com\n\nfred@\nmx.example.org\n198.51.100.0/24\n"},
		{"pl2", "<>\n  A@Sub.Example.com \n.example.org\n2001:db8::/32\n"},
		{"pl3", "# nothing here\n\n"},
	}
}

var patNames = []string{"pl1", "pl2", "pl3", "nofile"}

// general is a scenario of random rules and random conversations.
func (g *gen) general(rg *ruleGen, lo, hi, nsess int, o talkOpts) *Scenario {
	cfg := baseCfg()
	cfg.StdRules = g.chance(40)
	cfg.RFiles = []string{"rules"}
	sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"rules", rg.rules(lo, hi)})}
	for i := 0; i < nsess; i++ {
		if i > 0 && i%2 == 0 {
			sc.add(file("rules", rg.rules(lo, hi)))
		}
		o2 := o
		sc.add(g.talk(g.name(), o2)...)
	}
	return sc
}

func genC01(g *gen) []*Scenario {
	var out []*Scenario
	rg := &ruleGen{gen: g, files: patNames}
	for i := 0; i < g.n(60, 600); i++ {
		out = append(out, g.general(rg, 1, 6, 8, talkOpts{odd: 15}))
	}
	// phases: every action at every phase, with a condition known at once or
	// only later
	for i := 0; i < g.n(20, 100); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.RFiles = []string{"rules", "rules2"}
		if g.chance(50) {
			cfg.RFiles = []string{"rules"}
		}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", ""}, {"rules2", ""}, {"inc", "accept from jim@example.com\n"}}}
		for k := 0; k < 6; k++ {
			for _, f := range cfg.RFiles {
				var b strings.Builder
				for n := 0; n < 1+g.Intn(5); n++ {
					ph := g.pick("", "", "@helo ", "@from ", "@to ", "@data ", "@message ", "@connect ")
					conds := []string{"all", "ip 198.51.100.0/24", "not ip 203.0.113.9"}
					if ph == "" || phaseNo[strings.TrimSpace(ph)] >= 2 {
						conds = append(conds, "helo mx.example.org", "not helo .example.com")
					}
					if ph == "" || phaseNo[strings.TrimSpace(ph)] >= 3 {
						conds = append(conds, "from @example.com", "from a@", "not from <>", "tls off")
					}
					if ph == "" || phaseNo[strings.TrimSpace(ph)] >= 4 {
						conds = append(conds, "to @example.com", "to @.example.org", "not to fred@", "to a@ or to jim@")
					}
					if g.chance(10) {
						b.WriteString("include inc\n")
					}
					b.WriteString(ph + g.pick("accept", "reject", "stall", "accept", "stall") + " " + g.of(conds) + "\n")
				}
				sc.add(file(f, b.String()))
			}
			sc.add(g.talk(g.name(), talkOpts{odd: 5, helo: func() string { return g.pick("mx.example.org", "mx.example.com", "foo") },
				from: func() string { return g.pick("", g.plainAddr(), g.plainAddr()) }, to: g.plainAddr})...)
		}
		out = append(out, sc)
	}
	// a rule with a phase that hides a later one, there and nowhere else
	for ph, conds := range [][]string{{"all", "ip 198.51.100.0/24"}, {"helo mx.example.org", "all"}, {"from a@", "tls off", "not helo x.test"}, {"to b@", "from a@"}, {"to b@", "from a@", "all"}, {"all", "to b@", "ip 198.51.100.7"}} {
		at := []string{"@connect", "@helo", "@from", "@to", "@data", "@message"}
		cfg := baseCfg()
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", ""}}}
		for _, act := range []string{"reject", "stall"} {
			for _, first := range []string{at[ph] + " accept", at[ph] + " set-with"} {
				for _, later := range append([]string{""}, at[ph:]...) {
					f := first + " " + g.of(conds)
					if strings.HasSuffix(first, "set-with") {
						f += " with note set"
					}
					sc.add(file("rules", f+"\n"+strings.TrimSpace(later+" "+act+" "+g.of(conds))+"\n"))
					c := g.name()
					sc.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "mx.example.org"))
					sc.add(trans(c, "a@example.com", []string{"b@example.com", "c@example.com"}, msg(c, g.body()...))...)
					sc.add(quit(c))
				}
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C02: the language

var vocab = []string{"accept", "reject", "stall", "set-with", "@connect", "@helo", "@from", "@to", "@data", "@message", "all", "from", "to", "helo",
	"ehlo", "host", "ip", "source", "from-has", "to-has", "helo-has", "dns", "tls", "dnsbl", "dbl", "or", "not", "with", "message", "note", "savedir",
	"tls-opt", "make-yakker", "include", "on", "off", "any", "bad", "noat", "route", "quoted", "unqualified", "garbage", "none", "bogus", "nodots",
	"bareip", "nodns", "good", "exists", "a@example.com", "@example.com", "<>", "mx.example.org", "1.2.3.4", "198.51.100.0/24", "bl.test", "nodot",
	"(", ")", ",", ";", "\"quoted value\"", "\"\"", "file:pl1", "file:", "./pl1", "/DIR/pl2", "no-client", "\n", "\n", "\\\n", "#", "@junk", "Accept", "300.1.1.1/8"}

// noise changes the layout of a text without changing its meaning.
func (g *gen) noise(t string) string {
	var b strings.Builder
	inq := false
	for i := 0; i < len(t); i++ {
		c := t[i]
		if c == '\\' && inq && i+1 < len(t) {
			b.WriteByte(c)
			b.WriteByte(t[i+1])
			i++
			continue
		}
		if c == '"' {
			inq = !inq
		}
		if c == ' ' && !inq && g.chance(25) {
			b.WriteString(g.pick("  ", "\t", " \\\n ", " \t ", "\\\n", " "))
			if g.chance(50) {
				b.WriteByte(' ')
			}
			continue
		}
		if c == '\n' && !inq && g.chance(20) {
			b.WriteString(g.pick("\n\n", "\n# note; not a rule \"\n", "  \n", "\n   "))
			continue
		}
		b.WriteByte(c)
	}
	s := b.String()
	if g.chance(10) {
		s = strings.TrimRight(s, "\n")
	}
	return s
}

// mutate damages a text a little.
func (g *gen) mutate(t string) string {
	switch g.Intn(9) {
	case 0, 1, 2, 3: // words
		w := strings.Split(t, " ")
		i := g.Intn(len(w))
		switch g.Intn(5) {
		case 0:
			w = append(w[:i:i], w[i+1:]...)
		case 1:
			w = append(w[:i+1:i+1], w[i:]...)
		case 2:
			w[i] = g.of(vocab)
		case 3:
			w = append(append(w[:i:i], g.of(vocab)), w[i:]...)
		default:
			j := g.Intn(len(w))
			w[i], w[j] = w[j], w[i]
		}
		return strings.Join(w, " ")
	case 4: // a character less
		if len(t) > 1 {
			i := g.Intn(len(t))
			return t[:i] + t[i+1:]
		}
	case 5: // a character more
		i := g.Intn(len(t) + 1)
		return t[:i] + g.pick(",", ";", "(", ")", "\"", "\\", "\n", " ", "#", "x", "@", ", ", "\\\n", "\t") + t[i:]
	case 6: // cut
		return t[:g.Intn(len(t)+1)]
	case 7: // a line more
		return t + g.pick("junk\n", "accept\n", "reject all all with\n", "include nofile\n", "include pl1\n", "@from\n", "set-with all\n", ";\n", "reject all )\n",
			"reject to-has\n", "reject ( all\n", "stall tls\n", "reject dnsbl nodot\n", "reject ip not.an.ip\n", "accept from\n", "reject not\n",
			"@connect reject from a@b.c\n", "@helo reject to a@b.c\n", "@helo stall helo x or from y\n", "reject all with message a message b\n",
			"reject all with note \"a\nb\"\n", "reject all with tls-opt maybe\n", "reject helo-has noat\n", "reject from-has helo\n", "reject dns bad\n",
			"reject from-has bad,\n", "reject from-has bad, noat\n", "reject from-has bad ,noat\n", "reject all or\n", "reject or all\n", "set-with all with\n",
			"reject all with savedir\n", "reject dbl bl.test\n", "reject dbl tls bl.test\n", "include\n", "include a b\n", "include file1 ; all\n",
			"accept all;\n", "accept all; ; all\n", "accept all with make-yakker make-yakker\n", "accept file:x\n", "accept \"all\"\n", "reject from with\n", "reject from )\n", "reject from ( \n", "reject tls \"on\"\n")
	}
	return strings.Join(g.some(vocab, 1, 8), " ") + "\n"
}

// probes is a conversation whose answers show what rules mean.
func (g *gen) probes(c string) []Step {
	q := []Step{conn(c, g.of(ripDns)), cmd(c, "HELO", "nodots"), cmd(c, "EHLO", g.pick("mx.example.org", "mx.example.com", "[198.51.100.7]", "198.51.100.7"))}
	for k := 0; k < 2; k++ {
		for i := 0; i < 2; i++ {
			q = append(q, cmd(c, "MAIL", g.pick("", g.plainAddr(), g.plainAddr(), g.addr())))
		}
		for i := 0; i < 3; i++ {
			q = append(q, cmd(c, "RCPT", g.plainAddr()))
		}
		q = append(q, cmd(c, "DATA", ""), msg(c, g.body()...), cmd(c, "RSET", ""))
	}
	return append(q, quit(c))
}

func genC02(g *gen) []*Scenario {
	var out []*Scenario
	rg := &ruleGen{gen: g, files: patNames, withs: []string{"message", "note", "savedir", "make-yakker", "tls-opt"}}
	mk := func() *Scenario {
		cfg := baseCfg()
		cfg.StdRules = g.chance(30)
		cfg.RFiles = []string{"rules"}
		cfg.Dirs = []string{"spool", "spool2"}
		return &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"rules", "accept all\n"},
			FileEnt{"inc1", "reject from jim@\n"}, FileEnt{"inc2", "include inc1\nstall to @example.com\n"}, FileEnt{"incbad", "reject from jim@\nreject frm x\n"},
			FileEnt{"inc3", "reject from a@\n"})}
	}
	// what a file that is included is like, down to its last byte
	inc3 := func() Step {
		return file("inc3", g.pick("", "", "accept to jim@\n", "# a comment\n")+
			g.pick("include inc1", "include inc1 x", "include inc1 reject", "include inc2 ;", "include \"inc1\"", "include inc1 )", "reject from fred@", "reject from fred@ )", "reject from fred@;",
				"stall from fred@ with", "include", "include incbad", "include nosuch", "accept all with note \"open", "accept all with note x note", "reject from a@ or", "# only", "@from", "accept from jim@ \\")+
			g.pick("", "", "", "\n", " ", "\n\n", "\n ", "\\\n"))
	}
	text := func() string {
		var t string
		if g.chance(25) {
			t += "include " + g.pick("inc1", "inc2", "./inc1", "incbad", "/DIR/inc1", "missing", "inc3", "inc3", "inc3") + "\n"
		}
		t += rg.rules(1, 3)
		if g.chance(15) {
			t += "include " + g.pick("inc1", "inc2", "incbad") + "\n" + rg.rules(1, 1)
		}
		return t
	}
	for i := 0; i < g.n(50, 500); i++ {
		sc := mk()
		for k := 0; k < 8; k++ {
			t := text()
			switch {
			case k%4 == 0:
			case k%4 == 1:
				t = g.noise(t)
			default:
				for m := 0; m < 1+g.Intn(2); m++ {
					if t == "" {
						t = "\n"
					}
					t = g.mutate(t)
				}
			}
			if strings.Contains(t, "inc3") || g.chance(10) {
				sc.add(inc3())
			}
			sc.add(file("rules", t))
			sc.add(g.probes(g.name())...)
		}
		out = append(out, sc)
	}
	// quoted values, escapes and where things end
	for i := 0; i < g.n(20, 200); i++ {
		sc := mk()
		sc.Cfg.StdRules = false
		for k := 0; k < 8; k++ {
			q := func() string {
				s := ""
				for n := g.Intn(5); n > 0; n-- {
					s += g.pick("a", "b c", "\\\"", "\\\\", "x", " ", "#", ";", "\n", "with", "(", ",", "\\\"", "\\\\", "%", "file:", "\t")
				}
				if g.chance(8) {
					s += g.pick("\\n", "\\a", "\\ ", "\\")
				}
				return "\"" + s + "\""
			}
			word := func() string { return g.pick(q(), q(), q(), "w1", "w\\x", "w#y", "a\"b\"", q()+q(), "\\"+q(), "w\\\n") }
			t := ""
			if g.chance(30) {
				t += "include " + g.pick("inc3", "\"inc3\"", "inc1", "\"inc1\"") + g.pick("\n", "\n", " x\n", "\n\n")
			}
			switch g.Intn(5) {
			case 0:
				t += "@from reject from a@ with message " + word() + " note " + word() + "\n@from stall all with message " + word()
			case 1:
				t += "reject from " + q() + " or from a@ with message " + word() + "\n@to reject all with message " + word()
			case 2:
				t += "@from reject from jim@ with message " + word() + "; from a@ with message " + word() + " # not a comment\n@to stall to fred@ with message " + word() + " note x"
			case 3:
				t += "@from set-with all with message " + word() + "\n@from reject all with note " + word() + "\n"
			default:
				t += "@helo stall helo " + word() + " with message " + word() + "\n@from stall all with message " + word() + " message"
				if g.chance(80) {
					t = strings.TrimSuffix(t, " message")
				}
			}
			t += g.pick("\n", "\n", "", " ", "\n\n")
			sc.add(inc3(), file("rules", t))
			sc.add(g.probes(g.name())...)
		}
		out = append(out, sc)
	}
	// what each option and word may and may not be
	fixed := []string{
		"reject from a@ with note \"one line\"", "reject from a@ with note \"two\nlines\"", "reject from a@ with note \"\n\"", "reject from a@ with message \"two\nlines\"",
		"reject from a@ with message x note \"y\n\"", "reject from a@ with note \"y\nz\" message x", "@from set-with all with note \"y\nz\"\n@from reject from a@",
		"@connect set-with all with tls-opt off", "@connect set-with all with tls-opt no-client", "@connect set-with all with tls-opt on", "@connect set-with all with tls-opt \"\"",
		"@connect set-with all with tls-opt", "@connect set-with all with tls-opt OFF", "@from set-with all with tls-opt off", "reject from a@ with tls-opt off message m",
		"reject from a@ with make-yakker", "reject from a@ with make-yakker yes", "reject from a@ with make-yakker message m", "reject from a@ with savedir spool2", "reject from a@ with savedir",
		"reject from a@ with savedir \"\"", "reject from a@ with", "reject from a@ with bogus x", "reject from a@ with message", "reject from a@ with message m note n savedir spool2 make-yakker",
		"reject from a@ with message m\n\twith note n", "reject from a@\n\twith message m\n", "reject from a@ message m", "reject with message m", "set-with from a@", "set-with from a@ with message m",
		"set-with with message m", "@from with message m", "reject @from from a@", "@from @to reject from a@", "@from\n\treject from a@", "accept", "reject all all", "reject not", "reject not not from a@",
		"reject (from a@", "reject from a@)", "reject ()", "reject (from a@) or", "reject or from a@", "reject from a@ or or to b@", "reject not (from a@ or to c@)", "reject from (a@)",
		"reject from-has bad,route", "reject from-has bad,", "reject from-has ,bad", "reject from-has bad bad", "reject from-has nosuch", "reject dns good,exists", "reject dns bad", "reject tls on", "reject tls maybe",
		"reject tls on,off", "reject helo-has myip,remip", "reject helo-has my", "reject ip 203.0.113.9", "reject ip 203.0.113.0/24", "reject ip 203.0.113.0/33", "reject ip 203.0.113", "reject ip file:pats1", "reject ip file:nosuch",
		"reject dnsbl bl1.test", "reject dnsbl", "reject dnsbl bl1.test,bl2.test", "reject dbl", "reject host .example.net", "reject source x", "reject from", "reject from with message m", "reject from from a@",
		"@nosuch reject all", "@FROM reject all", "Reject all", "reject FROM a@", "reject all\r", "include", "include inc1 inc2", "include inc1 # ok", "# only\n\n  \n", "\\\nreject from a@", "\\\n# comment\nreject from a@", "  \\\n \\\n\t# comment\n\nreject from a@", "reject \\\n# from a@", "reject from a@ \\\n\nreject all", "reject from-has bad,\tnoat", "reject from-has noat,\\\nbad", "reject from-has noat\t,bad", "reject\tfrom\ta@", "\treject from a@\t", "reject from\ta@\\\n", "reject from a@ # comment \\\nreject all",
		"@connect set-with all with tls-opt off tls-opt off", "@connect set-with all with tls-opt off tls-opt no-client", "reject from a@ with note a note b", "reject from a@ with message a message b", "reject from a@ with savedir spool savedir spool2",
		"reject from a@ with make-yakker make-yakker", "reject from a@ with message a note b message a", "reject from a@ with message a; from c@ with message a", "reject from a@ with note a\nreject from c@ with note a",
		"@message reject to c@", "@from reject to c@", "@helo reject from a@", "@connect reject helo mx.example.com", "@helo reject dns good", "@connect reject tls on", "@data reject all", "@message reject all", "@connect reject all",
	}
	for len(fixed) > 0 {
		n := 12
		if len(fixed) < n {
			n = len(fixed)
		}
		sc := mk()
		sc.Cfg.StdRules = false
		for _, t := range fixed[:n] {
			sc.add(file("rules", t+"\n"))
			sc.add(g.probes(g.name())...)
		}
		fixed = fixed[n:]
		out = append(out, sc)
	}
	// refused at start-up too
	for i := 0; i < g.n(40, 400); i++ {
		sc := mk()
		t := text()
		if g.chance(70) {
			t = g.mutate(t)
		}
		for k := range sc.Files {
			if sc.Files[k].N == "rules" {
				sc.Files[k].T = t
			}
		}
		sc.add(g.probes(g.name())...)
		out = append(out, sc)
	}
	// precedence and structure, where every variant means something else
	frag := []string{"from a@", "to @example.com", "helo mx.example.org", "ip 198.51.100.7", "from @example.org", "to fred@"}
	for i := 0; i < g.n(15, 150); i++ {
		sc := mk()
		sc.Cfg.StdRules = false
		for k := 0; k < 6; k++ {
			f := g.some(frag, 4, 5)
			t := ""
			act := g.pick("@to reject ", "@to stall ", "@data reject ", "reject ", "accept ")
			switch g.Intn(6) {
			case 0:
				t = fmt.Sprintf("%s or %s %s or %s", f[0], f[1], f[2], f[3])
			case 1:
				t = fmt.Sprintf("not %s or %s %s", f[0], f[1], f[2])
			case 2:
				t = fmt.Sprintf("%s ( %s %s ) or %s", f[0], f[1], f[2], f[3])
			case 3:
				t = fmt.Sprintf("%s %s; %s not ( %s )", f[0], f[1], f[2], f[3])
			case 4:
				t = fmt.Sprintf("not not %s not (%s or not %s)", f[0], f[1], f[2])
			default:
				t = fmt.Sprintf("(((%s) or ((%s)))) (%s);\n not %s", f[0], f[1], f[2], f[3])
			}
			sc.add(file("rules", act+t+"\nstall to jim@\n"))
			c := g.name()
			sc.add(conn(c, g.pick("198.51.100.7", "203.0.113.9")), cmd(c, "EHLO", g.pick("mx.example.org", "other.example.org")))
			for n := 0; n < 4; n++ {
				sc.add(cmd(c, "MAIL", g.pick("a@example.com", "a@example.org", "fred@example.org", "b@example.net")))
				for m := 0; m < 2; m++ {
					sc.add(cmd(c, "RCPT", g.pick("fred@example.com", "jim@example.com", "fred@example.org", "z@example.org")))
				}
				sc.add(cmd(c, "DATA", ""), msg(c, g.body()...), cmd(c, "RSET", ""))
			}
			sc.add(quit(c))
		}
		out = append(out, sc)
	}
	return out
}

// ----- C03: null senders

func genC03(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(50, 500); i++ {
		rg := &ruleGen{gen: g, files: []string{"pl2"}, ops: []string{"from", "from", "all", "helo", "ip", "to", "from-has", "source"},
			phases: []string{"", "", "@from ", "@from ", "@to ", "@data "}, withs: []string{"message", "note", "savedir"}}
		cfg := baseCfg()
		cfg.StdRules = g.chance(50)
		cfg.RFiles = []string{"rules"}
		cfg.Dirs = []string{"spool", "spool2"}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"rules", "accept all\n"})}
		for k := 0; k < 5; k++ {
			t := rg.rules(0, 3)
			for n := 0; n < 1+g.Intn(2); n++ {
				t = g.pick("", "@from ") + g.pick("reject", "stall", "reject", "accept") + " " +
					g.pick("from <>", "from <>", "all", "from <> helo mx.example.com", "from file:pl2", "not from @", "not from a@example.com", "from <> or from @spam.test", "helo mx.example.com", "to jim@ ; from <>") +
					g.pick("", "", " with message deferred", " with message \"two\nlines\" note dn", " with note held", " with savedir spool2") + "\n" + t
			}
			sc.add(file("rules", t))
			sc.add(g.talk(g.name(), talkOpts{steps: 3, odd: 8, multiHelo: 20, helo: func() string { return g.pick("mx.example.com", "mx.example.org", "foo.example.com") },
				from: func() string { return g.pick("", "", "", "a@example.com", "jim@example.org", "x@spam.test") }, to: g.plainAddr})...)
		}
		out = append(out, sc)
	}
	return out
}

// ----- C04: options

func genC04(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(50, 500); i++ {
		rg := &ruleGen{gen: g, ops: []string{"all", "from", "to", "helo", "ip"},
			withs: []string{"message", "note", "savedir", "message", "note", "tls-opt", "savedir!"}}
		if g.chance(25) {
			rg.withs = append(rg.withs, "make-yakker")
		}
		cfg := baseCfg()
		cfg.StdRules = g.chance(30)
		cfg.RFiles = []string{"rules"}
		cfg.Dirs = []string{"spool", "spool2"}
		cfg.SmtpLog = g.chance(80)
		if g.chance(30) {
			cfg.SaveDir, cfg.Force = "", true
		}
		if g.chance(30) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"rules", "accept all\n"}, FileEnt{"empty", "# none\n"})}
		for k := 0; k < 6; k++ {
			t := ""
			for n := 0; n < 1+g.Intn(4); n++ {
				if g.chance(25) { // options of rules that refuse something, and nothing else
					t += g.pick("reject from fred@ with ", "stall from fred@ with ", "@from reject from jim@ with ", "@to reject to a@ with ", "@to stall to fred@ with ", "@helo stall helo mx.example.com with ",
						"@data stall from bob.smith@ with ", "@message reject from a@ with ", "reject to @example.org with ", "reject from <> with ") + rg.with() + "\n"
				} else if g.chance(12) { // rules with several clauses over what others set
					cl := func() string {
						return g.pick("from nosuch@", "from a@", "from file:none", "not from file:empty", "to file:none or to @", "to fred@", "to @", "from @example.com", "ip 198.51.100.0/24") + g.pick("", " with message m"+g.pick("1", "2", "3"), " with note n"+g.pick("1", "2", "3"), " with message mm note nn", " with savedir spool2")
					}
					t += "set-with all with message early note early\n" + g.pick("set-with ", "set-with ", "reject ", "stall ") + cl() + "; " + cl() + g.pick("", "; "+cl(), "; all with message last") + "\n"
				} else if g.chance(60) {
					ph := g.pick("", "", "@helo ", "@from ", "@to ", "@data ", "@message ", "@connect ")
					cond := g.pick("all", "ip 198.51.100.0/24")
					if p := phaseNo[strings.TrimSpace(ph)]; p == 0 || p >= 4 {
						cond = g.pick(cond, "from @example.com", "to @example.com", "to fred@", "from a@; to jim@ with note second", "from jim@ with message one note one; to @ with message two note two; all", "from a@ with note one; from @ with savedir spool2; from @")
					}
					t += ph + "set-with " + cond + " with " + rg.with() + "\n"
				} else {
					t += rg.rule() + "\n"
				}
			}
			sc.add(file("rules", t))
			sc.add(g.talk(g.name(), talkOpts{steps: 2 + g.Intn(2), rip: g.pick("198.51.100.7", "203.0.113.9", "203.0.113.200"), multiHelo: 10,
				helo: func() string { return g.pick("mx.example.org", "mx.example.com") }, from: func() string { return g.pick("", g.plainAddr(), g.plainAddr(), g.plainAddr()) }, to: g.plainAddr})...)
		}
		out = append(out, sc)
	}
	return out
}

// ----- C05, C06: rules files that change

var brokenTexts = []string{"rejct all\n", "accept all\nreject\n", "accept all with message \"open\n", "include nofile\n", "include bad1\n", "reject from a@example.com\n)\n", "stall from-has nosuch\n", "accept \x00\n"}

func genC05(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(50, 400); i++ {
		cfg := baseCfg()
		cfg.RFiles = g.some([]string{"rules", "rules2", "rules3"}, 1, 3)
		if g.chance(20) { // a file may be given twice
			cfg.RFiles = append(cfg.RFiles, cfg.RFiles[0])
		}
		cfg.RejectMsgs = g.chance(20)
		if g.chance(40) {
			cfg.FromReject = "pl1"
		}
		if g.chance(50) {
			cfg.DnCount = 1 + g.Intn(2)
			cfg.MinPhase = g.pick("helo", "from", "to", "data", "message", "accepted")
		}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"bad1", "nonsense here\n"}, FileEnt{"inc1", "reject from jim@example.com\n"})}
		for _, f := range []string{"rules", "rules2", "rules3"} {
			sc.Files = append(sc.Files, FileEnt{f, "reject from fred@example.com\n"})
		}
		good := func() string {
			return g.pick("", "accept all\n", "reject from a@example.com\n", "@connect reject ip 203.0.113.9\n", "stall to fred@example.com\n", "include inc1\n", "reject all\n", "@connect reject all\n")
		}
		for k := 0; k < 10; k++ {
			switch f := g.of(cfg.RFiles); g.Intn(5) {
			case 0, 1:
				sc.add(file(f, g.of(brokenTexts[:7])))
			case 2:
				sc.add(g.away(f))
			case 3:
				if g.chance(25) {
					sc.add(g.away("inc1"))
				}
				sc.add(file("inc1", g.pick("junk\n", "reject from jim@example.com\n", "accept from a@example.com\n")))
				sc.add(file(f, "include inc1\n"))
			default:
				for _, f := range cfg.RFiles {
					sc.add(file(f, good()))
				}
			}
			if g.chance(35) {
				for _, f := range cfg.RFiles {
					sc.add(file(f, good()))
				}
				sc.add(file("inc1", "reject from jim@example.com\n"))
			}
			sc.add(g.talk(g.name(), talkOpts{steps: 1, abortEnd: true, rip: g.pick("198.51.100.7", "203.0.113.9"), odd: 10,
				helo: func() string { return g.pick("mx.example.org", "") }, from: g.plainAddr, to: g.plainAddr})...)
			if g.chance(20) {
				sc.add(statsStep())
			}
		}
		out = append(out, sc)
	}
	return out
}

// interleave merges the steps of sessions, keeping the order in each.
func (g *gen) interleave(q ...[]Step) []Step {
	var r []Step
	for {
		var live []int
		for i := range q {
			if len(q[i]) > 0 {
				live = append(live, i)
			}
		}
		if len(live) == 0 {
			return r
		}
		i := live[g.Intn(len(live))]
		n := 1 + g.Intn(2)
		for ; n > 0 && len(q[i]) > 0; n-- {
			r = append(r, q[i][0])
			q[i] = q[i][1:]
		}
	}
}

func genC06(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(50, 500); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(60)
		cfg.RejectMsgs = g.chance(15)
		cfg.RFiles = []string{"rules", "rules2"}
		if g.chance(50) {
			cfg.RFiles = []string{"rules"}
		}
		if g.chance(30) {
			cfg.FromReject = "pl1"
		}
		if g.chance(30) {
			cfg.ToAccept = "pl4"
		}
		if g.chance(20) {
			cfg.HeloReject = "pl5"
		}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"lists/pl1", "fred@\njim@\n"}, FileEnt{"PL1", "@example.org\n"}, FileEnt{"pl4", "@example.com\n@example.org\n"}, FileEnt{"pl5", "bad.example.org\n"},
			FileEnt{"rules", "accept all\n"}, FileEnt{"rules2", "reject from jim@\n"}, FileEnt{"inc1", "stall from jim@\n"})}
		one := func() string {
			return g.pick("reject", "stall", "accept", "reject", "stall") + " " +
				g.pick("from @example.com", "from a@", "to fred@", "to @example.org", "from file:pl1", "to file:pl1", "from file:lists/pl1", "to ./lists/pl1", "to file:PL1", "helo file:pl2", "not from file:pl2", "from jim@ to fred@", "from @spam.test") +
				g.pick("", "", " with message "+g.pick("m1", "m2", "m3"))
		}
		change := func() []Step {
			switch g.Intn(6) {
			case 0:
				return []Step{file("pl1", g.pick("@example.com\n", "fred@\n", "a@\n@spam.test\n", "# none\n", "@example.org\n"))}
			case 1:
				return []Step{file("pl2", g.pick("a@sub.example.com\n", ".example.org\n", "mx.example.com\n@example.com\n"))}
			case 2:
				return []Step{g.away(g.pick("pl1", "pl2", "rules"))}
			case 3:
				return []Step{file("rules", g.of(brokenTexts[:7]))}
			case 4:
				return []Step{file("rules", "include inc1\n"+one()+"\n"), file("inc1", one()+"\n")}
			}
			t := ""
			for n := 0; n < 1+g.Intn(3); n++ {
				t += one() + "\n"
			}
			return []Step{file("rules", t)}
		}
		var adm []Step
		for n := 0; n < 7; n++ {
			adm = append(adm, change()...)
		}
		if i%4 == 3 { // lists that are empty or away for a time
			sc.add(file("rules", "reject from file:pl1 with message m1\nstall to file:pl2 with message m2\n"+one()+"\n"))
			adm = nil
			for _, f := range []string{"pl1", "pl2", "pl1", "pl2", "pl1", "pl2", "pl1", "pl2"} {
				switch g.Intn(4) {
				case 0:
					adm = append(adm, g.away(f))
				case 1:
					adm = append(adm, file(f, g.pick("", "# none\n", "\n \n", "#")))
				default:
					adm = append(adm, file(f, g.pick("@example.com\n@example.org\n@spam.test\n", "fred@\na@\njim@\n", "@example.com")))
				}
			}
			for _, f := range []string{"pl1", "pl2"} {
				if g.chance(70) {
					sc.add([]Step{g.away(f), file(f, g.pick("", "# none\n", "\n \n"))}[g.Intn(2)])
				}
			}
		}
		qs := [][]Step{adm}
		for n := 0; n < 4; n++ {
			qs = append(qs, g.talk(g.name(), talkOpts{steps: 2, odd: 3, helo: func() string { return g.pick("mx.example.org", "mx.example.com", "bad.example.org") }, from: g.plainAddr, to: g.plainAddr,
				rip: g.of(ripDns)}))
		}
		sc.add(g.interleave(qs...)...)
		// afterwards everything is as the files then say
		sc.add(g.talk(g.name(), talkOpts{steps: 2, from: g.plainAddr, to: g.plainAddr})...)
		out = append(out, sc)
	}
	return out
}

// sess is the model of one client's conversations.
var sess = []model{{name: "McSession", cfg: "McSession", thor: true, limit: 900, limitT: 20000, chain: 12}}

func init() {
	props["C01"] = &prop{aspects: "code,drop", gen: genC01, models: append([]model{{name: "McPhase", cfg: "McPhase", thor: true, limit: 28, limitT: 200}}, sess...)}
	props["C02"] = &prop{aspects: "code,drop,startup,text", gen: genC02, models: []model{{name: "McPhase", cfg: "McPhase", thor: true, limit: 28, limitT: 200}, {name: "McLang", cfg: "McLang_or", limit: 100, limitT: 100}, {name: "McLang", cfg: "McLang_expr", thor: true, limit: 24, limitT: 100}, {name: "McLang", cfg: "McLang_with", limit: 24, limitT: 400}}}
	props["C03"] = &prop{aspects: "code,text,bang", gen: genC03, models: sess}
	props["C04"] = &prop{aspects: "text,bang,save,tls,slow,code", gen: genC04, models: sess}
	props["C05"] = &prop{aspects: "code,drop,slow,logged,stats,startup", gen: genC05, models: reloadM}
	props["C06"] = &prop{aspects: "code,text,drop", gen: genC06, models: reloadM}
}
