package main

// Scenarios for saving, logging, do-nothing clients, TLS, per-connection
// configuration, simultaneous sessions, counters, options and crashes (C17-C31).

import (
	"fmt"
	"strings"
)

// trans is a whole transaction; it may come to nothing.
func trans(c, from string, to []string, m Step) []Step {
	q := []Step{cmd(c, "MAIL", from)}
	for _, a := range to {
		q = append(q, cmd(c, "RCPT", a))
	}
	m.C = c
	return append(q, cmd(c, "DATA", ""), m)
}

// nextTrans makes room for another transaction.
func nextTrans(c string) Step { return cmd(c, "RSET", "") }

var eightBit = []string{"8-bit: \xe9\xff\x80", "tab\there", "  leading", "trailing   ", "From the start", ".", "..", ". .", "ctl \x01\x02\x7f", "utf-8 \u20ac", "hash 0000 bytes 7", "body", "to <x@y.z>"}

// richBody is a message with a variety of contents and of sizes.
func (g *gen) richBody() []string {
	g.cnt++
	q := []string{fmt.Sprintf("Subject: r%d-%d", g.cnt, g.Intn(1000)), fmt.Sprintf("X-%d: y", g.Intn(9)), ""}
	if g.chance(15) {
		q = []string{fmt.Sprintf("not a header %d", g.cnt)}
	}
	q = append(q, g.some(eightBit, 0, 6)...)
	switch g.Intn(6) {
	case 0:
		for i := 0; i < 30+g.Intn(200); i++ {
			q = append(q, strings.Repeat(string(rune('a'+i%26)), g.Intn(130)))
		}
	case 1: // around the sizes of buffers
		q = append(q, strings.Repeat("x", g.pick2(4000, 4200)))
	case 2:
		q = append(q, "", "", "")
	case 3:
		if g.chance(30) {
			for i := 0; i < 900; i++ {
				q = append(q, strings.Repeat("0123456789", 10))
			}
		}
	}
	return q
}

func (g *gen) pick2(lo, hi int) int { return lo + g.Intn(hi-lo+1) }

var faultOps = []string{"open", "write", "write", "write", "sync", "close", "link"}
var faultErrs = []string{"ENOSPC", "EIO", "EDQUOT", "EACCES"}

func (g *gen) faulty(b []string) Step {
	return Step{Ev: "msg", Body: b, Fault: g.of(faultOps), FaultN: g.pick2(0, 1)*g.Intn(600) + g.pick2(0, 1), FErr: g.of(faultErrs)}
}

var oneHelo = func() string { return "mx.example.org" }

// ----- C17: accepted means saved

func genC17(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(70, 600); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(30)
		cfg.Hash = g.pick("all", "full", "msg")
		cfg.Log = cfg.Hash == "msg" || g.chance(50)
		cfg.SmtpLog = g.chance(50)
		cfg.Dirs = []string{"spool", "spool2"}
		cfg.RFiles = []string{"rules"}
		cfg.RejectMsgs = g.chance(10)
		if g.chance(15) { // only the rules have messages saved
			cfg.SaveDir, cfg.Force = "", true
		}
		if g.chance(25) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		rules := g.pick("", "", "@message reject from jim@\n", "@message stall to jim@example.org\n@message reject from a@\n", "accept from jim@ with savedir spool2\n",
			"accept to jim@ with savedir nodir\n", "@message accept all with message \"thank you\"\n", "@data set-with to jim@ with savedir spool2\n@message stall from fred@\n",
			"@message set-with all with savedir spool2 note late\n")
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", rules}}}
		bodies := [][]string{g.body(), g.richBody(), g.richBody()}
		now := 0
		for k := 0; k < 4; k++ {
			c := g.name()
			cs := conn(c, g.pick("198.51.100.7", "203.0.113.9", "2001:db8::7"))
			if g.chance(30) {
				cs.Rport = 4000
			}
			sc.add(cs, cmd(c, "EHLO", "mx.example.org"))
			if cfg.Cert != "" && g.chance(50) {
				sc.add(Step{Ev: "starttls", C: c, Works: true}, cmd(c, "EHLO", "mx.example.org"))
			}
			for n := 0; n < 1+g.Intn(4); n++ {
				b := bodies[g.Intn(3)]
				from, to := g.pick("a@example.com", "jim@example.com", "fred@example.org", ""), g.some([]string{"jim@example.org", "b@example.com", "c@example.com"}, 1, 3)
				m := msg(c, b...)
				if g.chance(50) {
					m = g.faulty(b)
				}
				sc.add(trans(c, from, to, m)...)
				sc.add(nextTrans(c))
				if m.Fault != "" && g.chance(60) { // once more
					m = msg(c, b...)
					if g.chance(25) {
						m = g.faulty(b)
					}
					sc.add(trans(c, from, to, m)...)
					sc.add(nextTrans(c))
				}
				if g.chance(30) {
					now += g.Intn(3)
					sc.add(clock(now))
				}
			}
			sc.add(g.ending(c))
		}
		out = append(out, sc)
	}
	return out
}

func (g *gen) ending(c string) Step {
	if g.chance(30) {
		return abort(c)
	}
	return quit(c)
}

// ----- C18: faithful records

func (g *gen) tlsStep(c string) Step {
	return Step{Ev: "starttls", C: c, Works: true, Sni: g.pick("", "", "mail1.example.org", "mail2.example.org", "MAIL2.example.org", "other.example.org"),
		CCert: g.pick("", "", "self", "ca", "bare", "cn", "many", "chain", "short", "other", "usage"), TLSVer: g.pick("", "1.2", "1.3")}
}

func genC18(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(60, 500); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(40)
		cfg.Hash = g.pick("all", "all", "full", "msg")
		cfg.Dirs = []string{"spool", "spool2"}
		cfg.RFiles = []string{"rules"}
		cfg.SmtpLog = g.chance(60)
		if g.chance(50) {
			cfg.Cert, cfg.Key = g.pick("cert1.pem", "cert1.pem,cert2.pem"), ""
			cfg.Key = strings.ReplaceAll(cfg.Cert, "cert", "key")
		}
		rules := g.pick("", "reject to jim@\n", "stall to @example.org\n", "reject from fred@\n@data stall to bob.smith@\n", "reject helo nodots\n", "@message reject from a@\n", "@to accept to jim@ with savedir spool2\n",
			"reject from <> to fred@\n", "@helo stall helo mx.example.com\n", "@helo stall helo mx.example.com or helo localhost\nreject from fred@\nreject to jim@\n", "@helo reject helo .example.com\n@helo stall helo-has ip\n")
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", rules}}}
		now := 0
		one := func() []Step {
			c := g.name()
			cs := conn(c, g.of(ripPool))
			cs.Lip = g.pick("192.0.2.25", "192.0.2.26", "2001:db8:f::1")
			q := []Step{cs}
			hl := func() {
				q = append(q, cmd(c, g.pick("EHLO", "EHLO", "HELO"), g.pick(g.of(heloPool), "mx.example.org", "it's.example.org")))
			}
			hl()
			if g.chance(30) {
				hl()
			}
			if cfg.Cert != "" && g.chance(60) {
				q = append(q, g.tlsStep(c))
				hl()
			}
			for n := 0; n < 1+g.Intn(4); n++ {
				for k := 0; k < 1+g.Intn(2); k++ {
					q = append(q, cmd(c, "MAIL", g.pick("", g.addr(), g.plainAddr(), g.plainAddr())))
					if g.chance(20) {
						q = append(q, cmd(c, "RCPT", g.plainAddr()))
						if g.chance(50) {
							q = append(q, nextTrans(c))
						} else {
							hl()
						}
						if g.chance(50) {
							hl()
						}
						q = append(q, cmd(c, "MAIL", g.plainAddr()))
					}
				}
				for k := 0; k < 1+g.Intn(5); k++ {
					q = append(q, cmd(c, "RCPT", g.pick(g.plainAddr(), g.plainAddr(), g.addr())))
				}
				b := g.richBody()
				m := msg(c, b...)
				if g.chance(10) {
					m = g.faulty(b)
					m.C = c
				}
				q = append(q, cmd(c, "DATA", ""), m)
				if g.chance(40) {
					q = append(q, nextTrans(c))
				}
				if g.chance(35) {
					hl()
				}
				if g.chance(20) {
					now += g.Intn(100000)
					q = append(q, clock(now))
				}
			}
			return append(q, g.ending(c))
		}
		if g.chance(50) {
			sc.add(g.interleave(one(), one(), one())...)
			// the clock only goes forward
			now = 0
			for k := range sc.Steps {
				if sc.Steps[k].Ev == "clock" {
					now += 1 + g.Intn(90000)
					sc.Steps[k].Now = now
				}
			}
		} else {
			for k := 0; k < 4; k++ {
				sc.add(one()...)
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C19: names and duplicates

func genC19(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(60, 500); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.Hash = g.pick("all", "full", "msg", "msg")
		cfg.Dirs = []string{"spool", "spool2"}
		cfg.RFiles = []string{"rules"}
		if g.chance(15) {
			cfg.SaveDir, cfg.Force = "", true
		}
		if g.chance(35) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		rules := g.pick("", "@message reject from jim@\n", "accept from jim@ with savedir spool2\n", "@message stall from jim@\n", "@message accept all with message \"got it\"\n@message reject all with message no\n",
			"@message reject from jim@ with message \"first\nsecond\"\n")
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", rules}}}
		bodies := [][]string{g.body(), g.richBody(), {"Subject: same", "", "body one"}, {"Subject: other", "", "body one"}}
		now := 0
		if cfg.Hash == "msg" && g.chance(60) {
			sc.add(Step{Ev: "plant", Dir: g.pick("spool", "spool2"), Body: bodies[g.Intn(4)], Junk: g.pick("", "something else\n", "id x\nbody\n")})
		}
		for k := 0; k < 5; k++ {
			c := g.name()
			cs := conn(c, g.pick("198.51.100.7", "198.51.100.7", "203.0.113.9"))
			if g.chance(60) {
				cs.Rport = 4000
			}
			sc.add(cs, cmd(c, "EHLO", g.pick("mx.example.org", "mx.example.org", "mx.example.com")))
			if cfg.Cert != "" && g.chance(70) {
				sc.add(Step{Ev: "starttls", C: c, Works: true}, cmd(c, "EHLO", "mx.example.org"))
			}
			for n := 0; n < 1+g.Intn(4); n++ {
				b := bodies[g.Intn(4)]
				m := msg(c, b...)
				if g.chance(10) {
					m = g.faulty(b)
				}
				sc.add(trans(c, g.pick("jim@example.com", "a@example.com"), g.pickSets([]string{"b@example.com"}, []string{"b@example.com"}, []string{"b@example.com", "c@example.com"}, []string{"c@example.com", "b@example.com"}), m)...)
				sc.add(nextTrans(c))
				if g.chance(20) {
					now += g.Intn(2)
					sc.add(clock(now))
				}
			}
			sc.add(g.ending(c))
		}
		out = append(out, sc)
	}
	return out
}

func (g *gen) pickSets(q ...[]string) []string { return q[g.Intn(len(q))] }

// ----- C20: the message log

func genC20(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(60, 500); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(40)
		cfg.Log = g.chance(93)
		cfg.Hash = g.pick("all", "full")
		if cfg.Log {
			cfg.Hash = g.pick("all", "full", "msg")
		}
		cfg.RejectMsgs = g.chance(20)
		if g.chance(30) {
			cfg.SaveDir, cfg.Force = "", true
			cfg.Dirs = nil
		}
		if g.chance(40) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		cfg.SmtpLog = g.chance(50)
		cfg.RFiles = []string{"rules"}
		rules := g.pick("", "@message reject from a@\n", "@message stall to @example.org\n", "@data reject from a@\n", "stall to fred@\n", "accept all with savedir nodir\n", "reject from jim@; to jim@ with message no\n", "@message reject all\n")
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", rules}}}
		now := 0
		var qs [][]Step
		for k := 0; k < 5; k++ {
			c := g.name()
			t := g.talk(c, talkOpts{steps: 2, tls: 40, odd: 5, noEnd: true, moreRcpts: 3})
			for n := range t {
				if t[n].Ev == "msg" && g.chance(30) {
					f := g.faulty(t[n].Body)
					f.C = c
					t[n] = f
				}
				if t[n].Ev == "starttls" {
					t[n] = g.tlsStep(c)
				}
			}
			switch g.Intn(5) {
			case 0: // in the middle of a message
				t = append(t, nextTrans(c), cmd(c, "MAIL", "z@example.com"), cmd(c, "RCPT", "z@example.com"), cmd(c, "DATA", ""), Step{Ev: "abort", C: c, Text: "Subject: half\r\n\r\nnot all of it\r\n"})
			case 1:
				t = append(t, abort(c))
			default:
				t = append(t, quit(c))
			}
			qs = append(qs, t)
		}
		if g.chance(50) {
			sc.add(g.interleave(qs...)...)
		} else {
			for _, q := range qs {
				now += g.Intn(5000)
				sc.add(clock(now))
				sc.add(q...)
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C21, C22: do-nothing clients

// dnSession is a session that gets so far and no further.
func (g *gen) dnSession(c, rip string, yak bool) []Step {
	q := []Step{conn(c, rip)}
	if g.chance(8) {
		return append(q, g.ending(c))
	}
	q = append(q, cmd(c, g.pick("EHLO", "HELO"), g.pick("mx.example.org", "mx.example.org", "mx.example.org", "mx.example.org", "mx.example.com", "bad.example.org", "")))
	n := g.Intn(8)
	from := func() Step {
		return cmd(c, "MAIL", g.pick("a@example.com", "a@example.com", "a@example.com", "bad@example.com", "stall@example.com", "", "yak@example.com"))
	}
	to := func() Step {
		return cmd(c, "RCPT", g.pick("b@example.com", "b@example.com", "bad@example.com", "yak@example.com"))
	}
	switch n {
	case 0:
	case 1:
		q = append(q, from())
	case 2:
		q = append(q, from(), to())
	case 3:
		q = append(q, from(), to(), cmd(c, "DATA", ""))
		if g.chance(50) {
			return append(q, abort(c))
		}
		q = append(q, msg(c, g.body()...))
	case 4: // repeated attempts
		for k := 0; k < 1+g.Intn(5); k++ {
			q = append(q, from())
			if g.chance(50) {
				q = append(q, to())
			}
			if g.chance(80) {
				q = append(q, nextTrans(c))
			}
			if g.chance(15) {
				q = append(q, cmd(c, "EHLO", "mx.example.org"))
			}
		}
	case 5:
		q = append(q, Step{Ev: "starttls", C: c, Works: g.chance(40), Text: g.pick("close", "alert", "junk")}, cmd(c, "EHLO", "mx.example.org"), from(), to())
	case 6:
		for k := 0; k < 2; k++ {
			q = append(q, from(), to(), cmd(c, "DATA", ""), msg(c, g.body()...), nextTrans(c))
		}
	case 7:
		q = append(q, from(), to(), cmd(c, "EHLO", g.pick("mx.example.org", "")), from(), cmd(c, "DATA", ""))
	}
	return append(q, g.ending(c))
}

// overlap is two sessions of one client, one of which may be forced, while the
// other counts up to the limit and beyond it.
func (g *gen) overlap(n int, rip string) []Step {
	a, b := g.name(), g.name()
	q := []Step{conn(a, rip), cmd(a, "EHLO", "mx.example.org"), conn(b, rip), cmd(b, "EHLO", "mx.example.org")}
	if g.chance(70) {
		q = append(q, cmd(a, "MAIL", g.pick("yak@example.com", "yak@example.com", "a@example.com")))
		if g.chance(60) {
			q = append(q, cmd(a, "RCPT", g.pick("yak@example.com", "b@example.com")))
		}
	}
	for k := g.Intn(n + 4); k > 0; k-- {
		q = append(q, cmd(b, "MAIL", g.pick("a@example.com", "a@example.com", "bad@example.com")), nextTrans(b))
	}
	if g.chance(40) {
		q = append(q, cmd(a, "MAIL", "a@example.com"), nextTrans(a))
	}
	if g.chance(50) {
		a, b = b, a
	}
	return append(q, g.ending(b), g.ending(a))
}

// grownOld is two sessions of one client: one that ends with something to be
// remembered, and one that is still there when that has grown old.
func (g *gen) grownOld(dur int, rip string, now *int) []Step {
	a, b := g.name(), g.name()
	from := func(c string) Step {
		return cmd(c, "MAIL", g.pick("yak@example.com", "yak@example.com", "yak@example.com", "a@example.com", "bad@example.com"))
	}
	q := []Step{conn(a, rip), cmd(a, "EHLO", "mx.example.org"), conn(b, rip), cmd(b, "EHLO", "mx.example.org"), from(b)}
	if g.chance(30) {
		q = append(q, cmd(b, "RCPT", g.pick("yak@example.com", "b@example.com")))
	}
	q = append(q, g.ending(b))
	*now += []int{dur - 1, dur, dur, dur + 1}[g.Intn(4)]
	q = append(q, clock(*now))
	if g.chance(85) {
		q = append(q, from(a))
		if g.chance(40) {
			q = append(q, cmd(a, "RCPT", g.pick("yak@example.com", "b@example.com")))
		}
	}
	q = append(q, g.ending(a))
	for k := g.Intn(2); k >= 0; k-- {
		c := g.name()
		q = append(q, conn(c, rip), cmd(c, "EHLO", "mx.example.org"), cmd(c, "QUIT", ""))
	}
	return q
}

const dnRules = "reject from bad@\nstall from stall@\nreject to bad@\nreject helo bad.example.org\n@connect reject ip 203.0.113.66\n"

func genDn(g *gen, yak bool) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(70, 600); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(40)
		cfg.DnCount = 1 + g.Intn(3)
		if g.chance(10) {
			cfg.DnCount = 0
		}
		cfg.DnDur = []int{28800, 100, 10, 60}[g.Intn(4)]
		cfg.MinPhase = g.pick("helo", "ehlo", "from", "to", "data", "message", "accepted")
		cfg.DnLog = cfg.DnCount > 0 && g.chance(70)
		cfg.Slow = g.chance(12)
		cfg.RFiles = []string{"rules"}
		cfg.RejectMsgs = g.chance(10)
		if g.chance(50) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		rules := dnRules + g.pick("", "@data stall from a@\n", "@message reject all\n", "@message stall to b@\n", "reject to yak@\n")
		if yak {
			rules = g.pick("set-with from yak@ with make-yakker\n", "reject from yak@ with make-yakker note y\n", "@message accept to yak@ with make-yakker\n", "stall to yak@ with make-yakker message wait\n",
				"@helo set-with all with make-yakker\n", "set-with helo bad.example.org with make-yakker\n", "accept from yak@ with make-yakker\n@message reject all\n", "@connect set-with ip 203.0.113.9 with make-yakker\n") + rules
		}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", rules}}}
		rips := []string{"203.0.113.9", "203.0.113.9", "203.0.113.9", "198.51.100.7", "2001:db8::7", "203.0.113.66"}
		now := 0
		broken := false
		var open []string
		for k := 0; k < 14; k++ {
			switch {
			case g.chance(25):
				now += []int{1, cfg.DnDur / 2, cfg.DnDur - 1, cfg.DnDur, cfg.DnDur + 1, 3}[g.Intn(6)]
				sc.add(clock(now))
			case g.chance(10):
				broken = !broken
				if broken {
					sc.add(file("rules", g.of(brokenTexts[:7])))
				} else {
					sc.add(file("rules", rules))
				}
			}
			c := g.name()
			rip := g.of(rips)
			s := g.dnSession(c, rip, yak)
			if g.chance(10) {
				s = g.grownOld(cfg.DnDur, rip, &now)
			} else if g.chance(12) {
				s = g.overlap(cfg.DnCount, rip)
			} else if g.chance(20) { // overlapping sessions of the same client
				c2 := g.name()
				s = g.interleave(s, g.dnSession(c2, rip, yak))
			}
			if g.chance(8) && len(s) > 1 && s[len(s)-1].C == c {
				s = s[:len(s)-1] // stays open
				open = append(open, c)
			}
			sc.add(s...)
			if g.chance(15) && len(open) > 0 {
				sc.add(g.ending(open[0]))
				open = open[1:]
			}
		}
		out = append(out, sc)
	}
	return out
}

func genC21(g *gen) []*Scenario { return genDn(g, false) }
func genC22(g *gen) []*Scenario { return genDn(g, true) }

// ----- C23: TLS

func genC23(g *gen) []*Scenario {
	var out []*Scenario
	const h72 = 72 * 3600
	for i := 0; i < g.n(60, 500); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(30)
		cfg.RFiles = []string{"rules"}
		switch g.Intn(8) {
		case 0:
		case 1, 2:
			cfg.Cert, cfg.Key = "cert1.pem,cert2.pem", "key1.pem,key2.pem"
		case 3:
			cfg.Cert, cfg.Key = "cert2.pem", "key2.pem"
			cfg.ConnCfg = "conns"
		case 4:
			cfg.ConnCfg = "conns"
		default:
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		rules := g.pick("", "", "set-with ip 203.0.113.9 with tls-opt off\n", "set-with helo mx.example.com with tls-opt off\n", "@from set-with from a@ with tls-opt off\n", "set-with ip 203.0.113.9 with tls-opt no-client\n",
			"@helo set-with all with tls-opt no-client\n", "accept tls on from jim@\nreject tls off from jim@\n", "reject tls on to b@\nstall tls off to b@\n", "@connect set-with all with tls-opt no-client\n@helo set-with helo mx.example.com with tls-opt off\n",
			"reject tls off\n", "@message stall tls on\n@data reject tls off\n", "stall helo mx.example.com with tls-opt off\n", "set-with all with tls-opt no-client\nreject from jim@ with tls-opt off\n")
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", rules}, {"conns", "192.0.2.26 cert=cert2.pem key=key2.pem\n192.0.2.27 hostname=x\n192.0.2.28 cert=cert3.pem,cert1.pem key=key3.pem,key1.pem\n"}}}
		now := 0
		rips := []string{"203.0.113.9", "203.0.113.9", "198.51.100.7", "2001:db8::7"}
		for k := 0; k < 12; k++ {
			if g.chance(35) {
				now += []int{1, h72 / 2, h72 - 1, h72, h72 + 1, 3600}[g.Intn(6)]
				sc.add(clock(now))
			}
			c := g.name()
			cs := conn(c, g.of(rips))
			if cfg.ConnCfg != "" {
				cs.Lip = g.pick("192.0.2.25", "192.0.2.26", "192.0.2.27", "192.0.2.28")
			}
			sc.add(cs)
			hl := func() {
				sc.add(cmd(c, g.pick("EHLO", "EHLO", "EHLO", "HELO"), g.pick("mx.example.org", "mx.example.com")))
			}
			if g.chance(95) {
				hl()
			}
			if g.chance(20) {
				hl()
			}
			if g.chance(20) {
				sc.add(cmd(c, "MAIL", g.pick("a@example.com", "jim@example.com")))
				if g.chance(50) {
					sc.add(nextTrans(c))
					hl()
				}
			}
			switch {
			case g.chance(40):
				sc.add(Step{Ev: "starttls", C: c, Works: false, Text: g.pick("close", "alert", "junk")})
			case g.chance(80):
				sc.add(g.tlsStep(c))
				hl()
				if g.chance(30) {
					sc.add(Step{Ev: "starttls", C: c, Works: true})
				}
			}
			sc.add(cmd(c, "MAIL", g.pick("a@example.com", "jim@example.com", "")), cmd(c, "RCPT", g.pick("b@example.com", "c@example.com")), cmd(c, "DATA", ""), msg(c, g.body()...))
			if g.chance(30) {
				sc.add(nextTrans(c))
				hl()
				if g.chance(50) {
					sc.add(g.tlsStep(c))
				}
			}
			sc.add(g.ending(c))
		}
		out = append(out, sc)
	}
	return out
}

// ----- C24: per-connection configuration

func genC24(g *gen) []*Scenario {
	var out []*Scenario
	pats := []string{"*", "192.0.2.25", "192.0.2.26", "192.0.2.25:25", "192.0.2.25:26", "192.0.2.0/24", "192.0.2.24/31", "192.0.2.26/32", "2001:db8:f::1", "2001:DB8:F:0::1", "2001:db8:f::/48", "[2001:db8:f::1]:25",
		"0.0.0.0/0", "::/0", "nonsense", "192.0.2", "192.0.2.25/33", "192.0.2.25:", ":25", "192.0.2.2", "**", "192.0.2.128/25"}
	for i := 0; i < g.n(60, 500); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.ConnCfg = "conns"
		if g.chance(10) {
			cfg.ConnCfg = ""
		}
		if g.chance(50) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		cfg.Helo = g.pick("", "", "general.example.org")
		line := func() string {
			var f []string
			if g.chance(60) {
				f = append(f, "hostname="+g.pick("one.example.org", "two.example.org", "three", "x=y"))
			}
			if g.chance(50) {
				n := g.pick("2", "3", "1")
				c, k := "cert"+n+".pem", "key"+n+".pem"
				if g.chance(20) {
					c, k = c+",cert1.pem", k+",key1.pem"
				}
				f = append(f, "cert="+c, "key="+k)
			}
			g.Shuffle(len(f), func(a, b int) { f[a], f[b] = f[b], f[a] })
			return g.pick("", "", " ", "\t") + g.of(pats) + g.pick(" ", "  ", "\t") + strings.Join(f, g.pick(" ", "\t ")) + g.pick("", "", " ")
		}
		bad := func() string {
			return g.pick("192.0.2.25 hostname", "* host=x", "192.0.2.26 cert=cert2.pem", "* key=key2.pem", "* cert=cert2.pem key=key3.pem", "* cert=none.pem key=key1.pem", "* hostname=a cert=cert2.pem key=key2.pem extra=1", "* cert=cert2.pem,cert3.pem key=key2.pem",
				"192.0.2.99 cert=cert1.pem key=none.pem", "* Hostname=x", "junk junk", "* hostname=a cert=cert2.pem key=key2.pem x")
		}
		text := func(badPct int) string {
			var q []string
			for n := 0; n < g.Intn(6); n++ {
				if g.chance(20) {
					q = append(q, g.pick("# a comment", "", "   ", "#* hostname=no"))
				}
				q = append(q, line())
			}
			if g.chance(badPct) {
				at := g.Intn(len(q) + 1)
				q = append(q[:at], append([]string{bad()}, q[at:]...)...)
			}
			t := strings.Join(q, "\n")
			if t != "" && g.chance(80) {
				t += "\n"
			}
			return t
		}
		z := stdZone()
		if g.chance(50) {
			z.Ptr = append(z.Ptr, PtrEnt{"192.0.2.25", []string{"rev.example.net."}}, PtrEnt{"2001:db8:f::1", []string{"rev6.example.net."}})
		}
		sc := &Scenario{Cfg: cfg, Zone: z, Files: []FileEnt{{"conns", text(0)}}}
		var adm []Step
		var qs [][]Step
		for k := 0; k < 12; k++ {
			if g.chance(60) {
				if g.chance(10) {
					adm = append(adm, gone("conns"))
				} else {
					adm = append(adm, file("conns", text(25)))
				}
			}
			c := g.name()
			cs := conn(c, g.of(ripDns))
			cs.Lip = g.pick("192.0.2.25", "192.0.2.25", "192.0.2.26", "2001:db8:f::1", "192.0.2.200", "10.2.3.4")
			cs.Lport = g.pick2(0, 2) + 25
			if cs.Lport == 27 {
				cs.Lport = 25
			}
			t := []Step{cs, cmd(c, "EHLO", "mx.example.org")}
			if g.chance(60) {
				t = append(t, g.tlsStep(c), cmd(c, "EHLO", "mx.example.org"))
			}
			qs = append(qs, append(t, quit(c)))
		}
		if g.chance(50) {
			sc.Steps = g.interleave(append(qs, adm)...)
		} else {
			for k := range qs {
				if k < len(adm) {
					sc.add(adm[k])
				}
				sc.add(qs[k]...)
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C25: simultaneous sessions

func genC25(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(26, 200); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(50)
		cfg.Hash = g.pick("all", "all", "full", "msg")
		cfg.Dirs = []string{"spool", "spool2"}
		cfg.RFiles = g.some([]string{"rules", "rules2"}, 1, 2)
		cfg.FromReject = g.pick("", "pl1")
		if g.chance(40) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		if g.chance(30) {
			cfg.DnCount = 100
		}
		if g.chance(30) {
			cfg.ConnCfg = "conns"
		}
		cfg.PerIP = g.chance(30)
		rg := &ruleGen{gen: g, files: []string{"pl1", "pl2"}, withs: []string{"message", "note", "savedir", "tls-opt"}}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Procs: 8, Files: append(patFiles(), FileEnt{"conns", "192.0.2.26 hostname=other.example.org\n"},
			FileEnt{"rules", rg.rules(1, 4)}, FileEnt{"rules2", rg.rules(1, 3)})}
		shared := g.richBody()
		for k := 0; k < 3; k++ {
			if g.chance(50) {
				sc.add(file("rules", rg.rules(1, 4)))
			}
			var par [][]Step
			for n := 0; n < 10; n++ {
				c := g.name()
				steps := 0
				if cfg.Hash != "all" {
					steps = 1
				}
				t := g.talk(c, talkOpts{rip: g.of(ripPool), lip: g.pick("192.0.2.25", "192.0.2.26"), steps: steps, tls: 25, odd: 10, multiHelo: 10, abortEnd: true})
				nm := 0
				for x := range t {
					if t[x].Ev == "msg" {
						nm++
						switch {
						case cfg.Hash != "all" && g.chance(40):
							t[x].Body = shared
						case g.chance(40):
							t[x].Body = g.richBody()
						}
					}
				}
				par = append(par, t)
			}
			sc.add(Step{Ev: "par", Par: par, Yld: []int{0, 0, 1, 3, 20}[g.Intn(5)]})
		}
		out = append(out, sc)
	}
	return out
}

// ----- C26: the SMTP log

func genC26(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(50, 400); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(50)
		cfg.RFiles = []string{"rules"}
		cfg.SmtpLog = g.chance(95)
		if cfg.SmtpLog && g.chance(60) {
			cfg.DnCount = 1 + g.Intn(2)
			cfg.DnDur = 60
			cfg.MinPhase = g.pick("helo", "from", "to", "message", "accepted")
		}
		if g.chance(40) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		rg := &ruleGen{gen: g, files: []string{"pl1"}, withs: []string{"note", "note", "message", "make-yakker"}}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"rules", "accept all\n"})}
		now := 0
		for k := 0; k < 3; k++ {
			rules := rg.rules(0, 4)
			if g.chance(40) {
				rules = g.pick("@connect reject ip 198.51.100.0/24\n", "@connect reject ip 203.0.113.9 with note gone\n", "@connect reject ip 203.0.113.128/25 with note other\n", "@connect reject dns nodns,noforward\n", "@connect reject ip 10.0.0.0/8 or ip 192.0.2.0/24\n", "@connect set-with all with note hello\n", "@connect reject dnsbl bl.test\n", "set-with dnsbl bl.test or dnsbl bl2.test with note listed\n") + rules
			}
			if g.chance(10) {
				rules = "broken\n"
			}
			sc.add(file("rules", rules))
			if g.chance(40) {
				now += []int{1, 59, 60, 30}[g.Intn(4)]
				sc.add(clock(now))
			}
			var qs [][]Step
			// the failures of one session would be remembered against the others
			par := g.chance(30) && cfg.SmtpLog && cfg.DnCount == 0
			for n := 0; n < 4; n++ {
				c := g.name()
				t := g.talk(c, talkOpts{rip: g.pick("198.51.100.7", "203.0.113.9", "198.51.100.8", "2001:db8::7", "203.0.113.200", "10.1.2.3", "192.0.2.77"), odd: 40, multiHelo: 20, abortEnd: true, tls: 25})
				if g.chance(20) {
					t = append(t[:1+g.Intn(len(t)-1)], quit(c))
				}
				if g.chance(15) {
					t = append([]Step{t[0]}, raw(c, "EHLO  two  spaces "), raw(c, "mail FROM:<a@example.com>"), raw(c, "RCPT to:<b@example.com>  "), raw(c, "\x01\x02"), raw(c, "Noop"), raw(c, "rset"), quit(c))
				}
				if g.chance(10) && !par {
					t = append([]Step{t[0]}, cmd(c, "EHLO", "mx.example.org"), Step{Ev: "starttls", C: c, Text: "close"})
				}
				qs = append(qs, t)
			}
			if par {
				sc.add(Step{Ev: "par", Par: qs, Yld: g.Intn(4)})
			} else {
				sc.add(g.interleave(qs...)...)
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C27: counters

func genC27(g *gen) []*Scenario {
	var out []*Scenario
	for _, more := range []int{0, 1} { // failures at an address with TLS, then one without
		cfg := baseCfg()
		cfg.PerIP, cfg.More, cfg.ConnCfg = more == 0, more, "conns"
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"conns", "192.0.2.26 cert=cert2.pem key=key2.pem\n192.0.2.25 hostname=x.example.org\n"}}}
		for k, lip := range []string{"192.0.2.26", "192.0.2.25", "192.0.2.26", "192.0.2.25", "192.0.2.26", "192.0.2.27", "192.0.2.25"} {
			c := g.name()
			cs := conn(c, "203.0.113.9")
			cs.Lip = lip
			sc.add(cs, cmd(c, "EHLO", "mx.example.org"), Step{Ev: "starttls", C: c, Text: "close"}, quit(c), statsStep())
			if k == 5 {
				sc.add(clock(259200))
			}
		}
		out = append(out, sc)
	}
	for i := 0; i < g.n(90, 700); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(50)
		cfg.RFiles = []string{"rules"}
		cfg.PerIP = g.chance(35)
		if g.chance(25) {
			cfg.More = 1 + g.Intn(2)
		}
		cfg.SmtpLog = g.chance(85)
		if cfg.SmtpLog && g.chance(75) {
			cfg.DnCount = 1 + g.Intn(3)
			cfg.DnDur = 100
			cfg.MinPhase = g.pick("helo", "from", "to", "data", "message", "accepted")
			cfg.DnLog = g.chance(50)
		}
		if g.chance(70) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		if (cfg.PerIP || cfg.More > 0) && g.chance(30) { // TLS for some of the addresses
			cfg.ConnCfg = "conns"
		}
		rules := dnRules + g.pick("", "@message reject all\n", "set-with from yak@ with make-yakker\n", "set-with from yak@ or to yak@ with make-yakker\n", "reject from yak@ with make-yakker\n", "set-with to yak@ with make-yakker\n@data stall from a@\n", "reject from a@\n", "stall helo mx.example.org\n")
		zone := stdZone()
		if g.chance(50) {
			rules += g.pick("@helo set-with dnsbl bl1.test with note one\n", "@connect set-with dnsbl bl1.test or dnsbl bl2.test with note x\n@from reject dnsbl sbl.spamhaus.org\n",
				"@to stall dnsbl sbl.spamhaus.org to c@\n", "@helo set-with dnsbl sbl.spamhaus.org with note s\n@from set-with dnsbl bl2.test from b@ with note t\n",
				"@message reject dnsbl bl2.test\n", "@from reject dnsbl bl1.test\n", "@connect reject dnsbl bl2.test\n")
			for _, a := range []string{"9.113.0.203", "7.100.51.198", "66.113.0.203"} {
				for _, b := range []string{"bl1.test.", "bl2.test.", "sbl.spamhaus.org."} {
					if g.chance(55) {
						e := NameEnt{N: a + "." + b, A: []string{"127.0.0.2"}}
						if b[0] == 's' {
							e.Txt = g.some([]string{"https://www.spamhaus.org/sbl/query/SBL1", "https://x/SBL22", "nothing", "http://x/"}, 0, 3)
						}
						zone.Names = append(zone.Names, e)
					}
				}
			}
		}
		sc := &Scenario{Cfg: cfg, Zone: zone, Files: []FileEnt{{"rules", rules}, {"conns", "192.0.2.26 cert=cert2.pem key=key2.pem\n192.0.2.25 hostname=x.example.org\n"}}}
		rips := []string{"203.0.113.9", "203.0.113.9", "198.51.100.7", "2001:db8::7", "203.0.113.66"}
		lips := []string{"192.0.2.25", "192.0.2.26", "2001:db8:f::1"}
		now, broken := 0, false
		for k := 0; k < 10; k++ {
			if g.chance(25) {
				now += []int{1, 50, 99, 100, 101, 259200, 259199}[g.Intn(7)]
				sc.add(clock(now))
			}
			if g.chance(12) {
				broken = !broken
				if broken {
					sc.add(file("rules", g.of(brokenTexts[:7])))
				} else {
					sc.add(file("rules", rules))
				}
			}
			c := g.name()
			rip := g.of(rips)
			var s []Step
			switch g.Intn(6) {
			case 5:
				sc.add(g.grownOld(100, rip, &now)...)
			case 0:
				s = g.talk(c, talkOpts{rip: rip, odd: 50, tls: 50, abortEnd: true, multiHelo: 30})
			case 4: // what is remembered grows stale while a session lasts
				d := g.name()
				s = g.dnSession(c, rip, true)
				if g.chance(60) {
					s = []Step{{Ev: "conn", C: c, Rip: rip}, cmd(c, "QUIT", "")}
				}
				s = append(s, Step{Ev: "conn", C: d, Rip: rip}, cmd(d, "EHLO", "mx.example.com"))
				if g.chance(60) {
					s = append(s, cmd(d, "MAIL", g.pick("a@example.com", "yak@example.com", "yak@example.com", "bad@example.com")))
				}
				if g.chance(40) {
					s = append(s, cmd(d, "RCPT", g.pick("c@example.org", "yak@example.org")))
				}
				now += []int{99, 100, 150, 259200}[g.Intn(4)]
				s = append(s, clock(now))
				switch g.Intn(4) {
				case 0:
					s = append(s, cmd(d, "RSET", ""), cmd(d, "MAIL", "a@example.com"))
				case 1:
					s = append(s, Step{Ev: "starttls", C: d, Works: false, Text: "close"})
				}
				s = append(s, cmd(d, "QUIT", ""))
				sc.add(s...)
				s = nil
			case 1:
				s = g.interleave(g.dnSession(c, rip, true), g.dnSession(g.name(), g.of(rips), true))
			case 2:
				s = g.dnSession(c, rip, true)
			default:
				s = g.overlap(cfg.DnCount, rip)
			}
			secured := ""
			for _, x := range s {
				switch {
				case x.Ev == "starttls" && x.Works:
					secured = x.C
				case x.Ev == "cmd" && x.Verb == "EHLO" && x.C == secured:
					if secured = ""; g.chance(40) {
						x.Verb = "HELO"
					}
				case x.Ev == "msg" && x.Fault == "" && g.chance(15):
					f := g.faulty(x.Body)
					x.Fault, x.FaultN, x.FErr = f.Fault, f.FaultN, f.FErr
				}
				if x.Ev == "conn" && (cfg.PerIP || cfg.More > 0) {
					x.Lip, x.Via = g.of(lips), g.Intn(cfg.More+1)
				}
				sc.add(x)
				if g.chance(12) {
					sc.add(statsStep())
				}
				if g.chance(4) {
					now += 1 + g.Intn(60)
					sc.add(clock(now))
				}
			}
			sc.add(statsStep())
		}
		out = append(out, sc)
	}
	return out
}

// ----- C28: options that are rules

func genC28(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(70, 600); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(50)
		cfg.RejectMsgs = g.chance(35)
		if g.chance(60) {
			cfg.FromReject = g.pick("fr", "fr", "none", "empty")
		}
		if g.chance(60) {
			cfg.ToAccept = g.pick("ta", "ta", "none", "empty")
		}
		if g.chance(60) {
			cfg.HeloReject = g.pick("hr", "hr", "none", "empty")
		}
		if cfg.RejectMsgs && g.chance(40) {
			cfg.SaveDir = ""
		}
		cfg.RFiles = g.some([]string{"rules", "rules2"}, 0, 2)
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"fr", "a@example.com\n@spam.test\n<>\n"}, {"ta", "fred@\n@example.org\n"}, {"hr", "mx.example.com\n.bad.test\n"}, {"empty", g.pick("", "# nothing\n\n")},
			{"rules", g.pick("accept all\n", "", "@from accept all\n@to accept all\n", "@message accept all\n", "set-with all with message mine note n\n", "accept from a@example.com\nstall all\n", "stall all\n")},
			{"rules2", g.pick("reject all\n", "@message stall all\n", "accept to jim@\n@to stall all\n")}}}
		for k := 0; k < 8; k++ {
			switch g.Intn(12) {
			case 0:
				sc.add(gone(g.pick("fr", "ta", "hr")))
			case 1:
				sc.add(file("none", g.pick("a@example.com\n", "@example.org\nmx.example.org\n", "fred@\nmx.example.com\n")))
			case 2:
				sc.add(file(g.pick("fr", "ta", "hr"), g.pick("", "@example.com\n.example.org\n", "jim@\nmx.example.org")))
			}
			sc.add(g.talk(g.name(), talkOpts{steps: 3, odd: 4, multiHelo: 15, helo: func() string { return g.pick("mx.example.com", "mx.example.org", "x.bad.test", "", "other.test", ".") },
				from: func() string {
					return g.pick("", "a@example.com", "x@spam.test", g.addr(), g.plainAddr(), "a@sub.example.com")
				},
				to: func() string {
					return g.pick("fred@example.com", "jim@example.org", "jim@example.com", g.addr2(), g.plainAddr())
				}})...)
		}
		out = append(out, sc)
	}
	return out
}

// addr2 is an address that can be a recipient.
func (g *gen) addr2() string {
	a := g.addr()
	for strings.HasPrefix(a, "<") || a == ">" || a == "" {
		a = g.addr()
	}
	return a
}

// ----- C29: starting

func genC29(g *gen) []*Scenario {
	var out []*Scenario
	add := func(f func(c *Cfg), files ...FileEnt) {
		cfg := baseCfg()
		f(&cfg)
		c := g.name()
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append([]FileEnt{{"rules", "accept all\n"}, {"rules2", "reject from jim@\n"}, {"conns", "* hostname=c.example.org\n"}}, files...)}
		sc.add(conn(c, "203.0.113.9"), cmd(c, "EHLO", "mx.example.org"))
		sc.add(trans(c, "a@example.com", []string{"b@example.com"}, msg(c, g.body()...))...)
		sc.add(quit(c))
		out = append(out, sc)
	}
	// each option on its own
	for _, d := range []string{"", "spool", "nodir"} {
		for _, fr := range []bool{false, true} {
			for _, m := range []bool{false, true} {
				add(func(c *Cfg) { c.SaveDir, c.Force, c.RejectMsgs = d, fr, m })
			}
		}
	}
	for _, h := range []string{"msg", "full", "all", "Msg", "none", ""} {
		for _, l := range []bool{false, true} {
			add(func(c *Cfg) {
				c.Hash, c.Log = h, l
				if h == "" {
					c.Hash = "body"
				}
			})
		}
	}
	for _, p := range []string{"helo", "ehlo", "from", "to", "data", "message", "accepted", "connect", "rcpt", "HELO", "mail", "msg", "any"} {
		add(func(c *Cfg) { c.MinPhase = p })
		add(func(c *Cfg) { c.MinPhase = p; c.DnCount = 1 })
	}
	for _, n := range []int{0, 1, 5} {
		for _, dur := range []int{28800, 0, 1, 60} {
			for k := 0; k < 4; k++ {
				add(func(c *Cfg) { c.DnCount, c.DnDur, c.SmtpLog, c.DnLog = n, dur, k&1 == 0, k&2 == 0 })
			}
		}
	}
	for _, ck := range [][2]string{{"cert1.pem", "key1.pem"}, {"cert1.pem", ""}, {"", "key1.pem"}, {"cert1.pem", "key2.pem"}, {"none.pem", "key1.pem"}, {"cert1.pem", "none.pem"}, {"key1.pem", "cert1.pem"}, {"rules", "key1.pem"},
		{"cert1.pem,cert2.pem", "key1.pem,key2.pem"}, {"cert1.pem,cert2.pem", "key1.pem"}, {"cert1.pem", "key1.pem,key2.pem"}, {"cert1.pem,cert2.pem", "key2.pem,key1.pem"}, {"cert1.pem,none.pem", "key1.pem,key2.pem"}} {
		add(func(c *Cfg) { c.Cert, c.Key = ck[0], ck[1] })
		add(func(c *Cfg) { c.Cert, c.Key, c.ConnCfg = ck[0], ck[1], "conns" })
	}
	for _, t := range append([]string{"", "# nothing\n", "accept all", "include rules2\n", "include none\n", "include bad\n"}, brokenTexts...) {
		add(func(c *Cfg) { c.RFiles = []string{"r"} }, FileEnt{"r", t}, FileEnt{"bad", "rejct\n"})
		add(func(c *Cfg) { c.RFiles = []string{"rules", "r"} }, FileEnt{"r", t}, FileEnt{"bad", "rejct\n"})
	}
	add(func(c *Cfg) { c.RFiles = []string{"none"} })
	add(func(c *Cfg) { c.RFiles = []string{"rules", ""} })
	add(func(c *Cfg) { c.RFiles = []string{"", "rules"} })
	for _, l := range []string{"none", "twice", "port", "foreign"} {
		add(func(c *Cfg) { c.Listen = l })
		add(func(c *Cfg) { c.Listen, c.More = l, 1 })
	}
	for n := 1; n < 4; n++ {
		add(func(c *Cfg) { c.More = n })
		for k := range out[len(out)-1].Steps {
			out[len(out)-1].Steps[k].Via = n
		}
	}
	for _, l := range []string{"l", "smtplog", "dnlog"} {
		for k := 0; k < 8; k++ {
			add(func(c *Cfg) {
				c.LogBad, c.Log, c.SmtpLog, c.DnLog = l, k&1 == 0, k&2 == 0, k&4 == 0
				if c.DnLog {
					c.DnCount = 1
				}
			})
		}
	}
	for n := 0; n < 2; n++ {
		for _, d := range []string{"999ms", "1ms", "0s", "-1s", "-10m"} {
			add(func(c *Cfg) { c.DnCount, c.DnDur, c.DurText = n, 0, d })
		}
		add(func(c *Cfg) { c.DnCount, c.DnDur, c.DurText = n, 1, "1000ms" })
		add(func(c *Cfg) { c.DnCount, c.DnDur, c.DurText = n, 60, "1m" })
	}
	add(func(c *Cfg) { c.RFiles = []string{"rules", "none"} })
	for _, t := range []string{"", "#\n", "* hostname=x\n", "junk", "* cert=cert1.pem\n", "* cert=cert1.pem key=key1.pem\n", "* cert=cert1.pem key=key2.pem\n", "192.0.2.1\n", "* hostname\n"} {
		add(func(c *Cfg) { c.ConnCfg = "cc" }, FileEnt{"cc", t})
	}
	add(func(c *Cfg) { c.ConnCfg = "none" })
	add(func(c *Cfg) { c.ConnCfg, c.Dirs = "dir", []string{"spool", "dir"} })
	add(func(c *Cfg) { c.RFiles, c.Dirs = []string{"dir"}, []string{"spool", "dir"} })
	add(func(c *Cfg) { c.RFiles, c.Dirs = []string{"rules", "dir"}, []string{"spool", "dir"} })
	add(func(c *Cfg) { c.RFiles, c.Dirs = []string{"r"}, []string{"spool", "dir"} }, FileEnt{"r", "include dir\n"})
	add(func(c *Cfg) { c.FromReject, c.Dirs = "dir", []string{"spool", "dir"} })
	add(func(c *Cfg) { c.SaveDir = "rules" })
	add(func(c *Cfg) { c.SaveDir = "rules/x" })
	add(func(c *Cfg) { c.SaveDir, c.Dirs = "spool/deep", []string{"spool", "spool/deep"} })
	for _, f := range []string{"none", "rules"} {
		add(func(c *Cfg) { c.FromReject = f })
		add(func(c *Cfg) { c.ToAccept = f })
		add(func(c *Cfg) { c.HeloReject = f })
	}
	// several at once
	for i := 0; i < g.n(100, 1500); i++ {
		add(func(c *Cfg) {
			for n := 0; n < 1+g.Intn(4); n++ {
				switch g.Intn(12) {
				case 0:
					c.SaveDir = g.pick("", "spool", "nodir")
				case 1:
					c.Force = g.chance(50)
				case 2:
					c.RejectMsgs = g.chance(50)
				case 3:
					c.Hash = g.pick("msg", "full", "all", "md5")
				case 4:
					c.Log = g.chance(50)
				case 5:
					c.DnCount = g.Intn(3)
				case 6:
					c.DnDur = []int{0, 1, 600}[g.Intn(3)]
				case 7:
					c.SmtpLog = g.chance(50)
				case 8:
					c.DnLog = g.chance(50)
				case 9:
					c.MinPhase = g.pick("helo", "data", "ehlo", "accepted", "connect")
				case 10:
					c.Cert, c.Key = g.pick("", "cert1.pem"), g.pick("", "key1.pem")
				case 11:
					c.RFiles = g.some([]string{"rules", "rules2", "none"}, 0, 3)
				}
			}
		})
	}
	return out
}

// ----- C30: recipients after RCPT TO

func genC30(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(60, 600); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(20)
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(patFiles(), FileEnt{"rules", "accept all\n"})}
		t1 := func() string {
			return g.pick("to a@example.com", "to b@", "to @example.org", "to @.example.com", "not to a@example.com", "not to @example.com", "to-has unqualified", "to-has noat,route", "to-has resolves", "to-has baddom,unknown", "to file:pl1", "not to file:pl1", "not to-has bad", "(not to b@ or not to @example.com)", "to @", "not to-has resolves", "to file:nofile", "not to file:pl3", "to b@ to file:nofile", "(to a@ not to file:nofile)")
		}
		cond := func() string {
			c := t1()
			for g.chance(35) {
				c += g.pick(" ", " or ", " ") + t1()
			}
			if g.chance(25) {
				c += " from a@example.com"
			}
			return c
		}
		for k := 0; k < 8; k++ {
			t := g.pick("", "", "reject to refused@\n", "stall to refused@ or to r2@\n", "@to reject to a@example.com\n")
			for n := 0; n < 1+g.Intn(3); n++ {
				t += g.pick("@data ", "@message ", "@message ", "", "@to ", "@data ") + g.pick("reject", "stall", "accept", "reject", "stall") + " " + cond() + g.pick("", " with message m1", " with message m2 note n", "; "+cond()+" with message m3", "; "+cond()+"; "+cond()) + "\n"
			}
			if g.chance(40) {
				t = g.pick("@message ", "@data ", "@message ", "") + "set-with " + cond() + " with message s1\n" + g.pick("", t)
			}
			sc.add(file("rules", t))
			sc.add(g.talk(g.name(), talkOpts{steps: 3, moreRcpts: 4, helo: oneHelo, multiHelo: 8, from: func() string { return g.pick("a@example.com", "x@example.com", "") },
				to: func() string {
					return g.pick("a@example.com", "b@example.com", "b@example.org", "refused@example.com", "r2@example.org", "c@sub.example.com", "noat", "x@unqual", "d@spam.test", "A@Example.com", "e@notexample.com", "f@a.b.example.org")
				}})...)
		}
		out = append(out, sc)
	}
	return out
}

// ----- C31: crashes

var killOps = []string{"open", "write", "write", "write", "sync", "close", "link", "remove"}

func genC31(g *gen) []*Scenario {
	var out []*Scenario
	for i := 0; i < g.n(70, 600); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(30)
		cfg.Hash = g.pick("all", "full", "msg", "full", "msg")
		cfg.Dirs = []string{"spool", "spool2"}
		cfg.RFiles = []string{"rules"}
		cfg.SmtpLog = g.chance(60)
		if cfg.SmtpLog && g.chance(30) {
			cfg.DnCount = 2
			cfg.MinPhase = "message"
		}
		rules := g.pick("", "accept from jim@ with savedir spool2\n", "@message reject from jim@\n", "@message stall from jim@\n")
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", rules}}}
		bodies := [][]string{g.body(), g.richBody(), g.richBody()}
		for k := 0; k < 4; k++ {
			for n := 0; n < 1+g.Intn(2); n++ {
				c := g.name()
				cs := conn(c, "198.51.100.7")
				cs.Rport = 4000
				sc.add(cs, cmd(c, "EHLO", "mx.example.org"))
				for x := 0; x < 1+g.Intn(3); x++ {
					sc.add(trans(c, g.pick("a@example.com", "jim@example.com"), []string{"b@example.com"}, msg(c, bodies[g.Intn(3)]...))...)
					sc.add(nextTrans(c))
				}
				if g.chance(70) {
					sc.add(g.ending(c))
				}
			}
			c := g.name()
			cs := conn(c, "198.51.100.7")
			cs.Rport = 4000
			b := bodies[g.Intn(3)]
			if g.chance(60) { // a message that is not there yet
				b = g.richBody()
				bodies[g.Intn(3)] = b
			}
			from := g.pick("a@example.com", "jim@example.com")
			sc.add(cs, cmd(c, "EHLO", "mx.example.org"))
			switch g.Intn(6) {
			case 0:
				sc.add(Step{Ev: "kill"})
			case 1:
				sc.add(cmd(c, "MAIL", from), cmd(c, "RCPT", "b@example.com"), cmd(c, "DATA", ""), Step{Ev: "kill"})
			default:
				op := g.of(killOps)
				n := 0
				if op == "write" {
					n = []int{0, 1, g.Intn(200), g.Intn(1000), 100000}[g.Intn(5)]
				}
				sc.add(trans(c, from, []string{"b@example.com"}, Step{Ev: "msg", Body: b, Fault: "kill", Text: op, FaultN: n, FErr: "KILL"})...)
			}
			sc.add(Step{Ev: "start"})
			// the client sends it again
			if g.chance(85) {
				c := g.name()
				cs := conn(c, "198.51.100.7")
				cs.Rport = 4000
				sc.add(cs, cmd(c, "EHLO", "mx.example.org"))
				m := msg(c, b...)
				if g.chance(15) {
					m = g.faulty(b)
				}
				sc.add(trans(c, from, []string{"b@example.com"}, m)...)
				if m.Fault != "" {
					sc.add(nextTrans(c))
					sc.add(trans(c, from, []string{"b@example.com"}, msg(c, b...))...)
				}
				sc.add(g.ending(c))
			}
		}
		out = append(out, sc)
	}
	return out
}

var (
	saveM = []model{{name: "McSave", cfg: "McSave", thor: true, limit: 150, limitT: 8000}}
	dnM   = []model{{name: "McDn", cfg: "McDn", thor: true, limit: 250, limitT: 10000}}
	tlsM  = []model{{name: "McTls", cfg: "McTls", thor: true, limit: 250, limitT: 10000}}
)

func init() {
	props["C17"] = &prop{aspects: "code,save,sync,overwrite", gen: genC17, models: saveM}
	props["C18"] = &prop{aspects: "save", gen: genC18, models: sess}
	props["C19"] = &prop{aspects: "code,save,hashname,overwrite", gen: genC19, models: saveM}
	props["C20"] = &prop{aspects: "log", gen: genC20, models: sess}
	props["C21"] = &prop{aspects: "code,drop,slow,logged,closed,bang,dn", gen: genC21, models: dnM}
	props["C22"] = &prop{aspects: "code,drop,slow,logged,closed,bang,dn", gen: genC22, models: dnM}
	props["C23"] = &prop{aspects: "tls,code,drop,save", gen: genC23, models: tlsM}
	props["C24"] = &prop{aspects: "name,tls,code,startup", gen: genC24, models: []model{{name: "McConn", cfg: "McConn", thor: true, limit: 120, limitT: 3000}}}
	props["C25"] = &prop{aspects: "code,text,drop,name,slow,logged,bang,closed,tls,log,save,hashname,overwrite,sync,smtplog,ids", gen: genC25, models: []model{{name: "McPar", cfg: "McPar", thor: true, limit: 400, limitT: 10000}}}
	props["C26"] = &prop{aspects: "smtplog,bang,logged", gen: genC26, models: sess}
	props["C27"] = &prop{aspects: "stats", gen: genC27, models: []model{{name: "McCount", cut: true, cfg: "McCount", thor: true, limit: 400, limitT: 15000}}}
	props["C28"] = &prop{aspects: "code,text,drop,save,log", gen: genC28, models: []model{{name: "McOpts", cfg: "McOpts", thor: true, limit: 500, limitT: 15000, chain: 20}}}
	props["C29"] = &prop{aspects: "startup", gen: genC29, models: []model{{name: "McStart", cfg: "McStart", thor: true, limit: 200, limitT: 6000}}}
	props["C30"] = &prop{aspects: "code,text", gen: genC30, models: sess}
	props["C31"] = &prop{aspects: "code,save,overwrite,startup", gen: genC31, models: saveM}
}
