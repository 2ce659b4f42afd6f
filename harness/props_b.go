package main

// Scenarios for robustness, matching, attributes and the DNS (C07-C16).

import (
	"fmt"
	"strings"
)

// ----- C07: robustness

var nastyHelos = []string{"", ".", "..", "[", "]", "[]", "[[", "[1.2.3.4", "1.2.3.4]", "[::1]", ":", "::", "[:]", "a..b", ".a", "a.", "-", "x y z", "[IPv6:::1]", "\"", "@", "localhost",
	strings.Repeat("a.", 120) + "b", strings.Repeat("x", 300), "[" + strings.Repeat("1", 200) + "]", "(comment)", "a\tb", "%s%n%d"}

var nastyAddrs = []string{"", "@", "@@", "@@@", ".", "..", "a", "\"", "\"\"", "<", ">", "<>", "a@", "@a", "a@.", "a@..", "@.", ".@.", "a@b.", "a@.b", "a b@c.d", "a@[", "a@[]", "a@[1.2.3.4]",
	"a@]", ":", "@:", "@a:", "@a:b", "@a,@b:c@d", "%s%d@%n.com", strings.Repeat("a", 200) + "@example.com", "a@" + strings.Repeat("b.", 130) + "c", "a@" + strings.Repeat("b", 80) + ".com",
	"a@example.com@", "a@@b.c", "\"@\"@x.y", "a@b..c", "a@-.-", "a\t@b.c", "a@xn--80ak6aa92e.com", "postmaster"}

func genC07(g *gen) []*Scenario {
	var out []*Scenario
	allRules := "set-with helo file:pl1 or host file:pl1 or source file:pl2 with note a\nset-with ip file:pl1 with note b\nset-with from file:pl1 or to file:pl2 or from \"\" with note c\n" +
		"set-with source . or helo . or host . with note d\nset-with dbl any dbl.test or dnsbl bl.test with note e\nset-with dbl any sbl.spamhaus.org or dnsbl sbl.spamhaus.org. with note f\n" +
		"set-with helo-has bogus,nodots,ip,myip,remip,otherip,none with note g\nset-with from-has bad,resolves,baddom,unknown,route or to-has bad,resolves,baddom,unknown,route with note h\n" +
		"set-with dns good,nodns,inconsistent,noforward tls on or all with tls-opt no-client\nset-with helo \"\" or source \"\" or from @ or to @ with note i\n"
	odd := "@\n.\n..\n<>\n\"\n  \n#\n@.\n.@\n/\n0.0.0.0/0\n::/0\n%s\n\xff\xfe\n" + strings.Repeat("z", 300) + "\n@example.com"
	for i := 0; i < g.n(30, 300); i++ {
		cfg := baseCfg()
		cfg.StdRules = g.chance(50)
		cfg.RFiles = []string{"rules"}
		cfg.SmtpLog = g.chance(60)
		cfg.Log = g.chance(70)
		if cfg.SmtpLog && g.chance(50) {
			cfg.DnCount = 1 + g.Intn(3)
			cfg.DnLog = g.chance(50)
			cfg.MinPhase = g.pick("helo", "from", "to", "message", "accepted")
		}
		if g.chance(50) {
			cfg.Cert, cfg.Key = "cert1.pem", "key1.pem"
		}
		if g.chance(30) {
			cfg.FromReject = g.pick("pl1", "odd", "nofile")
		}
		if g.chance(30) {
			cfg.HeloReject = g.pick("pl1", "odd", "nofile")
		}
		if g.chance(40) {
			cfg.ConnCfg = "conns"
		}
		cfg.PerIP = g.chance(40)
		if g.chance(25) {
			cfg.SaveDir, cfg.Force = "", true
		}
		rg := &ruleGen{gen: g, files: []string{"pl1", "pl2", "odd", "nofile"}, withs: []string{"message", "note", "savedir!", "tls-opt", "make-yakker"}}
		rules := func() string {
			switch g.Intn(5) {
			case 0:
				return allRules + rg.rules(0, 3)
			case 1:
				return strings.NewReplacer("file:pl1", "file:odd", "file:pl2", "file:odd").Replace(allRules) + "\n"
			case 2:
				return g.mutate(g.mutate(rg.rules(1, 4)))
			case 3:
				return g.pick("include rules\n", "include inc1\naccept all\n", "accept \x00\n", "\xff\xfe", "\"", "(((((((((((((", strings.Repeat("(", 40), strings.Repeat("not ", 40)+"all\n", "", "\n\n\\", "with", ";", strings.Repeat("reject all;\n", 20))
			}
			return rg.rules(1, 5)
		}
		z := stdZone()
		z.Names = append(z.Names, NameEnt{N: "7.100.51.198.sbl.spamhaus.org.", A: []string{"127.0.0.2"}, Txt: []string{"https://x.test/SBL1", "nothing", "/"}},
			NameEnt{N: "example.com.sbl.spamhaus.org.", A: []string{"127.0.0.2"}}, NameEnt{N: "v6.example.com.sbl.spamhaus.org.", A: []string{"127.0.0.2"}},
			NameEnt{N: "weird.example.com.", Mx: []MX{{0, "."}, {1, "localhost."}}}, NameEnt{N: "empty.example.com."})
		sc := &Scenario{Cfg: cfg, Zone: z, Files: append(patFiles(), FileEnt{"odd", odd}, FileEnt{"inc1", "include inc2\n"}, FileEnt{"inc2", "include ./inc1\n"},
			FileEnt{"rules", "accept all\n"}, FileEnt{"conns", "192.0.2.26 hostname=x.example.org\n"})}
		from := func() string { return g.pick(g.of(nastyAddrs), g.plainAddr()) }
		to := from
		hl := func() string { return g.pick(g.of(nastyHelos), g.helo()) }
		rips := append([]string{"fe80::1%eth0", "::ffff:10.1.1.1"}, ripPool...)
		bystander := ""
		now := 0
		if g.chance(50) {
			cfg.DnDur = []int{100, 10, 28800}[g.Intn(3)]
			sc.Cfg.DnDur = cfg.DnDur
			rips = []string{"203.0.113.9", "198.51.100.7"} // the same clients again
		}
		for k := 0; k < 6; k++ {
			sc.add(file("rules", rules()))
			if g.chance(45) { // what is remembered of clients ages
				now += []int{1, cfg.DnDur - 1, cfg.DnDur, cfg.DnDur + 1, 3 * 24 * 3600, 40 * 24 * 3600}[g.Intn(6)]
				sc.add(clock(now))
			}
			if cfg.ConnCfg != "" && g.chance(50) {
				sc.add(file("conns", g.pick("", "\n#\n", "junk\n", "= = =\n", "* hostname=\n", "192.0.2.25 cert=nofile key=nofile\n", "192.0.2.25 cert=conns key=conns\n", "a b c d e f\n", "* =\n", "* hostname=all.example.org", "\xff\n", "192.0.2.25/33\n", "/\n", "* cert=\n")))
			}
			if g.chance(20) {
				sc.add(gone(g.pick("rules", "pl1", "odd", "conns")))
			}
			if g.chance(25) {
				sc.add(Step{Ev: "accfail", FErr: g.pick("gone", "full", "memory", "odd")})
			}
			c := g.name()
			rip := g.of(rips)
			switch g.Intn(7) {
			case 0: // garbage
				sc.add(conn(c, rip))
				for n := 0; n < 1+g.Intn(9); n++ {
					sc.add(raw(c, g.pick("\x00\x01\x02", "\xff\xf4\xff\xfd\x06", " ", "EHLO", "HELO ", "MAIL", "MAIL FROM:", "MAIL FROM:<", "MAIL FROM:>", "RCPT TO:<", "DATA x", "GET / HTTP/1.0", "MAIL FROM:<a@b.c> X=Y Z", "EHLO\t\tx", strings.Repeat("A", 400), "RSET x", "QUIT now", "NOOP", "VRFY", "AUTH PLAIN", "mail from:<>", "rcpt to:<a@example.com>", "\x16\x03\x01\x02\x00\x01\x00")))
				}
				sc.add(quit(c))
			case 1:
				sc.add(conn(c, rip))
				if g.chance(50) {
					sc.add(cmd(c, "EHLO", hl()))
				}
				sc.add(Step{Ev: "flood", C: c})
			case 2: // disconnections
				sc.add(conn(c, rip))
				t := g.talk(c, talkOpts{rip: rip, from: from, to: to, helo: hl, noEnd: true, steps: 1})
				n := g.Intn(len(t))
				sc.add(t[1 : 1+n]...)
				sc.add(Step{Ev: "abort", C: c, Text: g.pick("", "MAIL FROM:<a@", "Subject: x\r\n\r\nhalf a mess", ".\r", "\r\n", "\x00")})
			case 3: // TLS that does not work
				sc.add(conn(c, rip), cmd(c, "EHLO", hl()))
				sc.add(Step{Ev: "starttls", C: c, Works: false, Text: g.pick("close", "alert", "junk")})
				sc.add(quit(c))
			case 4:
				t := g.talk(c, talkOpts{rip: rip, from: from, to: to, helo: hl, tls: 60, odd: 30})
				for k := range t {
					if t[k].Ev == "starttls" && g.chance(60) {
						t[k].CCert = g.pick("bare", "bare", "short", "other", "many")
					}
				}
				sc.add(t...)
			default:
				sc.add(g.talk(c, talkOpts{rip: rip, from: from, to: to, helo: hl, odd: 30, multiHelo: 30, abortEnd: true, moreRcpts: 4})...)
			}
			if g.chance(20) && bystander == "" {
				bystander = g.name()
				sc.add(g.talk(bystander, talkOpts{rip: "192.0.2.200", helo: func() string { return "mx.example.org" }, from: g.plainAddr, to: g.plainAddr, noEnd: true})...)
			}
		}
		if bystander != "" {
			sc.add(cmd(bystander, "RSET", ""), cmd(bystander, "MAIL", g.plainAddr()), cmd(bystander, "RCPT", g.plainAddr()), cmd(bystander, "DATA", ""), msg(bystander, g.body()...), quit(bystander))
		}
		sc.add(file("rules", "accept from a@example.com\n"), file("conns", ""))
		c := g.name()
		sc.add(conn(c, "192.0.2.201"), cmd(c, "EHLO", "mx.example.org"), cmd(c, "MAIL", "a@example.com"), cmd(c, "RCPT", "b@example.com"), cmd(c, "DATA", ""), msg(c, g.body()...), quit(c))
		out = append(out, sc)
	}
	return out
}

// ----- C08: address patterns

// nearAddrs are addresses that a pattern matches or nearly matches.
func (g *gen) nearAddrs(p string) []string {
	var q []string
	up := func(s string) string {
		b := []byte(s)
		for i := range b {
			if g.chance(50) {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
		return string(b)
	}
	i := strings.IndexByte(p, '@')
	loc, dom := "", ""
	switch {
	case i == 0:
		loc, dom = "", p[1:]
	case i > 0:
		loc, dom = p[:i], p[i+1:]
	default:
		loc = p
	}
	dom = strings.TrimPrefix(dom, ".")
	if loc == "" {
		loc = "fred"
	}
	if dom == "" {
		dom = "example.net"
	}
	q = append(q, loc+"@"+dom, up(loc+"@"+dom), loc, loc+"@", "@"+dom, loc+"@x."+dom, up(loc+"@x.y."+dom), loc+"@not"+dom, loc+"@"+dom+"x", "x"+loc+"@"+dom, loc+"x@"+dom, loc+"@"+dom+".org",
		"other@"+dom, "other@sub."+dom, "other@elsewhere.net", loc+"@elsewhere.net", loc+"@."+dom, "@"+dom+":"+loc+"@"+dom, loc+"@"+dom+"@"+dom, loc+"@"+dom+".", dom, "."+dom, p)
	if k := strings.IndexByte(dom, '.'); k > 0 {
		q = append(q, loc+"@"+dom[k+1:], loc+"@"+dom[:k], "a@"+dom[k:])
	}
	return q
}

func genC08(g *gen) []*Scenario {
	var out []*Scenario
	pats := []string{"<>", "@", "a@", "fred@", "@example.com", "@.example.com", "@com", "@.com", "@.org", "a@example.com", "bob.smith@sub.example.com", "@sub.example.com", "@.sub.example.com", "noat", "@.", ".", "@example.com.",
		"a@b@c", "@@", "\"q q\"@example.com", "a@.example.com", ".example.com", "example.com", "@a.b.c.d", "@.b.c.d", "x+y@", "postmaster@", "FRED@Example.Com", "@EXAMPLE.ORG", ""}
	quote := func(p string) string {
		return "\"" + strings.NewReplacer("\\", "\\\\", "\"", "\\\"").Replace(p) + "\""
	}
	for i := 0; i < g.n(26, 250); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", "accept all\n"}, {"pats", "@\n"}}}
		for k := 0; k < 7; k++ {
			var ps []string
			p := pats[(i*7+k)%len(pats)]
			if g.chance(15) {
				p = g.addrPat()
			}
			ps = append(ps, p)
			arg := quote(p)
			if g.chance(25) && p != "" {
				ps = append(ps, g.some(pats[:16], 1, 3)...)
				sc.add(file("pats", strings.Join(ps, "\n")+g.pick("\n", "")))
				arg = "file:pats"
			}
			neg := g.pick("", "", "not ")
			sc.add(file("rules", "@from reject "+neg+"from "+arg+" with message F\n@to reject "+neg+"to "+arg+" with message T\n"))
			var as []string
			for _, p := range ps {
				as = append(as, g.nearAddrs(p)...)
			}
			as = append(as, g.some(oddAddrs, 3, 6)...)
			as = append(as, g.some(pats, 2, 4)...)
			c := g.name()
			sc.add(conn(c, g.of(ripPool)), cmd(c, "EHLO", "mx.example.org"))
			// senders
			sc.add(cmd(c, "MAIL", ""), cmd(c, "RCPT", "z@q.test"), cmd(c, "RSET", ""))
			for _, a := range g.some(as, 8, 12) {
				sc.add(cmd(c, "MAIL", a), cmd(c, "RSET", ""))
			}
			for n := 0; n < 3; n++ { // somebody must get through
				sc.add(cmd(c, "MAIL", g.pick("zz@nowhere.test", "a@example.com", "fred@a.b.c.d")))
			}
			for _, a := range as {
				sc.add(cmd(c, "RCPT", a))
			}
			sc.add(quit(c))
		}
		out = append(out, sc)
	}
	return out
}

// ----- C09: host patterns

func genC09(g *gen) []*Scenario {
	var out []*Scenario
	pats := []string{"example.org", ".example.org", "example.org.", ".example.org.", "mx.example.org", ".mx.example.org", "org", ".org", ".", "..", "MX.Example.ORG", ".Example.Org", "a.b.c.d", ".b.c.d", ".c.d", "localhost", ".localhost", "nodots", "[198.51.100.7]", "198.51.100.7", ".100.7", "x.mx.example.org", "example", ".example", "mx.example.org.", "xample.org", ".xample.org", ""}
	near := func(p string) []string {
		b := strings.Trim(p, ".")
		if b == "" {
			b = "example.org"
		}
		q := []string{b, b + ".", "." + b, "x." + b, "x.y." + b, "x" + b, b + "x", strings.ToUpper(b), "X." + strings.ToUpper(b) + ".", "mx." + b + ".", b + ".com", ".", "..", "x..", b + "..", "not" + b}
		if i := strings.IndexByte(b, '.'); i > 0 {
			q = append(q, b[i+1:], b[i:], b[:i])
		}
		return q
	}
	name := func(n string) bool { // usable as a name in the DNS
		b := strings.TrimSuffix(n, ".")
		if b == "" || strings.Contains(b, "..") || b[0] == '.' || strings.ContainsAny(b, "[]: \"") || b == "localhost" {
			return false
		}
		return strings.ContainsAny(strings.ToLower(b), "abcdefghijklmnopqrstuvwxyz")
	}
	for i := 0; i < g.n(28, 250); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", "accept all\n"}, {"pats", "x\n"}}}
		for k := 0; k < 6; k++ {
			p := pats[(i*6+k)%len(pats)]
			ps := []string{p}
			arg := "\"" + p + "\""
			if g.chance(25) && p != "" {
				ps = append(ps, g.some(pats[:12], 1, 3)...)
				sc.add(file("pats", strings.Join(ps, "\n")+"\n"))
				arg = "file:pats"
			}
			var ns []string
			for _, p := range ps {
				ns = append(ns, near(p)...)
			}
			// the client's names
			z := Zone{}
			var ptr []string
			for _, n := range g.some(ns, 1, 6) {
				if !name(n) || len(ptr) == 3 {
					continue
				}
				n = strings.TrimSuffix(n, ".") + "."
				dup := false
				for _, o := range ptr {
					dup = dup || strings.EqualFold(o, n)
				}
				if dup {
					continue
				}
				ptr = append(ptr, n)
				switch g.Intn(4) {
				case 0, 1:
					z.Names = append(z.Names, NameEnt{N: strings.ToLower(n), A: []string{"198.51.100.7"}})
				case 2:
					z.Names = append(z.Names, NameEnt{N: strings.ToLower(n), A: []string{"198.51.100.6"}})
				}
			}
			z.Ptr = []PtrEnt{{"198.51.100.7", ptr}}
			sc.add(Step{Ev: "zone", Zone: &z})
			neg := g.pick("", "", "not ")
			op := g.pick("helo", "helo", "ehlo", "source", "source", "host")
			switch op {
			case "host":
				sc.add(file("rules", g.pick("@connect", "@helo")+" reject "+neg+"host "+arg+" with message H\n"))
				for n := 0; n < 2; n++ {
					c := g.name()
					sc.add(conn(c, g.pick("198.51.100.7", "198.51.100.7", "203.0.113.9")), cmd(c, "EHLO", g.of(ns)), quit(c))
				}
			case "source":
				sc.add(file("rules", "@from reject "+neg+"source "+arg+" with message S\n"))
				c := g.name()
				sc.add(conn(c, g.pick("198.51.100.7", "203.0.113.9", "203.0.113.9", "203.0.113.9")))
				for n := 0; n < 8; n++ {
					sc.add(cmd(c, "EHLO", g.pick("none.test", g.of(ns))))
					for m := 0; m < 3; m++ {
						sc.add(cmd(c, "MAIL", g.pick("", "u@none.test", "u@"+g.of(ns), "u@"+g.of(ns), g.of(ns), "@"+g.of(ns)+":u@none.test")), cmd(c, "RCPT", "r@none.test"), cmd(c, "RSET", ""))
					}
				}
				sc.add(quit(c))
			default:
				sc.add(file("rules", "@helo reject "+neg+op+" "+arg+"\n"))
				c := g.name()
				sc.add(conn(c, "203.0.113.9"), cmd(c, "HELO", ""))
				for _, n := range ns {
					sc.add(cmd(c, g.pick("EHLO", "HELO"), n))
				}
				for _, n := range g.some(nastyHelos, 3, 6) {
					sc.add(cmd(c, "EHLO", n))
				}
				sc.add(quit(c))
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C10: IP patterns

func v4s(b [4]byte) string { return fmt.Sprintf("%d.%d.%d.%d", b[0], b[1], b[2], b[3]) }

func genC10(g *gen) []*Scenario {
	var out []*Scenario
	rnd4 := func() (b [4]byte) {
		for i := range b {
			b[i] = byte(g.Intn(256))
		}
		if b[0] == 0 || b[0] == 127 {
			b[0] = 9
		}
		return
	}
	v6s := func(h [8]int, style int) string {
		var p []string
		for _, x := range h {
			switch style {
			case 1:
				p = append(p, fmt.Sprintf("%04x", x))
			case 2:
				p = append(p, fmt.Sprintf("%X", x))
			default:
				p = append(p, fmt.Sprintf("%x", x))
			}
		}
		return strings.Join(p, ":")
	}
	canon6 := func(h [8]int) string { // no zero groups in our addresses: canonical as it is
		return v6s(h, 0)
	}
	rnd6 := func() (h [8]int) {
		for i := range h {
			h[i] = 1 + g.Intn(65535)
		}
		h[0] = 0x2001
		return
	}
	for i := 0; i < g.n(40, 400); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Files: []FileEnt{{"rules", "accept all\n"}, {"ips", "1.2.3.4\n"}}}
		test := func(arg string, rips ...string) {
			neg := g.pick("", "", "", "not ")
			sc.add(file("rules", "@connect reject "+neg+"ip "+arg+"\n"))
			for _, r := range rips {
				c := g.name()
				sc.add(conn(c, r), quit(c))
			}
		}
		for k := 0; k < 9; k++ {
			switch g.Intn(6) {
			case 0, 1:
				b := rnd4()
				n := g.Intn(33)
				near := b
				if n > 0 {
					near[(n-1)/8] ^= 1 << uint(7-(n-1)%8)
				}
				in := b
				if n < 32 {
					in[n/8] ^= 1 << uint(7-n%8)
					in[3] = byte(g.Intn(256))
					if n > 24 {
						in[3] = b[3] ^ (1 << uint(7-n%8))
					}
				}
				test(fmt.Sprintf("%s/%d", v4s(b), n), v4s(b), v4s(near), v4s(in), "2001:db8::7")
			case 2:
				h := rnd6()
				n := g.Intn(129)
				near := h
				if n > 0 {
					near[(n-1)/16] ^= 1 << uint(15-(n-1)%16)
				}
				in := h
				if n < 128 {
					in[n/16] ^= 1 << uint(15-n%16)
				}
				q := []string{canon6(h)}
				for _, x := range [][8]int{near, in} {
					ok := true
					for _, v := range x {
						ok = ok && v != 0
					}
					if ok {
						q = append(q, canon6(x))
					}
				}
				test(fmt.Sprintf("%s/%d", v6s(h, g.Intn(3)), n), append(q, "198.51.100.7")...)
			case 3:
				test(g.pick("2001:db8::7", "2001:DB8::7", "2001:db8:0:0:0:0:0:7", "2001:0db8::0007", "2001:db8::0:7", "2001:db8::/126", "2001:db8::4/125"), "2001:db8::7", "2001:db8::8", "2001:db8::3", "2001:db8::70")
			case 4:
				test(g.pick("198.51.100.7", "::ffff:198.51.100.7", "198.51.100.7/32", "198.51.100.6/31", "::ffff:c633:6407", "198.51.100.70", "198.51.100.0/30", "198.51.100.8/29"), "198.51.100.7", "198.51.100.70", "198.51.100.6", "198.51.10.7", "198.51.100.8")
			default:
				var l []string
				b := rnd4()
				for n := 0; n < 2+g.Intn(5); n++ {
					l = append(l, g.pick("# 198.51.100.7", "mx.example.org", "300.1.2.3", "1.2.3.4/33", "198.51.100", "198.51.100.7/", "*", "198.51.100.7 # no", "all", "198.51.100.007", "/8", "2001:db8::/129", "::/0/0",
						fmt.Sprintf("%s/%d", v4s(b), 16+g.Intn(17)), v4s(b), "203.0.113.0/25", " 203.0.113.9 ", "2001:DB8:1::/48", "198.51.100.7:25", "", "1.2.3.4-1.2.3.9", "0x7f.1"))
				}
				sc.add(file("ips", strings.Join(l, "\n")+g.pick("\n", "")))
				test(g.pick("file:ips", "./ips"), v4s(b), "198.51.100.7", "203.0.113.9", "203.0.113.200", "2001:db8:1::25", "fe80::1%eth0")
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C11: address attributes

func genC11(g *gen) []*Scenario {
	var out []*Scenario
	attrs := []string{"unqualified", "route", "quoted", "noat", "garbage", "bad"}
	pieces := []string{"a", "b", "@", "@", ".", "\"", "<", ">", "[", "]", ":", ",", "example", "com", " ", "x.y", "@example.com"}
	for i := 0; i < g.n(24, 240); i++ {
		cfg := baseCfg()
		cfg.StdRules = i%6 == 5
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", "accept all\n"}}}
		for k := 0; k < 6; k++ {
			at := attrs[(i*6+k)%len(attrs)]
			if g.chance(35) {
				at = strings.Join(g.some(attrs, 1, 3), ",")
			}
			neg := g.pick("", "", "", "not ")
			sc.add(file("rules", "@from reject "+neg+"from-has "+at+" with message F\n@to reject "+neg+"to-has "+at+" with message T\n"))
			var as []string
			as = append(as, g.some(oddAddrs, 8, 12)...)
			as = append(as, g.addr(), g.plainAddr())
			for n := 0; n < 12; n++ {
				s := ""
				for m := 0; m < 1+g.Intn(6); m++ {
					s += g.of(pieces)
				}
				as = append(as, s)
			}
			ok := func(a string) bool { // must travel in brackets and be unambiguous
				return !strings.HasPrefix(a, " ") && !strings.HasSuffix(a, " ") && !(strings.Count(a, "\"") == 1 && strings.HasSuffix(a, "\""))
			}
			c := g.name()
			sc.add(conn(c, g.of(ripPool)), cmd(c, "EHLO", "mx.example.org"), cmd(c, "MAIL", ""), cmd(c, "RCPT", "a@example.com"), cmd(c, "RSET", ""))
			for _, a := range g.some(as, 8, 14) {
				if ok(a) {
					sc.add(cmd(c, "MAIL", a), cmd(c, "RSET", ""))
				}
			}
			for n := 0; n < 4; n++ {
				sc.add(cmd(c, "MAIL", g.pick("a@example.com", "noat", "@x.com:a@b.c", "\"q\"@example.com", "a@b", "a@b.")))
			}
			for _, a := range as {
				if ok(a) && a != "" {
					sc.add(cmd(c, "RCPT", a))
				}
			}
			sc.add(quit(c))
		}
		out = append(out, sc)
	}
	return out
}

// ----- C12: HELO attributes

func genC12(g *gen) []*Scenario {
	var out []*Scenario
	names := []string{"", ".", "nodots", "a.b", "mx.example.org", "198.51.100.7", "[198.51.100.7]", "192.0.2.25", "[192.0.2.25]", "10.0.0.1", "[10.0.0.1]", "2001:db8::7", "[2001:db8::7]", "2001:db8::25", "[2001:db8::25]", "2001:db8::99",
		"[2001:db8::99]", "a:b", ":", "[]", "[", "]", "[.]", "[foo]", "[1.2.3]", "1.2.3", "1.2.3.4.5", "[1.2.3.4", "1.2.3.4]", "256.1.1.1", "[256.1.1.1]", "[[10.0.0.1]]", "..", "[nodots]", "[:]", "localhost", "x", "[x", "::1", "[::1]", "::", "[::]", "1.1.1.1", "[1.1.1.1]", "255.255.255.255", "[255.255.255.255]", "[IPv6:2001:db8::7]", "IPv6:2001:db8::7", "[2001:db8::99%eth0]", "127.0.0.1", "[127.0.0.1]", "2001:db8:1:2:3:4:5:6", "[2001:db8:1:2:3:4:5:6]", "01.2.3.4", "[1.2.3.4]x", "x[1.2.3.4]", "1.2.3.4.", "[1.2.3.4.]", "[1.2.3.4]."}
	for i := 0; i < g.n(26, 200); i++ {
		cfg := baseCfg()
		cfg.StdRules = i%8 == 7
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Files: []FileEnt{{"rules", "accept all\n"}}}
		for k := 0; k < 6; k++ {
			at := heloAttrWords[(i*6+k)%len(heloAttrWords)]
			if g.chance(35) {
				at = strings.Join(g.some(heloAttrWords, 1, 3), ",")
			}
			sc.add(file("rules", g.pick("@helo ", "@helo ", "")+g.pick("reject ", "stall ")+g.pick("", "", "", "not ")+"helo-has "+at+"\n"))
			c := g.name()
			sc.add(Step{Ev: "conn", C: c, Rip: g.pick("198.51.100.7", "2001:db8::7", "10.0.0.1", "192.0.2.25"), Lip: g.pick("192.0.2.25", "2001:db8::25", "10.0.0.1", "198.51.100.7")})
			for _, n := range g.some(names, 18, len(names)) {
				sc.add(cmd(c, g.pick("EHLO", "HELO"), n))
			}
			sc.add(quit(c))
		}
		out = append(out, sc)
	}
	return out
}

// ----- C13: reverse DNS

func genC13(g *gen) []*Scenario {
	var out []*Scenario
	ips := []string{"198.51.100.7", "198.51.100.8", "2001:db8::7", "2001:db8::8"}
	for i := 0; i < g.n(34, 300); i++ {
		cfg := baseCfg()
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Files: []FileEnt{{"rules", "accept all\n"}}}
		for k := 0; k < 9; k++ {
			z := Zone{}
			for _, n := range []string{"a.example.org.", "b.example.org.", "c.example.net.", "d.example.net."} {
				switch g.Intn(5) {
				case 0: // does not exist
				case 1:
					z.Names = append(z.Names, NameEnt{N: n, St: g.pick("ok", "ok", "fail")})
				default:
					z.Names = append(z.Names, NameEnt{N: n, A: g.some(ips, 1, 3)})
				}
			}
			for _, ip := range ips {
				if g.chance(85) {
					ns := g.some([]string{"a.example.org.", "b.example.org.", "c.example.net.", "d.example.net."}, 1, 4)
					for j := range ns {
						if g.chance(15) {
							ns[j] = strings.ToUpper(ns[j][:1]) + ns[j][1:]
						}
					}
					z.Ptr = append(z.Ptr, PtrEnt{ip, ns})
				}
			}
			sc.add(Step{Ev: "zone", Zone: &z})
			at := strings.Join(g.some(dnsAttrWords, 1, 2), ",")
			sc.add(file("rules", fmt.Sprintf("@connect reject %sdns %s with message C\n@helo stall %sdns %s\n@from reject %shost %s with message H\n",
				g.pick("", "not "), g.pick("noforward", "inconsistent", "nodns,noforward"), g.pick("", "not "), at, g.pick("", "not "), g.pick("a.example.org", ".example.org", ".example.net", "d.example.net", ".net"))))
			for n := 0; n < 2; n++ {
				if n == 1 {
					sc.add(file("rules", fmt.Sprintf("@to stall dns %s with message T\n", g.of(dnsAttrWords))))
				}
				c := g.name()
				sc.add(conn(c, g.of(ips)), cmd(c, "EHLO", "mx.example.org"), cmd(c, "HELO", "mx2.example.org"), cmd(c, "MAIL", "a@[1.2.3.4].q"), cmd(c, "RCPT", "b@c.d"), cmd(c, "DATA", ""), msg(c, g.body()...), quit(c))
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C14: mail domains

func genC14(g *gen) []*Scenario {
	var out []*Scenario
	addrs := []string{"203.0.113.5", "198.51.100.9", "10.1.1.1", "172.16.5.5", "172.31.255.255", "172.32.0.1", "172.15.0.1", "192.168.1.1", "192.169.0.1", "127.0.0.1", "127.9.9.9", "169.254.1.1", "224.0.0.5", "239.1.1.1", "0.0.0.0", "255.255.255.255",
		"2001:db8::1", "fe80::1", "fc00::1", "fdff::1", "fec0::1", "feff::1", "::1", "ff02::1", "2620:0:1::1", "9.255.255.255", "11.0.0.0", "1.1.1.1", "168.254.1.1", "100.64.0.1"}
	good := []string{"203.0.113.5", "198.51.100.9", "2001:db8::1", "1.1.1.1"}
	doms := []string{"d1.test", "d2.test", "sub.d1.test", "D3.Test", "d4.example", "d5.example"}
	lowers := []string{"sub.d1.test", "mail.d1.test", "www.d1.test", "mx.d2.test", "d1.test.test"}
	hosts := []string{"h1.test.", "h2.test.", "h3.test.", "H4.test.", "h5.test."}
	for i := 0; i < g.n(34, 300); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Files: []FileEnt{{"rules", "@to reject to-has resolves with message R\n@to reject to-has baddom with message B\n@to stall to-has unknown with message U\n" +
			"@from reject from-has resolves with message FR\n@from reject from-has baddom with message FB\n@from stall from-has unknown with message FU\n"}}}
		doms[2] = lowers[i%len(lowers)]
		for k := 0; k < 7; k++ {
			z := Zone{}
			as := func() []string {
				if g.chance(50) {
					return g.some(good, 1, 2)
				}
				return g.some(addrs, 1, 3)
			}
			for _, h := range hosts {
				switch g.Intn(6) {
				case 0:
				case 1:
					z.Names = append(z.Names, NameEnt{N: h, St: "fail"})
				case 2:
					z.Names = append(z.Names, NameEnt{N: h})
				default:
					z.Names = append(z.Names, NameEnt{N: h, A: as()})
				}
			}
			for _, d := range doms {
				e := NameEnt{N: d + "."}
				switch g.Intn(8) {
				case 0:
					continue
				case 1:
					e.MxSt = "fail"
					e.A = as()
				case 2, 3:
					e.A = as()
					if g.chance(15) {
						e.St = "fail"
					}
				default:
					if g.chance(50) {
						e.A = as()
					}
					for j, h := range g.some(hosts, 1, 4) {
						e.Mx = append(e.Mx, MX{j * 10, h})
					}
					if g.chance(20) {
						e.Mx = append(e.Mx, MX{g.Intn(50), g.pick(".", "localhost.", "LOCALHOST.", "LocalHost.", "nowhere.test.", "d1.test.", "d2.test.")})
					}
					if g.chance(10) {
						e.Mx = []MX{{0, g.pick(".", "localhost.", "LocalHost.")}}
					}
				}
				z.Names = append(z.Names, e)
			}
			sc.add(Step{Ev: "zone", Zone: &z})
			c := g.name()
			sc.add(conn(c, "203.0.113.9"), cmd(c, "EHLO", "mx.example.org"))
			for _, d := range g.some(doms, 2, 4) {
				sc.add(cmd(c, "MAIL", g.pick("u", "u", "u", "\"u v\"", "u+x", "\"u\"")+"@"+d), cmd(c, "RSET", ""))
			}
			sc.add(cmd(c, "MAIL", "noat"), cmd(c, "MAIL", "u@unqual"))
			for _, d := range doms {
				sc.add(cmd(c, "RCPT", g.pick("u", "v", "u", "v", "\"u\"", "v.w")+"@"+d))
			}
			sc.add(cmd(c, "RCPT", g.pick("\"q q\"@d1.test", "@d1.test:u@d2.test", "a@d1.test.", "a@nothere.test", "a@h1.test", "a@b@d2.test")))
			sc.add(quit(c))
		}
		out = append(out, sc)
	}
	return out
}

// ----- C15: blocklists

func genC15(g *gen) []*Scenario {
	var out []*Scenario
	bls := []string{"bl1.test", "bl2.test.", "bl3.test", "sbl.spamhaus.org", "zen.spamhaus.org", "new.bl1.test"}
	dbls := []string{"dbl1.test", "dbl2.test.", "sbl.spamhaus.org."}
	rips := []string{"198.51.100.7", "7.100.51.198", "203.0.113.9", "2001:db8::7", "10.200.30.4"}
	doms := []string{"example.com", "mx.example.org", "spam.test", "Sub.Example.com", "bad.test"}
	for i := 0; i < g.n(34, 300); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Files: []FileEnt{{"rules", "accept all\n"}}}
		for k := 0; k < 6; k++ {
			z := Zone{}
			seen := map[string]bool{}
			put := func(e NameEnt) {
				e.N = strings.ToLower(e.N)
				if !seen[e.N] {
					seen[e.N] = true
					z.Names = append(z.Names, e)
				}
			}
			dot := func(s string) string { return strings.TrimSuffix(s, ".") + "." }
			for _, r := range rips {
				p := strings.Split(r, ".")
				if len(p) != 4 {
					continue
				}
				for _, b := range bls {
					if g.chance(30) {
						e := NameEnt{N: p[3] + "." + p[2] + "." + p[1] + "." + p[0] + "." + dot(b), A: g.some([]string{"127.0.0.2", "127.0.0.10", "1.2.3.4"}, 1, 2)}
						if g.chance(10) {
							e.A = nil
						}
						if strings.HasPrefix(b, "sbl") {
							e.Txt = g.some([]string{"https://www.spamhaus.org/sbl/query/SBL1", "https://x/SBL22", "nothing", "http://x/"}, 0, 3)
						}
						put(e)
					}
					if g.chance(10) { // as it is not to be asked for
						put(NameEnt{N: r + "." + dot(b), A: []string{"127.0.0.2"}})
					}
				}
			}
			for _, d := range append(doms, "client.example.net", "fwd.example.net") {
				for _, b := range dbls {
					if g.chance(25) {
						put(NameEnt{N: d + "." + dot(b), A: []string{"127.0.1.2"}})
					}
				}
			}
			put(NameEnt{N: "client.example.net.", A: []string{"198.51.100.7", "2001:db8::7"}})
			put(NameEnt{N: "fwd.example.net.", A: []string{"203.0.113.1"}})
			for _, r := range rips {
				if g.chance(70) {
					z.Ptr = append(z.Ptr, PtrEnt{r, g.some([]string{"client.example.net.", "fwd.example.net.", "bad.test."}, 1, 2)})
				}
			}
			sc.add(Step{Ev: "zone", Zone: &z})
			var b strings.Builder
			for n := 0; n < 2+g.Intn(4); n++ {
				op := "dnsbl " + g.of(bls)
				ph := g.pick("@connect ", "@helo ", "@from ", "@to ", "", "")
				if g.chance(50) {
					src := g.pick("host", "ehlo", "helo", "from", "any", "host,ehlo", "host,from", "ehlo,from")
					op = "dbl " + src + " " + g.of(dbls)
					if src != "host" {
						ph = g.pick("@from ", "@to ", "", "")
					}
				}
				switch g.Intn(5) {
				case 0:
					op = "not " + op
				case 1:
					op += " or dnsbl " + g.of(bls)
				case 2:
					op += " dnsbl " + g.of(bls)
				}
				act := g.pick("reject", "stall", "reject", "set-with", "set-with")
				if ph == "@connect " && act == "reject" && g.chance(70) {
					act = "set-with"
				}
				b.WriteString(ph + act + " " + op)
				if act == "set-with" {
					b.WriteString(" with note n" + fmt.Sprint(n))
				} else if g.chance(60) {
					b.WriteString(" with message m" + fmt.Sprint(n))
				}
				b.WriteString("\n")
			}
			sc.add(file("rules", b.String()))
			for n := 0; n < 2; n++ {
				c := g.name()
				sc.add(g.talk(c, talkOpts{rip: g.of(rips), helo: func() string {
					return g.pick("mx.example.org", "spam.test", "bad.test", "x.bad.test", "", "[10.200.30.4]", "mx.example.org.")
				},
					from: func() string {
						return g.pick("", "a@example.com", "b@spam.test", "c@Sub.example.com", "noat", "@x:a@bad.test", "d@bad.test", "a@unq", "x@bad.test.")
					}, to: g.plainAddr, multiHelo: 25, steps: 2})...)
			}
		}
		out = append(out, sc)
	}
	return out
}

// ----- C16: pattern files

func genC16(g *gen) []*Scenario {
	var out []*Scenario
	layout := func(ps []string) string {
		var b strings.Builder
		for i, p := range ps {
			if g.chance(25) {
				b.WriteString(g.pick("\n", "# comment "+p+"\n", "   \n", "#"+p+"\n", "  # indented\n", "\t\n"))
			}
			if g.chance(30) {
				p = strings.ToUpper(p)
			}
			if g.chance(30) {
				p = g.pick(" ", "\t", "   ") + p
			}
			if g.chance(30) {
				p += g.pick(" ", "\t", " \t ", "\r")
			}
			b.WriteString(p)
			if i < len(ps)-1 || g.chance(60) {
				b.WriteString("\n")
			}
		}
		if g.chance(15) {
			b.WriteString(g.pick("# the end", "\n\n", "  ", "#\n"))
		}
		return b.String()
	}
	for i := 0; i < g.n(44, 400); i++ {
		cfg := baseCfg()
		cfg.StdRules = false
		cfg.RFiles = []string{"rules"}
		sc := &Scenario{Cfg: cfg, Zone: stdZone(), Files: []FileEnt{{"rules", "accept all\n"}, {"f1", "@example.com\n"}}}
		if g.chance(25) {
			sc.Cfg.FromReject, sc.Cfg.ToAccept, sc.Cfg.HeloReject = g.pick("", "f1"), g.pick("", "f2", "f2"), g.pick("", "sub.f3")
		}
		for k := 0; k < 7; k++ {
			for _, f := range []string{"f1", "f2", "sub.f3"} {
				switch g.Intn(7) {
				case 0:
					sc.add(g.away(f))
				case 1:
					sc.add(file(f, g.pick("", "\n", "# only a comment\n", "   \n\t\n", "#", "  # indented\n\t# too\n", " #", "\t#@example.com\n")))
				default:
					sc.add(file(f, layout(g.some([]string{"@example.com", "fred@", "a@example.org", "@.example.org", "mx.example.com", ".example.org", "198.51.100.0/24", "2001:db8::7", "<>", "jim@example.com", "@spam.test", "203.0.113.9"}, 1, 5))))
				}
			}
			fn := func() string {
				return g.pick("file:f1", "./f1", "file:./f1", "/DIR/f1", "file:/DIR/f2", "file:f2", "./sub.f3", "file:sub.f3", "file:never", "./never", "file:f1/none", "./rules/f1", "file:./", "file:/DIR/"+strings.Repeat("n", 300))
			}
			var b strings.Builder
			for n := 0; n < 1+g.Intn(3); n++ {
				op := g.pick("@from reject from", "@to reject to", "@helo stall helo", "@helo reject host", "@helo reject ip", "@from stall source", "@to stall to", "@from reject from", "@to stall to", "@data reject to") + " " + fn()
				if g.chance(40) {
					op = strings.Replace(strings.Replace(op, "reject ", "reject not ", 1), "stall ", "stall not ", 1)
				}
				switch g.Intn(7) {
				case 0:
					op += " or ip " + fn()
				case 1:
					op += " ip " + g.pick(fn(), "198.51.100.7")
				case 2:
					op += "; ip " + fn() + " with message second"
				case 3:
					op = strings.Replace(op, "@from reject ", "@from reject all or ", 1)
				case 4:
					op += " not ( ip " + fn() + " )"
				}
				b.WriteString(op + "\n")
			}
			sc.add(file("rules", b.String()))
			c := g.name()
			t := g.talk(c, talkOpts{steps: 3, moreRcpts: 4, rip: g.of(ripDns), helo: func() string { return g.pick("mx.example.com", "mx.example.org", "x.example.org") },
				from: func() string { return g.pick("", g.plainAddr(), g.plainAddr()) }, to: g.plainAddr})
			if g.chance(40) { // read once per session
				j := 1 + g.Intn(len(t)-1)
				t = append(append(append([]Step{}, t[:j]...), file(g.pick("f1", "f2"), layout([]string{g.addrPat(), g.addrPat()}))), t[j:]...)
			}
			sc.add(t...)
		}
		out = append(out, sc)
	}
	return out
}

// patM is the model of one family of patterns or attributes on all short texts.
func patM(family string) []model {
	return []model{{name: "McPat", cfg: "McPat_" + family, thor: true, limit: 1000, limitT: 1000}}
}

// reloadM is the model of files changing under the server.
var reloadM = []model{{name: "McReload", cut: true, cfg: "McReload", thor: true, limit: 500, limitT: 15000}}

func init() {
	props["C07"] = &prop{aspects: "code,drop,startup,closed", gen: genC07, models: []model{{name: "McOdd", cfg: "McOdd", thor: true, limit: 400, limitT: 6000}}}
	props["C08"] = &prop{aspects: "code,text", gen: genC08, models: patM("addr")}
	props["C09"] = &prop{aspects: "code,text,drop", gen: genC09, models: patM("host")}
	props["C10"] = &prop{aspects: "drop,code", gen: genC10, models: patM("ip")}
	props["C11"] = &prop{aspects: "code,text", gen: genC11, models: patM("form")}
	props["C12"] = &prop{aspects: "code", gen: genC12, models: patM("helo")}
	props["C13"] = &prop{aspects: "code,text,drop,save", gen: genC13, models: dnsM("rdns")}
	props["C14"] = &prop{aspects: "code,text", gen: genC14, models: dnsM("mx")}
	props["C15"] = &prop{aspects: "code,text,drop,bang", gen: genC15, models: dnsM("dbl")}
	props["C16"] = &prop{aspects: "code,text", gen: genC16, models: reloadM}
}

// McDns on one family of names.
func dnsM(family string) []model {
	return []model{{name: "McDns", cfg: "McDns_" + family, thor: true, limit: 120, limitT: 6000}}
}
