package main

// Sizes: conversations, texts, files, zones and tables that are larger than
// usual ones, for what depends on how much there is of something.

import (
	"fmt"
	"strings"
)

func times(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

// pad is a text of n characters.
func pad(n int) string { return strings.Repeat("0123456789", n/10+1)[:n] }

func visit(c, rip, helo, from string, to []string, body ...string) []Step {
	q := []Step{conn(c, rip), cmd(c, "EHLO", helo), cmd(c, "MAIL", from)}
	for _, t := range to {
		q = append(q, cmd(c, "RCPT", t))
	}
	if len(body) > 0 {
		q = append(q, cmd(c, "DATA", ""), msg(c, body...))
	}
	return append(q, quit(c))
}

func (g *gen) sized(rules string, files ...FileEnt) *Scenario {
	cfg := baseCfg()
	cfg.RFiles = []string{"rules"}
	return &Scenario{Cfg: cfg, Zone: stdZone(), Files: append(files, FileEnt{"rules", rules})}
}

func manyRcpts(n int) []string {
	var q []string
	for i := 0; i < n; i++ {
		q = append(q, fmt.Sprintf("r%d@example.org", i))
	}
	return q
}

func (g *gen) bulky(lines, width int) []string {
	g.cnt++
	q := []string{fmt.Sprintf("Subject: s%d", g.cnt), ""}
	for i := 0; i < lines; i++ {
		q = append(q, fmt.Sprintf("%d ", i)+pad(width))
	}
	return q
}

// scale is the larger scenarios of a property.
func scale(id string, g *gen) []*Scenario {
	f := scales[id]
	if f == nil {
		return nil
	}
	return f(g)
}

var scales = map[string]func(*gen) []*Scenario{
	"C01": func(g *gen) []*Scenario {
		n := g.pick2(40, 60)
		a := g.sized(times(n, func(i int) string {
			return fmt.Sprintf("%s from u%d@x.test\n", []string{"reject", "stall", "accept"}[i%3], i)
		}) + "reject from @x.test\n")
		c := g.name()
		a.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"))
		for i := n + 1; i >= 0; i-- {
			a.add(cmd(c, "MAIL", fmt.Sprintf("u%d@x.test", i)), cmd(c, "RSET", ""))
		}
		a.add(quit(c))
		return []*Scenario{a}
	},
	"C02": func(g *gen) []*Scenario {
		var out []*Scenario
		for _, t := range []string{
			"reject " + times(40, func(i int) string { return fmt.Sprintf("from u%d@x.test or ", i) }) + "from last@x.test\n",
			"reject " + times(40, func(i int) string { return fmt.Sprintf("not from u%d@x.test ", i) }) + "from @x.test\n",
			"reject " + strings.Repeat("(", 30) + "from u1@x.test" + strings.Repeat(")", 30) + "\n",
			"reject " + strings.Repeat("not ", 31) + "from u1@x.test\n",
			"reject " + times(30, func(i int) string { return fmt.Sprintf("from u%d@x.test with message m%d; ", i, i) }) + "from last@x.test with message \"" + pad(400) + "\"\n",
			"reject from u1@x.test with message \"" + strings.Repeat("x\\\"y\\\\", 60) + "\"\n",
			times(25, func(i int) string { return "include inc\n" }) + "reject from last@x.test\n",
			"include i1\nreject from last@x.test\n",
			strings.Repeat("# "+pad(200)+"\n", 12) + strings.Repeat("\n", 60) + "reject from u1@x.test" + strings.Repeat("\n   ", 30) + "to u2@x.test\n",
			"reject from " + pad(250) + "@x.test or from u1@x.test\n",
		} {
			sc := g.sized(t, FileEnt{"inc", "reject from u3@x.test\n"})
			for i := 1; i < 8; i++ {
				sc.Files = append(sc.Files, FileEnt{fmt.Sprintf("i%d", i), fmt.Sprintf("reject from u%d@x.test\ninclude i%d\n", i, i+1)})
			}
			sc.Files = append(sc.Files, FileEnt{"i8", "reject from u8@x.test\n"})
			c := g.name()
			sc.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"))
			for _, f := range []string{"u1", "u3", "u8", "u29", "u39", "u40", "last", pad(250)} {
				sc.add(cmd(c, "MAIL", f+"@x.test"), cmd(c, "RCPT", "u2@x.test"), cmd(c, "RSET", ""))
			}
			sc.add(quit(c))
			out = append(out, sc)
		}
		return out
	},
	"C03": func(g *gen) []*Scenario {
		sc := g.sized("reject from <> with message \"no null\"\n")
		c := g.name()
		sc.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"))
		for k := 0; k < 12; k++ {
			sc.add(cmd(c, "MAIL", ""))
			for _, r := range manyRcpts(2 + 3*k) {
				sc.add(cmd(c, "RCPT", r))
			}
			sc.add(cmd(c, "DATA", ""), cmd(c, "RSET", ""), cmd(c, "MAIL", "a@example.com"), cmd(c, "RCPT", "r@example.org"), cmd(c, "DATA", ""), msg(c, g.body()...))
		}
		sc.add(quit(c))
		return []*Scenario{sc}
	},
	"C04": func(g *gen) []*Scenario {
		long := times(25, func(i int) string { return fmt.Sprintf("line %d %s\n", i, pad(10*i)) })
		a := g.sized(times(20, func(i int) string {
			return fmt.Sprintf("set-with from u%d@x.test with note n%d message \"m%d\"\n", i/2, i, i)
		}) +
			"@data reject to r3@x.test with message \"" + long + "last\"\nreject from u9@x.test\n@from reject from u8@x.test with message \"" + pad(900) + "\" note \"" + pad(300) + "\"\n")
		c := g.name()
		a.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"))
		for i := 0; i < 11; i++ {
			a.add(cmd(c, "MAIL", fmt.Sprintf("u%d@x.test", i)), cmd(c, "RCPT", "r2@x.test"), cmd(c, "RCPT", "r3@x.test"), cmd(c, "DATA", ""), cmd(c, "RSET", ""))
		}
		a.add(quit(c))
		return []*Scenario{a}
	},
	"C06": func(g *gen) []*Scenario {
		sc := g.sized("reject from v0@x.test\nreject to file:pats\n", FileEnt{"pats", "p0@\n"})
		for i := 0; i < 12; i++ {
			c := fmt.Sprintf("long%d", i)
			sc.add(file("rules", fmt.Sprintf("reject from v%d@x.test\nreject to file:pats\n", i)), file("pats", fmt.Sprintf("p%d@\n", i)), conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"), cmd(c, "MAIL", "a@x.test"), cmd(c, "RCPT", "b@x.test"))
		}
		for i := 0; i < 12; i++ {
			c := fmt.Sprintf("long%d", i)
			for k := 0; k < 12; k++ {
				sc.add(cmd(c, "RSET", ""), cmd(c, "MAIL", fmt.Sprintf("v%d@x.test", k)), cmd(c, "RSET", ""), cmd(c, "MAIL", "a@x.test"), cmd(c, "RCPT", fmt.Sprintf("p%d@x.test", k)))
			}
			sc.add(quit(c))
		}
		return []*Scenario{sc}
	},
	"C08": func(g *gen) []*Scenario {
		return listScale(g, "from", "@x%d.test", func(i int) string { return fmt.Sprintf("a@x%d.test", i) })
	},
	"C09": func(g *gen) []*Scenario {
		out := listScale(g, "helo", "x%d.test", func(i int) string { return fmt.Sprintf("x%d.test", i) })
		// a client with many names
		sc := g.sized("")
		var names []string
		for i := 0; i < 12; i++ {
			n := fmt.Sprintf("n%d.d%d.test.", i, i)
			names = append(names, n)
			sc.Zone.Names = append(sc.Zone.Names, NameEnt{N: n, A: []string{"198.51.100.201"}})
		}
		sc.Zone.Ptr = append(sc.Zone.Ptr, PtrEnt{N: "198.51.100.201", Names: names})
		for i := 0; i < 12; i++ {
			sc.add(file("rules", fmt.Sprintf("@from reject host .d%d.test\nreject to a@ source n%d.d%d.test\nreject to b@ not host n%d.d%d.test\n", i, i, i, i, i)))
			sc.add(visit(g.name(), "198.51.100.201", "h.test", "s@x.test", nil)...)
			c := g.name()
			sc.add(file("rules", fmt.Sprintf("reject to a@ source n%d.d%d.test\nreject to b@ host .d%d.test\nreject to c@ not host n%d.d%d.test\n", i, i, i, i, i)))
			sc.add(conn(c, "198.51.100.201"), cmd(c, "EHLO", "h.test"), cmd(c, "MAIL", "s@x.test"), cmd(c, "RCPT", "a@y.test"), cmd(c, "RCPT", "b@y.test"), cmd(c, "RCPT", "c@y.test"), quit(c))
		}
		return append(out, sc)
	},
	"C10": func(g *gen) []*Scenario {
		return listScale(g, "ip", "10.%d.0.0/16", func(i int) string { return fmt.Sprintf("10.%d.3.4", i) })
	},
	"C16": func(g *gen) []*Scenario {
		return listScale(g, "to", "x%d@", func(i int) string { return fmt.Sprintf("x%d@y.test", i) })
	},
	"C13": func(g *gen) []*Scenario {
		sc := g.sized("set-with host z.last.test with message last\nset-with dns noforward with note nf\nset-with dns inconsistent with note inc\nreject from @ dns good\nreject to @\n")
		z := stdZone()
		var names, many []string
		for i := 0; i < 24; i++ {
			n := fmt.Sprintf("n%d.many.test.", i)
			names = append(names, n)
			switch i % 3 {
			case 0:
				z.Names = append(z.Names, NameEnt{N: n, A: []string{"198.51.100.200"}})
			case 1:
				z.Names = append(z.Names, NameEnt{N: n})
			}
		}
		for i := 0; i < 30; i++ {
			many = append(many, fmt.Sprintf("198.51.100.%d", 100+i))
		}
		many = append(many, "192.0.2.200")
		z.Names = append(z.Names, NameEnt{N: "z.last.test.", A: many})
		z.Ptr = append(z.Ptr, PtrEnt{N: "192.0.2.200", Names: append(append([]string{}, names...), "z.last.test.")}, PtrEnt{N: "192.0.2.201", Names: names})
		sc.Zone = z
		for _, rip := range []string{"192.0.2.200", "192.0.2.201"} {
			sc.add(visit(g.name(), rip, "h.test", "a@x.test", []string{"b@x.test"}, g.body()...)...)
			sc.add(visit(g.name(), rip, "h.test", "", []string{"b@x.test"}, g.body()...)...)
		}
		return []*Scenario{sc}
	},
	"C14": func(g *gen) []*Scenario {
		sc := g.sized("@from reject from-has baddom with message bad\n@from stall from-has unknown with message unknown\n@from reject from-has resolves with message good\n")
		z := stdZone()
		var mxs []MX
		for i := 0; i < 20; i++ {
			n := fmt.Sprintf("mx%d.many.test.", i)
			mxs = append(mxs, MX{10 * i, n})
			a := []string{"10.0.0.1"}
			if i == 19 {
				a = []string{"198.51.100.10"}
			}
			z.Names = append(z.Names, NameEnt{N: n, A: a})
		}
		z.Names = append(z.Names, NameEnt{N: "many.test.", Mx: mxs}, NameEnt{N: "few.test.", Mx: mxs[:19]})
		var pub []string
		for i := 0; i < 20; i++ {
			pub = append(pub, fmt.Sprintf("198.51.100.%d", 100+i))
		}
		z.Names = append(z.Names, NameEnt{N: "wide.test.", A: pub}, NameEnt{N: "wideplus.test.", A: append(append([]string{}, pub...), "127.0.0.1")})
		sc.Zone = z
		for _, d := range []string{"many.test", "few.test", "wide.test", "wideplus.test"} {
			sc.add(visit(g.name(), "198.51.100.7", "h.test", "a@"+d, []string{"b@x.test"})...)
		}
		return []*Scenario{sc}
	},
	"C15": func(g *gen) []*Scenario {
		sc := g.sized(times(16, func(i int) string { return fmt.Sprintf("set-with dnsbl bl%d.test with note l%d\n", i, i) }) + "reject dnsbl bl15.test from @x.test with message listed\n")
		z := stdZone()
		for i := 0; i < 16; i++ {
			if i%3 == 0 {
				z.Names = append(z.Names, NameEnt{N: fmt.Sprintf("7.100.51.198.bl%d.test.", i), A: []string{"127.0.0.2"}})
			}
		}
		sc.Zone = z
		for _, rip := range []string{"198.51.100.7", "198.51.100.8", "198.51.100.7"} {
			sc.add(visit(g.name(), rip, "h.test", "a@x.test", []string{"b@x.test"}, g.body()...)...)
			sc.add(visit(g.name(), rip, "h.test", "a@y.test", []string{"b@x.test"}, g.body()...)...)
		}
		return []*Scenario{sc}
	},
	"C17": bigMessages, "C18": bigMessages, "C19": bigMessages, "C20": bigMessages,
	"C21": func(g *gen) []*Scenario {
		sc := g.sized("accept all\n")
		sc.Cfg.DnCount, sc.Cfg.DnDur = 3, 1000
		rip := func(i int) string { return fmt.Sprintf("10.9.%d.%d", i/100, 1+i%100) }
		for r := 0; r < 4; r++ {
			for i := 0; i < 130; i++ {
				c := g.name()
				sc.add(conn(c, rip(i)))
				if i%13 == 5 && r == 1 {
					sc.add(cmd(c, "EHLO", "h.test"))
				}
				sc.add(quit(c))
			}
		}
		b := g.sized("accept all\n")
		b.Cfg.DnCount, b.Cfg.DnDur = 40, 1000
		for i := 0; i < 44; i++ {
			c := g.name()
			b.add(clock(i*500), conn(c, "198.51.100.7"), quit(c))
		}
		d := g.sized("accept all\n")
		d.Cfg.DnCount, d.Cfg.DnDur = 130, 1000
		for i := 0; i < 133; i++ {
			c := g.name()
			d.add(conn(c, "198.51.100.7"), quit(c))
		}
		return []*Scenario{sc, b, d}
	},
	"C22": func(g *gen) []*Scenario {
		sc := g.sized("reject from bad@ with make-yakker\n")
		sc.Cfg.DnCount, sc.Cfg.DnDur = 5, 1000
		rip := func(i int) string { return fmt.Sprintf("10.9.%d.%d", i/100, 1+i%100) }
		for i := 0; i < 130; i++ {
			sc.add(visit(g.name(), rip(i), "h.test", []string{"bad@x.test", "good@x.test"}[i%2], []string{"b@x.test"})...)
		}
		for i := 0; i < 130; i++ {
			c := g.name()
			sc.add(conn(c, rip(i)), quit(c))
		}
		return []*Scenario{sc}
	},
	"C23": func(g *gen) []*Scenario {
		sc := g.sized("accept all\n")
		sc.Cfg.Cert, sc.Cfg.Key = "cert1.pem", "key1.pem"
		rip := func(i int) string { return fmt.Sprintf("10.9.%d.%d", i/100, 1+i%100) }
		for r := 0; r < 2; r++ {
			for i := 0; i < 40; i++ {
				c := g.name()
				sc.add(conn(c, rip(i)), cmd(c, "EHLO", "h.test"), Step{Ev: "starttls", C: c, Text: "junk"}, quit(c))
			}
		}
		for i := 0; i < 44; i++ {
			c := g.name()
			sc.add(conn(c, rip(i)), cmd(c, "EHLO", "h.test"), quit(c))
		}
		return []*Scenario{sc}
	},
	"C24": func(g *gen) []*Scenario {
		sc := g.sized("accept all\n", FileEnt{"conns", times(45, func(i int) string { return fmt.Sprintf("192.0.2.%d hostname=h%d.test\n", i, i) }) + "192.0.2.0/24 hostname=rest.test cert=cert2.pem key=key2.pem\n* hostname=other.test\n"})
		sc.Cfg.ConnCfg = "conns"
		for _, i := range []int{0, 9, 10, 31, 32, 44, 45, 250} {
			c := g.name()
			sc.add(Step{Ev: "conn", C: c, Rip: "198.51.100.7", Lip: fmt.Sprintf("192.0.2.%d", i)}, cmd(c, "EHLO", "h.test"), quit(c))
		}
		return []*Scenario{sc}
	},
	"C05": func(g *gen) []*Scenario {
		sc := g.sized("accept all\n")
		sc.Cfg.RFiles = nil
		for i := 0; i < 14; i++ {
			n := fmt.Sprintf("rules%d", i)
			sc.Cfg.RFiles = append(sc.Cfg.RFiles, n)
			sc.Files = append(sc.Files, FileEnt{n, fmt.Sprintf("reject from u%d@x.test\ninclude inc%d\n", i, i)}, FileEnt{fmt.Sprintf("inc%d", i), fmt.Sprintf("stall from v%d@x.test\n", i)})
		}
		talk := func() {
			c := g.name()
			sc.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"))
			for i := 0; i < 15; i++ {
				sc.add(cmd(c, "MAIL", fmt.Sprintf("u%d@x.test", i)), cmd(c, "RSET", ""), cmd(c, "MAIL", fmt.Sprintf("v%d@x.test", i)), cmd(c, "RSET", ""))
			}
			sc.add(quit(c))
		}
		talk()
		for _, i := range []int{13, 0, 7, 11} {
			for k, n := range []string{fmt.Sprintf("rules%d", i), fmt.Sprintf("inc%d", i)} {
				keep := sc.Files[1+2*i+k].T
				sc.add(file(n, "reject (\n"))
				talk()
				sc.add(gone(n))
				talk()
				sc.add(file(n, keep))
				talk()
			}
		}
		return []*Scenario{sc}
	},
	"C25": func(g *gen) []*Scenario {
		sc := g.sized("reject from bad@\n")
		var par [][]Step
		for i := 0; i < 16; i++ {
			par = append(par, visit(g.name(), fmt.Sprintf("10.9.0.%d", i+1), fmt.Sprintf("h%d.test", i), fmt.Sprintf("s%d@x.test", i), manyRcpts(3+i), g.bulky(20*i, 60)...))
		}
		sc.add(Step{Ev: "par", Par: par, Yld: 30})
		return []*Scenario{sc}
	},
	"C26": func(g *gen) []*Scenario {
		sc := g.sized("reject from bad@ with message \"" + times(12, func(i int) string { return pad(60) + "\n" }) + pad(1500) + "\nend\"\n")
		for k := 0; k < 2; k++ {
			c := g.name()
			sc.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", pad(700)+".test"))
			for i := 0; i < 20; i++ {
				sc.add(cmd(c, "MAIL", "bad@x.test"), raw(c, "NOOP "+pad(40*i+i%10/9*1100)))
			}
			sc.add(cmd(c, "MAIL", "a@x.test"))
			for _, r := range manyRcpts(20) {
				sc.add(cmd(c, "RCPT", r))
			}
			sc.add(cmd(c, "DATA", ""), msg(c, g.bulky(100, 70)...), quit(c))
		}
		return []*Scenario{sc}
	},
	"C27": func(g *gen) []*Scenario {
		sc := g.sized("reject from bad@\n")
		sc.Cfg.DnCount, sc.Cfg.DnDur = 2, 1000
		for i := 0; i < 150; i++ {
			rip := fmt.Sprintf("10.9.%d.%d", i%7, 1+i%50)
			if i%3 == 0 {
				c := g.name()
				sc.add(conn(c, rip), quit(c))
			} else {
				sc.add(visit(g.name(), rip, "h.test", []string{"a@x.test", "bad@x.test"}[i%2], []string{"b@x.test", "c@x.test"}, g.body()...)...)
			}
			if i%30 == 29 {
				sc.add(statsStep())
			}
		}
		return []*Scenario{sc}
	},
	"C30": func(g *gen) []*Scenario {
		var out []*Scenario
		for _, at := range []int{0, 5, 11, 17, 33, 64} {
			sc := g.sized("@data reject to hit@example.org\n@message stall to hot@example.org with message hot\n@data stall not to @example.org\n")
			c := g.name()
			sc.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"))
			for _, w := range []string{"hit@example.org", "hot@example.org", "x@example.com", "none@example.org"} {
				sc.add(cmd(c, "MAIL", "a@x.test"))
				for i, r := range manyRcpts(65) {
					if i == at {
						r = w
					}
					sc.add(cmd(c, "RCPT", r))
				}
				sc.add(cmd(c, "DATA", ""), msg(c, g.body()...), cmd(c, "RSET", ""))
			}
			sc.add(quit(c))
			out = append(out, sc)
		}
		return out
	},
	"C31": func(g *gen) []*Scenario {
		sc := g.sized("accept all\n")
		sc.Cfg.Hash = "full"
		for i := 0; i < 12; i++ {
			sc.add(visit(g.name(), "198.51.100.7", "h.test", "a@x.test", manyRcpts(i+1), g.bulky(40*i, 70)...)...)
		}
		return []*Scenario{sc}
	},
}

// listScale has long pattern files: many lines, and a very long one.
func listScale(g *gen, op, pat string, hit func(int) string) []*Scenario {
	n := 130
	text := times(n, func(i int) string { return fmt.Sprintf(pat+"\n", i) })
	var out []*Scenario
	texts := []string{text}
	if op == "to" { // (TLC takes its time over such a line)
		texts = append(texts, fmt.Sprintf(pat+"\n", 1)+"#"+pad(66000)+"\n"+fmt.Sprintf(pat+"\n", 129))
	}
	for k, t := range texts {
		sc := g.sized("@from reject "+op+" file:pats\n", FileEnt{"pats", t})
		if op == "to" {
			sc.Files[len(sc.Files)-1].T = "@to reject to file:pats\n"
		}
		for _, i := range []int{129, 1, 0, 63, 64, 127, 130}[:7-5*k] {
			h, f, to, rip := "h.test", "a@y.test", "b@y.test", "198.51.100.7"
			switch op {
			case "from":
				f = hit(i)
			case "helo":
				h = hit(i)
			case "ip":
				rip = hit(i)
			case "to":
				to = hit(i)
			}
			sc.add(visit(g.name(), rip, h, f, []string{to})...)
		}
		out = append(out, sc)
	}
	return out
}

func bigMessages(g *gen) []*Scenario {
	var out []*Scenario
	for _, h := range []string{"all", "full", "msg"} {
		sc := g.sized("reject to refused@\n@message reject from bad@\n")
		sc.Cfg.Hash = h
		c := g.name()
		sc.add(conn(c, "198.51.100.7"), cmd(c, "EHLO", "h.test"))
		for k, b := range [][]string{g.bulky(3000, 70), g.bulky(3, 20000), g.bulky(1, 70000), g.bulky(1000, 5), {pad(66000)}} {
			sc.add(cmd(c, "MAIL", []string{"a@x.test", "bad@x.test"}[k%2]))
			for i, r := range manyRcpts(10 + 17*k) {
				sc.add(cmd(c, "RCPT", r))
				if i%9 == 4 {
					sc.add(cmd(c, "RCPT", "refused@x.test"))
				}
			}
			sc.add(cmd(c, "DATA", ""), msg(c, b...), cmd(c, "RSET", ""))
		}
		for k := 0; k < 25; k++ { // many messages in one session
			sc.add(cmd(c, "MAIL", "a@x.test"), cmd(c, "RCPT", fmt.Sprintf("r%d@x.test", k)), cmd(c, "DATA", ""), msg(c, g.body()...))
		}
		sc.add(quit(c))
		out = append(out, sc)
	}
	return out
}
