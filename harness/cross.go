package main

// The same conversations under other circumstances: over TLS, with other
// options, through another listening address.  What should come of it, the
// specification says.

func copyScenario(sc *Scenario) *Scenario {
	n := *sc
	n.ID = ""
	n.Steps = append([]Step(nil), sc.Steps...)
	return &n
}

func (sc *Scenario) any(f func(st *Step) bool) bool {
	for i := range sc.Steps {
		if f(&sc.Steps[i]) {
			return true
		}
		for _, p := range sc.Steps[i].Par {
			for j := range p {
				if f(&p[j]) {
					return true
				}
			}
		}
	}
	return false
}

// overTLS puts every session that says EHLO on TLS first thing.
func (g *gen) overTLS(sc *Scenario) {
	sc.Cfg.Cert, sc.Cfg.Key = "cert1.pem", "key1.pem"
	var q []Step
	up := map[string]bool{}
	for _, st := range sc.Steps {
		q = append(q, st)
		if st.Ev == "cmd" && st.Verb == "EHLO" && !up[st.C] {
			up[st.C] = true
			q = append(q, g.tlsStep(st.C), st)
		}
	}
	sc.Steps = q
}

// cross returns some of the scenarios under other circumstances.
func (g *gen) cross(scs []*Scenario, every int) []*Scenario {
	var out []*Scenario
	for i, sc := range scs {
		if i%every != g.Intn(every) || len(sc.Steps) > 1000 || sc.Cfg.Listen != "" || sc.Cfg.LogBad != "" {
			continue
		}
		n := copyScenario(sc)
		c := &n.Cfg
		par := n.any(func(st *Step) bool { return st.Ev == "par" })
		dn := c.DnCount != 0 || c.DnLog
		if c.Cert == "" && c.Key == "" && c.ConnCfg == "" && !par && g.chance(60) &&
			!n.any(func(st *Step) bool { return st.Ev == "starttls" || st.Ev == "flood" }) {
			g.overTLS(n)
		}
		if c.Helo == "" && g.chance(30) {
			c.Helo = "other.example.net"
		}
		if !par && c.More == 0 && g.chance(40) {
			c.More = 1 + g.Intn(2)
			for k := range n.Steps {
				if n.Steps[k].Ev == "conn" {
					n.Steps[k].Via = g.Intn(c.More + 1)
				}
			}
		} else if g.chance(30) {
			c.PerIP = true
		}
		if !dn && !par && c.SmtpLog && c.MinPhase == "helo" {
			switch g.Intn(4) {
			case 0:
				c.SmtpLog = false
			case 1:
				c.MinPhase = g.pick("from", "to", "data", "message", "accepted")
			case 2:
				c.DnCount, c.DnDur = 50, 1000
				c.DnLog = g.chance(50)
			}
		}
		c.Slow = c.Slow || g.chance(30)
		if c.Hash == "all" && g.chance(30) {
			c.Hash = "full"
		}
		if c.Log && c.Hash != "msg" && g.chance(20) {
			c.Log = false
		}
		switch l := g.pick("", "l", "smtplog", "dnlog"); {
		case l == "l" && c.Log || l == "smtplog" && c.SmtpLog || l == "dnlog" && c.DnLog:
			c.StdLog = l
		}
		if !par {
			n.Procs = []int{0, 1, 8}[g.Intn(3)]
		}
		out = append(out, n)
	}
	return out
}
