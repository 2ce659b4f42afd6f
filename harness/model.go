package main

// Exploring the specification with TLC, and making the real server go through
// the behaviours that this finds.

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"
)

type model struct {
	name   string // module, spec/NAME.tla
	cfg    string // configuration, spec/CFG.cfg; the thorough tier uses CFGT.cfg if thor
	thor   bool
	limit  int // number of behaviours to replay
	limitT int
	cut    bool // a bound on the length of behaviours cuts it short: with several workers, not always at the same places
	chain  int  // this many behaviours of one world go into one scenario
}

// tlaStep is an event of a model: a Step, or time passing.
type mcWorld struct {
	Cfg   Cfg       `json:"cfg"`
	Files []FileEnt `json:"files"`
	Zone  Zone      `json:"zone"`
}

type mcMoves struct {
	W int   `json:"w"`
	M []int `json:"m"`
}

func (m model) run(g *gen) (*tlcResult, []*Scenario, error) {
	cfg, lim, n := m.cfg+".cfg", 300*time.Second, m.limit
	if thorough() {
		lim, n = time.Hour, m.limitT
		if m.thor {
			cfg = m.cfg + "T.cfg"
		}
	}
	g = newGen(g.id + " " + m.name)
	workers := 8
	if m.cut && !thorough() {
		workers = 1
	}
	r, err := runTLC(m.name+".tla", cfg, nil, workers, lim)
	if err != nil {
		return r, nil, err
	}
	if r.violated {
		return r, nil, errSpec(tail(strings.Join(slices.DeleteFunc(strings.Split(r.out, "\n"), func(l string) bool { return strings.HasPrefix(l, "\"") }), "\n"), 6000))
	}
	scs, err := m.behaviours(g, r.out, n)
	r.out = ""
	return r, scs, err
}

func (m model) behaviours(g *gen, out string, n int) ([]*Scenario, error) {
	var worlds []mcWorld
	var table [][]Step
	for tag, v := range map[string]interface{}{"WORLDS": &worlds, "TABLE": &table} {
		q := parsePrinted(out, tag)
		if len(q) == 0 {
			return nil, nil
		}
		if err := json.Unmarshal([]byte(q[0]), v); err != nil {
			return nil, fmt.Errorf("%s: %v", tag, err)
		}
	}
	// the longest ones: what is a beginning of another is in that one
	var all []mcMoves
	inner := map[string]bool{}
	for _, s := range parsePrinted(out, "MOVES") {
		var b mcMoves
		if err := json.Unmarshal([]byte(s), &b); err != nil {
			return nil, fmt.Errorf("MOVES: %v: %.200s", err, s)
		}
		all = append(all, b)
		inner[fmt.Sprint(b.W, b.M[:len(b.M)-1])] = true
	}
	perWorld := make([][][]int, len(worlds))
	total := 0
	for _, b := range all {
		if !inner[fmt.Sprint(b.W, b.M)] {
			perWorld[b.W-1] = append(perWorld[b.W-1], b.M)
			total++
		}
	}
	// TLC's workers print in any order
	for _, q := range perWorld {
		sortMoves(q)
		g.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
	}
	m.chain = max(m.chain, 1)
	if n > total {
		n = total
	}
	var scs []*Scenario
	cur := make([]*Scenario, len(worlds))
	cnt := make([]int, len(worlds))
	open := make([]map[string]string, len(worlds))
	for k := 0; n > 0; k++ {
		for w := range worlds {
			if k >= len(perWorld[w]) || n == 0 {
				continue
			}
			n--
			if cur[w] == nil || cnt[w] >= m.chain {
				cur[w] = &Scenario{Cfg: worlds[w].Cfg, Files: worlds[w].Files, Zone: worlds[w].Zone}
				cnt[w], open[w] = 0, nil
				scs = append(scs, cur[w])
			}
			sc := cur[w]
			for _, c := range sortedVals(open[w]) {
				sc.add(abort(c))
			}
			open[w] = map[string]string{}
			cnt[w]++
			now := 0
			for _, i := range perWorld[w][k] {
				for _, s := range table[i-1] {
					switch s.Ev {
					case "wait":
						now += s.Now
						s = clock(now)
					case "conn":
						open[w][s.C] = g.name()
						s.C = open[w][s.C]
					case "kill":
						open[w] = map[string]string{}
					default:
						if s.C != "" {
							if open[w][s.C] == "" {
								open[w][s.C] = g.name()
							}
							s.C = open[w][s.C]
						}
					}
					sc.add(s)
				}
			}
		}
	}
	return scs, nil
}

type errSpec string

func (e errSpec) Error() string { return "the specification violates an invariant:\n" + string(e) }
