package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vh: "+format+"\n", a...)
	os.RemoveAll(scratch)
	os.Exit(3)
}

var (
	tier = "quick"
	seed = int64(1)
	t0   = time.Now()
)

func thorough() bool { return tier == "thorough" }

func main() {
	if len(os.Args) < 2 {
		fatal("usage: vh check ID | replay FILE | list")
	}
	var err error
	base := filepath.Join(home, ".build", "run")
	os.MkdirAll(base, 0755)
	if scratch, err = os.MkdirTemp(base, "r"); err != nil {
		fatal("%v", err)
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		seed, _ = strconv.ParseInt(s, 10, 64)
	}
	if s := os.Getenv("VERIF_TIER"); s != "" {
		tier = s
	}
	makeCerts()
	code := 0
	switch os.Args[1] {
	case "check":
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		code = runCheck(os.Args[2])
	case "replay":
		code = replay(os.Args[2])
	case "record", "differ":
		code = record(os.Args[2], os.Args[1] == "differ", os.Args[3:])
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id, props[id].aspects)
		}
	default:
		fatal("unknown command %s", os.Args[1])
	}
	os.RemoveAll(scratch)
	os.Exit(code)
}

// prop is how one property is decided.
type prop struct {
	// aspects of an observation that are about this property
	aspects string
	// gen makes the scenarios
	gen func(g *gen) []*Scenario
	// models are the specification-level checks
	models []model
	note   string
}

var props = map[string]*prop{}

func propIDs() []string {
	var q []string
	for id := range props {
		q = append(q, id)
	}
	sort.Strings(q)
	return q
}

// ReplayFile is what a VIOLATION line points to.
type ReplayFile struct {
	Property string    `json:"property"`
	Aspects  string    `json:"aspects"`
	Scenario *Scenario `json:"scenario"`
	Event    Obj       `json:"event"`
	L        int       `json:"l"`
	Diverged Diverged  `json:"diverged"`
	Output   string    `json:"server_output"`
	Recorded *Recorded `json:"recorded"`
}

type outcome struct {
	rec *Recorded
	out string
	err error
}

// runAll performs scenarios, several at a time.
func runAll(scs []*Scenario, par int, limit time.Duration) []outcome {
	res := make([]outcome, len(scs))
	var wg sync.WaitGroup
	next := make(chan int)
	end := time.Now().Add(limit)
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if hungRuns.Load() >= 4 { // enough: each costs a lot of time
					continue
				}
				if time.Now().After(end) {
					res[i].err = fmt.Errorf("%w: out of time", errHarness)
					continue
				}
				rec, out, err := runScenario(scs[i])
				if err != nil {
					// once more: the harness itself may have been starved
					rec, out, err = runScenario(scs[i])
				}
				res[i] = outcome{rec, out, err}
			}
		}()
	}
	for i := range scs {
		next <- i
	}
	close(next)
	wg.Wait()
	return res
}

func timedOut(rec *Recorded, l int) bool {
	if l < 1 || l > len(rec.Evs) {
		return false
	}
	o, ok := rec.Evs[l-1]["obs"].(Obj)
	return rec.Hung || ok && o["cls"] == "none"
}

func hasPar(sc *Scenario) bool {
	for i := range sc.Steps {
		if sc.Steps[i].Ev == "par" {
			return true
		}
	}
	return false
}

func runCheck(id string) int {
	p := props[id]
	if p == nil {
		fatal("unknown property %s", id)
	}
	aspects := p.aspects + ",dead"
	ev := newEvidence(id)
	known := loadKnown(id)

	// 1. the specification itself
	g := newGen(id)
	var mcScs []*Scenario
	mstates, mtrans, mdet := 0, 0, []Obj{}
	for _, m := range p.models {
		r, scs, err := m.run(g)
		if err != nil {
			fatal("model %s: %v", m.name, err)
		}
		mstates += r.states
		mtrans += r.gen
		mdet = append(mdet, Obj{"model": m.name, "distinct_states": r.states, "transitions": r.gen, "depth": r.depth,
			"behaviours_generated": len(scs)})
		mcScs = append(mcScs, scs...)
	}

	// 2. behaviours of the real server
	scs := p.gen(g)
	more := scale(id, g)
	if id != "C29" {
		more = append(more, g.cross(scs, 9)...)
		mcScs = append(mcScs, newGen(id+" cross").cross(mcScs, 9)...)
	}
	scs = append(append(mcScs, scs...), more...)
	for i, sc := range scs {
		if sc.ID == "" {
			sc.ID = fmt.Sprintf("%s-%d", id, i)
		}
	}
	if f := os.Getenv("VERIF_ONLY"); f != "" {
		var q []*Scenario
		for _, sc := range scs {
			if sc.ID == f {
				q = append(q, sc)
			}
		}
		scs = q
	}
	tGen := time.Since(t0)
	limit := 600 * time.Second
	if thorough() {
		limit = 4 * time.Hour
	}
	outs := runAll(scs, 2*runtime.NumCPU(), limit)
	tRun := time.Since(t0)
	var recs []*Recorded
	var idx []int
	nev := 0
	for i := range outs {
		if outs[i].rec == nil && outs[i].err == nil { // not tried any more
			continue
		}
		if outs[i].err != nil {
			fatal("scenario %s: %v\n%s", scs[i].ID, outs[i].err, tail(outs[i].out, 1500))
		}
		recs = append(recs, outs[i].rec)
		idx = append(idx, i)
		nev += len(outs[i].rec.Evs)
	}

	// 3. against the specification
	div, tr, err := validateChunks(recs, aspects)
	if err != nil {
		fatal("%v", err)
	}
	tVal := time.Since(t0)

	// 4. verdict
	var order []int
	for k := range div {
		order = append(order, k)
	}
	sort.Ints(order)
	violations, unconfirmed, other, knownHits := 0, 0, 0, map[string]bool{}
	var firstReplay string
	reported, comes := 0, 0
	for _, k := range order {
		d := div[k]
		sc := scs[idx[k]]
		if !d.Relevant {
			other++
			if os.Getenv("VERIF_DEBUG") != "" {
				printDiv(sc, recs[k], d, outs[idx[k]].out)
				fmt.Println(writeReplay(id+"-other", other, &ReplayFile{Property: id, Aspects: strings.Join(d.Aspects, ","), Scenario: sc, Event: recs[k].Evs[d.L-1],
					L: d.L, Diverged: d, Output: tail(outs[idx[k]].out, 4000), Recorded: recs[k]}))
			}
			continue
		}
		if kf := known.match(sc, recs[k], d); kf != "" {
			knownHits[kf] = true
			continue
		}
		if reported >= 3 { // enough has been confirmed and shown
			violations++
			continue
		}
		ok, rec2, d2, out2 := confirm(sc, aspects, known)
		if !ok {
			real := !timedOut(recs[k], d.L)
			if real {
				comes++
			}
			// Two clients at a time need not come out twice in the same way;
			// nor need what depends on chance, of which there are then many.
			if real && (hasPar(sc) || comes >= 4) {
				rec2, d2, out2 = recs[k], d, outs[idx[k]].out
			} else {
				unconfirmed++
				fmt.Fprintf(os.Stderr, "not reproduced: %s aspects %v\n", sc.ID, d.Aspects)
				if os.Getenv("VERIF_DEBUG") != "" {
					printDiv(sc, recs[k], d, outs[idx[k]].out)
				}
				continue
			}
		}
		violations++
		reported++
		path := writeReplay(id, reported, &ReplayFile{Property: id, Aspects: aspects, Scenario: sc, Event: rec2.Evs[d2.L-1],
			L: d2.L, Diverged: d2, Output: tail(out2, 4000), Recorded: rec2})
		if firstReplay == "" {
			firstReplay = path
		}
		printDiv(sc, rec2, d2, out2)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}
	for _, kf := range known.list {
		if knownHits[kf.Key] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.What)
		}
	}
	if known.extra != nil {
		known.extra()
	}
	samples := []interface{}{}
	for i := 0; i < len(recs) && i < 2; i++ {
		samples = append(samples, sampleOf(scs[idx[i*len(recs)/2]], recs[i*len(recs)/2]))
	}
	ev.Violations = violations
	ev.Coverage = Obj{
		"states":                        mstates + tr.states,
		"transitions":                   mtrans + tr.gen,
		"traces_validated_against_impl": len(recs),
		"events_validated":              nev,
		"model_states":                  mstates,
		"models":                        mdet,
		"behaviours_from_model":         len(mcScs),
		"diverged_in_other_aspects":     other,
		"not_reproduced":                unconfirmed,
		"aspects":                       strings.Split(aspects, ","),
		"event_kinds":                   kinds(recs),
		"samples":                       samples,
	}
	if mdet == nil {
		delete(ev.Coverage, "models")
	}
	ev.write()
	fmt.Printf("%s %s: %d scenarios (%d from models), %d events, %d model states, %d violations, %d other divergences; gen %.1fs run %.1fs validate %.1fs total %.1fs\n",
		id, tier, len(recs), len(mcScs), nev, mstates, violations, other, tGen.Seconds(), (tRun - tGen).Seconds(), (tVal - tRun).Seconds(), time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	if len(notUnderstood) > 0 {
		fatal("recordings that the specification cannot be evaluated on:\n%s", strings.Join(notUnderstood, "\n"))
	}
	if unconfirmed > 0 && unconfirmed*20 > len(recs) {
		fmt.Fprintln(os.Stderr, "too many divergences that could not be reproduced")
		return 4
	}
	return 0
}

// kinds counts what was observed, for the evidence.
func kinds(recs []*Recorded) map[string]int {
	m := map[string]int{}
	for _, r := range recs {
		for _, e := range r.Evs {
			k := e["ev"].(string)
			if v, ok := e["verb"].(string); ok {
				k = v
			}
			if o, ok := e["obs"].(Obj); ok {
				if c, ok := o["cls"].(string); ok && c != "" {
					k += ":" + c
				}
				if u, ok := o["up"].(bool); ok {
					k += fmt.Sprintf(":%v", u)
				}
			}
			m[k]++
		}
	}
	return m
}

// validateChunks validates in batches of bounded size.
func validateChunks(recs []*Recorded, aspects string) (map[int]Diverged, *tlcResult, error) {
	div := map[int]Diverged{}
	tot := &tlcResult{}
	const maxEv = 60000
	for i := 0; i < len(recs); {
		j, n := i, 0
		for j < len(recs) && n < maxEv {
			n += len(recs[j].Evs)
			j++
		}
		limit := 800 * time.Second
		if thorough() {
			limit = 2 * time.Hour
		}
		if err := validatePart(recs, i, j, aspects, limit, div, tot); err != nil {
			return nil, nil, err
		}
		i = j
	}
	return div, tot, nil
}

// notUnderstood are recordings that the specification could not be evaluated
// on; there are none unless something unheard-of was observed.
var notUnderstood []string

// validatePart validates recs[i:j], in ever smaller parts if TLC fails.
func validatePart(recs []*Recorded, i, j int, aspects string, limit time.Duration, div map[int]Diverged, tot *tlcResult) error {
	d, r, err := validate(recs[i:j], aspects, limit)
	if err != nil {
		if errors.Is(err, errSlow) {
			return err
		}
		if j-i == 1 {
			notUnderstood = append(notUnderstood, fmt.Sprintf("%s: %v", recs[i].ID, err))
			return nil
		}
		if len(notUnderstood) > 3 {
			return err
		}
		m := (i + j) / 2
		if err := validatePart(recs, i, m, aspects, limit, div, tot); err != nil {
			return err
		}
		return validatePart(recs, m, j, aspects, limit, div, tot)
	}
	for k, v := range d {
		div[i+k] = v
	}
	tot.states += r.states
	tot.gen += r.gen
	return nil
}

// confirm runs a scenario again, alone.
func confirm(sc *Scenario, aspects string, known *knownSet) (bool, *Recorded, Diverged, string) {
	n := 6
	for i := 0; i < n; i++ {
		rec, out, err := runScenario(sc)
		if err != nil {
			if errors.Is(err, errHarness) {
				continue
			}
			continue
		}
		d, _, err := validate([]*Recorded{rec}, aspects, 600*time.Second)
		if err != nil {
			fatal("%v", err)
		}
		if x, ok := d[0]; ok && x.Relevant && known.match(sc, rec, x) == "" {
			return true, rec, x, out
		}
	}
	return false, nil, Diverged{}, ""
}

func printDiv(sc *Scenario, rec *Recorded, d Diverged, out string) {
	b, _ := json.Marshal(rec.Evs[d.L-1])
	fmt.Printf("-- %s: event %d diverges in %v\n   observed: %s\n   expected: %s\n", sc.ID, d.L, d.Aspects, trunc(string(b), 1500), trunc(string(d.Want), 1500))
	if strings.Contains(string(d.Stats), "connections") {
		fmt.Printf("   expected counters: %s\n", d.Stats)
	}
	if strings.Contains(out, "panic") || strings.Contains(out, "fatal error") {
		fmt.Printf("   server: %s\n", trunc(out, 1200))
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeReplay(id string, n int, r *ReplayFile) string {
	dir := filepath.Join(home, "out")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", id, tier, seed, n))
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(p, b, 0644)
	return p
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var r ReplayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	if r.Scenario == nil { // a bare scenario
		r.Scenario = &Scenario{}
		if err := json.Unmarshal(b, r.Scenario); err != nil {
			fatal("%v", err)
		}
		r.Aspects = "all"
	}
	rec, out, err := runScenario(r.Scenario)
	if err != nil {
		fatal("%v\n%s", err, out)
	}
	d, _, err := validate([]*Recorded{rec}, r.Aspects, time.Hour)
	if err != nil {
		fatal("%v", err)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		for i, e := range rec.Evs {
			b, _ := json.Marshal(e)
			fmt.Printf("%d %s\n", i+1, b)
		}
		fmt.Println(out)
	}
	if x, ok := d[0]; ok {
		printDiv(r.Scenario, rec, x, out)
		if x.Relevant {
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
			return 1
		}
		return 0
	}
	fmt.Println("conforms")
	return 0
}

func sampleOf(sc *Scenario, rec *Recorded) Obj {
	files := Obj{}
	for _, f := range sc.Files {
		files[f.N] = trunc(f.T, 400)
	}
	var conv []string
	for i, e := range rec.Evs {
		if i > 25 {
			break
		}
		s := fmt.Sprint(e["ev"])
		if v, ok := e["verb"]; ok {
			s = fmt.Sprintf("%v %v", v, e["arg"])
		}
		if v, ok := e["rip"]; ok {
			s += fmt.Sprintf(" %v", v)
		}
		if o, ok := e["obs"].(Obj); ok && o["cls"] != nil {
			s += fmt.Sprintf(" -> %v %s", o["cls"], trunc(fmt.Sprint(o["text"]), 80))
		}
		conv = append(conv, s)
	}
	return Obj{"id": sc.ID, "files": files, "events": conv}
}

// ----- evidence

type Evidence struct {
	Property    string   `json:"property"`
	Tier        string   `json:"tier"`
	Seed        int64    `json:"seed"`
	Level       string   `json:"level"`
	Coverage    Obj      `json:"coverage"`
	Assumptions []string `json:"assumptions"`
	WallS       float64  `json:"wall_s"`
	Violations  int      `json:"violations"`
}

func newEvidence(id string) *Evidence {
	return &Evidence{Property: id, Tier: tier, Seed: seed, Level: "model_checking", Assumptions: []string{
		"the smtpd package is replaced by /verif/standin/smtpd, which implements its documented behaviour",
		"clock, DNS, client addresses and file faults are provided by the harness",
	}}
}

func (e *Evidence) write() {
	e.WallS = time.Since(t0).Seconds()
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(home, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(home, "evidence", e.Property+".json"), b, 0644); err != nil {
		fatal("%v", err)
	}
}

// ----- known findings

type knownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

type knownSet struct {
	list  []knownFinding
	extra func()
}

func loadKnown(id string) *knownSet {
	k := &knownSet{}
	b, err := os.ReadFile(filepath.Join(home, "known_findings.json"))
	if err != nil {
		return k
	}
	var all struct {
		Findings []knownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &all); err != nil {
		fatal("known_findings.json: %v", err)
	}
	for _, f := range all.Findings {
		if f.Property == id && f.Status == "known" {
			k.list = append(k.list, f)
		}
	}
	return k
}

// matchers recognise the histories of the known findings, by key.
var matchers = map[string]func(sc *Scenario, rec *Recorded, d Diverged) bool{}

func (k *knownSet) match(sc *Scenario, rec *Recorded, d Diverged) string {
	for _, f := range k.list {
		if m := matchers[f.Key]; m != nil && m(sc, rec, d) {
			return f.Key
		}
	}
	return ""
}
