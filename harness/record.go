package main

// Recording without judging: a tool for finding what the scenarios do not
// reach. "vh record FILE" writes a digest of every recording; "vh differ FILE"
// stops at the first scenario whose recording is another one now.

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"sync"
	"sync/atomic"
)

var hex40RE = regexp.MustCompile(`[0-9a-f]{40}`)
var pidRE = regexp.MustCompile(`\b\d+/(\d+)\b`)

// digest is a recording without what is different each time.
func digest(rec *Recorded) string {
	for _, e := range rec.Evs {
		delete(e, "pid")
	}
	b, _ := json.Marshal(rec.Evs)
	seen := map[string]string{}
	t := hex40RE.ReplaceAllStringFunc(string(b), func(s string) string {
		if _, ok := seen[s]; !ok {
			seen[s] = fmt.Sprintf("H%d", len(seen))
		}
		return seen[s]
	})
	t = pidRE.ReplaceAllString(t, "PID/$1")
	return sha([]byte(t))
}

func allScenarios(ids []string) []*Scenario {
	var all []*Scenario
	for _, id := range ids {
		for i, sc := range props[id].gen(newGen(id)) {
			sc.ID = fmt.Sprintf("%s-%d", id, i)
			if !hasPar(sc) {
				all = append(all, sc)
			}
		}
	}
	g := newGen("shuffle")
	g.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	return all
}

func record(file string, differ bool, ids []string) int {
	if len(ids) == 0 {
		ids = propIDs()
	}
	base := map[string]string{}
	if differ {
		b, err := os.ReadFile(file)
		if err != nil || json.Unmarshal(b, &base) != nil {
			fatal("cannot read %s", file)
		}
	}
	scs := allScenarios(ids)
	var mu sync.Mutex
	var stop atomic.Bool
	killed := ""
	next := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < 16; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				if stop.Load() {
					continue
				}
				rec, _, err := runScenario(scs[i])
				d := "error"
				if err == nil {
					d = digest(rec)
				}
				mu.Lock()
				if !differ {
					if old, ok := base[scs[i].ID]; ok && old != d {
						fmt.Println("not the same:", scs[i].ID)
						d = ""
					}
					base[scs[i].ID] = d
					mu.Unlock()
					continue
				}
				want := base[scs[i].ID]
				mu.Unlock()
				if want != "" && d != want {
					rec, _, err = runScenario(scs[i]) // again
					if err != nil || digest(rec) != want {
						mu.Lock()
						killed = scs[i].ID
						mu.Unlock()
						stop.Store(true)
					}
				}
			}
		}()
	}
	for n := 0; n < 3; n++ {
		for i := range scs {
			next <- i
		}
		if differ {
			break
		}
	}
	close(next)
	wg.Wait()
	if !differ {
		b, _ := json.Marshal(base)
		os.WriteFile(file, b, 0644)
		fmt.Println(len(base), "recordings")
		return 0
	}
	if killed != "" {
		fmt.Println("DIFFERS", killed)
		return 1
	}
	fmt.Println("SAME")
	return 0
}
