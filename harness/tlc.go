package main

// Running TLC.

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

const tlcCP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

var tlcRuns atomic.Int64

var errSlow = errors.New("TLC took too long")

type tlcResult struct {
	out      string
	states   int // distinct
	gen      int
	depth    int
	finished bool
	violated bool
}

var (
	statesRE = regexp.MustCompile(`(?m)^([\d,]+) states generated, ([\d,]+) distinct states found`)
	depthRE  = regexp.MustCompile(`The depth of the complete state graph search is (\d+)`)
)

func runTLC(module, cfg string, env []string, workers int, limit time.Duration, extra ...string) (*tlcResult, error) {
	meta, err := os.MkdirTemp(scratch, "tlc")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(meta)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	args := []string{"-Xmx6g", "-Xss64m", "-XX:+UseParallelGC", "-cp", tlcCP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
		"-workers", itoa(workers), "-config", cfg}
	args = append(args, extra...)
	args = append(args, module)
	cmd := exec.CommandContext(ctx, "java", args...)
	cmd.Dir = filepath.Join(home, "spec")
	cmd.Env = append(os.Environ(), env...)
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err = cmd.Run()
	tlcRuns.Add(1)
	r := &tlcResult{out: b.String()}
	if m := statesRE.FindAllStringSubmatch(r.out, -1); len(m) > 0 {
		l := m[len(m)-1]
		r.gen, _ = strconv.Atoi(strings.ReplaceAll(l[1], ",", ""))
		r.states, _ = strconv.Atoi(strings.ReplaceAll(l[2], ",", ""))
	}
	if m := depthRE.FindStringSubmatch(r.out); m != nil {
		r.depth, _ = strconv.Atoi(m[1])
	}
	r.finished = strings.Contains(r.out, "Model checking completed. No error has been found.")
	r.violated = strings.Contains(r.out, "is violated") || strings.Contains(r.out, "was violated")
	if ctx.Err() != nil {
		return r, errSlow
	}
	if !r.finished && !r.violated {
		t := r.out
		if len(t) > 3000 {
			t = t[:1500] + "\n...\n" + t[len(t)-1500:]
		}
		return r, fmt.Errorf("TLC failed: %v\n%s", err, t)
	}
	return r, nil
}

// Diverged is one reported divergence.
type Diverged struct {
	Tid      int             `json:"tid"`
	L        int             `json:"l"`
	Aspects  []string        `json:"aspects"`
	Ends     bool            `json:"ends"`
	Relevant bool            `json:"relevant"`
	Want     json.RawMessage `json:"want"`
	Stats    json.RawMessage `json:"stats"`
}

// parsePrinted extracts the JSON of lines printed by PrintT as "TAG {...}".
func parsePrinted(out, tag string) []string {
	var res []string
	for _, l := range strings.Split(out, "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "\""+tag+" ") {
			continue
		}
		s, err := strconv.Unquote(l)
		if err != nil {
			// TLC escapes less than Go does
			s = strings.TrimSuffix(strings.TrimPrefix(l, "\""), "\"")
			s = strings.ReplaceAll(strings.ReplaceAll(s, `\"`, `"`), `\\`, `\`)
		}
		res = append(res, strings.TrimPrefix(s, tag+" "))
	}
	return res
}

// validate checks recorded scenarios against Trace.tla. The result maps the
// index of a scenario to its divergence.
func validate(recs []*Recorded, aspects string, limit time.Duration) (map[int]Diverged, *tlcResult, error) {
	f, err := os.CreateTemp(scratch, "trace*.json")
	if err != nil {
		return nil, nil, err
	}
	defer os.Remove(f.Name())
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(recs); err != nil {
		return nil, nil, err
	}
	f.Close()
	r, err := runTLC("Trace.tla", "Trace.cfg", []string{"TRACE=" + f.Name(), "ASPECTS=" + aspects}, 8, limit)
	if err != nil {
		return nil, r, err
	}
	div, ends := map[int]Diverged{}, map[int]int{}
	for _, s := range parsePrinted(r.out, "DIVERGED") {
		var d Diverged
		if err := json.Unmarshal([]byte(s), &d); err != nil {
			return nil, r, fmt.Errorf("cannot parse divergence %q: %v", s, err)
		}
		if d.Ends {
			ends[d.Tid-1] = d.L
		}
		if old, ok := div[d.Tid-1]; !ok || d.Relevant || !old.Relevant && d.L < old.L {
			div[d.Tid-1] = d
		}
	}
	want := 0
	for i, rec := range recs {
		if l, ok := ends[i]; ok {
			want += l + 2
		} else {
			want += len(rec.Evs) + 2
		}
	}
	if r.states != want {
		return nil, r, fmt.Errorf("TLC followed %d states of %d: the validation is not complete\n%s", r.states, want, tail(r.out, 2000))
	}
	return div, r, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
