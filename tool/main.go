// Command tool builds the instrumented harness from /repo's working tree and
// runs the exploration of one property.
//
//	tool check PROP quick|thorough
//	tool replay FILE
//	tool build DIR            (keep the build for development)
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/tool/rewrite"
)

var verif = "/verif"
var repo = "/repo"

const streams = "github.com/openrelayxyz/cardinal-streams/v2"

var scratch string

func fatal(format string, a ...any) {
	if scratch != "" {
		os.RemoveAll(scratch)
	}
	fmt.Fprintf(os.Stderr, "error: "+format+"\n", a...)
	os.Exit(2)
}

func env(extra ...string) []string {
	e := os.Environ()
	return append(append(e, "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOSUMDB=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOWORK=off"), extra...)
}

func goCmd(dir string, args ...string) ([]byte, error) { return goEnv(dir, nil, args...) }

func goEnv(dir string, vars []string, args ...string) ([]byte, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = env(vars...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		return out.Bytes(), fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, errb.String())
	}
	return out.Bytes(), nil
}

func copyFile(src, dst string) error {
	data, err := os.ReadFile(src)
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		return err
	}
	return os.WriteFile(dst, data, 0o644)
}

// copyDir copies the Go files of a directory tree (no tests).
func copyDir(src, dst string, recurse bool, skip func(rel string) bool) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if rel != "." && (!recurse || strings.HasPrefix(fi.Name(), ".") || (skip != nil && skip(rel))) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || (skip != nil && skip(rel)) {
			return nil
		}
		return copyFile(p, filepath.Join(dst, rel))
	})
}

func moduleDir(mod string) (string, error) {
	out, err := goCmd(repo, "list", "-m", "-f", "{{.Dir}}", mod)
	if err != nil {
		return "", err
	}
	d := strings.TrimSpace(string(out))
	if d == "" {
		return "", fmt.Errorf("module %s not in the cache", mod)
	}
	return d, nil
}

type listPkg struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Error      *struct{ Err string }
}

// prepare lays out the closed system in dir.
func prepare(dir string) error {
	must := func(err error) error { return err }
	_ = must
	for _, p := range []string{"delivery", "transports", "waiter"} {
		if err := copyDir(filepath.Join(repo, p), filepath.Join(dir, "streams", p), true, nil); err != nil {
			return err
		}
	}
	// further packages of the repository that the three may import
	ents, err := os.ReadDir(repo)
	if err != nil {
		return err
	}
	for _, e := range ents {
		switch e.Name() {
		case "delivery", "transports", "waiter", "cmd", "utils":
			continue
		}
		if e.IsDir() && !strings.HasPrefix(e.Name(), ".") {
			if err := copyDir(filepath.Join(repo, e.Name()), filepath.Join(dir, "streams", e.Name()), true, nil); err != nil {
				return err
			}
		}
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		if err := copyFile(filepath.Join(repo, f), filepath.Join(dir, "streams", f)); err != nil {
			return err
		}
	}
	if err := copyDir(filepath.Join(verif, "vs"), filepath.Join(dir, "vs"), true, nil); err != nil {
		return err
	}
	if err := copyFile(filepath.Join(verif, "vs/go.mod"), filepath.Join(dir, "vs/go.mod")); err != nil {
		return err
	}
	td, err := moduleDir("github.com/openrelayxyz/cardinal-types")
	if err != nil {
		return err
	}
	if err := copyDir(td, filepath.Join(dir, "types"), true, func(rel string) bool { return rel == "metrics" }); err != nil {
		return err
	}
	if err := copyDir(filepath.Join(verif, "fakes/metrics"), filepath.Join(dir, "types/metrics"), true, nil); err != nil {
		return err
	}
	if err := copyFile(filepath.Join(td, "go.mod"), filepath.Join(dir, "types/go.mod")); err != nil {
		return err
	}
	rd, err := moduleDir("github.com/openrelayxyz/cardinal-rpc")
	if err != nil {
		return err
	}
	if err := copyDir(rd, filepath.Join(dir, "rpc"), false, nil); err != nil {
		return err
	}
	if err := copyFile(filepath.Join(rd, "go.mod"), filepath.Join(dir, "rpc/go.mod")); err != nil {
		return err
	}
	if err := copyDir(filepath.Join(verif, "fakes/rpctransports"), filepath.Join(dir, "rpc/transports"), true, nil); err != nil {
		return err
	}
	dd, err := moduleDir("github.com/openrelayxyz/drumline")
	if err != nil {
		return err
	}
	if err := copyDir(dd, filepath.Join(dir, "drumline"), false, nil); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "drumline", "go.mod"), []byte("module github.com/openrelayxyz/drumline\n\ngo 1.16\n"), 0o644); err != nil {
		return err
	}
	for name, mod := range map[string]string{
		"sarama": "github.com/Shopify/sarama", "websocket": "github.com/gorilla/websocket",
		"log15": "github.com/inconshreveable/log15",
	} {
		if err := copyDir(filepath.Join(verif, "fakes", name), filepath.Join(dir, name), true, nil); err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dir, name, "go.mod"), []byte("module "+mod+"\n\ngo 1.16\n"), 0o644); err != nil {
			return err
		}
	}
	if err := copyDir(filepath.Join(verif, "harness"), filepath.Join(dir, "h"), true, nil); err != nil {
		return err
	}
	// main module: the requirements of the repository plus the local ones
	mod, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return err
	}
	var b strings.Builder
	b.WriteString("module verif.local/h\n\ngo 1.21\n\n")
	in := false
	for _, l := range strings.Split(string(mod), "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "require ("):
			in = true
			b.WriteString("require (\n")
		case in && t == ")":
			in = false
			b.WriteString(")\n")
		case in, strings.HasPrefix(t, "require "):
			b.WriteString(l + "\n")
		case strings.HasPrefix(t, "replace "):
			b.WriteString(l + "\n")
		}
	}
	fmt.Fprintf(&b, "\nrequire verif.local/vs v0.0.0\nrequire %s v2.0.0\n\n", streams)
	for m, d := range map[string]string{
		"verif.local/vs": "../vs", streams: "../streams",
		"github.com/openrelayxyz/cardinal-types": "../types",
		"github.com/openrelayxyz/cardinal-rpc":   "../rpc",
		"github.com/openrelayxyz/drumline":       "../drumline",
		"github.com/Shopify/sarama":              "../sarama",
		"github.com/gorilla/websocket":           "../websocket",
		"github.com/inconshreveable/log15":       "../log15",
	} {
		fmt.Fprintf(&b, "replace %s => %s\n", m, d)
	}
	if err := os.WriteFile(filepath.Join(dir, "h/go.mod"), []byte(b.String()), 0o644); err != nil {
		return err
	}
	return copyFile(filepath.Join(repo, "go.sum"), filepath.Join(dir, "h/go.sum"))
}

// build rewrites and builds the harness binary (hd or ht).
func build(dir, bin string, race bool) (string, error) {
	h := filepath.Join(dir, "h")
	out, err := goCmd(h, "list", "-export", "-deps", "-json=ImportPath,Dir,GoFiles,Export,Standard,Error", "./"+bin)
	if err != nil {
		return "", err
	}
	exports := map[string]string{}
	var mine []listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return "", err
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if !p.Standard && strings.HasPrefix(p.Dir, dir+"/") && p.ImportPath != "verif.local/vs" && p.Dir != dir+"/rpc" && !strings.HasPrefix(p.Dir, dir+"/log15") {
			mine = append(mine, p)
		}
	}
	var wg sync.WaitGroup
	errs := make([]error, len(mine))
	for i, p := range mine {
		wg.Add(1)
		go func(i int, p listPkg) {
			defer wg.Done()
			errs[i] = rewrite.Rewrite(rewrite.Package{ImportPath: p.ImportPath, Dir: p.Dir, GoFiles: p.GoFiles}, exports)
		}(i, p)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			return "", e
		}
	}
	exe := filepath.Join(dir, bin+".exe")
	args := []string{"build", "-trimpath", "-o", exe}
	var vars []string
	if race {
		// Memory allocated by code that is not instrumented must be known to the
		// detector as well, not appear as what it was used for before.
		vars = []string{"GOEXPERIMENT=nosizespecializedmalloc"}
		// the scheduler must not add synchronisation of its own, the fakes stand
		// for other processes
		args = append(args, "-race")
		for _, p := range []string{"verif.local/vs", "github.com/Shopify/sarama", "github.com/gorilla/websocket", "github.com/openrelayxyz/cardinal-rpc/transports", "github.com/openrelayxyz/drumline"} {
			args = append(args, "-gcflags="+p+"=-race=false")
		}
	}
	args = append(args, "./"+bin)
	if _, err := goEnv(h, vars, args...); err != nil {
		return "", err
	}
	return exe, nil
}

type propSpec struct {
	Bin    string   `json:"bin"`
	Race   bool     `json:"race"`
	Level  string   `json:"level"`
	QuickS float64  `json:"quick_s"`
	DeepS  float64  `json:"deep_s"`
	Rule   string   `json:"rule"`
	Assume []string `json:"assumptions"`
	Bounds string   `json:"bounds"`
}

type violation struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Message  string          `json:"message"`
	Detail   string          `json:"detail,omitempty"`
	Choices  json.RawMessage `json:"choices"`
	Devs     int             `json:"deviations"`
	Tier     string          `json:"tier"`
	Known    string          `json:"known,omitempty"`
	Trace    []string        `json:"trace,omitempty"`
	Obs      string          `json:"observed,omitempty"`
	Bin      string          `json:"bin,omitempty"`
	Race     bool            `json:"race,omitempty"`
}

type scen struct {
	Name       string   `json:"name"`
	Bound      int      `json:"bound"`
	Completed  int      `json:"completed_bound"`
	Execs      int64    `json:"execs"`
	Steps      int64    `json:"steps"`
	Points     int64    `json:"points"`
	MaxPoints  int      `json:"max_points"`
	Outcomes   []uint64 `json:"outcomes"`
	Samples    []string `json:"samples"`
	Diverged   int      `json:"diverged"`
	Flaky      int      `json:"flaky"`
	Known      int      `json:"known"`
	Exhaustive bool     `json:"exhaustive"`
	PerDev     []int64  `json:"execs_by_deviations"`
}

type result struct {
	Scenarios  []*scen      `json:"scenarios"`
	Violations []*violation `json:"violations"`
	Known      []*violation `json:"known"`
}

func check(prop, tier string) int {
	t0 := time.Now()
	var specs map[string]propSpec
	data, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err != nil {
		fatal("%v", err)
	}
	if err := json.Unmarshal(data, &specs); err != nil {
		fatal("checks.json: %v", err)
	}
	spec, ok := specs[prop]
	if !ok {
		fatal("no check for %s", prop)
	}
	tmp, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fatal("%v", err)
	}
	scratch = tmp
	defer os.RemoveAll(tmp)
	if err := prepare(tmp); err != nil {
		fatal("%v", err)
	}
	exe, err := build(tmp, spec.Bin, spec.Race)
	if err != nil {
		fatal("%v", err)
	}
	buildS := time.Since(t0).Seconds()
	secs := spec.QuickS
	if tier == "thorough" {
		secs = spec.DeepS
	}
	n := 8
	if v := os.Getenv("VERIF_SHARDS"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	results := make([]*result, n)
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(tmp, fmt.Sprintf("r%d.json", i))
			cmd := exec.Command(exe, prop, tier, strconv.Itoa(i), strconv.Itoa(n), fmt.Sprint(secs), out, filepath.Join(verif, "known_findings.json"))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
			var errb bytes.Buffer
			cmd.Stderr = &errb
			cmd.Stdout = &errb
			cmd.Dir = tmp
			runErr := cmd.Run()
			if errb.Len() > 0 {
				s := errb.String()
				if len(s) > 20000 {
					s = s[:20000]
				}
				fmt.Fprintf(os.Stderr, "[shard %d] %s\n", i, s)
			}
			data, err := os.ReadFile(out)
			if err != nil {
				errs[i] = fmt.Errorf("shard %d: %v %v", i, runErr, err)
				return
			}
			r := &result{}
			if err := json.Unmarshal(data, r); err != nil {
				errs[i] = err
				return
			}
			results[i] = r
		}(i)
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			fatal("%v", e)
		}
	}
	return report(prop, tier, spec, results, t0, buildS)
}

func report(prop, tier string, spec propSpec, results []*result, t0 time.Time, buildS float64) int {
	byName := map[string]*scen{}
	var order []string
	outs := map[string]map[uint64]bool{}
	var viols, knowns []*violation
	for _, r := range results {
		for _, s := range r.Scenarios {
			m := byName[s.Name]
			if m == nil {
				c := *s
				c.Outcomes = nil
				m = &c
				byName[s.Name] = m
				order = append(order, s.Name)
				outs[s.Name] = map[uint64]bool{}
			} else {
				m.Execs += s.Execs
				m.Steps += s.Steps
				m.Points += s.Points
				m.Diverged += s.Diverged
				m.Flaky += s.Flaky
				m.Known += s.Known
				m.Exhaustive = m.Exhaustive && s.Exhaustive
				if s.Completed < m.Completed {
					m.Completed = s.Completed
				}
				if s.MaxPoints > m.MaxPoints {
					m.MaxPoints = s.MaxPoints
				}
				for i, d := range s.PerDev {
					if i < len(m.PerDev) {
						m.PerDev[i] += d
					} else {
						m.PerDev = append(m.PerDev, d)
					}
				}
				if len(m.Samples) < 2 {
					m.Samples = append(m.Samples, s.Samples...)
				}
			}
			for _, o := range s.Outcomes {
				outs[s.Name][o] = true
			}
		}
		viols = append(viols, r.Violations...)
		knowns = append(knowns, r.Known...)
	}
	// evidence
	var execs, steps, points, distinct int64
	exhaustive := true
	var samples []any
	var table []any
	for _, n := range order {
		s := byName[n]
		execs += s.Execs
		steps += s.Steps
		points += s.Points
		distinct += int64(len(outs[n]))
		exhaustive = exhaustive && s.Exhaustive
		table = append(table, map[string]any{"scenario": n, "bound": s.Bound, "completed_bound": s.Completed, "schedules": s.Execs, "schedules_by_deviations": s.PerDev, "transitions": s.Steps, "choice_points": s.Points, "longest_choice_sequence": s.MaxPoints, "distinct_outcomes": len(outs[n]), "exhaustive_within_bound": s.Exhaustive, "diverged": s.Diverged, "not_reproduced": s.Flaky, "known_finding_hits": s.Known})
		if len(samples) < 12 && len(s.Samples) > 0 {
			samples = append(samples, map[string]any{"scenario": n, "observed": s.Samples[len(s.Samples)-1]})
		}
	}
	if len(viols) > 0 {
		exhaustive = false
	}
	if samples == nil {
		samples = []any{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	vlist := []any{}
	for _, v := range viols {
		vlist = append(vlist, map[string]any{"scenario": v.Scenario, "message": v.Message, "deviations": v.Devs})
	}
	states := distinct
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": spec.Level,
		"coverage": map[string]any{
			"evaluations": execs, "distinct_nontrivial": distinct,
			"states": states, "transitions": steps, "schedules": execs, "choice_points": points,
			"traces_validated_against_impl": execs,
			"rule":                          spec.Rule,
			"bounds":                        spec.Bounds,
			"samples":                       samples,
			"exhaustive":                    exhaustive,
			"scenarios":                     table,
			"build_s":                       buildS,
			"violation_list":                vlist,
		},
		"assumptions": spec.Assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viols),
	}
	os.MkdirAll(filepath.Join(verif, "evidence/replays"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(data, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	seen := map[string]bool{}
	for _, k := range knowns {
		if !seen[k.Known] {
			seen[k.Known] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.Known)
		}
	}
	fmt.Printf("%s %s: %d schedules, %d transitions, %d distinct outcomes, %d scenarios, exhaustive=%v, %.1fs (build %.1fs)\n", prop, tier, execs, steps, distinct, len(order), exhaustive, time.Since(t0).Seconds(), buildS)
	for _, n := range order {
		if s := byName[n]; !s.Exhaustive {
			fmt.Printf("  not exhaustive: %s (completed bound %d of %d, %d schedules, diverged %d, not reproduced %d)\n", n, s.Completed, s.Bound, s.Execs, s.Diverged, s.Flaky)
		}
	}
	if len(viols) == 0 {
		return 0
	}
	sort.SliceStable(viols, func(i, j int) bool { return viols[i].Devs < viols[j].Devs })
	v := viols[0]
	v.Bin, v.Race = spec.Bin, spec.Race
	name := filepath.Join(verif, "evidence/replays", prop+".json")
	data, _ = json.MarshalIndent(v, "", " ")
	if err := os.WriteFile(name, data, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("  scenario %s: %s (%d deviations)\n", v.Scenario, v.Message, v.Devs)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
	return 1
}

func main() {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verif = v
	}
	if v := os.Getenv("VERIF_REPO"); v != "" {
		repo = v
	}
	a := os.Args[1:]
	switch {
	case len(a) == 3 && a[0] == "check":
		code := check(a[1], a[2])
		os.Exit(code)
	case len(a) == 2 && a[0] == "replay":
		var v violation
		data, err := os.ReadFile(a[1])
		if err != nil {
			fatal("%v", err)
		}
		if err := json.Unmarshal(data, &v); err != nil {
			fatal("%v", err)
		}
		tmp, err := os.MkdirTemp("", "verif-replay-")
		if err != nil {
			fatal("%v", err)
		}
		err = prepare(tmp)
		var exe string
		if err == nil {
			exe, err = build(tmp, v.Bin, v.Race)
		}
		if err != nil {
			os.RemoveAll(tmp)
			fatal("%v", err)
		}
		cmd := exec.Command(exe, "replay", a[1])
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		err = cmd.Run()
		os.RemoveAll(tmp)
		if err != nil {
			os.Exit(1)
		}
	case len(a) >= 3 && a[0] == "build":
		dir := a[1]
		if err := prepare(dir); err != nil {
			fatal("%v", err)
		}
		exe, err := build(dir, a[2], len(a) > 3 && a[3] == "race")
		if err != nil {
			fatal("%v", err)
		}
		fmt.Println(exe)
	default:
		fatal("usage")
	}
}
