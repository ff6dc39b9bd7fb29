package vs

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// T is the handle of one execution.
type T struct {
	s *Sched
}

// Fail reports a violation and ends the execution.
func (t *T) Fail(format string, a ...any) {
	t.s.fail(fmt.Sprintf(format, a...), "")
	runtime.Goexit()
}

// Check fails unless cond.
func (t *T) Check(cond bool, format string, a ...any) {
	if !cond {
		t.Fail(format, a...)
	}
}

// Choose is a free environment choice (all alternatives are explored).
func (t *T) Choose(n int) int { return t.s.choose(n, 0) }

// Deviate is an environment choice whose non default answers cost one
// deviation.
func (t *T) Deviate(n int) int { return t.s.choose(n, 1) }

// Cost is an environment choice with an explicit cost.
func (t *T) Cost(n int, c uint8) int { return t.s.choose(n, c) }

// Obs adds to the observed outcome of the execution.
func (t *T) Obs(format string, a ...any) {
	if !t.s.dead {
		fmt.Fprintf(&t.s.obs, format, a...)
		t.s.obs.WriteByte(';')
	}
}

// Now is the virtual time of the execution in ns.
func (t *T) Now() int64 { return t.s.now }

// Over reports whether the execution is being torn down.
func (t *T) Over() bool { return t.s.dead || t.s.ending }

// Map orders can be switched on and off around parts of the driver.
func (t *T) MapOrder(on bool) bool {
	old := t.s.opts.MapOrder
	t.s.opts.MapOrder = on
	return old
}

// Explore switches scheduling alternatives on or off (set-up phases).
func (t *T) Explore(on bool) {
	t.s.opts.SchedOff = !on
	t.s.opts.CaseOff = !on
}

// Logf adds to the trace (only kept on replay).
func (t *T) Logf(format string, a ...any) { t.s.tracef("-- "+format, a...) }

// Scenario is one closed system to explore.
type Scenario struct {
	Name  string
	Opts  Opts
	Quick int // deviation bound of the quick tier (-1: not in quick)
	Deep  int // deviation bound of the thorough tier
	Cap   int // maximum executions per shard in the quick tier (0: none)
	Run   func(t *T)
}

type Violation struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Message  string   `json:"message"`
	Detail   string   `json:"detail,omitempty"`
	Choices  []uint16 `json:"choices"`
	Devs     int      `json:"deviations"`
	Tier     string   `json:"tier"`
	Known    string   `json:"known,omitempty"`
	Trace    []string `json:"trace,omitempty"`
	Obs      string   `json:"observed,omitempty"`
}

type ScenResult struct {
	Name        string   `json:"name"`
	Bound       int      `json:"bound"`
	Completed   int      `json:"completed_bound"` // -1: none
	Execs       int64    `json:"execs"`
	Steps       int64    `json:"steps"`
	Points      int64    `json:"points"`
	MaxPoints   int      `json:"max_points"`
	Outcomes    []uint64 `json:"outcomes"`
	Samples     []string `json:"samples"`
	Diverged    int      `json:"diverged"`
	Flaky       int      `json:"flaky"`
	Known       int      `json:"known"`
	Exhaustive  bool     `json:"exhaustive"`
	WallMs      int64    `json:"wall_ms"`
	PerDev      []int64  `json:"execs_by_deviations"`
	outcomes    map[uint64]bool
	violation   *Violation
	knownSample map[string]*Violation
}

type Result struct {
	Property   string        `json:"property"`
	Scenarios  []*ScenResult `json:"scenarios"`
	Violations []*Violation  `json:"violations"`
	Known      []*Violation  `json:"known"`
	Races      int           `json:"races"`
}

// KnownFinding identifies a recorded defect.
type KnownFinding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

type explorer struct {
	prop     string
	tier     string
	sc       *Scenario
	res      *ScenResult
	shard    int
	nshard   int
	deadline time.Time
	known    []KnownFinding
	stop     bool
	capped   bool
	maxExec  int64
	bound    int
	races    int
	dearer   bool // there are alternatives beyond the bound
}

func (e *explorer) exec(prefix []uint16, tracing bool) *Sched {
	atomic.AddInt64(&execCount, 1)
	opts := e.sc.Opts
	opts.Bound = e.bound
	t := &T{}
	return run(opts, prefix, tracing, func() {
		t.s = S
		e.sc.Run(t)
	})
}

func devs(x *Sched) int {
	d := 0
	for i, c := range x.choices {
		if c != 0 {
			d += int(x.points[i].cost)
		}
	}
	return d
}

func (e *explorer) matchKnown(msg string) string {
	for _, k := range e.known {
		if k.Property != e.prop || k.Match == "" {
			continue
		}
		if k.Scenario != "" && !strings.HasPrefix(e.sc.Name, k.Scenario) {
			continue
		}
		if strings.Contains(msg, k.Match) {
			return k.What
		}
	}
	return ""
}

// one executes the prefix and records; it returns the execution.
func (e *explorer) one(prefix []uint16, count bool) *Sched {
	x := e.exec(prefix, false)
	if RaceEnabled {
		if n := RaceErrors(); n > e.races {
			e.races = n
			r := newRaces()
			if os.Getenv("VS_RACES") != "" { // list them all
				for _, l := range r {
					fmt.Fprintln(os.Stderr, e.sc.Name, l)
				}
				r = nil
			}
			if len(r) > 0 && x.failure == "" {
				x.failure, x.detail, _ = strings.Cut(r[0], "\x00")
			}
		}
	}
	if x.diverge != "" {
		e.res.Diverged++
		return x
	}
	if count {
		r := e.res
		r.Execs++
		d := devs(x)
		for len(r.PerDev) <= d {
			r.PerDev = append(r.PerDev, 0)
		}
		r.PerDev[d]++
		r.Steps += int64(x.steps)
		r.Points += int64(len(x.points))
		if len(x.points) > r.MaxPoints {
			r.MaxPoints = len(x.points)
		}
		h := fnv.New64a()
		h.Write([]byte(x.obs.String()))
		o := h.Sum64()
		if !r.outcomes[o] {
			r.outcomes[o] = true
			if len(r.Samples) < 4 {
				r.Samples = append(r.Samples, trunc(x.obs.String(), 300))
			}
		}
		if x.failure != "" {
			e.violation(x)
		}
	}
	return x
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (e *explorer) violation(x *Sched) {
	choices := append([]uint16(nil), x.choices...)
	msg := x.failure
	what := e.matchKnown(msg)
	if what != "" {
		e.res.Known++
		if e.res.knownSample[what] == nil {
			y := e.exec(choices, true)
			e.res.knownSample[what] = &Violation{Property: e.prop, Scenario: e.sc.Name, Message: msg, Choices: choices, Devs: devs(x), Tier: e.tier, Known: what, Trace: y.trace, Obs: y.obs.String()}
		}
		return
	}
	// the same schedule must fail every time
	if !RaceEnabled {
		for i := 0; i < 5; i++ {
			y := e.exec(choices, false)
			if y.failure == "" || y.diverge != "" {
				e.res.Flaky++
				fmt.Fprintf(os.Stderr, "flaky: %v %v: %v (then %q, %q)\n", e.prop, e.sc.Name, msg, y.failure, y.diverge)
				return
			}
		}
	}
	y := x
	if !RaceEnabled { // the detector reports each race once
		y = e.exec(choices, true)
	}
	v := &Violation{Property: e.prop, Scenario: e.sc.Name, Message: msg, Detail: y.detail, Choices: choices, Devs: devs(x), Tier: e.tier, Trace: y.trace, Obs: y.obs.String()}
	if len(v.Trace) > 4000 {
		v.Trace = v.Trace[len(v.Trace)-4000:]
	}
	e.res.violation = v
	e.stop = true
}

// explore enumerates all extensions of prefix (which has been executed as x).
func (e *explorer) children(x *Sched, from, used int, f func(p []uint16, cost int)) {
	for i := from; i < len(x.points); i++ {
		pt := x.points[i]
		if used+int(pt.cost) > e.bound {
			e.dearer = true
			continue
		}
		for alt := uint16(1); alt < pt.n; alt++ {
			p := make([]uint16, i+1)
			copy(p, x.choices[:i])
			p[i] = alt
			f(p, used+int(pt.cost))
		}
	}
}

func (e *explorer) over() bool {
	if e.stop {
		return true
	}
	if time.Now().After(e.deadline) || (e.maxExec > 0 && e.res.Execs >= e.maxExec) {
		e.capped = true
		return true
	}
	return false
}

func (e *explorer) dfs(p []uint16, used int) {
	if e.over() {
		return
	}
	x := e.one(p, true)
	if x.diverge != "" {
		return
	}
	x.trace = nil
	e.children(x, len(p), used, func(q []uint16, cost int) { e.dfs(q, cost) })
}

func mix(a, b int) int {
	h := uint32(a)*2654435761 ^ uint32(b)*40503 ^ 0x9e37
	h ^= h >> 13
	h *= 0x85ebca6b
	h ^= h >> 16
	return int(h & 0x7fffffff)
}

func (e *explorer) runBound() {
	mine := e.shard == 0
	x := e.one(nil, mine)
	i := 0
	e.children(x, 0, 0, func(p []uint16, cost int) {
		i++
		if e.over() {
			return
		}
		k := mix(i, 7)
		own := k%e.nshard == e.shard
		if cost == e.bound && cost > 0 { // few or no further choices
			if own {
				e.dfs(p, cost)
			}
			return
		}
		y := e.one(p, own)
		if y.diverge != "" {
			return
		}
		j := 0
		e.children(y, len(p), cost, func(q []uint16, cost2 int) {
			j++
			if mix(i, j)%e.nshard == e.shard {
				e.dfs(q, cost2)
			}
		})
	})
}

// job is the exploration of a scenario with iterated deviation bounds.
type job struct {
	sc    *Scenario
	bound int // the bound to reach
	next  int // the next bound to explore
	res   *ScenResult
	flat  bool // nothing can deviate beyond the last bound
	quit  bool // ran out of time or found a violation
}

// round explores one bound.
func (j *job) round(prop, tier string, shard, nshard int, deadline time.Time, known []KnownFinding) {
	b := j.next
	j.next++
	t0 := time.Now()
	old := j.res
	// only the last bound is counted in the statistics
	r := &ScenResult{Name: j.sc.Name, Bound: j.bound, Completed: old.Completed, outcomes: map[uint64]bool{}, knownSample: map[string]*Violation{}}
	e := &explorer{prop: prop, tier: tier, sc: j.sc, res: r, shard: shard, nshard: nshard, deadline: deadline, known: known, bound: b, races: RaceErrors()}
	if tier == "quick" && j.sc.Cap > 0 {
		e.maxExec = int64(j.sc.Cap)
	}
	e.runBound()
	r.WallMs = old.WallMs + time.Since(t0).Milliseconds()
	r.Diverged += old.Diverged
	r.Flaky += old.Flaky
	if !e.capped && !e.stop {
		r.Completed = b
		j.flat = !e.dearer
	} else {
		j.quit = true
		if old.Execs > r.Execs && !e.stop {
			old.Diverged, old.Flaky, old.WallMs = r.Diverged, r.Flaky, r.WallMs
			return
		}
	}
	j.res = r
}

// more reports whether the next bound is to be explored. Beyond the bound to
// reach it is if there is anything left to deviate from.
func (j *job) more(round int, beyond bool) bool {
	if j.quit || j.next != round {
		return false
	}
	return j.next <= j.bound || beyond && !j.flat
}

// exploreAll explores the scenarios, all of them with a bound before any with
// the next one.
func exploreAll(prop, tier string, scs []*Scenario, shard, nshard int, end time.Time, known []KnownFinding) []*ScenResult {
	var jobs []*job
	for _, sc := range scs {
		j := &job{sc: sc, bound: sc.Quick}
		if tier == "thorough" {
			j.bound = sc.Deep
		}
		j.res = &ScenResult{Name: sc.Name, Bound: j.bound, Completed: -1, knownSample: map[string]*Violation{}}
		jobs = append(jobs, j)
	}
	stop := false
	for round := 0; round < 8 && !stop; round++ {
		var now []*job
		for _, beyond := range []bool{false, true} {
			for _, j := range jobs {
				if j.more(round, beyond && tier == "thorough" && !time.Now().After(end)) && (!beyond || j.next > j.bound) {
					now = append(now, j)
				}
			}
		}
		for i, j := range now {
			if j.next > j.bound && time.Now().After(end) {
				continue
			}
			current = j.sc
			// a generous share of the remaining time
			left := time.Until(end)
			share := left / time.Duration(len(now)-i) * 6
			if share > left {
				share = left
			}
			j.round(prop, tier, shard, nshard, time.Now().Add(share), known)
			if j.res.violation != nil && os.Getenv("VS_ALL") == "" {
				stop = true
				break
			}
		}
	}
	var out []*ScenResult
	for _, j := range jobs {
		r := j.res
		r.Exhaustive = r.Completed >= r.Bound && r.Diverged == 0 && r.Flaky == 0
		for o := range r.outcomes {
			r.Outcomes = append(r.Outcomes, o)
		}
		sort.Slice(r.Outcomes, func(i, j int) bool { return r.Outcomes[i] < r.Outcomes[j] })
		out = append(out, r)
	}
	return out
}

// Suite is the set of scenarios of a property; it is a function because the
// scenarios may depend on the tier.
type Suite func(tier string) []*Scenario

// Main runs the requested property: args are
// prop tier shard nshard seconds out.json known.json [replay file]
func Main(suites map[string]Suite) {
	raceSetup()
	debug.SetGCPercent(400)
	a := os.Args[1:]
	if len(a) >= 2 && a[0] == "replay" {
		replay(suites, a[1])
		return
	}
	if len(a) == 1 && a[0] == "list" {
		for p, su := range suites {
			fmt.Println(p, len(su("quick")), len(su("thorough")))
		}
		return
	}
	if len(a) < 7 {
		fmt.Fprintln(os.Stderr, "usage: prop tier shard nshard seconds out known [scenario-prefix]")
		os.Exit(2)
	}
	prop, tier := a[0], a[1]
	var shard, nshard int
	var secs float64
	fmt.Sscan(a[2], &shard)
	fmt.Sscan(a[3], &nshard)
	fmt.Sscan(a[4], &secs)
	var known []KnownFinding
	if data, err := os.ReadFile(a[6]); err == nil {
		if err := json.Unmarshal(data, &known); err != nil {
			fmt.Fprintln(os.Stderr, "known findings:", err)
			os.Exit(2)
		}
	}
	su, ok := suites[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property:", prop)
		os.Exit(2)
	}
	only := ""
	if len(a) > 7 {
		only = a[7]
	}
	start := time.Now()
	end := start.Add(time.Duration(secs * float64(time.Second)))
	out := &Result{Property: prop}
	scs := []*Scenario{}
	for _, sc := range su(tier) {
		b := sc.Quick
		if tier == "thorough" {
			b = sc.Deep
		}
		if b < 0 || !strings.HasPrefix(sc.Name, only) {
			continue
		}
		scs = append(scs, sc)
	}
	go watchdog(func(x *Sched) {
		// the code under test computes without ever reaching a scheduling point
		v := &Violation{Property: prop, Scenario: current.Name, Message: "NONTERMINATION: the code computes for 10 s without reaching any synchronisation or finishing", Choices: append([]uint16(nil), x.choices...), Tier: tier, Obs: x.obs.String(), Detail: stacks()}
		v.Devs = devs(x)
		out.Scenarios = append(out.Scenarios, &ScenResult{Name: current.Name, Completed: -1})
		out.Violations = append(out.Violations, v)
		data, _ := json.Marshal(out)
		os.WriteFile(a[5], data, 0o644)
		os.Exit(0)
	})
	for _, r := range exploreAll(prop, tier, scs, shard, nshard, end, known) {
		out.Scenarios = append(out.Scenarios, r)
		if r.violation != nil {
			out.Violations = append(out.Violations, r.violation)
		}
		for _, k := range r.knownSample {
			out.Known = append(out.Known, k)
		}
	}
	out.Races = RaceErrors()
	data, _ := json.Marshal(out)
	if err := os.WriteFile(a[5], data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

var current *Scenario
var execCount int64

func stacks() string {
	buf := make([]byte, 1<<16)
	return string(buf[:runtime.Stack(buf, true)])
}

// watchdog calls f when an execution makes no progress for 10 s of process
// time although it is neither over nor blocked.
func watchdog(f func(x *Sched)) {
	var last *Sched
	lastSteps, n := -1, 0
	lastCount := int64(-1)
	for {
		time.Sleep(500 * time.Millisecond)
		x := S
		c := atomic.LoadInt64(&execCount)
		if x == nil || x.dead || x != last || x.steps != lastSteps || c != lastCount {
			last, lastCount, n = x, c, 0
			if x != nil {
				lastSteps = x.steps
			}
			continue
		}
		n++
		if n >= 20 {
			f(x)
			return
		}
	}
}

func replay(suites map[string]Suite, file string) {
	data, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var v Violation
	if err := json.Unmarshal(data, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, sc := range suites[v.Property](v.Tier) {
		if sc.Name != v.Scenario {
			continue
		}
		e := &explorer{prop: v.Property, sc: sc, bound: v.Devs}
		go watchdog(func(x *Sched) {
			for _, l := range x.trace {
				fmt.Println(l)
			}
			fmt.Println("result: NONTERMINATION")
			fmt.Println(stacks())
			os.Exit(1)
		})
		x := e.exec(v.Choices, !RaceEnabled)
		if RaceEnabled {
			for _, r := range newRaces() {
				if x.failure == "" {
					x.failure, x.detail, _ = strings.Cut(r, "\x00")
				}
			}
		}
		for _, l := range x.trace {
			fmt.Println(l)
		}
		fmt.Println("observed:", x.obs.String())
		fmt.Println("diverged:", x.diverge)
		fmt.Println("result:", x.failure)
		fmt.Println(x.detail)
		if x.failure != "" {
			os.Exit(1)
		}
		return
	}
	fmt.Fprintln(os.Stderr, "scenario not found")
	os.Exit(2)
}
