// Command vsim decides a property by simulation: it builds the simulated machines from the current
// tree, runs the seeded search, minimises what it finds and writes replay files and evidence.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif.local/sim/scen"
)

// violation of a property
type violation struct {
	Class string
	Text  string
	Run   int
	Rep   *replay
}

// replay is the content of a replay file
type replay struct {
	Property string         `json:"property"`
	Kind     string         `json:"kind"`
	Class    string         `json:"class"`
	Text     string         `json:"text"`
	Seed     uint64         `json:"seed"`
	Run      int            `json:"run"`
	Scenario *scen.Scenario `json:"scenario,omitempty"`
	Env      []string       `json:"env,omitempty"`
	Cli      *cliCase       `json:"cli,omitempty"`
	Hosts    *hostCase      `json:"hosts,omitempty"`
	Item     *scen.Item     `json:"item,omitempty"`
	Batch    *scen.Batch    `json:"batch,omitempty"`
	Race     bool           `json:"race,omitempty"` // under the race detector
	Faults   []string       `json:"faults,omitempty"`
	Before   string         `json:"before,omitempty"` // size before it was minimised
	Sources  []string       `json:"sources,omitempty"`
}

type check struct {
	id       string
	root     string // /verif
	dir      string // build directory
	tier     string
	seed     uint64
	procs    int
	start    time.Time
	deadline time.Time
	searchS  float64
	mu       sync.Mutex
	cov      map[string]interface{}
	faults   map[string]int
	runs     int
	refs     memo
	w        *worker
	cli      *worker
	race     *worker
	samples  []interface{}
	distinct map[string]bool
	steps    int64
	scale    float64
	sites    []bool
}

var registry = map[string]struct {
	level string
	kinds []string
	run   func(*check) *violation
	again func(*check, *replay) *violation
}{}

func (c *check) quick() bool { return c.tier != "thorough" }

// n scales the number of runs
func (c *check) n(quick, thorough int) int {
	n := quick
	if !c.quick() {
		n = thorough
	}
	if n = int(float64(n) * c.scale); n < 1 {
		n = 1
	}
	return n
}

func (c *check) fault(k string, n int) {
	c.mu.Lock()
	c.faults[k] += n
	c.mu.Unlock()
}

func (c *check) seen(k string) {
	c.mu.Lock()
	c.distinct[k] = true
	c.mu.Unlock()
}

func (c *check) sample(f func() interface{}) {
	c.mu.Lock()
	if len(c.samples) < 3 {
		c.samples = append(c.samples, f())
	}
	c.mu.Unlock()
}

// search performs run 0 to n-1 until one of them violates the property. The result does not depend on
// the number of processors
func (c *check) search(n int, f func(i int) *violation) *violation {
	var mu sync.Mutex
	next := 0
	var found *violation
	var bad interface{}
	var wg sync.WaitGroup
	t := time.Now()
	for p := 0; p < c.procs; p++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					bad = x
					mu.Unlock()
				}
			}()
			for {
				mu.Lock()
				i := next
				stop := bad != nil || found != nil && found.Run < i || i >= n || time.Now().After(c.deadline)
				next++
				mu.Unlock()
				if stop {
					return
				}
				v := f(i)
				mu.Lock()
				c.runs++
				if v != nil && (found == nil || i < found.Run) {
					v.Run = i
					found = v
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	c.mu.Lock()
	c.searchS += time.Since(t).Seconds()
	c.mu.Unlock()
	if bad != nil {
		panic(bad)
	}
	if next < n && found == nil {
		c.cov["stopped_early_at_run"] = next
	}
	return found
}

func main() {
	os.Exit(main2())
}

func main2() (rc int) {
	replayFile := flag.String("replay", "", "file to replay")
	root := flag.String("root", "/verif", "")
	procs := flag.Int("procs", runtime.NumCPU(), "")
	scale := flag.Float64("scale", 1, "")
	print := flag.Bool("print", false, "print the digest of all runs")
	flag.Parse()
	id := flag.Arg(0)
	e, ok := registry[id]
	if id == "setup" {
		return setup(*root)
	}
	if !ok {
		fmt.Fprintln(os.Stderr, "usage: vsim [-replay file] C01..C09, C22")
		return 3
	}
	c := &check{id: id, root: *root, dir: filepath.Join(*root, ".build", id), tier: os.Getenv("VERIF_TIER"), procs: *procs, start: time.Now(),
		cov: map[string]interface{}{}, faults: map[string]int{}, distinct: map[string]bool{}, scale: *scale}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed = 1
	if s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	lim := 400 * time.Second
	if c.tier == "thorough" {
		lim = 6 * time.Hour
	}
	c.deadline = c.start.Add(lim)
	defer func() {
		if x := recover(); x != nil {
			if y, ok := x.(infra); ok {
				fmt.Fprintf(os.Stderr, "ERROR %s: %v\n", id, y.err)
				rc = 3
				return
			}
			panic(x)
		}
	}()
	fmt.Printf("%s tier=%s seed=%d\n", id, c.tier, c.seed)
	for _, k := range e.kinds {
		w := build(*root, c.dir, k)
		switch k {
		case "cli":
			c.cli = w
		case "race":
			c.race = w
		default:
			c.w = w
		}
	}
	c.cov["build_s"] = round(time.Since(c.start).Seconds())
	if *replayFile != "" {
		b, err := os.ReadFile(*replayFile)
		if err != nil {
			trouble("%v", err)
		}
		rp := &replay{}
		if err = json.Unmarshal(b, rp); err != nil {
			trouble("%v", err)
		}
		if v := e.again(c, rp); v != nil {
			fmt.Printf("reproduced: %s\n%s\n", v.Class, v.Text)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, *replayFile)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	v := e.run(c)
	known := c.knownFindings()
	nviol := 0
	if v != nil {
		v.Rep.Property, v.Rep.Class, v.Rep.Text, v.Rep.Seed, v.Rep.Run = id, v.Class, v.Text, c.seed, v.Run
		sig := v.Class
		if k := known[sig]; k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		} else {
			nviol = 1
		}
	}
	c.evidence(e.level, nviol)
	if *print {
		ks := make([]string, 0, len(c.distinct))
		for k := range c.distinct {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println("digest", digest(ks), len(ks), digest(c.faults), c.steps)
	}
	if nviol == 0 {
		fmt.Printf("%s holds on all %d simulated runs (%.1f s)\n", id, c.runs, time.Since(c.start).Seconds())
		return 0
	}
	dir := filepath.Join(*root, "replays")
	if err := os.MkdirAll(dir, 0755); err != nil {
		trouble("%v", err)
	}
	p := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, digest(v.Rep)[:10]))
	b, _ := json.MarshalIndent(v.Rep, "", " ")
	if err := os.WriteFile(p, b, 0644); err != nil {
		trouble("%v", err)
	}
	fmt.Printf("%s: %s\n%s\n", id, v.Class, v.Text)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
	return 1
}

// setup makes sure that everything can be built, and fills the build cache
func setup(root string) (rc int) {
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintln(os.Stderr, "ERROR setup:", x)
			rc = 3
		}
	}()
	dir := filepath.Join(root, ".build", "setup")
	for _, k := range []string{"sim", "race", "cli"} {
		w := build(root, dir, k)
		if k != "cli" {
			if r := w.run(&scen.Scenario{Mode: "history"}); r.crash != nil {
				trouble("%s", r.crash.text)
			}
		}
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*10)) / 10 }

// knownFindings reads what is recorded about defects that are not repaired
func (c *check) knownFindings() map[string]string {
	m := make(map[string]string)
	b, err := os.ReadFile(filepath.Join(c.root, "known-findings.txt"))
	if err != nil {
		trouble("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 class="..." text
		pre := "known: property=" + c.id + " class="
		if strings.HasPrefix(l, pre) {
			q, err := strconv.QuotedPrefix(l[len(pre):])
			if err != nil {
				continue
			}
			k, _ := strconv.Unquote(q)
			m[k] = strings.TrimSpace(l[len(pre)+len(q):])
		}
	}
	return m
}

func (c *check) evidence(level string, nviol int) {
	wall := time.Since(c.start).Seconds()
	c.cov["evaluations"] = c.cov["evaluations"]
	if c.cov["evaluations"] == nil {
		c.cov["evaluations"] = c.runs
	}
	c.cov["distinct_nontrivial"] = len(c.distinct)
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none")
	}
	c.cov["samples"] = c.samples
	c.cov["faults_injected"] = c.faults
	c.cov["simulated_steps"] = c.steps
	c.cov["search_s"] = round(c.searchS)
	if c.searchS > 0 {
		c.cov["runs_per_hour"] = int(float64(c.cov["evaluations"].(int)) / c.searchS * 3600)
	}
	c.cov["seeds"] = fmt.Sprintf("every run derives its own seed from VERIF_SEED=%d and its number", c.seed)
	ev := map[string]interface{}{
		"property": c.id, "tier": c.tier, "seed": c.seed, "level": level, "coverage": c.cov,
		"wall_s": round(wall), "violations": nviol,
		"assumptions": assumptions[c.id],
	}
	dir := filepath.Join(c.root, "evidence")
	if err := os.MkdirAll(dir, 0755); err != nil {
		trouble("%v", err)
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		trouble("%v", err)
	}
	if err = os.WriteFile(filepath.Join(dir, c.id+".json"), b, 0644); err != nil {
		trouble("%v", err)
	}
}

var assumptions = map[string][]string{}
