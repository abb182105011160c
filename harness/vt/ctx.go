// Package vt holds what every check shares: running TLC, collecting evidence,
// reporting violations and known findings.
package vt

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Root is /verif.
var Root = func() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}()

// Ctx is the context of one check run.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int64
	Rng      *rand.Rand
	start    time.Time
	mu       sync.Mutex
	viols    []Violation
	known    map[string]int
	findings []Finding

	States, Transitions int64
	Validated           int64 // traces/behaviours of the real code compared with the specification
	Evaluations         int64
	Distinct            map[string]bool
	Samples             []interface{}
	Notes               []string
	Counters            map[string]int64
	Exhaustive          bool
	Level               string
	Assumptions         []string
	errs                []string
	Scratch             string
}

// Violation is one counterexample of the real code.
type Violation struct {
	Key    string      `json:"key"`
	What   string      `json:"what"`
	Replay interface{} `json:"replay"`
}

// Finding is a line of known-findings.jsonl.
type Finding struct {
	Property string `json:"property"`
	Key      string `json:"key"` // the specific input, call site or history
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // commit that repaired it; such an entry suppresses nothing
}

func NewCtx(id string) *Ctx {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := int64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = v
	}
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Rng: rand.New(rand.NewSource(seed)), start: time.Now(),
		known: map[string]int{}, Distinct: map[string]bool{}, Counters: map[string]int64{}, Level: "model_checking"}
	d, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		panic(err)
	}
	c.Scratch = d
	c.loadFindings()
	return c
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) loadFindings() {
	b, err := os.ReadFile(filepath.Join(Root, "known-findings.jsonl"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var f Finding
		if json.Unmarshal([]byte(l), &f) == nil && f.Property == c.ID && f.Fixed == "" {
			c.findings = append(c.findings, f)
		}
	}
}

// Violate records that the real code broke the property on this input.
func (c *Ctx) Violate(key, what string, replay interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.findings {
		if f.Key == key {
			c.known[key]++
			return
		}
	}
	if len(c.viols) < 200 {
		c.viols = append(c.viols, Violation{key, what, replay})
	} else {
		c.Counters["violations_not_listed"]++
	}
}

// Error records that the check itself could not do its work.
func (c *Ctx) Error(format string, a ...interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.errs) < 50 {
		c.errs = append(c.errs, fmt.Sprintf(format, a...))
	}
}

func (c *Ctx) Note(format string, a ...interface{}) {
	c.mu.Lock()
	c.Notes = append(c.Notes, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int64) {
	c.mu.Lock()
	c.Counters[name] += n
	c.mu.Unlock()
}

// Eval counts one execution of the real code; class identifies what makes it distinct.
func (c *Ctx) Eval(class string) {
	c.mu.Lock()
	c.Evaluations++
	if class != "" {
		c.Distinct[class] = true
	}
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.Samples) < 6 {
		c.Samples = append(c.Samples, v)
	}
	c.mu.Unlock()
}

// Violations is the number of violations so far.
func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols)
}

// Finish writes the evidence, prints the verdict and returns the exit code.
func (c *Ctx) Finish() int {
	defer os.RemoveAll(c.Scratch)
	if old, _ := filepath.Glob(filepath.Join(Root, "replays", c.ID+"-*.json")); len(old) > 0 {
		for _, f := range old {
			os.Remove(f)
		}
	}
	cov := map[string]interface{}{}
	for k, v := range c.Counters {
		cov[k] = v
	}
	cov["states"] = c.States
	cov["transitions"] = c.Transitions
	cov["traces_validated_against_impl"] = c.Validated
	cov["evaluations"] = c.Evaluations
	cov["distinct_nontrivial"] = len(c.Distinct)
	if c.Samples == nil {
		c.Samples = []interface{}{}
	}
	cov["samples"] = c.Samples
	if len(c.Notes) > 0 {
		cov["notes"] = c.Notes
	}
	if c.Exhaustive {
		cov["exhaustive"] = true
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level, "coverage": cov,
		"wall_s": time.Since(c.start).Seconds(), "violations": len(c.viols),
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	os.MkdirAll(filepath.Join(Root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(Root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("ERROR cannot write evidence:", err)
		return 2
	}
	var ks []string
	for k := range c.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		for _, f := range c.findings {
			if f.Key == k {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.What)
				break
			}
		}
	}
	fmt.Printf("%s %s seed=%d: states=%d transitions=%d real executions=%d compared=%d violations=%d in %.1fs\n",
		c.ID, c.Tier, c.Seed, c.States, c.Transitions, c.Evaluations, c.Validated, len(c.viols), time.Since(c.start).Seconds())
	if len(c.viols) > 0 {
		os.MkdirAll(filepath.Join(Root, "replays"), 0o755)
		for i, v := range c.viols {
			if i >= 8 {
				fmt.Printf("... and %d more\n", len(c.viols)-8)
				break
			}
			p := filepath.Join(Root, "replays", fmt.Sprintf("%s-%d.json", c.ID, i))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": c.ID, "seed": c.Seed, "tier": c.Tier, "key": v.Key, "what": v.What, "case": v.Replay}, "", " ")
			os.WriteFile(p, append(b, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
			fmt.Printf("  %s: %s\n", v.Key, firstLine(v.What))
		}
		return 1
	}
	if len(c.errs) > 0 {
		for _, e := range c.errs {
			fmt.Println("ERROR", e)
		}
		return 2
	}
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// ---- TLC -----------------------------------------------------------------

// TLCResult is what one TLC run reported.
type TLCResult struct {
	Cases     []json.RawMessage
	Generated int64
	Distinct  int64
	OK        bool
	Tail      string
	Violated  bool // an invariant/property/postcondition was violated
}

// TLCOpt configures a run.
type TLCOpt struct {
	Module  string // MC module, without .tla
	Config  string // file name of the cfg
	Workers int
	Args    []string
	Files   map[string][]byte // extra files written next to the spec
	Timeout time.Duration
	Heap    string
	OnCase  func(json.RawMessage)
	Env     []string
}

var reStates = regexp.MustCompile(`^(\d+) states generated, (\d+) distinct states found`)
var reSim = regexp.MustCompile(`^The number of states generated: (\d+)`)

// TLC runs the model checker on a spec of /verif/spec in a scratch directory.
func (c *Ctx) TLC(o TLCOpt) (*TLCResult, error) {
	dir, err := os.MkdirTemp(c.Scratch, "tlc-")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	ents, err := filepath.Glob(filepath.Join(Root, "spec", "*"))
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if strings.HasSuffix(e, ".tla") || strings.HasSuffix(e, ".cfg") {
			b, err := os.ReadFile(e)
			if err != nil {
				return nil, err
			}
			os.WriteFile(filepath.Join(dir, filepath.Base(e)), b, 0o644)
		}
	}
	for n, b := range o.Files {
		if err := os.WriteFile(filepath.Join(dir, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	if o.Workers == 0 {
		o.Workers = 1
	}
	if o.Heap == "" {
		o.Heap = "4g"
	}
	if o.Timeout == 0 {
		o.Timeout = 10 * time.Minute
	}
	args := []string{"-XX:+UseParallelGC", "-Xmx" + o.Heap, "-Xss16m"}
	args = append(args, o.Env...)
	args = append(args, "-cp", "/opt/veriftools/tla/tla2tools.jar:"+communityJar(), "tlc2.TLC",
		"-workers", strconv.Itoa(o.Workers), "-metadir", filepath.Join(dir, "states"), "-noGenerateSpecTE", "-config", o.Config)
	args = append(args, o.Args...)
	args = append(args, o.Module+".tla")
	cmd := exec.Command("java", args...)
	cmd.Dir = dir
	pr, pw := io.Pipe()
	cmd.Stdout, cmd.Stderr = pw, pw
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	timer := time.AfterFunc(o.Timeout, func() { cmd.Process.Kill() })
	defer timer.Stop()
	res := &TLCResult{}
	done := make(chan struct{})
	var tail []string
	var nonCase bytes.Buffer
	go func() {
		defer close(done)
		rd := bufio.NewReaderSize(pr, 1<<20)
		for {
			line, err := rd.ReadString('\n')
			line = strings.TrimRight(line, "\r\n")
			if strings.HasPrefix(line, "\"CASE ") {
				s, uerr := strconv.Unquote(line)
				if uerr == nil {
					raw := json.RawMessage(s[5:])
					if o.OnCase != nil {
						o.OnCase(raw)
					} else {
						res.Cases = append(res.Cases, raw)
					}
				} else {
					tail = append(tail, "unparsable case line: "+line)
				}
			} else if line != "" {
				if m := reStates.FindStringSubmatch(line); m != nil {
					res.Generated, _ = strconv.ParseInt(m[1], 10, 64)
					res.Distinct, _ = strconv.ParseInt(m[2], 10, 64)
				}
				if m := reSim.FindStringSubmatch(line); m != nil {
					res.Generated, _ = strconv.ParseInt(m[1], 10, 64)
				}
				if strings.Contains(line, "is violated") || strings.Contains(line, "was violated") || strings.Contains(line, "were violated") ||
					strings.Contains(line, "is false") {
					res.Violated = true
				}
				if strings.Contains(line, "No error has been found") || strings.HasPrefix(line, "Finished in") && false {
					res.OK = true
				}
				if nonCase.Len() < 1<<16 {
					nonCase.WriteString(line + "\n")
				}
				tail = append(tail, line)
				if len(tail) > 60 {
					tail = tail[1:]
				}
			}
			if err != nil {
				return
			}
		}
	}()
	werr := cmd.Wait()
	pw.Close()
	<-done
	res.Tail = strings.Join(tail, "\n")
	if werr == nil {
		res.OK = true
	} else {
		res.OK = false
	}
	c.mu.Lock()
	c.States += res.Distinct
	c.Transitions += res.Generated
	c.mu.Unlock()
	if werr != nil && !res.Violated {
		return res, fmt.Errorf("TLC %s/%s: %v\n%s", o.Module, o.Config, werr, res.Tail)
	}
	return res, nil
}

// MustTLC is TLC for the design check or test generation: any failure is an error of the check.
func (c *Ctx) MustTLC(o TLCOpt) *TLCResult {
	r, err := c.TLC(o)
	if err == nil && !r.OK {
		err = errors.New("TLC reports that the specification violates its own properties:\n" + r.Tail)
	}
	if err != nil {
		c.Error("%v", err)
		if r == nil {
			r = &TLCResult{}
		}
		r.OK = false
	}
	return r
}

func communityJar() string {
	for _, p := range []string{"/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	m, _ := filepath.Glob("/opt/veriftools/tla/*ommunity*.jar")
	return strings.Join(m, ":")
}

// Parallel runs f over n items on all cores, stopping early once many violations are known.
func (c *Ctx) Parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	var wg sync.WaitGroup
	var mu sync.Mutex
	next := 0
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				mu.Unlock()
				if i >= n || c.Violations() >= 40 {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Hash is a short stable digest used to identify cases.
func Hash(v interface{}) string {
	b, _ := json.Marshal(v)
	s := sha256.Sum256(b)
	return fmt.Sprintf("%x", s[:6])
}

// AddValidated counts behaviours of the real code compared with the specification.
func (c *Ctx) AddValidated(n int64) {
	c.mu.Lock()
	c.Validated += n
	c.mu.Unlock()
}
