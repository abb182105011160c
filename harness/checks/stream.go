package checks

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"runtime/debug"

	"verifharness/drv"
	"verifharness/vt"
)

func init() {
	register("C07", checkC07)
	register("C09", checkC09)
}

func tierCfg(c *vt.Ctx, base string) string {
	if c.Thorough() {
		return base + "_thorough.cfg"
	}
	return base + "_quick.cfg"
}

func caseRng(c *vt.Ctx, s string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(s))
	return rand.New(rand.NewSource(int64(h.Sum64()>>1) ^ c.Seed*7919))
}

// runStream replays the behaviours of Stream.tla.  keep selects cases; onRun sees finished runs.
func runStream(c *vt.Ctx, cfg string, keep func(drv.StreamCase) bool, onRun func(k drv.StreamCase, mode string, r *drv.StreamRun)) {
	r := c.MustTLC(vt.TLCOpt{Module: "MCStream", Config: cfg, Workers: 8, Heap: "8g"})
	if !r.OK {
		return
	}
	var cases []drv.StreamCase
	for _, raw := range r.Cases {
		var k drv.StreamCase
		if err := json.Unmarshal(raw, &k); err != nil {
			c.Error("case: %v", err)
			return
		}
		if keep == nil || keep(k) {
			cases = append(cases, k)
		}
	}
	r.Cases = nil
	c.Count("stream_behaviours", int64(len(cases)))
	c.Parallel(len(cases), func(i int) {
		k := cases[i]
		name := k.String()
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: stream %s: %v\n%s", name, p, debug.Stack())
			}
		}()
		rng := caseRng(c, cfg+name)
		mode := "psk"
		if x := rng.Intn(16); x < len(drv.StreamModes) {
			mode = drv.StreamModes[x]
		}
		run := drv.NewStreamRun(mode, rng, rng.Intn(2) == 0)
		bad := run.Run(k)
		if onRun != nil {
			onRun(k, mode, run) // only the trace is judged
			bad = nil
		}
		if len(bad) > 0 {
			c.Violate("stream/"+mode+"/"+name, mode+": "+name+": "+bad[0], map[string]interface{}{"case": k, "mode": mode, "bad": bad})
			return
		}
		cls := ""
		for _, h := range k.H {
			cls += h.A + h.X + h.N
		}
		c.Eval("stream/" + cls)
		c.AddValidated(1)
		if i%9973 == 1 {
			c.Sample(fmt.Sprintf("%s: %s", mode, name))
		}
	})
}

func attacked(k drv.StreamCase) bool {
	for _, h := range k.H {
		if h.A == "A" || h.A == "C" {
			return true
		}
	}
	return false
}

// C07: application data under record manipulations and ends of the stream, and undisturbed.
func checkC07(c *vt.Ctx) {
	runStream(c, tierCfg(c, "Stream_att"), nil, nil)
}

// runConcur runs the schedules of Concur.tla.
func runConcur(c *vt.Ctx, tr *recTraces) {
	r := c.MustTLC(vt.TLCOpt{Module: "MCConcur", Config: "Concur.cfg", Workers: 2})
	if !r.OK {
		return
	}
	allowed := map[string]map[string]bool{}
	for _, raw := range r.Cases {
		var k drv.ConcurCase
		if err := json.Unmarshal(raw, &k); err != nil {
			c.Error("case: %v", err)
			return
		}
		if allowed[k.A+" "+k.B] == nil {
			allowed[k.A+" "+k.B] = map[string]bool{}
		}
		allowed[k.A+" "+k.B][k.Compress()] = true
	}
	type job struct {
		mode, a, b string
		server     bool
		pause      int
	}
	var jobs []job
	ops := []string{"W", "w", "K0", "K1", "R"}
	for _, mode := range []string{"psk", "cert", "early384"}[:c.Pick(2, 3)] {
		for _, a := range ops {
			for _, b := range ops {
				for _, s := range []bool{false, true} {
					for p := 0; p < 3; p++ {
						if p > 0 && a != "W" {
							continue
						}
						jobs = append(jobs, job{mode, a, b, s, p})
					}
				}
			}
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		name := fmt.Sprintf("concurrent %s stopped before record %d, %s meanwhile, server=%v (%s)", j.a, j.pause, j.b, j.server, j.mode)
		order, run, bad := drv.Concur(j.mode, j.server, j.a, j.b, j.pause)
		if len(bad) == 0 && !allowed[j.a+" "+j.b][order] {
			bad = append(bad, "records leave in the order "+order+", which is not possible")
		}
		if len(bad) > 0 {
			c.Violate(name, name+": "+bad[0], bad)
			return
		}
		tr.add(name, run.Tr.Events(), true)
		c.Eval(name)
		c.AddValidated(1)
	})
	for i := 0; i < c.Pick(4, 40) && c.Violations() == 0; i++ {
		mode := drv.StreamModes[i%len(drv.StreamModes)]
		t, bad := drv.Stress(mode, c.Seed*100+int64(i), 60)
		name := fmt.Sprintf("stress/%s/%d", mode, i)
		if len(bad) > 0 {
			c.Violate(name, name+": "+bad[0], bad)
			return
		}
		tr.add(name, t.Events(), true)
		c.Eval(name)
		c.AddValidated(1)
	}
}

// C09: key updates interleaved with everything.
func checkC09(c *vt.Ctx) {
	var tr recTraces
	runStream(c, tierCfg(c, "Stream_ku"), nil, nil)
	runConcur(c, &tr)
	if c.Violations() == 0 {
		tr.validate(c)
	}
}
