package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime/debug"
	"sync"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C03", checkC03) }

type mitmJob struct {
	env  *drv.MitmEnv
	acts []*drv.MitmAct
	can  map[bool]bool
	ops  []drv.MitmOp
}

// runMitm runs the attack schedules of Mitm.tla.
func runMitm(c *vt.Ctx, quickFrac int, stride int) {
	cfg := "Mitm_quick.cfg"
	if c.Thorough() {
		cfg = "Mitm_thorough.cfg"
	}
	r := c.MustTLC(vt.TLCOpt{Module: "MCMitm", Config: cfg, Workers: 4})
	if !r.OK {
		return
	}
	type sched struct {
		k   drv.MitmCase
		can map[bool]bool
	}
	all := map[string]*sched{}
	var order []string
	for _, raw := range r.Cases {
		k := drv.MitmCase{}
		if err := json.Unmarshal(raw, &k); err != nil {
			c.Error("case: %v", err)
			continue
		}
		if len(k.Ops) == 0 {
			k.Ops = nil
		}
		b, _ := json.Marshal([]interface{}{k.Mode, k.Ops})
		if all[string(b)] == nil {
			all[string(b)] = &sched{k, map[bool]bool{}}
			order = append(order, string(b))
		}
		all[string(b)].can[k.Both] = true
	}
	envs := map[string]*drv.MitmEnv{}
	var mu sync.Mutex
	env := func(m drv.MitmMode, dtls bool) *drv.MitmEnv {
		mu.Lock()
		defer mu.Unlock()
		id := fmt.Sprint(m, dtls)
		if envs[id] == nil {
			envs[id] = drv.NewMitmEnv(m, dtls)
		}
		return envs[id]
	}
	var jobs []mitmJob
	rng := rand.New(rand.NewSource(c.Seed))
	for _, id := range order {
		s := all[id]
		e := env(s.k.Mode, false)
		switch len(s.k.Ops) {
		case 0:
			jobs = append(jobs, mitmJob{e, nil, s.can, s.k.Ops})
			if s.k.Mode.Early == "" {
				jobs = append(jobs, mitmJob{env(s.k.Mode, true), nil, s.can, s.k.Ops})
			}
		case 1:
			for _, a := range e.Expand(s.k.Ops[0], stride, rng) {
				jobs = append(jobs, mitmJob{e, []*drv.MitmAct{a}, s.can, s.k.Ops})
			}
			if s.k.Mode.Early == "" {
				d := env(s.k.Mode, true)
				for _, a := range d.Expand(s.k.Ops[0], 7, rng) {
					jobs = append(jobs, mitmJob{d, []*drv.MitmAct{a}, map[bool]bool{true: true, false: true}, s.k.Ops})
				}
			}
		default:
			for n := 0; n < 6; n++ {
				var as []*drv.MitmAct
				for _, o := range s.k.Ops {
					if x := e.Expand(o, 5, rng); len(x) > 0 {
						as = append(as, x[rng.Intn(len(x))])
					}
				}
				if len(as) == len(s.k.Ops) {
					jobs = append(jobs, mitmJob{e, as, s.can, s.k.Ops})
				}
			}
		}
	}
	c.Count("attack_schedules", int64(len(order)))
	c.Count("concrete_attacks", int64(len(jobs)))
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: mitm %+v: %v\n%s", j.ops, p, debug.Stack())
			}
		}()
		r, bad := j.env.Run(j.acts)
		var survived bool
		if len(bad) == 0 {
			survived, bad = r.Judge()
		}
		// actions without effect do not count: look up what the others allow
		can := j.can
		var did []drv.MitmOp
		for _, a := range j.acts {
			if !r.Noop(a) {
				did = append(did, a.MitmOp)
			}
		}
		if len(did) != len(j.acts) && can != nil {
			b, _ := json.Marshal([]interface{}{j.env.Mode, did})
			if s := all[string(b)]; s != nil {
				// (a changed legacy version in a record header may or may not matter)
				can = map[bool]bool{true: s.can[true], false: true}
			} else {
				can = map[bool]bool{true: true, false: true}
			}
		}
		if len(bad) == 0 {
			if survived && !can[true] {
				bad = append(bad, "both sides complete and exchange data although the handshake was manipulated")
			}
			if !survived && !can[false] {
				bad = append(bad, fmt.Sprintf("an undisturbed handshake does not survive: client %s server %s", r.CRes, r.SRes))
			}
		}
		name := fmt.Sprintf("%s dtls=%v", j.env.Mode.Name, j.env.DTLS)
		for _, a := range j.acts {
			name += fmt.Sprintf(" %s/%s/%s[%d]%s@%d", a.D, a.K, a.U, a.Rec, a.Var, a.Off)
		}
		if len(bad) > 0 {
			c.Violate("mitm/"+name, name+": "+bad[0], map[string]interface{}{"mode": j.env.Mode, "acts": j.acts, "bad": bad})
			return
		}
		c.Eval(fmt.Sprintf("mitm/%s/%v/%v", j.env.Mode.Name, j.ops, survived))
		c.AddValidated(1)
		if i%4999 == 1 {
			c.Sample(name)
		}
	})
}

// C03: agreement over all negotiation cases, and under an active attacker.
func checkC03(c *vt.Ctx) {
	runMitm(c, 1, 1)
	runNegCases(c, negCases(c), false, true, false, 8)
}
