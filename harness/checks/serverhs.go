package checks

import (
	"encoding/json"
	"fmt"
	"runtime/debug"

	"verifharness/drv"
	"verifharness/eut"
	"verifharness/vt"
)

type srvSel struct {
	onTrace func(name string, ev []eut.RecEvent)
	use     func(drv.SrvCase) bool
	after   bool
	alerts  bool
	frac    int
}

func serverCases(c *vt.Ctx) []drv.SrvCase {
	cfg := "ServerHs_quick.cfg"
	if c.Thorough() {
		cfg = "ServerHs_thorough.cfg"
	}
	r := c.MustTLC(vt.TLCOpt{Module: "MCServerHs", Config: cfg})
	if !r.OK {
		return nil
	}
	out := make([]drv.SrvCase, 0, len(r.Cases))
	for _, raw := range r.Cases {
		var k drv.SrvCase
		if err := json.Unmarshal(raw, &k); err != nil {
			c.Error("case: %v", err)
			continue
		}
		out = append(out, k)
	}
	return out
}

func lastS(k drv.SrvCase) drv.HsStep { return k.Steps[len(k.Steps)-1] }

// runServerCases replays the behaviours of ServerHs on the real server.
func runServerCases(c *vt.Ctx, cases []drv.SrvCase, sel srvSel) {
	var run []drv.SrvCase
	for _, k := range cases {
		if sel.use == nil || sel.use(k) {
			if sel.frac > 1 && !c.Thorough() && hashInt(k)%sel.frac != int(c.Seed)%sel.frac {
				continue
			}
			run = append(run, k)
		}
	}
	c.Count("server_behaviours", int64(len(run)))
	c.Parallel(len(run), func(i int) {
		k := run[i]
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: server %+v %s: %v\n%s", k.Cfg, k.Msgs(), p, debug.Stack())
			}
		}()
		var tr *eut.Tracer
		if sel.onTrace != nil {
			tr = &eut.Tracer{}
		}
		what := serverCase(c, k, sel, tr)
		if sel.onTrace != nil {
			sel.onTrace("server, client sends "+k.Msgs(), tr.Events())
			return // only the trace is judged
		}
		if what != "" {
			c.Violate("server/"+fmt.Sprintf("%+v", k.Cfg)+"/"+k.Msgs(), "server, client sends "+k.Msgs()+": "+what, k)
		}
		if i%9973 == 0 {
			c.Sample(k)
		}
	})
}

func serverCase(c *vt.Ctx, k drv.SrvCase, sel srvSel, tr *eut.Tracer) string {
	after := sel.after
	r := drv.NewServerRunT(k.Cfg, tr)
	c.Eval("server/" + lastS(k).M + "/" + lastS(k).St)
	if res := r.Start(); res.Out != "progress" {
		return "server does not wait for a ClientHello: " + res.String()
	}
	prev := "WAIT_CH"
	for i, s := range k.Steps {
		var pre *drv.ServerRun
		if after && s.St == "FAILED" {
			pre = r.Fork()
		}
		got, note := r.Do(s.M)
		if len(r.Bad) > 0 {
			return fmt.Sprintf("step %d (%s): %s", i, s.M, r.Bad[0])
		}
		if !sameOutcome(s.M, s.St, got) {
			return fmt.Sprintf("step %d (%s): specification %s, server %s %s", i, s.M, s.St, got, note)
		}
		if s.St == "NOADV" {
			if what := r.NotAdvanced(prev, s.M); what != "" {
				return fmt.Sprintf("step %d (%s): %s", i, s.M, what)
			}
		}
		if sel.alerts && (got == "FAILED" || got == "BROKEN" || got == "CLOSED") {
			if what := r.CheckAlerts(prev); what != "" {
				return fmt.Sprintf("step %d (%s): %s", i, s.M, what)
			}
			c.Count("judged_failures", 1)
		}
		if after && s.St == "FAILED" {
			var feed []byte
			if hashInt(k)%2 == 0 {
				pre.AdoptSeq(r, s.M)
				feed = pre.Continue(prev)
			} else {
				feed = r.Continue(prev)
			}
			r.AfterFailure(feed)
			if len(r.Bad) > 0 {
				return "after the failure: " + r.Bad[0]
			}
		}
		prev = s.St
	}
	c.Count("compared_steps", int64(len(k.Steps)))
	c.AddValidated(1)
	return ""
}
