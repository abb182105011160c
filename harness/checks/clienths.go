package checks

import (
	"encoding/json"
	"fmt"
	"runtime/debug"

	"verifharness/drv"
	"verifharness/eut"
	"verifharness/vt"
)

// hsSel selects what a check does with the cases of a handshake specification.
type hsSel struct {
	onTrace func(name string, ev []eut.RecEvent)
	use     func(drv.HsCase) bool // which cases to run
	alerts  bool                  // also judge the alerts a failing endpoint sends
	after   bool                  // also check that a failure is final
	frac    int                   // 1/frac of the selected cases in the quick tier
}

func parseCases(c *vt.Ctx, r *vt.TLCResult) []drv.HsCase {
	out := make([]drv.HsCase, 0, len(r.Cases))
	for _, raw := range r.Cases {
		var k drv.HsCase
		if err := json.Unmarshal(raw, &k); err != nil {
			c.Error("case: %v", err)
			continue
		}
		out = append(out, k)
	}
	return out
}

func clientCases(c *vt.Ctx) []drv.HsCase {
	cfg := "ClientHs_quick.cfg"
	if c.Thorough() {
		cfg = "ClientHs_thorough.cfg"
	}
	r := c.MustTLC(vt.TLCOpt{Module: "MCClientHs", Config: cfg})
	if !r.OK {
		return nil
	}
	return parseCases(c, r)
}

func last(k drv.HsCase) drv.HsStep { return k.Steps[len(k.Steps)-1] }

func isWait(st string) bool { return len(st) > 5 && st[:5] == "WAIT_" }

// sameOutcome compares the specification's phase with the observed one.
func sameOutcome(m, spec, real string) bool {
	switch {
	case isWait(spec):
		return real == "wait"
	case spec == "NOADV":
		return real == "wait" || real == "CONNECTED" || real == "FAILED" || real == "BROKEN"
	case spec == "CLOSED" || spec == "BROKEN":
		if m == "Alert.close" {
			return real == "CLOSED"
		}
		if m == "Alert.short" {
			return real == "CLOSED" || real == "BROKEN"
		}
		return real == spec
	}
	return real == spec
}

// runClientCases replays the behaviours of ClientHs on the real client.
func runClientCases(c *vt.Ctx, cases []drv.HsCase, sel hsSel) {
	var run []drv.HsCase
	for _, k := range cases {
		if sel.use == nil || sel.use(k) {
			if sel.frac > 1 && !c.Thorough() && hashInt(k)%sel.frac != int(c.Seed)%sel.frac {
				continue
			}
			run = append(run, k)
		}
	}
	c.Count("client_behaviours", int64(len(run)))
	c.Parallel(len(run), func(i int) {
		k := run[i]
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: client %+v %s: %v\n%s", k.Cfg, k.Msgs(), p, debug.Stack())
			}
		}()
		var tr *eut.Tracer
		if sel.onTrace != nil {
			tr = &eut.Tracer{}
		}
		what := clientCase(c, k, sel, tr)
		if sel.onTrace != nil {
			sel.onTrace("client, server sends "+k.Msgs(), tr.Events())
			return // only the trace is judged
		}
		if what != "" {
			c.Violate("client/"+fmt.Sprintf("%+v", k.Cfg)+"/"+k.Msgs(), "client, server sends "+k.Msgs()+": "+what, k)
		}
		if i%9973 == 0 {
			c.Sample(k)
		}
	})
}

func hashInt(v interface{}) int {
	h := vt.Hash(v)
	n := 0
	fmt.Sscanf(h[:6], "%x", &n)
	return n
}

func clientCase(c *vt.Ctx, k drv.HsCase, sel hsSel, tr *eut.Tracer) string {
	after := sel.after
	r := drv.NewClientRunT(k.Cfg, tr)
	c.Eval("client/" + last(k).M + "/" + last(k).St)
	if res := r.Start(); res.Out != "progress" {
		return "no ClientHello: " + res.String()
	}
	prev := "WAIT_SH"
	psk := false
	for i, s := range k.Steps {
		var pre *drv.ClientRun
		if after && s.St == "FAILED" {
			pre = r.Fork()
		}
		got, note := r.Do(s.M)
		if len(r.Bad) > 0 {
			return fmt.Sprintf("step %d (%s): %s", i, s.M, r.Bad[0])
		}
		if !sameOutcome(s.M, s.St, got) {
			return fmt.Sprintf("step %d (%s): specification %s, client %s %s", i, s.M, s.St, got, note)
		}
		if s.St == "NOADV" {
			if what := r.NotAdvanced(prev, s.M, psk); what != "" {
				return fmt.Sprintf("step %d (%s): %s", i, s.M, what)
			}
		}
		if sel.alerts && (got == "FAILED" || got == "BROKEN" || got == "CLOSED") {
			if what := r.CheckAlerts(prev); what != "" {
				return fmt.Sprintf("step %d (%s): %s", i, s.M, what)
			}
			c.Count("judged_failures", 1)
		}
		if after && s.St == "FAILED" {
			feed := r.Continue(prev, psk)
			if hashInt(k)%2 == 0 {
				pre.AdoptSeq(r, s.M)
				feed = pre.Continue(prev, psk)
			}
			r.AfterFailure(feed)
			if len(r.Bad) > 0 {
				return "after the failure: " + r.Bad[0]
			}
		}
		prev = s.St
		if s.M == "SH.psk_dhe" || s.M == "SH.psk_ke" {
			psk = true
		}
	}
	c.Count("compared_steps", int64(len(k.Steps)))
	c.AddValidated(1)
	return ""
}
