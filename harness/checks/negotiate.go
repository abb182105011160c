package checks

import (
	"encoding/json"
	"fmt"
	"runtime/debug"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C06", checkC06) }

func negCases(c *vt.Ctx) []drv.NegCase {
	cfg := "Negotiate_quick.cfg"
	if c.Thorough() {
		cfg = "Negotiate_thorough.cfg"
	}
	r := c.MustTLC(vt.TLCOpt{Module: "MCNegotiate", Config: cfg, Workers: 4})
	if !r.OK {
		return nil
	}
	out := make([]drv.NegCase, 0, len(r.Cases))
	for _, raw := range r.Cases {
		var k drv.NegCase
		if err := json.Unmarshal(raw, &k); err != nil {
			c.Error("case: %v", err)
			continue
		}
		out = append(out, k)
	}
	return out
}

func runNegCases(c *vt.Ctx, cases []drv.NegCase, wire, pair, cauth bool, dtlsFrac int) {
	c.Count("negotiation_cases", int64(len(cases)))
	c.Parallel(len(cases), func(i int) {
		k := cases[i]
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: negotiation %+v: %v\n%s", k, p, debug.Stack())
			}
		}()
		var bad []string
		if wire {
			bad = append(bad, drv.NegWire(k)...)
			c.Eval(fmt.Sprintf("neg/wire/%+v", k.R))
		}
		if pair {
			bad = append(bad, drv.NegPair(k, false)...)
			c.Eval(fmt.Sprintf("neg/pair/%+v", k.R))
		}
		if dtlsFrac > 0 && hashInt(k)%dtlsFrac == 0 {
			bad = append(bad, drv.NegPair(k, true)...)
			c.Eval(fmt.Sprintf("neg/dtls/%+v", k.R))
		}
		if cauth && k.C.Srv.Auth && k.C.Cli.PSK == "" {
			bad = append(bad, drv.NegClientAuth(k)...)
			c.Eval(fmt.Sprintf("neg/cauth/%+v", k.R))
		}
		if len(bad) > 0 {
			b, _ := json.Marshal(k.C)
			c.Violate("negotiate/"+string(b), bad[0], map[string]interface{}{"case": k, "bad": bad})
		} else {
			c.AddValidated(1)
		}
		if i%1999 == 0 {
			c.Sample(k)
		}
	})
}

func hasSymbol(k drv.HsCase, pre ...string) bool {
	for _, s := range k.Steps {
		for _, p := range pre {
			if len(s.M) >= len(p) && s.M[:len(p)] == p {
				return true
			}
		}
	}
	return false
}

// C06: negotiation over the product of configurations, and every server selection that was not offered.
func checkC06(c *vt.Ctx) {
	runNegCases(c, negCases(c), true, true, true, 8)
	runClientCases(c, clientCases(c), hsSel{use: func(k drv.HsCase) bool {
		l := last(k)
		return len(l.M) > 2 && (l.M[:2] == "SH" || l.M[:2] == "EE" || l.M[:2] == "CR" || l.M[:2] == "CV") && l.St != "CLOSED" && l.St != "BROKEN" || l.St == "CONNECTED" && prevSt(k) != "CONNECTED"
	}})
	runServerCases(c, serverCases(c), srvSel{use: func(k drv.SrvCase) bool {
		l := lastS(k)
		return l.M[:2] == "CH" && l.St != "BROKEN" || l.M[:2] == "CV" || l.St == "CONNECTED" && l.M == "Fin"
	}})
}

func prevSt(k drv.HsCase) string {
	if len(k.Steps) < 2 {
		return ""
	}
	return k.Steps[len(k.Steps)-2].St
}
