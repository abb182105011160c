package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sync/atomic"
	"time"

	"verifharness/drv"
	"verifharness/eut"
	"verifharness/vt"
)

func init() { register("C14", checkC14) }

// repetitions of an abstract attack: how many concrete variants are tried
func robustReps(a drv.RobustAtk, thorough bool) int {
	n := 1
	switch a.L {
	case "byte":
		n = 12
		if a.O == "flip" || a.O == "mix" {
			n = 60
		}
	case "rec", "ins":
		n = 5
		if a.O == "flip" || a.O == "endcut" {
			n = 25
		}
	case "dtls":
		n = 6
	}
	if thorough {
		n *= 3
	}
	return n
}

func checkC14(c *vt.Ctx) {
	eut.CallTimeout = 20 * time.Second
	ct := drv.Contract{}
	r := c.MustTLC(vt.TLCOpt{Module: "Calls", Config: "Calls.cfg", Workers: 4})
	for _, b := range r.Cases {
		var x drv.CallRule
		if err := json.Unmarshal(b, &x); err != nil {
			c.Error("contract: %v", err)
			return
		}
		ct[x.String()] = x
	}
	if len(ct) != 36 {
		c.Error("contract has %d rules", len(ct))
		return
	}
	r = c.MustTLC(vt.TLCOpt{Module: "MCRobust", Config: tierCfg(c, "Robust"), Workers: 8, Heap: "12g"})
	grams := map[string]*drv.Gram{}
	var cases []json.RawMessage
	for _, b := range r.Cases {
		if len(b) > 8 && string(b[:8]) == `{"kind":` || len(b) > 11 && string(b[:11]) == `{"grammar":` {
			var x drv.RobustCase
			if err := json.Unmarshal(b, &x); err != nil {
				c.Error("grammar: %v", err)
				return
			}
			grams[x.Kind] = x.Gram
			continue
		}
		cases = append(cases, b)
	}
	r.Cases = nil
	if len(grams) < 10 {
		c.Error("only %d grammars", len(grams))
		return
	}
	var hangs int32
	frac := 1
	if c.Thorough() {
		frac = 4
	}
	replayCases(c, "robust", cases, frac, func(k drv.RobustCase, rng *rand.Rand) (string, []string) {
		class := ""
		for i, n := 0, robustReps(k.Prog[0].A, c.Thorough()); i < n; i++ {
			if atomic.LoadInt32(&hangs) > 4 {
				return "", nil
			}
			seed := rng.Int63()
			cl, bad, hung := drv.RunRobust(k, ct, grams, rand.New(rand.NewSource(seed)))
			c.Count("runs", 1)
			if hung {
				atomic.AddInt32(&hangs, 1)
			}
			if len(bad) > 0 {
				return cl, append(bad, fmt.Sprintf("variant seed %d", seed))
			}
			if cl != "" {
				class = cl
			} else {
				c.Count("attacks_without_target", 1)
			}
		}
		return class, nil
	})
}
