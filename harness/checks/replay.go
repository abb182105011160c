package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime/debug"

	"verifharness/vt"
)

// replay generates the behaviours of a specification with TLC and executes one in
// frac of them on real endpoints.  run returns the class of the execution (for the
// evidence) and what differs from the specification.
func replay[T fmt.Stringer](c *vt.Ctx, label string, o vt.TLCOpt, frac int, run func(k T, rng *rand.Rand) (string, []string)) {
	r := c.MustTLC(o)
	if !r.OK {
		return
	}
	cases := r.Cases
	r.Cases = nil
	replayCases(c, label, cases, frac, run)
}

// replayCases executes one in frac of the given behaviours.
func replayCases[T fmt.Stringer](c *vt.Ctx, label string, cases []json.RawMessage, frac int, run func(k T, rng *rand.Rand) (string, []string)) {
	c.Count(label+"_behaviours", int64(len(cases)))
	c.Parallel(len(cases), func(i int) {
		var k T
		if err := json.Unmarshal(cases[i], &k); err != nil {
			c.Error("case: %v", err)
			return
		}
		if frac > 1 && hashInt(k)%frac != int(c.Seed)%frac {
			return
		}
		name := k.String()
		if len(name) > 200 {
			name = fmt.Sprintf("%s... #%08x", name[:180], hashInt(name))
		}
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: %s %s: %v\n%s", label, name, p, debug.Stack())
			}
		}()
		class, bad := run(k, caseRng(c, name))
		if class != "" {
			c.Eval(label + "/" + class)
		}
		if len(bad) > 0 {
			c.Violate(label+"/"+name, label+" "+name+": "+bad[0], map[string]interface{}{"case": k, "bad": bad})
			return
		}
		c.AddValidated(1)
		if i%7919 == 1 {
			c.Sample(label + " " + name)
		}
	})
}
