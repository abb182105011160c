package checks

import (
	"fmt"
	"math/rand"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C18", checkC18) }

// C18: the harness plays the other endpoint with the terms of KeySched.tla.
func checkC18(c *vt.Ctx) {
	run := func(k drv.KSCase, rng *rand.Rand) (string, []string) { return drv.RunKeySched(k, rng) }
	replay(c, "keysched", vt.TLCOpt{Module: "KeySched", Config: tierCfg(c, "KeySched"), Workers: 8, Heap: "6g"}, 1, run)
	replay(c, "history", vt.TLCOpt{Module: "KeySched", Config: "KeySched_sim.cfg", Workers: 1,
		Args: []string{"-simulate", fmt.Sprintf("num=%d", c.Pick(400, 5000)), "-seed", fmt.Sprint(c.Seed), "-depth", "70"}}, 1, run)
	groups := []string{"ff2048", "ff2048", "ff2048", "ff2048", "p256", "p384", "p521", "x25519"}
	c.Parallel(len(groups), func(i int) {
		n := c.Pick(200, 2000)
		if s := drv.ShareWidths(groups[i], n); s != "" {
			c.Violate("share width "+groups[i], s, nil)
		}
		c.Eval(fmt.Sprintf("share width %s %d", groups[i], i))
	})
}
