package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C13", checkC13) }

// runDtls executes random histories of Dtls.tla; with a filter, only what contains it counts.
func runDtls(c *vt.Ctx, n int, only string) {
	replay(c, "dtls", vt.TLCOpt{Module: "MCDtls", Config: "Dtls_sim.cfg", Workers: 1,
		Args: []string{"-simulate", fmt.Sprintf("num=%d", n), "-seed", fmt.Sprint(c.Seed), "-depth", "60"}}, 1,
		func(k drv.DtlsCase, rng *rand.Rand) (cls string, bad []string) {
			drv.Bubble(func() { cls, bad = drv.RunDtls(k, rng) })
			for i := 0; only != "" && i < len(bad); {
				if strings.Contains(bad[i], only) {
					i++
				} else {
					bad = append(bad[:i], bad[i+1:]...)
				}
			}
			return
		})
}

func runReasm(c *vt.Ctx, frac int) {
	replay(c, "reasm", vt.TLCOpt{Module: "Reasm", Config: tierCfg(c, "Reasm"), Workers: 8, Heap: "4g"}, frac,
		func(k drv.ReasmCase, rng *rand.Rand) (cls string, bad []string) {
			drv.Bubble(func() { bad = drv.RunReasm(k, rng) })
			return fmt.Sprint(k.What, len(k.Frags), k.Frags[len(k.Frags)-1].Done), bad
		})
}

// C13: the DTLS handshake over a network that loses, duplicates and reorders.
func checkC13(c *vt.Ctx) {
	design := "Dtls_quick.cfg"
	if c.Thorough() {
		design = "Dtls_design.cfg"
	}
	if !c.MustTLC(vt.TLCOpt{Module: "MCDtls", Config: design, Workers: 8, Heap: "12g"}).OK {
		return
	}
	runReasm(c, 1)
	runDtls(c, c.Pick(1500, 20000), "")
}
