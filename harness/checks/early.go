package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C10", checkC10) }

// C10: 0-RTT between two endpoints under every interleaving, and against peers that misuse it.
func checkC10(c *vt.Ctx) {
	replay(c, "early", vt.TLCOpt{Module: "MCEarly", Config: tierCfg(c, "Early"), Workers: 8, Heap: "8g"}, c.Pick(4, 2),
		func(k drv.EarlyCase, rng *rand.Rand) (string, []string) {
			cls := ""
			for _, s := range k.Steps {
				cls += s.A
			}
			return fmt.Sprintf("%+v/%s", k.Cf, cls), drv.RunEarly(k, rng)
		})
	runClientCases(c, clientCases(c), hsSel{use: func(k drv.HsCase) bool {
		return k.Cfg.Early || strings.Contains(k.Msgs(), "EE.early")
	}})
	runServerCases(c, serverCases(c), srvSel{use: func(k drv.SrvCase) bool {
		m := k.Msgs()
		return k.Cfg.Early || strings.Contains(m, "arly") || strings.Contains(m, "EOED")
	}})
}
