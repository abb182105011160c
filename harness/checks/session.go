package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C11", checkC11) }

func runSessions(c *vt.Ctx, cfg string, n int) {
	seed := fmt.Sprint(c.Seed)
	replay(c, "session", vt.TLCOpt{Module: "MCSession", Config: cfg, Workers: 1,
		Args: []string{"-simulate", fmt.Sprintf("num=%d", n), "-seed", seed, "-depth", "60"}}, 1,
		func(k drv.SessCase, rng *rand.Rand) (string, []string) { return drv.RunSession(k, rng) })
}

// C11: histories of connections with tickets, and peers that misuse PSKs.
func checkC11(c *vt.Ctx) {
	if !c.MustTLC(vt.TLCOpt{Module: "MCSession", Config: "Session_design.cfg", Workers: 8, Heap: "6g"}).OK {
		return
	}
	runSessions(c, "Session_chain.cfg", c.Pick(24, 200))
	runSessions(c, tierCfg(c, "Session"), c.Pick(2500, 30000))
	runClientCases(c, clientCases(c), hsSel{use: func(k drv.HsCase) bool {
		return k.Cfg.PSK != "none" || strings.Contains(k.Msgs(), "psk")
	}, frac: 2})
	runServerCases(c, serverCases(c), srvSel{use: func(k drv.SrvCase) bool {
		return strings.Contains(k.Msgs(), "psk") || strings.Contains(k.Msgs(), "early")
	}, frac: 2})
}
