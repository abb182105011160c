package checks

import (
	"fmt"
	"math/rand"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C19", checkC19) }

func runAlert(k drv.AlertCase, rng *rand.Rand) (string, []string) {
	last := k.Steps[len(k.Steps)-1]
	class := k.Mode.Role
	if k.Mode.DTLS {
		class += "-dtls"
	}
	return class + "/" + last.Term.K, drv.RunAlerts(k, rng)
}

func checkC19(c *vt.Ctx) {
	frac := 2
	replay(c, "alerts", vt.TLCOpt{Module: "MCAlerts", Config: tierCfg(c, "Alerts"), Workers: 8, Heap: "12g"}, 1, runAlert)
	replay(c, "sweep", vt.TLCOpt{Module: "MCAlerts", Config: "Alerts_sweep.cfg", Workers: 8}, 1, runAlert)
	if c.Thorough() {
		frac = 1
	}
	replay(c, "handshake", vt.TLCOpt{Module: "MCAlertsHs", Config: tierCfg(c, "AlertsHs"), Workers: 8}, 1, func(k drv.AlertHsCase, rng *rand.Rand) (string, []string) {
		return fmt.Sprintf("%s/%d/%s", k.Fl, k.Pos, k.Res), drv.RunAlertHs(k, rng)
	})
	runClientCases(c, clientCases(c), hsSel{alerts: true, frac: 2 * frac})
	runServerCases(c, serverCases(c), srvSel{alerts: true, frac: 2 * frac})
}
