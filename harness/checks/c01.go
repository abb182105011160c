package checks

import "verifharness/vt"

func init() {
	register("C01", checkC01)
	register("C02", checkC02)
	register("C05", checkC05)
}

// C01: every behaviour of a server peer against the real client.
func checkC01(c *vt.Ctx) { runClientCases(c, clientCases(c), hsSel{}) }

// C02: every behaviour of a client peer against the real server.
func checkC02(c *vt.Ctx) { runServerCases(c, serverCases(c), srvSel{}) }

// C05: after each failure, further API calls and the rest of a legal flight change nothing.
func checkC05(c *vt.Ctx) {
	runClientCases(c, clientCases(c), hsSel{after: true, frac: 2})
	runServerCases(c, serverCases(c), srvSel{after: true})
}
