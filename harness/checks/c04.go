package checks

import "verifharness/vt"

func init() { register("C04", checkC04) }

func checkC04(c *vt.Ctx) {
	runClientCases(c, clientCases(c), hsSel{})
	runServerCases(c, serverCases(c), srvSel{})
}
