package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C12", checkC12) }

// C12: cookies: histories of ClientHellos at several servers, honest retries in every style of use.
func checkC12(c *vt.Ctx) {
	if !c.MustTLC(vt.TLCOpt{Module: "MCCookie", Config: "Cookie_design.cfg", Workers: 8, Heap: "6g"}).OK {
		return
	}
	replay(c, "cookie", vt.TLCOpt{Module: "MCCookie", Config: "Cookie_quick.cfg", Workers: 1,
		Args: []string{"-simulate", fmt.Sprintf("num=%d", c.Pick(1500, 20000)), "-seed", fmt.Sprint(c.Seed), "-depth", "40"}}, 1,
		func(k drv.CookieCase, rng *rand.Rand) (string, []string) { return drv.RunCookie(k, rng) })
	replay(c, "cookiehonest", vt.TLCOpt{Module: "MCCookieHonest", Config: "CookieHonest_quick.cfg", Workers: 4, Heap: "4g"}, c.Pick(2, 1),
		func(k drv.CookieHonestCase, rng *rand.Rand) (string, []string) {
			return fmt.Sprintf("%s%v%s%s%v%s", k.C.Style, k.C.Su, k.C.PSK, k.C.Val, k.C.Auth, k.C.Tr), drv.RunCookieHonest(k, rng)
		})
	runClientCases(c, clientCases(c), hsSel{use: func(k drv.HsCase) bool { return strings.Contains(k.Msgs(), "HRR") }, frac: 2})
	runServerCases(c, serverCases(c), srvSel{use: func(k drv.SrvCase) bool { return k.Cfg.Cookie }, frac: 2})
}
