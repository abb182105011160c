package checks

import (
	"encoding/json"
	"math/rand"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C17", checkC17) }

// C17: the codec against Codec.tla.
func checkC17(c *vt.Ctx) {
	r := c.MustTLC(vt.TLCOpt{Module: "MCCodec", Config: tierCfg(c, "Codec"), Workers: 8, Heap: "8g"})
	if !r.OK {
		return
	}
	cases := r.Cases
	r.Cases = nil
	// values to have in the destination of a decoding
	held := map[string][]interface{}{}
	for _, raw := range cases {
		var k drv.CodecCase
		if json.Unmarshal(raw, &k) == nil && k.Op == "enc" && k.OK {
			held[k.T.String()] = append(held[k.T.String()], k.V)
		}
	}
	replayCases(c, "codec", cases, 1, func(k drv.CodecCase, rng *rand.Rand) (string, []string) {
		if h := held[k.T.String()]; k.Op == "dec" && len(h) > 0 && rng.Intn(2) == 0 {
			k.Dirty = h[rng.Intn(len(h))]
		}
		cls, bad := drv.RunCodec(k, rng)
		return cls, bad
	})
}
