package checks

import (
	"encoding/json"
	"fmt"
	"runtime/debug"

	"verifharness/drv"
	"verifharness/vt"
)

func init() { register("C16", checkC16) }

func runFraming(c *vt.Ctx) {
	r := c.MustTLC(vt.TLCOpt{Module: "MCFraming", Config: tierCfg(c, "Framing"), Workers: 8, Heap: "8g"})
	if !r.OK {
		return
	}
	cases := r.Cases
	c.Count("framings", int64(len(cases)))
	c.Parallel(len(cases), func(i int) {
		var k drv.FrameCase
		if err := json.Unmarshal(cases[i], &k); err != nil {
			c.Error("case: %v", err)
			return
		}
		if !c.Thorough() && len(k.Recs) > 2 && hashInt(k)%2 != int(c.Seed)%2 {
			return
		}
		name := k.String()
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: framing %s: %v\n%s", name, p, debug.Stack())
			}
		}()
		bad := drv.RunFraming(k, caseRng(c, name))
		c.Eval("framing/" + k.Fl + "/" + k.API + "/" + k.Seg + "/" + k.St)
		if len(bad) > 0 {
			c.Violate("framing/"+name, "framing "+name+": "+bad[0], map[string]interface{}{"case": k, "bad": bad})
			return
		}
		c.AddValidated(1)
		if i%4999 == 1 {
			c.Sample(name)
		}
	})
}

// runStyles replays the schedules of Styles.tla on pairs of real endpoints.
func runStyles(c *vt.Ctx) {
	r := c.MustTLC(vt.TLCOpt{Module: "MCStyles", Config: tierCfg(c, "Styles"), Workers: 4})
	if !r.OK {
		return
	}
	cases := r.Cases
	c.Count("schedules", int64(len(cases)))
	plain := []string{}
	for _, m := range drv.StreamModes {
		if m != "cookie" {
			plain = append(plain, m)
		}
	}
	c.Parallel(len(cases), func(i int) {
		var k drv.StyleCase
		if err := json.Unmarshal(cases[i], &k); err != nil {
			c.Error("case: %v", err)
			return
		}
		h := hashInt(k)
		if f := c.Pick(6, 2); h%f != int(c.Seed)%f {
			return
		}
		mode := plain[(h/7)%len(plain)]
		if k.Cookie {
			mode = "cookie"
		}
		name := mode + "/" + k.String()
		defer func() {
			if p := recover(); p != nil {
				c.Error("driver: schedule %s: %v\n%s", name, p, debug.Stack())
			}
		}()
		bad := drv.RunStyle(k, mode, caseRng(c, name))
		c.Eval("schedule/" + mode)
		if len(bad) > 0 {
			c.Violate("schedule/"+name, "schedule "+name+": "+bad[0], map[string]interface{}{"case": k, "mode": mode, "bad": bad})
			return
		}
		c.AddValidated(1)
	})
}

// runBlockingStyles connects pairs with every mixture of API styles.
func runBlockingStyles(c *vt.Ctx) {
	type job struct {
		mode   string
		cb, sb bool
		seg    string
		rep    int
	}
	var jobs []job
	for _, m := range drv.StreamModes {
		for x := 0; x < 4; x++ {
			for _, seg := range []string{"rec", "byte", "rnd"} {
				for rep := 0; rep < c.Pick(1, 8); rep++ {
					jobs = append(jobs, job{m, x&1 == 1, x&2 == 2, seg, rep})
				}
			}
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		name := fmt.Sprintf("styles/%s/client blocking %v/server blocking %v/%s/%d", j.mode, j.cb, j.sb, j.seg, j.rep)
		bad := drv.RunBlocking(j.mode, j.cb, j.sb, caseRng(c, name), j.seg)
		c.Eval(name)
		if len(bad) > 0 {
			c.Violate(name, name+": "+bad[0], bad)
			return
		}
		c.AddValidated(1)
	})
}

// C16: framing, segmentation and calling style.
func checkC16(c *vt.Ctx) {
	replay(c, "reads", vt.TLCOpt{Module: "MCReads", Config: tierCfg(c, "Reads"), Workers: 8, Heap: "8g"}, c.Pick(6, 12), drv.RunReads)
	runBlockingStyles(c)
	runStyles(c)
	runFraming(c)
}
