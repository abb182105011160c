package checks

import (
	"encoding/json"
	"fmt"
	"sync"

	"verifharness/drv"
	"verifharness/eut"
	"verifharness/ref"
	"verifharness/vt"
)

func init() { register("C08", checkC08) }

// recTraces collects record traces of the real code, abstracted and without repetitions.
type recTraces struct {
	mu    sync.Mutex
	seen  map[string]int
	names []string
	list  []json.RawMessage
	evs   [][]eut.RecEvent
	total int64
	users map[string]int64 // key -> connection that protected something with it
	dup   []string
}

type recEv struct {
	Sd   string `json:"sd"`
	Op   string `json:"op"`
	K    int    `json:"k"`
	Ep   int    `json:"ep"`
	Q    int64  `json:"q"`
	Ty   int    `json:"ty"`
	Ku   bool   `json:"ku"`
	Both bool   `json:"both"`
}

// add records the events of one connection; both says that both ends are traced.
func (r *recTraces) add(name string, ev []eut.RecEvent, both bool) {
	keys := map[string]int{}
	out := []recEv{}
	for _, e := range ev {
		if _, ok := keys[e.Key]; !ok {
			keys[e.Key] = len(keys)
		}
		out = append(out, recEv{e.Side, e.Op, keys[e.Key], e.Epoch, e.Seq, int(e.Type), e.Type == ref.RHandshake && e.Msg == ref.TKU, both})
	}
	b, _ := json.Marshal(out)
	r.mu.Lock()
	defer r.mu.Unlock()
	r.total++
	if r.users == nil {
		r.users = map[string]int64{}
	}
	for _, e := range ev {
		if e.Op == "seal" {
			if o, ok := r.users[e.Key]; ok && o != r.total && len(r.dup) < 5 {
				r.dup = append(r.dup, name)
			}
			r.users[e.Key] = r.total
		}
	}
	if r.seen == nil {
		r.seen = map[string]int{}
	}
	if _, ok := r.seen[string(b)]; ok || len(out) == 0 {
		return
	}
	r.seen[string(b)] = len(r.list)
	r.list = append(r.list, b)
	r.names = append(r.names, name)
	r.evs = append(r.evs, ev)
}

// validate lets TLC check all traces against RecordTrace.tla.
func (r *recTraces) validate(c *vt.Ctx) {
	if len(r.list) == 0 {
		c.Error("no record traces")
		return
	}
	for _, d := range r.dup {
		c.Violate("trace/shared/"+d, d+": uses a traffic key that another connection used", nil)
	}
	const batch = 20000
	for from := 0; from < len(r.list); from += batch {
		to := from + batch
		if to > len(r.list) {
			to = len(r.list)
		}
		b, _ := json.Marshal(r.list[from:to])
		res := c.MustTLC(vt.TLCOpt{Module: "RecordTrace", Config: "RecordTrace.cfg", Workers: 8, Heap: "10g", Files: map[string][]byte{"traces.json": b}})
		for _, raw := range res.Cases {
			var x struct {
				T, I int
				Bad  string
			}
			if json.Unmarshal(raw, &x) != nil || x.T < 1 || from+x.T > len(r.list) {
				c.Error("unusable TLC output %s", raw)
				continue
			}
			n := from + x.T - 1
			c.Violate("trace/"+r.names[n], fmt.Sprintf("%s: record %d: %s", r.names[n], x.I, x.Bad), map[string]interface{}{"trace": r.list[n], "at": x.I, "rule": x.Bad})
		}
	}
	c.Count("record_traces", r.total)
	c.Count("distinct_record_traces", int64(len(r.list)))
	c.AddValidated(int64(len(r.list)))
}

// C08: nonces and keys of everything the endpoints protect.
func checkC08(c *vt.Ctx) {
	var tr recTraces
	runStream(c, tierCfg(c, "Stream_ku"), func(k drv.StreamCase) bool { return c.Thorough() || hashInt(k)%3 == int(c.Seed)%3 }, func(k drv.StreamCase, mode string, r *drv.StreamRun) {
		tr.add(mode+": "+k.String(), r.Tr.Events(), true)
	})
	runStream(c, tierCfg(c, "Stream_att"), func(k drv.StreamCase) bool { return hashInt(k)%8 == int(c.Seed)%8 }, func(k drv.StreamCase, mode string, r *drv.StreamRun) {
		tr.add(mode+": "+k.String(), r.Tr.Events(), true)
	})
	add := func(name string, ev []eut.RecEvent) { tr.add(name, ev, false) }
	runClientCases(c, clientCases(c), hsSel{onTrace: add, frac: 2})
	runServerCases(c, serverCases(c), srvSel{onTrace: add, frac: 2})
	for _, server := range []bool{false, true} {
		for _, base := range []uint64{1<<48 - 4, 1<<64 - 4} {
			name := fmt.Sprintf("end of the sequence space at %x, server=%v", base, server)
			ev, ok, note := drv.WrapRun("psk", server, base, 12)
			if !ok {
				c.Note("%s not checked: %s", name, note)
				continue
			}
			c.Eval(name)
			tr.add(name, ev, true)
		}
	}
	runDtls(c, c.Pick(700, 10000), "used record number")
	if len(tr.list) > 0 {
		c.Sample(tr.list[0])
	}
	tr.validate(c)
}
