package checks

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"verifharness/drv"
	"verifharness/vt"
)

func init() {
	register("C15", checkC15)
	children["par"] = childPar
}

// children are run in a process of their own.
var children = map[string]func(file string) int{}

// Child runs a child mode.
func Child(name, file string) int {
	f, ok := children[name]
	if !ok {
		return 2
	}
	return f(file)
}

type parJob struct {
	Case        drv.CfgCase
	NonBlocking bool
	Clones      bool
	Network     bool
}

func childPar(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rc := 0
	for i, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var j parJob
		if err := json.Unmarshal([]byte(l), &j); err != nil {
			fmt.Println(err)
			return 2
		}
		fmt.Println("CASE", i)
		if bad := drv.RunParallel(j.Case, j.NonBlocking, j.Clones, j.Network, rand.New(rand.NewSource(int64(i)))); len(bad) > 0 {
			fmt.Println("BAD", strings.ReplaceAll(bad[0], "\n", " | "))
			rc = 1
		}
	}
	fmt.Println("END")
	return rc
}

// raceBinary builds the harness with the race detector; "" if that is not possible.
func raceBinary(c *vt.Ctx) string {
	bin := filepath.Join(c.Scratch, "vh-race")
	cmd := exec.Command("go", "build", "-race", "-o", bin, "./cmd/vh")
	cmd.Dir = filepath.Join(vt.Root, "harness")
	cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
	if out, err := cmd.CombinedOutput(); err != nil {
		c.Note("no race detector: %v %s", err, out)
		return ""
	}
	return bin
}

// checkC15: histories over shared Configs, clones, and connections that run at the same time.
func checkC15(c *vt.Ctx) {
	if !c.MustTLC(vt.TLCOpt{Module: "MCSharedConfig", Config: map[bool]string{false: "SharedConfig_design.cfg", true: "SharedConfig_deep.cfg"}[c.Thorough()], Workers: 8, Heap: "6g"}).OK {
		return
	}
	// clones, field by field
	cfg := "SPECIFICATION Spec\nCONSTANT Fields = {\"" + strings.Join(drv.ConfigFields(), "\", \"") + "\"}\nINVARIANTS Same Independent Emit\nCHECK_DEADLOCK FALSE\n"
	replay(c, "clone", vt.TLCOpt{Module: "CloneFields", Config: "gen.cfg", Files: map[string][]byte{"gen.cfg": []byte(cfg)}, Workers: 8}, 1,
		func(k drv.CloneCase, _ *rand.Rand) (string, []string) {
			return fmt.Sprintf("%d/%s", len(k.Set), k.Later), drv.RunClone(k)
		})
	// histories
	race := make(chan string, 1)
	go func() { race <- raceBinary(c) }()
	var jobs []parJob
	n := c.Pick(3000, 40000)
	every := c.Pick(10, 20)
	r := c.MustTLC(vt.TLCOpt{Module: "MCSharedConfig", Config: "SharedConfig_quick.cfg", Workers: 1, Heap: "6g",
		Args: []string{"-simulate", fmt.Sprintf("num=%d", n), "-seed", fmt.Sprint(c.Seed), "-depth", "80"}})
	if !r.OK {
		return
	}
	for i := 0; i < len(r.Cases); i += every {
		var k drv.CfgCase
		if err := json.Unmarshal(r.Cases[i], &k); err != nil {
			c.Error("case: %v", err)
			return
		}
		jobs = append(jobs, parJob{k, true, false, false}, parJob{k, false, false, false}, parJob{k, i/every%2 == 0, true, false}, parJob{k, false, false, true})
	}
	replayCases(c, "shared", r.Cases, 1, drv.RunShared)
	runPar(c, <-race, jobs)
}

// runPar executes the jobs in child processes.
func runPar(c *vt.Ctx, bin string, jobs []parJob) {
	if bin == "" {
		bin, _ = os.Executable()
	} else {
		c.Count("concurrent_cases_under_race_detector", int64(len(jobs)))
	}
	const batch = 25
	c.Parallel((len(jobs)+batch-1)/batch, func(b int) {
		part := jobs[b*batch:]
		if len(part) > batch {
			part = part[:batch]
		}
		file := filepath.Join(c.Scratch, fmt.Sprintf("par-%d", b))
		var sb strings.Builder
		for _, j := range part {
			l, _ := json.Marshal(j)
			sb.Write(l)
			sb.WriteByte('\n')
		}
		if err := os.WriteFile(file, []byte(sb.String()), 0o600); err != nil {
			c.Error("%v", err)
			return
		}
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Second)
		defer cancel()
		cmd := exec.CommandContext(ctx, bin, "child", "par", file)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		out, err := cmd.CombinedOutput()
		s := string(out)
		last := -1
		bads := map[int]string{}
		for _, l := range strings.Split(s, "\n") {
			if strings.HasPrefix(l, "CASE ") {
				fmt.Sscanf(l, "CASE %d", &last)
			}
			if strings.HasPrefix(l, "BAD ") {
				bads[last] = l[4:]
			}
		}
		for i, what := range bads {
			c.Violate(fmt.Sprintf("parallel/%08x", hashInt(part[i].Case.String())), "connections at the same time: "+what, part[i])
		}
		if strings.Contains(s, "\nEND\n") && len(bads) == 0 && err == nil {
			for _, j := range part {
				c.Eval(fmt.Sprintf("parallel/%d/%v/%v/%v", len(j.Case.Par), j.NonBlocking, j.Clones, j.Network))
				c.AddValidated(1)
			}
			return
		}
		if strings.Contains(s, "\nEND\n") {
			return
		}
		if last < 0 || last >= len(part) {
			c.Error("child: %v %.400s", err, s)
			return
		}
		what := "did not finish"
		for _, m := range []string{"WARNING: DATA RACE", "fatal error:", "panic:"} {
			if k := strings.Index(s, m); k >= 0 {
				what = s[k:]
				break
			}
		}
		if len(what) > 6000 {
			what = what[:6000]
		}
		c.Violate("parallel-crash", "connections at the same time over shared Configs: "+what, part[last])
	})
}
