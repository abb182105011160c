// Package checks decides each property.
package checks

import (
	"fmt"
	"sort"

	"verifharness/vt"
)

var registry = map[string]func(*vt.Ctx){}

func register(id string, f func(*vt.Ctx)) { registry[id] = f }

// Run runs one check and returns the exit code.
func Run(id string) int {
	f, ok := registry[id]
	if !ok {
		fmt.Println("ERROR no check for", id)
		return 2
	}
	c := vt.NewCtx(id)
	f(c)
	return c.Finish()
}

// IDs lists the checks.
func IDs() []string {
	var o []string
	for k := range registry {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
