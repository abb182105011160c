// vh runs the checks of /verif.
package main

import (
	"fmt"
	"os"
	"testing"

	"verifharness/checks"
	"verifharness/drv"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "check" {
		// run inside a test, because virtual time (testing/synctest) needs one
		id := os.Args[2]
		os.Args = os.Args[:1]
		testing.Main(func(pat, str string) (bool, error) { return true, nil },
			[]testing.InternalTest{{Name: "check", F: func(t *testing.T) {
				drv.T = t
				os.Exit(checks.Run(id))
			}}}, nil, nil)
	}
	if len(os.Args) == 4 && os.Args[1] == "child" {
		os.Exit(checks.Child(os.Args[2], os.Args[3]))
	}
	fmt.Println("usage: vh check ID; checks:", checks.IDs())
	os.Exit(2)
}
