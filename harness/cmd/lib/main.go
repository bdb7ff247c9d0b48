// Command lib checks the properties of the run-time library (/repo/sequel).
package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"

	"verif/harness/ev"
)

func main() {
	prop := flag.String("prop", "", "property id")
	flag.Parse()
	r := ev.New(*prop)
	if os.Getenv("VERIF_WORKER") == "" {
		cmd := exec.Command(os.Args[0], os.Args[1:]...)
		cmd.Env = append(os.Environ(), "VERIF_WORKER=1")
		r.Child(cmd, nil)
	}
	switch *prop {
	case "C01":
		c01(r)
	case "C02":
		c02(r)
	case "C03":
		c03(r)
	case "C04":
		c04(r)
	case "C05":
		c05(r)
	default:
		fmt.Fprintln(os.Stderr, "unknown property")
		os.Exit(2)
	}
	r.Finish()
}
