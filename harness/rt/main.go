package rt

import (
	"flag"
	"fmt"
	"os"

	"verif/harness/ev"
)

var Checks = map[string]func(*ev.Run){}

func Main() {
	prop := flag.String("prop", "", "")
	prep := flag.String("prep", "", "")
	flag.Parse()
	f := Checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no monitor for", *prop)
		os.Exit(4)
	}
	r := ev.New(*prop)
	r.Absorb(*prep)
	f(r)
	r.Finish()
}
