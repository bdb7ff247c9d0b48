package main

import (
	"fmt"
	"strings"

	"verif/harness/ev"
)

// pendingVal is an encoded value that a statement would still be holding while
// other values are encoded.
type pendingVal struct {
	key, desc, text string
	val             any
}

var pending []pendingVal

// hold keeps an encoded value alive; once enough later values have been
// encoded, it checks that none of the held ones changed meanwhile.
func hold(r *ev.Run, key, desc string, val any) {
	s, ok := asText(val)
	if !ok {
		return
	}
	pending = append(pending, pendingVal{key, desc, strings.Clone(s), val})
	if len(pending) >= 24 {
		for _, p := range pending {
			if now, _ := asText(p.val); now != p.text {
				r.Violate(p.key+"/pending", "%s: the encoded value %q became %q while later values were encoded", p.desc, clip(p.text), clip(now))
			}
		}
		r.Count("held_values_rechecked", int64(len(pending)))
		r.Eval(fmt.Sprint("pending", len(pending)), false)
		pending = pending[:0]
	}
}
