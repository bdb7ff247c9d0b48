package rt

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"math/rand"
	"runtime/debug"
	"strings"
	"time"

	"verif/harness/ev"
	"verif/harness/minisql"
)

func init() {
	Checks["C16"] = func(r *ev.Run) {
		r.Rule = "one evaluation per call with one failure injected (or one cancellation, or one early stop) whose outcome and open resources are judged; distinct counts (flavour, model, call, point of failure, kind of failure)"
		r.Assume = append(r.Assume, "database/sql hides an error of closing a result set that was read to its end", "a broken connection may be replaced by database/sql")
		each(r, func(a *Adapter) {
			rng := r.Rand("c16" + a.String())
			for k, n := 0, r.N(20, 80); k < n; k++ {
				c16(r, a, rng)
			}
		})
	}
}

type passed struct {
	name string
	cols int // of the result set at a row
}

func c16(r *ev.Run, a *Adapter, rng *rand.Rand) {
	w := NewWorld(a, noUnique)
	defer w.Close()
	w.E.Frozen = true
	x := &Act{A: a, W: w, World: rng.Int63(), Seed: rng.Int63(), S: a.shapes(rng)}
	rows, _ := x.stored()
	w.Put(rows)
	w.E.Mode, w.E.Prepared = x.S.mode, x.S.prep
	if x.S.lim > 3 {
		x.S.lim = 0
	}
	key := x.S.op + "/" + a.String()
	raw := map[string]bool{} // columns which hold whatever text there is
	for _, c := range a.M.Cols {
		if strings.TrimPrefix(c.Type, "*") == "raw" {
			raw[c.Name] = true
		}
	}

	// one run: a new pool of connections, everything released afterwards
	run := func(ctx context.Context, what string, on func(minisql.Point) *minisql.Fault) (o Out, pts []passed, ok bool) {
		w.E.TakeLog()
		w.E.ResetPoints()
		db := w.E.Open()
		w.E.OnPoint = func(p minisql.Point) *minisql.Fault {
			pts = append(pts, passed{name: p.Name})
			if on == nil {
				return nil
			}
			return on(p)
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					r.Violate("panic/"+key, "%s, %s: panic: %v\n%.2000s", x, what, p, debug.Stack())
				}
			}()
			o = x.Do(ctx, db)
			ok = true
		}()
		// a cancelled context releases things in the background
		var left string
		for t := 0; t < 2000; t++ {
			left = w.E.Leaks()
			if n := db.Stats().InUse; n > 0 {
				left += fmt.Sprintf(" %d connections in use", n)
			}
			if left == "" {
				break
			}
			if t > 20 || ctx.Err() != nil {
				time.Sleep(time.Millisecond)
			}
			if ctx.Err() == nil && t > 40 {
				break
			}
		}
		if left != "" && ok {
			r.Violate("leak/"+key, "%s, %s: still open afterwards: %s (%v); %s", x, what, left, o.Err, w.LastSQL())
		}
		w.E.OnPoint = nil
		db.Close()
		if left != "" {
			w.E.OpenRows.Store(0)
			w.E.OpenStmts.Store(0)
			w.E.OpenTxs.Store(0)
		}
		if s, _ := w.E.Misuse.Load().(string); s != "" {
			r.Violate("misuse/"+key, "%s, %s: %s", x, what, s)
			w.E.Misuse.Store("")
		}
		return
	}
	want, pts, ok := run(bg, "undisturbed", nil)
	if !ok || !want.Called {
		return
	}
	// the columns of the result set each row point belongs to
	log := w.E.TakeLog()
	li := -1
	for i := range pts {
		switch pts[i].name {
		case "query":
			for li++; li < len(log) && log[li].Op != "query"; li++ {
			}
		case "rows.next":
			if li >= 0 && li < len(log) {
				pts[i].cols = len(log[li].Res.Cols)
			}
		}
	}
	r.Eval(fmt.Sprint(key, "/", x.Seed, "/undisturbed"), true)
	judge := func(what string, o Out, must bool) {
		if !o.Called {
			return // the transaction the call is made in did not come about
		}
		r.Eval(fmt.Sprint(key, "/", x.Seed, "/", what), true)
		same := o.Err == nil && want.Err == nil && o.Digest == want.Digest
		switch {
		case o.Err == nil && must:
			r.Violate("swallowed/"+key, "%s, %s: no error is returned; %s", x, what, w.LastSQL())
		case o.Err == nil && want.Err == nil && !same:
			r.Violate("partial/"+key, "%s, %s: it reports success with another result:\n%.600s\ninstead of\n%.600s", x, what, o.Digest, want.Digest)
		case x.S.op == "page" && o.Err != nil && !strings.HasPrefix(want.Digest, o.Digest):
			r.Violate("pages/"+key, "%s, %s: the pages before the error are not those of the undisturbed iteration:\n%.600s\ninstead of\n%.600s", x, what, o.Digest, want.Digest)
		}
	}
	mine := func(n string) bool { return n == "begin" || n == "commit" || n == "rowsaffected" }
	for i, p := range pts {
		if mine(p.name) {
			continue
		}
		// the step fails
		what := fmt.Sprintf("%s (step %d of %d) fails", p.name, i+1, len(pts))
		hit := false
		at := func(f minisql.Fault) func(q minisql.Point) *minisql.Fault {
			return func(q minisql.Point) *minisql.Fault {
				if q.N != i {
					return nil
				}
				hit = true
				return &f
			}
		}
		o, _, ok := run(bg, what, at(minisql.Fault{Err: minisql.ErrInjected}))
		if ok && hit {
			r.Count("failed-"+p.name, 1)
			judge(what, o, p.name != "rows.close")
			if o.Err != nil && p.name != "rows.close" && !errors.Is(o.Err, minisql.ErrInjected) {
				r.Count("errors-not-wrapping-the-cause", 1)
			}
		}
		// the connection breaks
		if p.name == "query" || p.name == "exec" || p.name == "rows.next" || p.name == "prepare" {
			hit = false
			what := fmt.Sprintf("the connection breaks at %s (step %d)", p.name, i+1)
			o, _, ok := run(bg, what, at(minisql.Fault{Err: driver.ErrBadConn}))
			if ok && hit {
				r.Count("broken-"+p.name, 1)
				judge(what, o, p.name == "rows.next")
			}
		}
		// a column cannot be decoded; the last fetch of a result set gives no row
		if p.name == "rows.next" && p.cols > 0 {
			n := p.cols
			off := 0
			if n > 4 && !r.Thorough() {
				off, n = rng.Intn(n), 4
			}
			for k := 0; k < n; k++ {
				c := (off+k)%p.cols + 1
				for _, text := range []bool{false, true} {
					what := fmt.Sprintf("column %d of the row at step %d cannot be decoded (text %t)", c, i+1, text)
					ft := &minisql.Fault{BadCol: c, Text: text, Raw: raw}
					o, _, ok := run(bg, what, func(q minisql.Point) *minisql.Fault {
						if q.N == i {
							return ft
						}
						return nil
					})
					if ok && ft.Applied {
						r.Count(fmt.Sprintf("undecodable-column text=%t", text), 1)
						judge(what, o, true)
					}
				}
			}
		}
		// the context is cancelled at the step
		hit = false
		ctx, cancel := context.WithCancel(bg)
		what = fmt.Sprintf("the context is cancelled at %s (step %d)", p.name, i+1)
		o, _, ok = run(ctx, what, at(minisql.Fault{Cancel: cancel}))
		cancel()
		if ok && hit {
			r.Count("cancelled-"+p.name, 1)
			judge(what, o, false)
		}
	}
	if x.S.op != "lock" {
		ctx, cancel := context.WithCancel(bg)
		cancel()
		o, _, ok := run(ctx, "the context is cancelled before", nil)
		if ok {
			judge("the context is cancelled before", o, len(log) > 0)
		}
	}
	// the iteration is stopped after every page
	if x.S.op == "page" && want.Err == nil {
		for n := 1; n <= want.Pages; n++ {
			x.Pages = func(k int) bool { return k < n }
			what := fmt.Sprintf("stopped after page %d", n)
			o, _, ok := run(bg, what, nil)
			if ok {
				r.Eval(fmt.Sprint(key, "/", x.Seed, "/", what), true)
				r.Count("stopped", 1)
				if o.Err != nil || o.Pages != n || !strings.HasPrefix(want.Digest, o.Digest) {
					r.Violate("stop/"+key, "%s, %s: %v, %d pages, %.600s", x, what, o.Err, o.Pages, o.Digest)
				}
			}
			ctx, cancel := context.WithCancel(bg)
			x.Pages = func(k int) bool {
				if k == n {
					cancel()
				}
				return true
			}
			what = fmt.Sprintf("the context is cancelled after page %d", n)
			o, _, ok = run(ctx, what, nil)
			cancel()
			if ok {
				r.Count("cancelled-page", 1)
				judge(what, o, n < want.Pages)
			}
			x.Pages = nil
		}
	}
	// failures leave nothing behind that a later call trips over
	o, _, ok := run(bg, "undisturbed, after the failures", nil)
	if ok && (o.Digest != want.Digest || (o.Err == nil) != (want.Err == nil)) {
		r.Violate("after/"+key, "%s, after calls that failed: %v %.600s instead of %v %.600s", x, o.Err, o.Digest, want.Err, want.Digest)
	}
	r.Sample(key, map[string]any{"steps": len(pts), "call": x.String()})
}
