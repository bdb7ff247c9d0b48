package rt

import (
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"maps"
	"math/rand"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/si3nloong/sqlgen/sequel"
	"github.com/si3nloong/sqlgen/sequel/encoding"
	"github.com/si3nloong/sqlgen/sequel/strpool"

	"verif/harness/ev"
	"verif/harness/minisql"
)

func init() {
	Checks["C15"] = func(r *ev.Run) {
		r.Rule = "one evaluation per call made while others were running whose statements and results are compared with the same call made alone; distinct counts (flavour, model, call, interleaving of its round)"
		r.Assume = append(r.Assume, "the race detector reports races on the accesses that were executed", "schedules are those the Go scheduler and the injected delays produce")
		for _, f := range Flavours {
			r.Guard("panic/"+f.Name, f.Name, func() { c15(r, f) })
		}
	}
}

// tag identifies one call.
type tag struct {
	act *conAct
	who int
}

type conAct struct {
	Act
	want Out
	log  []string
}

func callText(c *minisql.Call) string {
	return fmt.Sprintf("%s %s %s", c.Op, c.SQL, ShowRow(toVals(c.Args)))
}

func c15(r *ev.Run, f *Flavour) {
	rng := r.Rand("c15" + f.Name)
	var acts []*conAct
	var worlds []*World
	perm := rng.Perm(len(f.Models))
	for _, i := range perm[:min(len(perm), r.N(14, len(perm)))] {
		a := f.Models[i]
		w := NewWorld(a, noUnique)
		defer w.Close()
		seed := rng.Int63()
		x := Act{A: a, W: w, World: seed}
		rows, _ := x.stored()
		w.Put(rows)
		w.E.Frozen = true
		w.E.Prepared = rng.Intn(2) == 0
		w.E.Mode = modes[rng.Intn(3)]
		worlds = append(worlds, w)
		for k := 0; k < r.N(10, 30); k++ {
			c := &conAct{Act: Act{A: a, W: w, World: seed, Seed: rng.Int63(), S: a.shapes(rng)}}
			if c.S.op == "page" && k%2 == 0 {
				// calls share a paginator, without condition
				c.S.where = -1
				c.Pager = a.NewPager(Page{OrderBy: a.clause(c.S.ord), Limit: c.S.lim})
			}
			c.want = c.Do(bg, w.DB)
			if !c.want.Called {
				w.E.TakeLog()
				continue
			}
			for _, l := range w.E.TakeLog() {
				c.log = append(c.log, callText(l))
			}
			// alone, it always does the same
			again := c.Do(bg, w.DB)
			var log []string
			for _, l := range w.E.TakeLog() {
				log = append(log, callText(l))
			}
			if again.Digest != c.want.Digest || strings.Join(log, "\n") != strings.Join(c.log, "\n") || (again.Err == nil) != (c.want.Err == nil) {
				r.Violate("alone/"+a.String(), "%s: the same call made twice, alone, differs: %v %.400s %.400s / %v %.400s %.400s", c, c.want.Err, c.want.Digest, c.log, again.Err, again.Digest, log)
				continue
			}
			acts = append(acts, c)
		}
	}
	if len(acts) == 0 {
		return
	}
	f.afterFailures(r, rng, acts)
	encs := encoders(rng)
	var tick, flying, peak atomic.Int64
	delay := func(what string) {
		n := tick.Add(1) * 0x1E3779B97F4A7C15 >> 40 & 15
		fl := flying.Add(1)
		for p := peak.Load(); fl > p && !peak.CompareAndSwap(p, fl); p = peak.Load() {
		}
		switch {
		case n < 8:
			for i := int64(0); i < n; i++ {
				runtime.Gosched()
			}
		case n < 11:
			time.Sleep(time.Duration(n) * 10 * time.Microsecond)
		}
		flying.Add(-1)
	}
	for _, w := range worlds {
		w.E.Delay = delay
	}
	for round := 0; round < r.N(16, 100); round++ {
		var wg sync.WaitGroup
		start := make(chan struct{})
		seed := rng.Int63()
		type done struct {
			t   *tag
			out Out
		}
		G := 16
		results := make([][]done, G)
		for who := 0; who < G; who++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				lr := rand.New(rand.NewSource(seed + int64(who)))
				<-start
				r.Guard("panic/concurrent/"+f.Name, f.Name+" concurrent calls", func() {
					for k, n := 0, r.N(30, 60); k < n; k++ {
						c := acts[lr.Intn(len(acts))]
						t := &tag{c, who}
						results[who] = append(results[who], done{t, c.Do(context.WithValue(bg, minisql.TagKey{}, t), c.W.DB)})
					}
				})
			}()
		}
		// others take statements and builders from the pools
		stop := make(chan struct{})
		var aux sync.WaitGroup
		for who := 0; who < 4; who++ {
			aux.Add(1)
			go func() {
				defer aux.Done()
				<-start
				r.Guard("panic/pool/"+f.Name, f.Name+" pools", func() {
					for k := 0; ; k++ {
						select {
						case <-stop:
							return
						default:
						}
						f.poolCase(r, fmt.Sprintf("w%d-%d", who, k))
						if k%8 == 0 {
							f.refused(r)
						}
						e := encs[(k+who)%len(encs)]
						s := e.do()
						runtime.Gosched()
						if got := s(); got != e.want {
							r.Violate("encoder/"+e.name, "%s, while others run: %.300q instead of %.300q", e.name, got, e.want)
						}
						r.Count("pool-and-encoder-cases", 1)
					}
				})
			}()
		}
		close(start)
		wg.Wait()
		close(stop)
		aux.Wait()
		f.distinct(r, "a round of concurrent calls")

		// the statements each call sent, and the order they came in
		h := fnv.New64a()
		sent := map[*tag][]string{}
		bad := map[*tag]string{}
		for _, w := range worlds {
			for _, c := range w.E.TakeLog() {
				t, _ := c.Tag.(*tag)
				if t == nil {
					r.Violate("untagged/"+f.Name, "%s: a statement came without the context of its call: %s", f.Name, callText(c))
					continue
				}
				fmt.Fprintf(h, "%d,", t.who)
				sent[t] = append(sent[t], callText(c))
				if c.Mutated() {
					bad[t] = c.SQL
				}
			}
			w.Check(r, "res/"+w.A.String(), w.A.String())
		}
		il := fmt.Sprint(h.Sum64())
		for who := range results {
			for _, d := range results[who] {
				c := d.t.act
				key := "mixed/" + c.S.op + "/" + c.A.String()
				r.Eval(fmt.Sprintf("%s/%d/%s", key, c.Seed, il), len(c.log) > 0)
				r.Count("calls-"+c.S.op, 1)
				r.Count("statements", int64(len(sent[d.t])))
				if s, ok := bad[d.t]; ok {
					r.Violate("released/"+c.S.op+"/"+c.A.String(), "%s: the text of a statement changed after it was sent: now %.500q", c, s)
				}
				if x, y := strings.Join(sent[d.t], "\n"), strings.Join(c.log, "\n"); x != y {
					r.Violate(key, "%s, while others run, sends\n%.1200s\ninstead of\n%.1200s", c, x, y)
					continue
				}
				if d.out.Digest != c.want.Digest || (d.out.Err == nil) != (c.want.Err == nil) {
					r.Violate("result/"+c.S.op+"/"+c.A.String(), "%s, while others run, gives %v\n%.800s\ninstead of %v\n%.800s", c, d.out.Err, d.out.Digest, c.want.Err, c.want.Digest)
				}
			}
		}
		r.Eval("interleaving/"+f.Name+il, true)
		r.Count("rounds", 1)
	}
	r.Count("peak-statements-in-flight-"+f.Name, peak.Load())
	r.Sample(f.Name, map[string]any{"calls": len(acts), "goroutines": 20, "peak_in_flight": peak.Load()})
}

// refused makes the calls that no table can be found for.
func (f *Flavour) refused(r *ev.Run) {
	for _, k := range slices.Sorted(maps.Keys(f.NoTable)) {
		if err := f.NoTable[k](bg, nil); err == nil {
			r.Violate("notable/"+k+"/"+f.Name, "%s: %s of a model without a table gives no error", f.Name, k)
		}
		r.Count("refused-calls", 1)
	}
}

// distinct judges that what the pools hand out at the same time is not shared.
func (f *Flavour) distinct(r *ev.Run, after string) {
	stmts := map[sequel.Stmt]bool{}
	blrs := map[*strings.Builder]bool{}
	for i := 0; i < 48; i++ {
		s, b := f.Acquire(), strpool.AcquireString()
		if stmts[s] {
			r.Violate("pool/shared/"+f.Name, "%s: after %s, two callers hold the same statement", f.Name, after)
		}
		if blrs[b] {
			r.Violate("pool/string/shared", "after %s, two callers hold the same builder", after)
		}
		if s.Query() != "" || len(s.Args()) > 0 || b.Len() > 0 {
			r.Violate("pool/dirty/"+f.Name, "%s: after %s, the pool hands out %.300q %v %.300q", f.Name, after, s.Query(), s.Args(), b.String())
		}
		stmts[s], blrs[b] = true, true
	}
	// they come back used, for short and for long statements
	n := 0
	for s := range stmts {
		if n++; n%3 > 0 {
			used(s, n)
			if n%3 == 1 {
				s.Var(n)
			}
		}
		f.Release(s)
	}
	for b := range blrs {
		if n++; n%3 > 0 {
			used(b, n)
		}
		strpool.ReleaseString(b)
	}
	r.Count("pool-snapshots", 1)
}

var long = strings.Repeat("SELECT ", 32<<10)

// used writes something between a byte and 200 KiB.
func used(w interface{ WriteString(string) (int, error) }, n int) {
	w.WriteString(long[:1<<(n%18)])
}

// afterFailures looks at the pools after calls that fail, each at every point
// it passes, and after calls whose condition panics.
func (f *Flavour) afterFailures(r *ev.Run, rng *rand.Rand, acts []*conAct) {
	for k := 0; k < 12; k++ {
		for _, n := range slices.Sorted(maps.Keys(f.NoTable)) {
			f.NoTable[n](bg, nil)
			f.distinct(r, "a refused "+n)
			r.Eval(fmt.Sprintf("pool/%s/%s/%d", f.Name, n, k), true)
		}
	}
	boom := func(sequel.StmtWriter) { panic("the caller's") }
	for _, i := range rng.Perm(len(acts))[:min(len(acts), r.N(60, 400))] {
		c := acts[i]
		points := 0
		c.W.E.OnPoint = func(minisql.Point) *minisql.Fault { points++; return nil }
		c.Do(bg, c.W.DB)
		for at := 0; at < min(points, 8); at++ {
			n := 0
			c.W.E.OnPoint = func(minisql.Point) *minisql.Fault {
				n++
				if n-1 == at {
					return &minisql.Fault{Err: minisql.ErrInjected}
				}
				return nil
			}
			c.Do(bg, c.W.DB)
			f.distinct(r, fmt.Sprintf("%s failing at point %d", c, at))
			r.Eval(fmt.Sprintf("pool/%s/fail%d", c, at), true)
		}
		c.W.E.OnPoint = nil
		ctx, cancel := context.WithCancel(bg)
		cancel()
		c.Do(ctx, c.W.DB)
		func() {
			defer func() { recover() }()
			c.A.Query(bg, c.W.DB, Select{Where: boom})
		}()
		func() {
			defer func() { recover() }()
			c.A.QueryOne(bg, c.W.DB, Select{Where: boom})
		}()
		func() {
			defer func() { recover() }()
			c.A.ExecDelete(bg, c.W.DB, Exec{Where: boom})
		}()
		f.distinct(r, "panicking conditions")
		c.W.E.TakeLog()
	}
}

// poolCase judges what the pools hand out.
func (f *Flavour) poolCase(r *ev.Run, mine string) {
	s := f.Acquire()
	if q, n := s.Query(), len(s.Args()); q != "" || n != 0 {
		r.Violate("pool/"+f.Name, "%s: a statement from the pool holds %.300q and %d arguments", f.Name, q, n)
	}
	first := "?"
	if f.D == minisql.Postgres {
		first = "$1"
	}
	v := s.Var(mine)
	if v != first {
		r.Violate("pool/var/"+f.Name, "%s: the first placeholder of a statement from the pool is %s", f.Name, v)
	}
	s.WriteString(mine)
	s.WriteByte(' ')
	s.WriteString(v)
	runtime.Gosched()
	if q := s.Query(); q != mine+" "+v || len(s.Args()) != 1 || s.Args()[0] != mine {
		r.Violate("pool/mixed/"+f.Name, "%s: a statement in use holds %.300q %v instead of %q", f.Name, q, s.Args(), mine)
	}
	f.Release(s)

	b := strpool.AcquireString()
	if b.Len() != 0 {
		r.Violate("pool/string", "a builder from the pool holds %.300q", b.String())
	}
	b.WriteString(mine)
	runtime.Gosched()
	str := b.String()
	if str != mine {
		r.Violate("pool/string/mixed", "a builder in use holds %.300q instead of %q", b.String(), mine)
	}
	strpool.ReleaseString(b)
	runtime.Gosched()
	if str != mine {
		r.Violate("pool/string/released", "the text taken from a builder became %.300q", str)
	}
}

type encCase struct {
	name string
	want string
	do   func() func() string // encodes, and then tells what it got
}

// encoders of the library, on values of their own.
func encoders(rng *rand.Rand) []*encCase {
	var out []*encCase
	add := func(name string, do func() func() string) {
		out = append(out, &encCase{name, do()(), do})
	}
	str := func(s string) func() string { return func() string { return s } }
	g := &G{R: rng}
	for k := 0; k < 12; k++ {
		var ss []string
		var is []int64
		var us []uint64
		var bs []bool
		var fs []float64
		var ts []time.Time
		m := map[string]any{}
		for i := 0; i < 1+rng.Intn(40); i++ {
			ss = append(ss, g.Str())
			is = append(is, g.int(64))
			us = append(us, g.uint(64))
			bs = append(bs, rng.Intn(2) == 0)
			fs = append(fs, float64(rng.Intn(1000))/8)
			ts = append(ts, time.Unix(rng.Int63n(1e9), 0).UTC())
			m[g.Str()] = g.Str()
		}
		add("MarshalStringSlice", func() func() string { return str(encoding.MarshalStringSlice(ss)) })
		add("MarshalIntSlice", func() func() string { return str(encoding.MarshalIntSlice(is)) })
		add("MarshalUintSlice", func() func() string { return str(encoding.MarshalUintSlice(us)) })
		add("MarshalBoolSlice", func() func() string { return str(encoding.MarshalBoolSlice(bs)) })
		add("MarshalFloat64List", func() func() string { return str(encoding.MarshalFloat64List(fs)) })
		add("MarshalTimeList", func() func() string { return str(encoding.MarshalTimeList(ts)) })
		add("JSONValue", func() func() string {
			v, err := encoding.JSONValue(m).Value()
			return func() string { return asText(v, err) }
		})
		add("TextValue", func() func() string {
			v, err := encoding.TextValue(ts[0]).Value()
			return func() string { return asText(v, err) }
		})
		doc, _ := json.Marshal(m)
		add("JSONScanner", func() func() string {
			var x map[string]any
			err := encoding.JSONScanner(&x).Scan(append([]byte{}, doc...))
			return func() string {
				b, _ := json.Marshal(x)
				return asText(b, err)
			}
		})
		add("TimeScanner", func() func() string {
			var x time.Time
			err := encoding.TimeScanner(&x).Scan([]byte(ts[0].Format(time.RFC3339Nano)))
			return func() string { return asText(x.UTC().String(), err) }
		})
		add("Int64Scanner", func() func() string {
			var x int64
			err := encoding.Int64Scanner[int64](&x).Scan([]byte(fmt.Sprint(is[0])))
			return func() string { return asText(fmt.Sprint(x), err) }
		})
		add("StringScanner", func() func() string {
			var x string
			err := encoding.StringScanner[string](&x).Scan([]byte(ss[0]))
			return func() string { return asText(x, err) }
		})
	}
	return out
}

func asText(v any, err error) string {
	if b, ok := v.([]byte); ok {
		v = string(b)
	}
	return fmt.Sprint(v, err)
}
