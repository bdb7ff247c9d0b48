package rt

import (
	"context"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"verif/harness/ev"
	"verif/harness/minisql"
	"verif/harness/spec"
)

var bg = context.Background()

// each runs f for every adapter, several at a time.
func each(r *ev.Run, f func(a *Adapter)) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for _, fl := range Flavours {
		for _, a := range fl.Models {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				r.Guard("panic/"+a.String(), a.String(), func() { f(a) })
			}()
		}
	}
	wg.Wait()
}

var modes = []minisql.Mode{minisql.ModeNative, minisql.ModeText, minisql.ModeAlt}

// sameRead compares what was read (x) with what was written (m): a field that
// was behind a nil embedded pointer reads as its zero value.
func (a *Adapter) sameRead(x, m any, skip map[int]bool) string {
	for i := range a.M.Cols {
		if skip[i] {
			continue
		}
		c := &a.M.Cols[i]
		t := spec.T(c.Type)
		u, ok := Field(x, c)
		v, had := Field(m, c)
		if !had {
			if ok && !zeroish(t, u) {
				return fmt.Sprintf("field %s (%s): have %s, NULL was written", strings.Join(c.Path, "."), c.Type, Show(u))
			}
			continue
		}
		if !ok {
			if c.EmbPtr && zeroish(t, v) {
				continue
			}
			return fmt.Sprintf("field %s (%s): its embedded struct was not allocated, %s was written", strings.Join(c.Path, "."), c.Type, Show(v))
		}
		if !SameGo(t, u, v) {
			return fmt.Sprintf("field %s (%s): have %s, want %s", strings.Join(c.Path, "."), c.Type, Show(u), Show(v))
		}
	}
	return ""
}

// unwritten are the columns the database fills.
func (a *Adapter) unwritten() map[int]bool {
	out := map[int]bool{}
	for i, c := range a.M.Cols {
		if c.RO || c.Auto {
			out[i] = true
		}
	}
	return out
}

func keysOf(m map[int]bool) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// autoRow gives the row just stored: the last one.
func (w *World) last() Rec {
	rs := w.Rows()
	if len(rs) == 0 {
		return nil
	}
	return rs[len(rs)-1]
}

// setKey copies key fields.
func (a *Adapter) setKey(dst, src any) {
	for _, i := range a.M.PK() {
		d, _ := Field(dst, &a.M.Cols[i])
		s, _ := Field(src, &a.M.Cols[i])
		d.Set(s)
	}
}

func (a *Adapter) keyAlloc(m any) bool {
	for _, i := range a.M.PK() {
		if _, ok := Field(m, &a.M.Cols[i]); !ok {
			return false
		}
	}
	return true
}

func init() {
	Checks["C07"] = func(r *ev.Run) {
		r.Rule = "one evaluation per stored model read back; distinct counts (flavour, model, read path, representation mode, value digest)"
		r.Assume = append(r.Assume, "the instrumented engine stands for MySQL, PostgreSQL and SQLite; every representation their Go drivers hand out is tried", "times have microsecond precision", "text is valid UTF-8 without NUL")
		each(r, func(a *Adapter) {
			if a.InsertOne == nil {
				return
			}
			rng := r.Rand("c07" + a.String())
			g := &G{R: rng, D: a.F.D}
			w := NewWorld(a)
			defer w.Close()
			skip := a.unwritten()
			n := r.N(60, 900)
			for k := 0; k < n; k++ {
				w.Put(nil)
				m := a.New()
				g.Fill(a, m)
				want, err := RecOf(a, m)
				if err != nil {
					panic(err)
				}
				orig := a.CopyOf(m)
				w.E.Mode = modes[k%3]
				w.E.Prepared = rng.Intn(2) == 0
				path := "one"
				switch {
				case rng.Intn(3) == 0:
					path = "bulk"
					o := a.New()
					g.Fill(a, o)
					sl := a.Slice(m)
					_, err = a.Insert(bg, w.DB, sl)
				case a.Upsert != nil && rng.Intn(4) == 0:
					path = "upsert"
					_, err = a.Upsert(bg, w.DB, a.Slice(m), Upsert{Override: true})
				case a.UpsertOne != nil && rng.Intn(4) == 0:
					path = "upsertone"
					_, err = a.UpsertOne(bg, w.DB, m, Upsert{Override: true})
				default:
					_, err = a.InsertOne(bg, w.DB, m)
				}
				id := fmt.Sprintf("%s/%s/%s", a, path, w.E.Mode)
				if err != nil {
					r.Violate("write/"+a.String(), "%s: writing %+v fails: %v; %s", id, show(a, orig), err, w.LastSQL())
					continue
				}
				rows := w.Rows()
				if len(rows) != 1 {
					r.Violate("write/"+a.String(), "%s: %d rows stored for one model", id, len(rows))
					continue
				}
				r.Eval(id+"/"+ShowRow(want), true)
				if s := a.SameRec(rows[0], want, keysOf(skip)...); s != "" {
					r.Violate("stored/"+a.String(), "%s: %s; %s", id, s, w.LastSQL())
					continue
				}
				r.Sample(a.M.Go+"/"+path, map[string]any{"model": show(a, orig), "row": ShowRow(rows[0])})
				// read back, fresh and over other content
				for j := 0; j < 3; j++ {
					w.E.Mode = modes[(k+j)%3]
					id := fmt.Sprintf("%s/%s", id, w.E.Mode)
					res, err := a.Query(bg, w.DB, Select{})
					if err != nil {
						r.Violate("read/"+a.String(), "%s: query fails: %v on row %s", id, err, ShowRow(rows[0]))
						continue
					}
					es := a.Elems(res)
					if len(es) != 1 {
						r.Violate("read/"+a.String(), "%s: query of one row gives %d", id, len(es))
						continue
					}
					r.Eval(id+"/query/"+ShowRow(want), true)
					if s := a.sameRead(es[0], orig, skip); s != "" {
						r.Violate("read/"+a.String(), "%s: query: %s (row %s)", id, s, ShowRow(rows[0]))
					}
					if s := a.MatchRow(es[0], rows[0]); s != "" {
						r.Violate("read/"+a.String(), "%s: query: %s", id, s)
					}
					if a.Find == nil || !a.keyAlloc(es[0]) {
						continue
					}
					f := a.New()
					if j > 0 {
						g.Fill(a, f)
						if !a.keyAlloc(f) {
							f = a.New()
						}
					}
					a.setKey(f, es[0])
					before := show(a, f)
					if err := a.Find(bg, w.DB, f); err != nil {
						r.Violate("read/"+a.String(), "%s: find fails: %v on row %s; %s", id, err, ShowRow(rows[0]), w.LastSQL())
						continue
					}
					r.Eval(id+"/find/"+ShowRow(want), true)
					if s := a.sameRead(f, orig, skip); s != "" {
						r.Violate("read/"+a.String(), "%s: find over %s: %s (row %s)", id, before, s, ShowRow(rows[0]))
					}
					if s := a.MatchRow(f, rows[0]); s != "" {
						r.Violate("read/"+a.String(), "%s: find over %s: %s", id, before, s)
					}
				}
				w.E.TakeLog()
			}
			w.Check(r, "read/"+a.String(), a.String())
			badValues(r, a, g)
			badRows(r, a, g)
		})
	}
}

func show(a *Adapter, m any) string {
	var l []string
	for i := range a.M.Cols {
		v, _ := Field(m, &a.M.Cols[i])
		l = append(l, a.M.Cols[i].Name+"="+Show(v))
	}
	return "{" + strings.Join(l, ", ") + "}"
}

// badValues writes values that have no stored form.
func badValues(r *ev.Run, a *Adapter, g *G) {
	w := NewWorld(a)
	defer w.Close()
	for _, i := range a.M.Ins() {
		c := &a.M.Cols[i]
		t := spec.T(c.Type)
		for k := 0; k < 4; k++ {
			m := a.New()
			gg := *g
			gg.NoNil = true
			gg.Fill(a, m)
			f, ok := Field(m, c)
			if !ok {
				continue
			}
			if t.Ptr {
				f = f.Elem()
			}
			switch {
			case t.Class == spec.CUint64 && a.F.D == minisql.SQLite:
				f.SetUint(math.MaxUint64 - uint64(k))
			case t.Class == spec.CList && a.F.D != minisql.Postgres && (f.Type().Elem().Kind() == reflect.Float32 || f.Type().Elem().Kind() == reflect.Float64):
				s := reflect.MakeSlice(f.Type(), 2, 2)
				s.Index(k % 2).SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.NaN()}[k])
				f.Set(s)
			case t.Class == spec.CList && a.F.D != minisql.Postgres && f.Type().Elem().Kind() == reflect.String:
				s := reflect.MakeSlice(f.Type(), 2, 2)
				s.Index(k % 2).SetString([]string{"\xff", "a\xc3", "\xed\xa0\x80", "\xc0\x80"}[k])
				f.Set(s)
			case t.Class == spec.CRune:
				f.SetInt(int64([]rune{-1, 0xd800, 0xdfff, 0x110000}[k]))
			case t.Class == spec.CRuneA:
				f.Index(k % f.Len()).SetInt(int64([]rune{-1, 0xd800, 0xdfff, 0x110000}[k]))
			case t.Class == spec.CRuneS && a.F.D == minisql.Postgres:
				s := reflect.MakeSlice(f.Type(), 2, 2)
				s.Index(k % 2).SetInt(int64([]rune{-1, 0xd800, 0xdfff, 0x110000}[k]))
				f.Set(s)
			default:
				continue
			}
			key := "bad/" + a.String()
			r.Eval(fmt.Sprintf("%s/%s/%d", key, c.Name, k), true)
			ops := map[string]func() error{
				"insert": func() error { _, err := a.InsertOne(bg, w.DB, m); return err },
				"bulk":   func() error { _, err := a.Insert(bg, w.DB, a.Slice(m)); return err },
			}
			for name, op := range ops {
				err := op()
				if rs := w.Rows(); err == nil && len(rs) == 1 && (t.Class == spec.CRune || t.Class == spec.CRuneA || t.Class == spec.CRuneS) && strings.Contains(ShowRow(Rec{rs[0][i]}), "\uFFFD") {
					r.Violate("invalid-rune", "%s: %s of %s, which is no character, stores %s", a, name, Show(f), ShowRow(Rec{rs[0][i]}))
				} else if err == nil {
					r.Violate(key, "%s: %s of %s, which has no stored form, succeeds; rows %v", a, name, Show(f), w.Rows())
				} else if n := len(w.Rows()); n != 0 {
					r.Violate(key, "%s: %s of %s fails with %v but stores %d rows", a, name, Show(f), err, n)
				}
				w.Put(nil)
			}
		}
	}
}

// badRows reads rows whose values do not fit the field.
func badRows(r *ev.Run, a *Adapter, g *G) {
	w := NewWorld(a)
	defer w.Close()
	for i := range a.M.Cols {
		c := &a.M.Cols[i]
		t := spec.T(c.Type)
		if t.Class == spec.CNull {
			continue
		}
		m := a.New()
		gg := *g
		gg.NoNil = true
		gg.Fill(a, m)
		row, err := RecOf(a, m)
		if err != nil {
			panic(err)
		}
		f, ok := Field(m, c)
		if !ok {
			continue
		}
		ft := f.Type()
		if t.Ptr {
			ft = ft.Elem()
		}
		var bad []minisql.Value
		switch t.Class {
		case spec.CInt:
			if b := ft.Bits(); b < 64 {
				bad = append(bad, int64(1)<<(b-1), -int64(1)<<(b-1)-1, int64(math.MaxInt64))
			}
		case spec.CUint:
			if b := ft.Bits(); b < 64 {
				bad = append(bad, int64(1)<<b, int64(-1))
			}
		case spec.CFloat:
			if t.F32 {
				continue // the column is a 32-bit float itself
			}
		case spec.CByteA:
			bad = append(bad, minisql.Blob(strings.Repeat("x", ft.Len()+1)))
		case spec.CRune:
			bad = append(bad, "ab", "日本")
		case spec.CRuneA:
			bad = append(bad, "abcd", "日本日本")
		case spec.CText:
			bad = append(bad, "zz", "not one")
		case spec.CValuer:
			bad = append(bad, "zz")
		case spec.CList:
			k := ft.Elem().Kind()
			if a.F.D == minisql.Postgres {
				switch k {
				case reflect.String:
				case reflect.Bool:
					bad = append(bad, "{t,x}", "{t,NULL}")
				default:
					bad = append(bad, "{1,x}", "{1,NULL}", "{1,1e999}")
				}
			} else {
				switch k {
				case reflect.String:
					bad = append(bad, `{"a":1}`, `["a",1]`, `"a"`)
				case reflect.Bool:
					bad = append(bad, `[true,1]`, `true`)
				default:
					bad = append(bad, `[1,"x"]`, `[1,true]`, `1`, `[1,1e999]`)
				}
			}
			if k == reflect.Int8 {
				if a.F.D == minisql.Postgres {
					bad = append(bad, "{128}")
				} else {
					bad = append(bad, "[128]")
				}
			}
		case spec.CJSON:
			if ft.Kind() == reflect.Interface || ft.Kind() == reflect.Array {
				continue
			}
			bad = append(bad, `12345678`, `"just text"`)
		}
		for _, b := range bad {
			rr := append(Rec{}, row...)
			rr[i] = b
			w.Put([]Rec{rr})
			for _, md := range modes {
				w.E.Mode = md
				key := "badrow/" + a.String()
				r.Eval(fmt.Sprintf("%s/%s/%v/%s", key, c.Name, b, md), true)
				res, err := a.Query(bg, w.DB, Select{})
				if err == nil {
					v, _ := Field(a.Elems(res)[0], c)
					r.Violate(key, "%s: column %s (%s) holding %s is read without error as %s", a, c.Name, c.Type, ShowRow(Rec{b}), Show(v))
				}
				if a.Find != nil {
					f := a.CopyOf(m)
					if i < len(a.M.Cols) && !c.PK {
						if err := a.Find(bg, w.DB, f); err == nil {
							v, _ := Field(f, c)
							r.Violate(key, "%s: column %s (%s) holding %s is found without error as %s", a, c.Name, c.Type, ShowRow(Rec{b}), Show(v))
						}
					}
				}
			}
		}
	}
	w.Check(r, "badrow/"+a.String(), a.String())
}
