package main

import (
	"fmt"
	"strings"

	"verif/harness/minisql"
	"verif/harness/spec"
)

var plans = map[string]func(*env) []Plan{}
var direct = map[string]func(*env){}

// before judges what needs no generated code to run, ahead of the plans.
var before = map[string]func(*env){}

func noPoint(t *spec.Type) bool { return t.Mapped }

var dialects = []string{"mysql", "postgres", "sqlite"}

// core has one plain and one quoted flavour per dialect.
func core(*env) []Plan {
	var out []Plan
	for _, d := range dialects {
		out = append(out, Plan{Name: d, Conf: spec.Conf{Dialect: d, Quote: true}, Structs: append(spec.Core(), spec.KeyModels()...)})
	}
	return out
}

// stmts has every shape of model, generated and hand-written, quoted and not.
func stmts(e *env) []Plan {
	var out []Plan
	for _, d := range dialects {
		q := spec.Conf{Dialect: d, Quote: true}
		u := spec.Conf{Dialect: d}
		var plain []*spec.Struct
		for _, s := range spec.Core() {
			if s.Name != "Odd" { // reserved words need quoting
				plain = append(plain, s)
			}
		}
		out = append(out,
			Plan{Name: d, Conf: q, Structs: append(append(spec.Core(), spec.KeyModels()...), spec.OwnModels(q)...), Hand: q.HandModels()},
			Plan{Name: d + "plain", Conf: u, Structs: append(plain, spec.OwnModels(u)...), Hand: u.HandModels()})
		rng := e.r.Rand("stmts" + d)
		out = append(out, Plan{Name: d + "rand", Conf: spec.Conf{Dialect: d, Quote: rng.Intn(2) == 0},
			Structs: append(spec.Random(rng, e.r.N(14, 40), func(t *spec.Type) bool { return noPoint(t) || t.Key == "time" || t.Key == "*time" }), spec.WideModels(rng)...)})
	}
	return out
}

func typed(e *env) []Plan {
	var out []Plan
	for _, d := range dialects {
		out = append(out, Plan{Name: d, Conf: spec.Conf{Dialect: d, Quote: true}, Structs: append(append(spec.Core(), spec.TypeModels(noPoint)...), spec.WideModels(e.r.Rand("wide"+d))...)})
	}
	return out
}

func init() {
	plans["C06"] = matrix
	plans["C07"] = typed
	plans["C08"] = nulls
	plans["C09"] = stmts
	plans["C10"] = stmts
	plans["C11"] = stmts
	plans["C12"] = queries
	plans["C13"] = queries
	plans["C14"] = queries
	plans["C15"] = concurrent
	plans["C16"] = queries
	plans["C18"] = respect
	plans["C19"] = naming
	plans["C21"] = typed
	plans["C22"] = mapped
}

// matrix varies every setting that shapes the generated code over random
// models.
func matrix(e *env) []Plan {
	var out []Plan
	add := func(name string, c spec.Conf, structs []*spec.Struct) {
		out = append(out, Plan{Name: name, Conf: c, Structs: structs})
	}
	for _, d := range dialects {
		add(d, spec.Conf{Dialect: d, Quote: true}, append(append(spec.Core(), spec.KeyModels()...), spec.TypeModels(noPoint)...))
		out = append(out, Plan{Name: d + "odd", Conf: spec.Conf{Dialect: d, Quote: true}, Structs: spec.OddSources(), Imports: []string{"verif/harness/mt", "tm time", ". net/netip"}})
		add(d+"plain", spec.Conf{Dialect: d}, append(spec.Core(), spec.WideModels(e.r.Rand("wide"+d))...))
		for i := 0; i < e.r.N(1, 4); i++ {
			n := fmt.Sprintf("%spkgs%d", d, i)
			add(n, spec.Conf{Dialect: d, Quote: true}, spec.PkgModels(e.r.Rand(n)))
		}
		for i := 0; i < e.r.N(2, 12); i++ {
			n := fmt.Sprintf("%srand%d", d, i)
			rng := e.r.Rand(n)
			c := spec.Conf{Dialect: d, Quote: rng.Intn(2) == 0, Naming: []string{"", "camelCase", "PascalCase", "snake_case"}[rng.Intn(4)],
				Tag: []string{"", "db", "orm"}[rng.Intn(3)], Prefix: []string{"", "Get", "Fld"}[rng.Intn(3)]}
			add(n, c, spec.Random(rng, e.r.N(20, 40), noPoint))
		}
	}
	return out
}

func nulls(e *env) []Plan {
	var out []Plan
	for _, d := range dialects {
		st := append(spec.Core(), spec.EmbModels(noPoint)...)
		st = append(st, spec.TypeModels(func(t *spec.Type) bool { return !t.Ptr || noPoint(t) })...)
		st = append(st, spec.KnownModels()...)
		rng := e.r.Rand("c08" + d)
		out = append(out, Plan{Name: d, Conf: spec.Conf{Dialect: d, Quote: true}, Structs: st},
			Plan{Name: d + "pkgs", Conf: spec.Conf{Dialect: d, Quote: true}, Structs: spec.PkgModels(e.r.Rand("c08pkgs" + d))},
			Plan{Name: d + "rand", Conf: spec.Conf{Dialect: d, Quote: true}, Structs: spec.Random(rng, e.r.N(15, 60), func(t *spec.Type) bool { return noPoint(t) || t.Key == "time" })})
	}
	return out
}

// queries adds the columns of every type to the statement models.
func queries(e *env) []Plan {
	out := stmts(e)
	for i := range out {
		if out[i].Conf.Quote {
			out[i].Structs = append(out[i].Structs, spec.TypeModels(noPoint)...)
			out[i].Structs = append(out[i].Structs, spec.EmbModels(noPoint)...)
		}
	}
	return out
}

// concurrent has the statement models and those with encoded columns; it is
// built with the race detector.
func concurrent(e *env) []Plan {
	var out []Plan
	for _, p := range stmts(e) {
		switch {
		case strings.HasSuffix(p.Name, "rand"):
			out = append(out, p)
		case p.Conf.Quote:
			p.Structs = append(append(p.Structs, spec.TypeModels(noPoint)...), spec.EmbModels(noPoint)...)
			out = append(out, p)
		}
	}
	return out
}

// mapped has models with types of the configuration's own mappings, and
// models without.
func mapped(e *env) []Plan {
	var out []Plan
	for _, d := range dialects {
		for _, quote := range []bool{true, false} {
			n := d
			if !quote {
				n += "plain"
			}
			st := spec.MapModels()
			for _, s := range append(spec.Core(), spec.OwnModels(spec.Conf{Dialect: d, Quote: quote})...) {
				if !s.Uses("time") && !s.Uses("*time") && (quote || s.Name != "Odd") {
					st = append(st, s)
				}
			}
			out = append(out, Plan{Name: n, Conf: spec.Conf{Dialect: d, Quote: quote, Point: true}, Structs: st})
		}
		rng := e.r.Rand("c22" + d)
		out = append(out, Plan{Name: d + "rand", Conf: spec.Conf{Dialect: d, Quote: rng.Intn(2) == 0, Point: true}, Structs: spec.RandomMapped(rng, e.r.N(12, 60))})
	}
	return out
}

// respect has readonly columns everywhere and models with methods of the
// user's.
func respect(e *env) []Plan {
	var out []Plan
	for _, d := range dialects {
		for _, quote := range []bool{true, false} {
			n := d
			if !quote {
				n += "plain"
			}
			c := spec.Conf{Dialect: d, Quote: quote}
			rng := e.r.Rand("tags" + n)
			out = append(out, Plan{Name: n, Conf: c, Structs: spec.Respell(rng, append(append(spec.ReadonlyModels(), spec.RespectModels(c)...), spec.OwnModels(c)...))})
		}
		rng := e.r.Rand("c18" + d)
		out = append(out, Plan{Name: d + "rand", Conf: spec.Conf{Dialect: d, Quote: rng.Intn(2) == 0}, Structs: spec.RandomRespect(rng, e.r.N(15, 60), func(t *spec.Type) bool { return noPoint(t) || t.Key == "time" || t.Key == "*time" })})
	}
	return out
}

// naming has names of every kind in every convention.
func naming(e *env) []Plan {
	var out []Plan
	for di, d := range dialects {
		dl := minisql.Dialect(map[string]minisql.Dialect{"mysql": minisql.MySQL, "postgres": minisql.Postgres, "sqlite": minisql.SQLite}[d])
		for ni, conv := range []string{"", "camelCase", "PascalCase", "snake_case"} {
			for q := 0; q < 2; q++ {
				if !e.r.Thorough() && (di+ni+q)%2 == 1 && !(d == "postgres" && ni == 1) {
					continue
				}
				c := spec.Conf{Dialect: d, Quote: q == 0, Naming: conv, Tag: []string{"", "db", "orm", "x"}[(di+ni+q)%4]}
				n := fmt.Sprintf("%s%dq%d", d, ni, q)
				ok := func(s string) bool {
					return c.Quote || !minisql.Reserved(dl, s) && !strings.EqualFold(s, "true") && !strings.EqualFold(s, "false")
				}
				st := spec.NameModels(e.r.Rand(n), c, e.r.N(14, 40), ok)
				out = append(out, Plan{Name: n, Conf: c, Structs: append(st, spec.NameFold(c)...)})
			}
		}
	}
	return out
}
