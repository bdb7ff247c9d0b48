package spec

import "math/rand"

// FarPkg is a package whose name is also that of another package the models
// or the generated code need, or a name used inside the generated code.
type FarPkg struct{ Name, Path, Pre string }

func (p FarPkg) imp() string { return p.Name + " verif/harness/x/" + p.Path }

// FarPkgs are imported under names of their own by the models.
var FarPkgs = []FarPkg{
	{"xa", "a/mt", "Xa"}, {"xb", "b/mt", "Xb"}, {"xc", "c/mt", "Xc"}, {"xd", "d/encoding", "Xd"},
	{"xe", "e/driver", "Xe"}, {"xf", "f/strconv", "Xf"}, {"xg", "g/time", "Xg"}, {"xh", "go-shape", "Xh"},
	{"xv", "v2", "Xv"}, {"xs", "h/sequel", "Xs"},
}

func (p FarPkg) base() *Struct {
	return &Struct{Name: "Base", Ext: p.imp(), NoGlue: true, Fields: []Field{f(p.Pre+"One", "string"), f(p.Pre+"Two", "*int"), f(p.Pre+"Num", p.Name+"_num")}}
}

// PkgModels use several packages of the same name, in fields and embedded.
func PkgModels(rng *rand.Rand) []*Struct {
	mid := func(n string, p FarPkg, ptr bool, more ...Field) *Struct {
		return &Struct{Name: n, NoGlue: true, Fields: append([]Field{f(n+"Own", "*string"), emb(p.base(), ptr)}, more...)}
	}
	p := FarPkgs
	m1, m2, m3 := mid("MidOne", p[1], true), mid("MidTwo", p[2], true), mid("MidThree", p[0], false)
	m4 := mid("MidFour", p[3], true, emb(m2, true))
	out := []*Struct{
		{Name: "FarAll", Fields: []Field{f("ID", "int64", "id,pk"), f("Lev", "level")}},
		{Name: "FarKey", Fields: []Field{f("A", "xa_kind", "a,pk"), f("B", "xb_num", "b,pk"), f("C", "xc_money", "c,pk"), f("Lev", "*level")}},
		{Name: "FarNest", Fields: []Field{emb(p[0].base(), true), emb(m1, false), f("ID", "int64", "id,pk"), emb(m2, true)}},
		{Name: "FarDeep", Fields: []Field{f("ID", "int64", "id,pk,auto_increment"), emb(m4, true), emb(m1, true), emb(m3, true)}},
		{Name: "FarFlat", Fields: []Field{emb(p[0].base(), false), f("ID", "xd_kind", "id,pk"), emb(m1, true), emb(m4, false)}},
		m1, m2, m3, m4,
	}
	for i, q := range p {
		out[0].Fields = append(out[0].Fields, f(alpha("K", i), q.Name+"_kind"))
		e := &Struct{Name: alpha("FarOf", i), Fields: []Field{f("ID", q.Name+"_num", "id,pk"), emb(q.base(), i%2 == 0), f("S", "s_"+q.Name+"_kind"), f("M", "m_"+q.Name), f("B", "*"+q.Name+"_box"), f("N", "*"+q.Name+"_money"), f("T", "time"), f("O", "string")}}
		if i%2 == 0 {
			e.Fields[6].Tag = "-"
		}
		out = append(out, e)
	}
	rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}
