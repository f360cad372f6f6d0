package gen

import "verif/rec"

var reuseKinds = []string{"tu", "tu", "tu", "tu", "addru", "tsu", "vpu", "vpu", "udhu", "pduu", "pduh"}

func subs(k string, l []any) rec.L[rec.Sub] {
	var s rec.L[rec.Sub]
	for _, a := range l {
		s = append(s, rec.Sub{K: k, A: a})
	}
	return s
}

// every pair of some of the structured arguments, in both orders
func fixedReuse() []any {
	var l []any
	g := New(78, 1)
	for _, k := range []string{"tu", "addru", "tsu", "vpu", "udhu", "pduu", "pduh"} {
		var some []any
		if k == "tu" {
			for ty := 0; ty < 6; ty++ {
				for n := 0; n < 8; n++ {
					some = append(some, g.valid(ty))
				}
				some = append(some, Random("tu", g))
			}
		} else {
			all := Fixed(k)
			for i, step := 0, max(1, len(all)/40); i < len(all); i += step {
				some = append(some, all[i])
			}
		}
		for _, x := range some {
			for _, y := range some {
				l = append(l, &rec.ReuseA{Calls: subs(k, []any{x, y})})
			}
		}
	}
	return l
}

func (g G) reuse() *rec.ReuseA {
	k := oneOf(g, reuseKinds...)
	var l []any
	for n := g.rng(2, 5); n > 0; n-- {
		switch {
		case k == "tu" && g.p(70):
			l = append(l, g.valid(g.IntN(6)))
		case len(l) > 0 && g.p(15):
			l = append(l, l[g.IntN(len(l))])
		default:
			l = append(l, Random(k, g))
		}
	}
	if k == "pduu" && g.p(40) {
		for i, a := range l {
			p := *a.(*rec.PduuA)
			p.Via = g.IntN(2)
			l[i] = &p
		}
	}
	return &rec.ReuseA{Calls: subs(k, l)}
}

// valid: a TPDU to read, at times with little in it
func (g G) valid(ty int) *rec.TuA {
	t := g.tpdu(ty)
	if g.p(30) {
		t.UD = dropTo(t.UD, g.IntN(6)*2)
	}
	if g.p(25) {
		t.UD, t.UDH, t.FO = nil, nil, t.FO&^0x40
	}
	if len(t.UD) == 0 && g.p(20) {
		t.PI = t.PI &^ 7
		t.UDH, t.FO = nil, t.FO&^0x40
		if ty == 1 || ty == 2 || ty == 4 {
			t.PID, t.DCS = 0, 0
		}
	}
	return &rec.TuA{Dir: ty % 2, B: marshal(t), Via: g.one(1, 1, 1, 1, 0)}
}
