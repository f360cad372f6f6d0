package gen

import "verif/rec"

// calls that are refused for one of their values
func fixedErrs(add func(any)) {
	for n := 0; n < 14; n++ {
		for _, c := range odd {
			add(&rec.ErrA{O: "genc", L: n, S: n, Cps: rec.Ints{65, c, 66}, Via: n % 3})
		}
		for s := -1; s < 14; s += 2 {
			for _, t := range [][14][]int{lockRunes, shiftRunes} {
				for _, c := range t[(n+5)%14] {
					add(&rec.ErrA{O: "genc", L: n, S: s, Cps: rec.Ints{c, 65}, Via: n % 3})
				}
			}
		}
		for c := 0; c < 256; c++ {
			add(&rec.ErrA{O: "gdec", L: n, S: n, B: rec.Bytes{65, byte(c)}, Via: c % 3})
			add(&rec.ErrA{O: "gdec", L: n, S: n, B: rec.Bytes{27, byte(c), 66}, Via: c % 3})
			add(&rec.ErrA{O: "gdec", L: n, S: -1, B: rec.Bytes{27, 27, byte(c), 27}, Via: c % 3})
		}
	}
	for c := 0; c < 400; c++ {
		add(&rec.ErrA{O: "semie", Cps: rec.Ints{49, c}})
		add(&rec.ErrA{O: "addrm", N: 0x91, Cps: rec.Ints{49, c, 50}})
		add(&rec.ErrA{O: "addrm", N: 0xd0, Cps: rec.Ints{c, 50}})
	}
	for _, c := range odd {
		add(&rec.ErrA{O: "addrm", N: 0xd0, Cps: rec.Ints{65, c}})
	}
	for _, v := range []int{-100000, -1001, -1000, -100, -99, -81, -80, -79, -1, 0, 79, 80, 99, 100, 127, 128, 199, 200, 255, 256, 300, 356, 100000} {
		add(&rec.ErrA{O: "bcd", N: v})
		add(&rec.ErrA{O: "bcds", N: v})
	}
	for b := 0; b < 256; b++ {
		add(&rec.ErrA{O: "bcdd", N: b})
		add(&rec.ErrA{O: "bcdds", N: b})
		for i := 0; i < 7; i++ {
			t := rec.Bytes{0x02, 0x10, 0x10, 0x32, 0x95, 0x33, 0x40}
			t[i] = byte(b)
			add(&rec.ErrA{O: "tsu", B: t})
		}
		for d := 0; d < 2; d++ {
			add(&rec.ErrA{O: "typem", N: d, S: b})
			add(&rec.ErrA{O: "typeu", N: d, S: b})
			add(&rec.ErrA{O: "col", N: d, S: b})
		}
		for _, op := range []string{"udec", "dud"} {
			add(&rec.ErrA{O: op, B: rec.Bytes{0, 65, 0xd8, byte(b)}})
			add(&rec.ErrA{O: op, B: rec.Bytes{0xdf, byte(b)}})
			add(&rec.ErrA{O: op, B: rec.Bytes{byte(b), 0, 0xdc, 1}})
			add(&rec.ErrA{O: op, B: rec.Bytes{0xd8, 0, byte(b)}})
		}
		add(&rec.ErrA{O: "addru", B: rec.Bytes{4, 0xd0, byte(b), byte(b / 4)}})
		add(&rec.ErrA{O: "addru", B: rec.Bytes{3, byte(b), 0x21, 0xf3}})
	}
}

var errOps = []string{"genc", "gdec", "semie", "bcd", "bcds", "bcdd", "bcdds", "udec", "dud", "tsu", "addru", "addrm", "typem", "typeu", "col"}

func (g G) err() any {
	a := &rec.ErrA{O: errOps[g.IntN(len(errOps))], Via: g.IntN(3)}
	switch a.O {
	case "genc":
		c := Random("genc", g).(*rec.GEncA)
		a.Cps, a.L, a.S = c.Cps, c.L, c.S
	case "gdec":
		c := Random("gdec", g).(*rec.GDecA)
		a.B, a.L, a.S = c.G, c.L, c.S
	case "semie":
		a.Cps = Random("semie", g).(*rec.SemieA).A
	case "bcd", "bcds":
		a.N = g.one(g.rng(-120, 120), g.rng(-1000, 1000), g.rng(-1<<30, 1<<30))
	case "bcdd", "bcdds":
		a.N = g.octet()
	case "udec", "dud":
		a.B = Random("udec", g).(*rec.UDecA).B
	case "tsu":
		a.B = Random("tsu", g).(*rec.TsuA).B
	case "addru":
		a.B = Random("addru", g).(*rec.AddruA).B
	case "addrm":
		d := Random("addrm", g).(*rec.AddrmA).Ad
		a.N, a.Cps = d.TOA, d.A
	case "typem", "col":
		a.N, a.S = g.IntN(2), g.octet()
	case "typeu":
		a.N, a.S, a.B = g.IntN(2), g.octet(), g.bytes(g.small(30))
	}
	return a
}
