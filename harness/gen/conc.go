package gen

import "verif/rec"

func tables(n, via int) []rec.Sub {
	c := oneRune(lockRunes[n])
	e := oneRune(shiftRunes[n])
	return []rec.Sub{
		{K: "genc", A: &rec.GEncA{Cps: append(append(rec.Ints{}, e...), c...), L: n, S: n, Via: via}},
		{K: "gdec", A: &rec.GDecA{G: rec.Bytes{4, 27, 60, 27, 27, 65, 27, 4, 127, 11}, L: n, S: n, Via: via}},
		{K: "ctab", A: &rec.CTabA{N: n, Via: via % 2}},
		{K: "ctab", A: &rec.CTabA{N: n, Shift: true, Via: via % 2}},
	}
}

// a few characters of a table
func oneRune(l []int) rec.Ints { return append(rec.Ints{}, l[len(l)-min(3, len(l)):]...) }

// the same through the encoding and decoding of user data
func tablesOfData(n int) []rec.Sub {
	c := append(oneRune(shiftRunes[n]), oneRune(lockRunes[n])...)
	lst := rec.Ints{}
	if n > 0 {
		lst = rec.Ints{n}
	}
	return []rec.Sub{
		{K: "eud", A: &rec.EudA{Cps: c, Lock: lst, Shift: lst}},
		{K: "eud", A: &rec.EudA{Cps: c, All: true, Lock: all13, Shift: all13}},
		{K: "dud", A: &rec.DUDA{UD: rec.Bytes{4, 27, 60, 65, 27, 4, 127, 11}, UDH: nliIEs(n, n), Lock: all13, Shift: all13, Via: 1}},
		{K: "dec", A: &rec.DecA{Def: true, Segs: rec.L[rec.Seg]{{UDH: nliIEs(n, n), UD: rec.Bytes{4, 27, 60, 65, 27, 4, 127, 11}}}}},
	}
}

// every table first used by all at once: the first of them in each process
func fixedConc() []any {
	var l []any
	for i := 0; i < 56; i++ {
		a := &rec.ConcA{}
		for c := 0; c < 8; c++ {
			var s rec.L[rec.Sub]
			for j := 0; j < 14; j++ {
				n := (i/2 + j*(1+2*(c%3))) % 14 // in some orders, from the same one
				if c%3 == 1 {
					n = (i/2 + j*13) % 14
				}
				t := tables(n, i+c/4)
				if i%2 == 1 {
					t = tablesOfData(n)
				}
				// the same first, or one each
				k := 0
				if i/28 == 1 {
					k = c
				}
				for x := range t {
					if j < 1 || (x+c+j)%3 == 0 {
						s = append(s, t[(x+k)%len(t)])
					}
				}
			}
			a.Clients = append(a.Clients, s)
		}
		l = append(l, a)
	}
	// nothing but the tables: one for four at once, encoders or decoders first
	var t []any
	for i := 0; i < 28; i++ {
		a := &rec.ConcA{}
		for c := 0; c < 8; c++ {
			var s rec.L[rec.Sub]
			for j := 0; j < 28; j++ {
				s = append(s, rec.Sub{K: "ctab", A: &rec.CTabA{N: (i/2 + j/2) % 14, Shift: (c+j)%2 == 1, Via: i % 2 * 2}})
			}
			a.Clients = append(a.Clients, s)
		}
		t = append(t, a)
	}
	return append(append(l[:28:28], t...), l[28:]...)
}

var concKinds = []string{"genc", "gdec", "ctab", "uenc", "udec", "dec", "split", "dud", "eud", "udhm", "udhu", "addrm", "addru", "num",
	"semie", "semid", "tsm", "tsu", "vpm", "vpu", "dcs", "tm", "tmo", "tu", "seg", "hist", "wf", "err", "pack", "unpack", "icm", "edit", "build",
	"pdum", "pduu", "pduh"}

func (g G) conc() *rec.ConcA {
	a := &rec.ConcA{Share: g.p(40)}
	few := g.p(60)
	kinds := []string{oneOf(g, concKinds...), oneOf(g, concKinds...)}
	if a.Share {
		kinds = []string{"genc", "gdec"}
	}
	l, s := g.nli(), g.nli()
	for n := g.rng(2, 6); n > 0; n-- {
		var c rec.L[rec.Sub]
		for m := g.rng(1, 5); m > 0; m-- {
			k := oneOf(g, kinds...)
			if !few {
				k = oneOf(g, concKinds...)
			}
			x := Random(k, g)
			if a.Share {
				switch y := x.(type) {
				case *rec.GEncA:
					y.Via = 0
					if y.Cps = g.text(g.IntN(30), l, s, 0, 1, 2); g.p(90) {
						y.L, y.S = l, s
					}
				case *rec.GDecA:
					y.Via, y.Strict = 0, false
					if g.p(90) {
						y.L, y.S = l, s
					}
				}
			}
			c = append(c, rec.Sub{K: k, A: x})
		}
		a.Clients = append(a.Clients, c)
	}
	return a
}

func (g G) shared() *rec.SharedA {
	a := &rec.SharedA{Opts: g.opts(false), MR: g.one(0, 0, 250, g.IntN(300)), CR: g.one(0, 0, 254, g.IntN(300))}
	if g.p(30) {
		a.Each = g.opts(true)
	}
	base := append(append(rec.L[rec.Opt]{}, a.Opts...), a.Each...)
	for n := g.rng(2, 6); n > 0; n-- {
		var c rec.L[rec.Call]
		for m := g.rng(1, 4); m > 0; m-- {
			var o rec.L[rec.Opt]
			if g.p(20) {
				o = g.opts(true)
			}
			c = append(c, g.call(base, o))
		}
		a.Clients = append(a.Clients, c)
	}
	return a
}

func fixedShared() []any {
	var l []any
	text := func(n, c int) rec.Bytes {
		var v rec.Ints
		for i := 0; i < n; i++ {
			v = append(v, c)
		}
		return rec.Bytes(v.Text())
	}
	for i := 0; i < 32; i++ {
		a := &rec.SharedA{MR: i * 8, CR: 250}
		switch i % 4 {
		case 1:
			a.Opts = rec.L[rec.Opt]{{O: "all"}}
		case 2:
			a.Opts = rec.L[rec.Opt]{{O: "charset", NLI: rec.Ints{1, 2, 3}}, {O: "locking", NLI: rec.Ints{4}}, {O: "shift", NLI: rec.Ints{5}}}
			a.Each = rec.L[rec.Opt]{{O: "charset", NLI: rec.Ints{6}}}
		case 3:
			a.Opts = rec.L[rec.Opt]{{O: "udh", IEs: rec.IEs{{ID: 5, D: rec.Bytes{1, 2, 3, 4}}}}, {O: "to", Num: rec.Ints{43, 49, 50}}}
		}
		for c := 0; c < 6; c++ {
			var k rec.L[rec.Call]
			for j := 0; j < 4; j++ {
				b := text([]int{20, 161, 141, 71, 1, 220}[(i+c+j)%6], []int{97 + c, 0x20ac, 0x11e, 0xc7 + c%2, 0x43f, 98}[(c+j*i)%6])
				x := rec.Call{Msg: b, Cps: rec.Cps(string(b))}
				if i%4 == 2 && j%2 == 1 {
					x.Opts = rec.L[rec.Opt]{{O: "shift", NLI: rec.Ints{1 + c}}}
				}
				k = append(k, x)
			}
			a.Clients = append(a.Clients, k)
		}
		l = append(l, a)
	}
	return l
}
