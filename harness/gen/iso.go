package gen

import (
	"verif/pin/encoding/ucs2"
	"verif/rec"
)

var isoCalls = []string{"newenc", "enc", "top", "seg", "mar", "unm", "reun", "col", "pipes", "dec", "dud", "eud", "gsm", "umar", "uunm", "set", "look", "pdu"}

func (g G) iso() *rec.IsoA {
	a := &rec.IsoA{}
	for n := g.rng(1, 3); n > 0; n-- {
		t := g.template(g.one(0, 3, 3, g.IntN(6)))
		t.DCS = g.one(0, 0, 4, 8, 8)
		if g.p(60) {
			t = withUDH(t, g.udhOf(g.rng(3, 20)))
		}
		if g.p(50) {
			// part of a concatenated message
			t = withUDH(t, append(t.UDH, concat8(g.IntN(2), 2, g.rng(1, 2))...))
		}
		if g.p(60) {
			t.UD = g.message(max(0, alphaOf(t.DCS)), g.one(g.IntN(20), 7, 1))
		}
		a.TPDUs = append(a.TPDUs, t)
	}
	for n := g.rng(1, 3); n > 0; n-- {
		var b rec.Bytes
		switch g.IntN(7) {
		case 0:
			b = marshal(g.tpdu(g.one(0, 3, g.IntN(6))))
		case 1:
			b = g.message(2, 2*g.IntN(200))
		case 2:
			b = ucs2.Encode([]rune(g.text(g.IntN(150), 0, 0, 4, 5).Text()))
		case 3:
			b = g.septets(g.IntN(200))
		case 4:
			u := pinUDH(g.udhOf(g.rng(3, 30)))
			b = append(u, g.bytes(g.IntN(10))...)
		default:
			b = rec.Bytes(g.anyText(g.one(g.IntN(4), g.IntN(300), g.IntN(300))).Text())
		}
		a.Bufs = append(a.Bufs, b)
	}
	for n := g.rng(0, 2); n > 0; n-- {
		a.UDHs = append(a.UDHs, g.udhOf(g.rng(3, 30)))
	}
	for n := g.rng(2, 10); n > 0; n-- {
		o := oneOf(g, isoCalls...)
		if g.p(30) {
			o = oneOf(g, "enc", "enc", "seg", "col", "dec", "newenc")
		}
		a.Steps = append(a.Steps, rec.IsoStep{O: o, X: g.IntN(60), Y: g.IntN(60), N: g.IntN(42)})
	}
	return a
}

func pinUDH(u rec.IEs) rec.Bytes {
	b, err := tpduUDH(u).MarshalBinary()
	if err != nil {
		panic(err)
	}
	return b
}

// the same call on two short buffers, and on the first again
func shortIso() []any {
	var l []any
	for _, bufs := range []rec.L[rec.Bytes]{
		{rec.Bytes("a"), rec.Bytes("b")}, {rec.Bytes("ab"), rec.Bytes("cd")}, {rec.Bytes("é"), rec.Bytes("à")},
		{rec.Bytes("ж"), rec.Bytes("щ")}, {rec.Bytes("жщ"), rec.Bytes("щж")}, {rec.Bytes("€"), rec.Bytes("€€")}, {rec.Bytes("ğ"), rec.Bytes("ş")},
		{{0, 65}, {4, 22}}, {{0, 65, 0, 66}, {0, 67, 0, 68}}, {{0, 65, 0xd8, 0x3d}, {0, 66, 0xd8, 0x3e}}, {{1}, {2}}, {{1, 2, 3}, {4, 5, 6}},
		{{0, 1}, {0, 2}}, {{2, 145, 33, 1}, {2, 145, 67, 2}}, {{0}, {0}}, {{2, 1, 0}, {2, 2, 0}}, {{3, 1, 1, 7}, {3, 1, 1, 8}}, {rec.Bytes("12345678"), rec.Bytes("87654321")},
		{{}, {}},
	} {
		for _, o := range []string{"gsm", "eud", "dud", "uunm", "pdu", "enc", "top", "seg"} {
			for n := 0; n < 12; n++ {
				a := &rec.IsoA{Bufs: bufs, TPDUs: rec.L[rec.TPDU]{{Dir: 1, FO: 1, DCS: []int{0, 4, 8}[n%3], DA: rec.Addr{TOA: 145, A: rec.Ints{49}}}},
					UDHs: rec.L[rec.IEs]{{{ID: 24, D: rec.Bytes{1}}, {ID: 25, D: rec.Bytes{1}}}}}
				a.Steps = rec.L[rec.IsoStep]{{O: "newenc", N: n}, {O: o, X: 0, Y: n, N: n}, {O: o, X: 1, Y: n, N: n}, {O: o, X: 0, Y: n, N: n}, {O: o, X: 1, Y: 0, N: n}}
				l = append(l, a)
			}
		}
	}
	return l
}

// every pair of calls, on a few objects
func fixedIso() []any {
	l := shortIso()
	text := rec.Bytes(rec.Ints{97, 0x20ac, 98, 0x11e, 0x1f600}.Text())
	for len(text) < 330 {
		text = append(text, text...)
	}
	long := rec.Bytes{}
	for i := 0; i < 330; i++ {
		long = append(long, byte('a'+i%26))
	}
	for _, d := range []int{0, 4, 8} {
		for i := range isoCalls {
			for j := range isoCalls {
				t := withUDH(rec.TPDU{Dir: 1, FO: 1, DCS: d, DA: rec.Addr{TOA: 145, A: rec.Ints{49, 50}},
					UD: rec.Bytes{1, 2, 3, 0xd8, 0x3d, 0xd8}}, rec.IEs{{ID: 5, D: rec.Bytes{1, 2, 3, 4}}, {ID: 0, D: rec.Bytes{1, 2, 1}}})
				u := withUDH(t, rec.IEs{{ID: 0, D: rec.Bytes{1, 2, 2}}})
				u.UD = rec.Bytes{0xd8, 0x3d, 0xde, 0x00, 0x00, 0x41, 0xd8, 0x3d}
				st := rec.IsoStep{O: "newenc", X: 0, N: i % 5}
				a := &rec.IsoA{TPDUs: rec.L[rec.TPDU]{t, u}, Bufs: rec.L[rec.Bytes]{long, text[:330], marshal(u)},
					UDHs: rec.L[rec.IEs]{{{ID: 5, D: rec.Bytes{9, 9, 9, 9}}}}}
				a.Steps = rec.L[rec.IsoStep]{st, {O: "enc", X: j % 2, N: 0}, {O: isoCalls[i], X: i, Y: j, N: 1}, {O: isoCalls[j], X: j + 1, Y: i, N: 3 + i},
					{O: "col", X: 0}, {O: "col", X: 1}, {O: "dec", X: 2, N: 1}, {O: isoCalls[j], X: j, Y: 0, N: i}}
				l = append(l, a)
			}
		}
	}
	return l
}
