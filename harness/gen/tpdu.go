package gen

import (
	"strings"

	"verif/pin/encoding/tpdu"
	"verif/rec"
)

var noVP = rec.VP{}

// dcs: octets by alphabet (0, 1, 2), or any
func (g G) dcs(alpha int) int {
	switch alpha {
	case 0:
		return g.one(0, 0, 0, 0x11, 0xf0, 0xc8, 0x0c, 0x20, 0xd3)
	case 1:
		return g.one(4, 4, 0x14, 0xf4, 0xf5, 0x24)
	case 2:
		return g.one(8, 8, 0x18, 0xe0, 0x48)
	}
	return g.octet()
}

func alphaOf(d int) int {
	a, err := tpdu.DCS(d).Alphabet()
	if err != nil {
		return -1
	}
	return int(a)
}

func (g G) dcsAny() int { return g.dcs(g.one(0, 0, 1, 2, 0, 1, 2, 3)) }

// ud: user data valid for a DCS
func (g G) ud(dcs, n int) rec.Bytes {
	switch alphaOf(dcs) {
	case 1:
		return g.bytes(n)
	case 2:
		return g.bytes(n - n%2)
	}
	return g.septets(n)
}

// build: a TPDU of type ty with valid fields
func (g G) tpdu(ty int) rec.TPDU {
	t := rec.TPDU{Dir: ty % 2, FO: ty/2 | g.IntN(64)<<2&0xbc}
	var u rec.IEs
	if g.p(40) {
		u = g.ies(60)
	}
	if len(u) > 0 {
		t.FO |= 0x40
	}
	t.PID = g.one(0, g.octet())
	t.DCS = g.dcsAny()
	if alphaOf(t.DCS) < 0 && g.p(80) {
		t.DCS = 0
	}
	n := g.small(160)
	opt := func() {
		t.PI = g.octet()
		if g.p(80) {
			t.PI &= 7
		}
		if t.PI&1 == 0 {
			t.PID = 0
		}
		if t.PI&2 == 0 {
			t.DCS = 0
		}
		if t.PI&4 == 0 {
			u = nil
			t.FO &^= 0x40
			n = 0
			if g.p(20) {
				t.FO |= 0x40
			}
		}
	}
	switch ty {
	case 0:
		t.OA, t.SCTS = g.addr(), g.time()
	case 1:
		t.FCS = g.rng(1, 255)
		opt()
	case 2:
		t.FCS, t.SCTS = g.rng(1, 255), g.time()
		opt()
	case 3:
		t.MR, t.DA, t.VP = g.octet(), g.addr(), g.vp()
		t.FO = t.FO&^0x18 | t.VP.F<<3
	case 4:
		t.MR, t.RA, t.SCTS, t.DT, t.ST = g.octet(), g.addr(), g.time(), g.time(), g.octet()
		if g.p(15) {
			// the same instant, in the same or another zone
			t.DT = append(rec.Ints{}, t.SCTS...)
			k := g.one(0, 1, -1, 2)
			if h, z := t.DT[3]+k, t.DT[6]+3600*k; h >= 0 && h < 24 && max(z, -z) <= 900*79 {
				t.DT[3], t.DT[6] = h, z
			}
		}
		opt()
	case 5:
		t.MR, t.DA, t.CT, t.MN = g.octet(), g.addr(), g.octet(), g.octet()
		t.DCS = 4
	}
	t.UDH = u
	if n > 0 {
		t.UD = g.ud(t.DCS, n)
	}
	return t
}

func marshal(t rec.TPDU) rec.Bytes {
	b, err := pinTPDU(t).MarshalBinary()
	if err != nil {
		return nil
	}
	return append(rec.Bytes{}, b...)
}

// broken: mostly with a field that cannot be marshalled, or some
func (g G) broken(ty int) rec.TPDU {
	t := g.tpdu(ty)
	addr := func() rec.Addr {
		a := g.addr()
		switch g.IntN(3) {
		case 0:
			a = rec.Addr{TOA: 0x91, A: g.digits(g.rng(254, 258))}
		case 1:
			a = rec.Addr{TOA: 0xd0, A: rec.Ints{65, g.one(0x4e2d, 0x1f600, 0x2208), 66}}
		case 2:
			a = rec.Addr{TOA: 0x81, A: rec.Ints{49, g.one(100, 43, 0x661), 49}}
		}
		return a
	}
	date := func() rec.Ints { d := g.time(); d[6] = g.one(-80, 80, 81, -96) * 900; return d }
	for n := g.rng(1, 2); n > 0; n-- {
		switch g.IntN(9) {
		case 0:
			t.OA = addr()
		case 1:
			t.DA = addr()
		case 2:
			t.RA = addr()
		case 3:
			t.SCTS = date()
		case 4:
			t.DT = date()
		case 5:
			t.DCS = g.one(0x80, 0x90, 0x0c)
		case 6:
			t.DCS = 8
			t.UD = g.bytes(g.one(1, 3, 139, 140, 255))
		case 7:
			t.UDH = rec.IEs{{ID: 36, D: g.bytes(g.one(200, 252, 253, 254, 255))}}
			t.UD = g.ud(t.DCS, g.one(0, 1, 2, 100))
		case 8:
			if g.p(50) {
				t.VP = rec.VP{F: 1, EFI: g.octet()}
			} else {
				t.VP = rec.VP{F: 3, T: date()}
			}
		}
	}
	return t
}

var allTypes = []int{0, 1, 2, 3, 4, 5}

func fixedTPDU(k string) []any {
	var l []any
	add := func(a any) { l = append(l, a) }
	g := New(77, 1)
	switch k {
	case "tm", "tmo":
		// every length of user data and header, every alphabet and type
		for ty := 0; ty < 6; ty++ {
			for _, d := range []int{0, 4, 8} {
				for _, h := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8} {
					for _, n := range []int{0, 1, 2, 6, 7, 8, 9, 14, 15, 16} {
						t := g.tpdu(ty)
						t.PI |= 7
						t.DCS = d
						if ty == 5 {
							t.DCS = 4
						}
						if ty == 5 && d == 8 && n%2 == 1 {
							continue
						}
						t.FO &^= 0x40
						t.UDH = nil
						if h > 0 {
							t.FO |= 0x40
							t.UDH = rec.IEs{{ID: 5, D: g.bytes(h - 1)}}
						}
						if ty != 5 && ty != 3 && ty != 0 && t.PI > 7 {
							t.PI = 7
						}
						t.UD = nil
						if n > 0 {
							t.UD = g.ud(t.DCS, n)
						}
						add(&rec.TmA{T: t})
					}
				}
			}
			// every first octet, PI, DCS
			for x := 0; x < 256; x++ {
				t := g.tpdu(ty)
				t.DCS = x
				t.PI |= 2
				if ty == 5 {
					t.DCS = 4
				}
				t.UD = nil
				t.PI |= 4
				t.FO &^= 0x40
				t.UDH = nil
				if n := x % 12; n > 0 {
					t.UD = g.ud(t.DCS, n)
				}
				if x%5 == 0 {
					t.FO |= 0x40
					t.UDH = rec.IEs{{ID: 9, D: g.bytes(x % 4)}}
				}
				add(&rec.TmA{T: t})
				t = g.tpdu(ty)
				t.FO = t.FO&0x43 | x&0xbc
				if ty == 3 {
					t.VP = noVP
					switch x >> 3 & 3 {
					case 1:
						t.VP = rec.VP{F: 1, EFI: 1, S: relPeriod(x)}
					case 2:
						t.VP = rec.VP{F: 2, S: relPeriod(x)}
					case 3:
						t.VP = rec.VP{F: 3, T: g.time()}
					}
				}
				add(&rec.TmA{T: t})
				if ty == 1 || ty == 2 || ty == 4 {
					t = g.tpdu(ty)
					t.PI = x
					t.PID, t.DCS, t.UDH, t.UD = 0, 0, nil, nil
					t.FO &^= 0x40
					if x&1 != 0 {
						t.PID = 0x11
					}
					if x&2 != 0 {
						t.DCS = 4
					}
					if x&4 != 0 {
						t.UD = g.bytes(x % 9)
						for i := range t.UD {
							t.UD[i] &= 0x7f
						}
					}
					add(&rec.TmA{T: t})
				}
			}
			// user data around the largest length
			for n := 245; n < 260; n++ {
				for _, d := range []int{0, 4, 8} {
					t := g.tpdu(ty)
					t.DCS, t.PI = d, t.PI|7
					if ty == 5 {
						t.DCS = 4
					}
					t.FO &^= 0x40
					t.UDH = nil
					t.UD = g.ud(t.DCS, n)
					add(&rec.TmA{T: t})
					t.FO |= 0x40
					t.UDH = rec.IEs{{ID: 0, D: rec.Bytes{1, 2, 1}}}
					t.UD = g.ud(t.DCS, n-6)
					add(&rec.TmA{T: t})
				}
			}
		}
	case "iei":
		for i := 0; i < 4; i++ {
			add(&rec.IeiA{Enc: i/2 == 1, Lock: i%2 == 1})
		}
	case "names":
		add(&rec.NamesA{})
	case "str":
		for n := 0; n < 256; n++ {
			for _, k := range []string{"dcs", "pi", "vpf", "evpf"} {
				add(&rec.StrA{K: k, N: n})
			}
		}
		for n := -2; n < 12; n++ {
			add(&rec.StrA{K: "mti", N: n})
			add(&rec.StrA{K: "type", N: n})
		}
		for n := 0; n < 500; n++ {
			add(&rec.StrA{K: "ts", T: g.time()})
		}
	case "rejm":
		for ty := 0; ty < 6; ty++ {
			for n := 0; n < 400; n++ {
				add(&rec.TmA{T: g.broken(ty)})
			}
		}
	case "tu", "rej":
		for ty := 0; ty < 6; ty++ {
			for v := 0; v < 12; v++ {
				t := g.tpdu(ty)
				t.UD = dropTo(t.UD, 9)
				if alphaOf(t.DCS) == 2 {
					t.UD = dropTo(t.UD, 8)
				}
				b := marshal(t)
				for n := 0; n <= len(b); n++ {
					add(&rec.TuA{Dir: ty % 2, B: append(rec.Bytes{}, b[:n]...), Via: v % 4})
				}
				for _, n := range []int{1, 2, 3, 127, 128, 255, 256, 257, 512} {
					if n < 4 || v < 3 {
						add(&rec.TuA{Dir: ty % 2, B: append(append(rec.Bytes{}, b...), g.bytes(n)...), Via: v % 4})
					}
				}
				for i := range b {
					if i > 30 {
						break
					}
					c := append(rec.Bytes{}, b...)
					c[i]++
					add(&rec.TuA{Dir: ty % 2, B: c})
					c = append(rec.Bytes{}, b...)
					c[i]--
					add(&rec.TuA{Dir: ty % 2, B: c})
				}
			}
			// what is left of the last octet: padding, or a septet of it
			for n := 1; n < 24; n++ {
				for h := 0; h < 4; h++ {
					t := g.tpdu(ty)
					if ty == 5 {
						break
					}
					if ty == 1 || ty == 2 || ty == 4 {
						t.PI |= 4
					}
					t.DCS, t.UDH, t.UD, t.FO = 0, nil, g.septets(n), t.FO&^0x40
					if h > 0 {
						t.UDH, t.FO = rec.IEs{{ID: 9, D: g.bytes(h)}}, t.FO|0x40
					}
					b := marshal(t)
					for i := 1; i < 8 && len(b) > 0; i++ {
						c := append(rec.Bytes{}, b...)
						c[len(c)-1] ^= 1 << i
						add(&rec.TuA{Dir: ty % 2, B: c, Via: n % 4})
					}
				}
			}
			for x := 0; x < 256; x++ {
				t := g.tpdu(ty)
				t.UD = dropTo(t.UD, 4)
				b := marshal(t)
				if len(b) == 0 {
					continue
				}
				b[0] = byte(x)
				add(&rec.TuA{Dir: ty % 2, B: b, Via: x % 4})
			}
		}
		for x := 0; x < 256; x++ {
			for dir := 0; dir < 2; dir++ {
				add(&rec.TuA{Dir: dir, B: rec.Bytes{byte(x)}, Via: x % 4})
			}
		}
		add(&rec.TuA{Dir: 0})
		add(&rec.TuA{Dir: 1, Via: 1})
	case "edit":
		for fo := 0; fo < 256; fo++ {
			for dir := 0; dir < 2; dir++ {
				var e rec.L[rec.Edit]
				for n := -1; n < 8; n++ {
					e = append(e, rec.Edit{E: "type", N: n, Via: n & 1})
				}
				for n := 0; n < 4; n++ {
					e = append(e, rec.Edit{E: "vpf", N: n}, rec.Edit{E: "mti", N: n})
				}
				e = append(e, rec.Edit{E: "udh", IEs: rec.IEs{{ID: 0, D: rec.Bytes{1, 2, 1}}}}, rec.Edit{E: "udh", Abs: true},
					rec.Edit{E: "udh", IEs: nil}, rec.Edit{E: "ud", B: rec.Bytes{1}}, rec.Edit{E: "ud", Abs: true},
					rec.Edit{E: "vp", VP: rec.VP{F: 2, S: 300}}, rec.Edit{E: "vp"}, rec.Edit{E: "dcs", N: fo}, rec.Edit{E: "pid", N: fo})
				add(&rec.EditA{T: rec.TPDU{Dir: dir, FO: fo, PI: fo}, Edits: e})
			}
		}
	case "build":
		for base := -1; base < 8; base++ {
			add(&rec.BuildA{Base: baseOf(base)})
			for n := -2; n < 9; n++ {
				add(&rec.BuildA{Base: baseOf(base), Edits: rec.L[rec.Edit]{{E: "type", N: n}}})
				add(&rec.BuildA{Base: baseOf(base), Edits: rec.L[rec.Edit]{{E: "dir", N: n & 1}, {E: "mti", N: n & 3}}})
			}
		}
	case "pdum":
		for n := 0; n < 30; n++ {
			add(&rec.PdumA{Ad: rec.Addr{TOA: 0x91, A: g.digits(n)}, B: g.bytes(n)})
		}
		for n := 500; n < 514; n++ {
			add(&rec.PdumA{Ad: rec.Addr{TOA: 0x91, A: g.digits(n)}, B: g.bytes(3)})
		}
		for c := 0; c < 256; c++ {
			add(&rec.PdumA{Ad: rec.Addr{TOA: c, A: rec.Ints{49, c, 50}}, B: g.bytes(3)})
			add(&rec.PdumA{Ad: rec.Addr{TOA: c, A: rec.Ints{49, 50, 51}}, B: g.bytes(3)})
			add(&rec.PdumA{Ad: rec.Addr{TOA: c}, B: g.bytes(3)})
		}
	case "pduu", "rejp":
		for n := 0; n < 256; n++ {
			for _, m := range []int{0, 1, 2, n - 1, n, n + 1, n + 5} {
				if m < 0 {
					continue
				}
				b := rec.Bytes{byte(n)}
				for i := 0; i < m; i++ {
					b = append(b, byte(g.IntN(15)|g.IntN(15)<<4))
				}
				if m > n && n > 1 && g.p(50) {
					b[n] |= 0xf0
				}
				add(&rec.PduuA{B: b})
			}
		}
		add(&rec.PduuA{})
	case "pduh":
		for _, s := range []string{"", "0", "00", "0x", "000", "07911234", "0791123456F8", "0791 123456f8", "00ff", "00FF", "00fF", "00g0", " 00", "00\n", "zz", "00é", "0011\x00"} {
			add(&rec.PduhA{S: rec.Cps(s)})
		}
		for _, n := range []int{15, 127, 128, 129, 255, 256, 257, 349, 511, 512, 513, 700} {
			s := rec.Cps("00" + strings.Repeat("4f", n))
			for _, e := range []string{"", "0", "0G", "G", " ", "\n", "00"} {
				add(&rec.PduhA{S: append(s[:len(s):len(s)], rec.Cps(e)...)})
			}
		}
		for c := 0; c < 256; c++ {
			add(&rec.PduhA{S: rec.Ints{48, 48, c, 49}})
			add(&rec.PduhA{S: rec.Ints{48, 48, 49, c}})
		}
	default:
		l = fixedText(k)
	}
	return l
}

func baseOf(b int) int {
	if b == 0 || b == 3 {
		return b
	}
	return -1
}

// junk: what its format does not have
func (g G) junk(v rec.VP) rec.VP {
	if g.p(20) {
		if g.p(50) {
			v.S, v.NS = g.one(v.S, g.IntN(90000)), g.one(0, 0, 1, 999999999)
		}
		if v.F != 1 && g.p(50) {
			v.EFI = g.octet()
		}
		if v.F != 3 && g.p(50) {
			v.T = g.time()
		}
	}
	return v
}

func (g G) edit() rec.Edit {
	e := rec.Edit{E: oneOf(g, "type", "type", "mti", "vpf", "dir", "dcs", "dcs", "pid", "vp", "vp", "ud", "ud", "udh", "udh", "udh", "oa", "da"), Via: g.IntN(2)}
	switch e.E {
	case "type":
		e.N = g.rng(-1, 7)
		if g.p(10) {
			e.N = g.rng(-300, 300)
		}
	case "mti", "vpf":
		e.N = g.IntN(4)
	case "dir":
		e.N = g.IntN(2)
	case "dcs", "pid":
		e.N = g.octet()
	case "vp":
		e.VP = g.junk(g.vp())
	case "ud":
		e.Abs = g.p(35)
		if !e.Abs {
			e.B = g.bytes(g.one(0, 1, 5))
		}
	case "udh":
		e.Abs = g.p(35)
		if !e.Abs {
			e.IEs = g.ies(30)
		}
	case "oa", "da":
		e.Ad = g.addr()
	}
	return e
}

func randomTPDU(k string, g G) any {
	switch k {
	case "tm":
		t := g.tpdu(g.IntN(6))
		switch g.IntN(14) {
		case 0:
			t.OA, t.DA, t.RA = g.anyAddr(), g.anyAddr(), g.anyAddr()
		case 1:
			if t.SCTS != nil {
				t.SCTS[6] = 900 * g.rng(-100, 100)
			}
			if t.DT != nil && g.p(50) {
				t.DT[6] = 900 * g.rng(-100, 100)
			}
		case 2:
			if len(t.UD) > 0 && alphaOf(t.DCS) == 2 {
				t.UD = t.UD[:len(t.UD)-1]
			}
		case 3:
			if t.PI&4 == 0 && t.FO&3 != 0 && t.FO*2&6+t.Dir == 4 {
				break
			}
			t.UDH = append(t.UDH, rec.IE{ID: 9, D: g.bytes(g.near(235, 20))})
			t.FO |= 0x40
		case 4:
			t.UD = g.ud(t.DCS, g.near(248, 12))
		case 5: // fields the type does not have
			o := g.tpdu(g.IntN(6))
			if ty := t.FO&3*2 + t.Dir; ty != 0 {
				t.OA = o.OA
			}
		}
		return &rec.TmA{T: t}
	case "tmo":
		// what marshals but does not come back: no cause, PI bits unset
		t := g.tpdu(g.one(1, 2))
		if g.p(50) {
			// fields the type does not have, bits that are not as its fields are
			t = g.tpdu(g.IntN(6))
			o, q := g.tpdu(g.IntN(6)), g.tpdu(g.one(0, 4))
			t.CT, t.MN, t.MR, t.ST, t.PID = g.octet(), g.octet(), g.octet(), g.octet(), g.octet()
			t.OA, t.DA, t.RA = g.addr(), g.addr(), g.addr()
			t.SCTS, t.DT = q.SCTS, q.SCTS
			t.PI = g.octet()
			t.VP = g.junk(g.vp())
			if g.p(30) {
				t.FO = g.octet()
			}
			if g.p(30) {
				t.UDH = o.UDH
			}
		}
		t.FCS = g.one(0, 0, 0, 1, 255)
		return &rec.TmA{T: t}
	case "iei":
		return &rec.IeiA{Enc: g.p(50), Lock: g.p(50)}
	case "names":
		return &rec.NamesA{}
	case "str":
		return &rec.StrA{K: "ts", T: g.time()}
	case "rejm":
		return &rec.TmA{T: g.broken(g.IntN(6))}
	case "tu", "rej":
		ty := g.IntN(6)
		b := marshal(g.tpdu(ty))
		switch g.IntN(8) {
		case 0:
		case 1:
			b = g.bytes(g.small(60))
		case 2:
			b = append(b, g.bytes(g.one(1, 2, 3, 4, 256, g.rng(5, 600)))...)
		case 3:
			b = dropTo(b, g.IntN(len(b)+1))
		default:
			b = g.mutate(b)
		}
		dir := ty % 2
		if g.p(4) {
			dir = 1 - dir
		}
		return &rec.TuA{Dir: dir, B: b, Via: g.IntN(4)}
	case "edit":
		a := &rec.EditA{}
		if g.p(60) {
			a.T = g.tpdu(g.IntN(6))
			a.T.SCTS, a.T.DT = nil, nil
			a.T.FO = g.octet()
			a.T.PI = g.octet()
		}
		for n := g.rng(1, 12); n > 0; n-- {
			a.Edits = append(a.Edits, g.edit())
		}
		return a
	case "build":
		a := &rec.BuildA{Base: g.one(-1, 0, 3)}
		for n := g.IntN(7); n > 0; n-- {
			e := g.edit()
			switch e.E {
			case "type", "mti", "dir", "dcs", "udh", "oa", "da":
				a.Edits = append(a.Edits, e)
			}
		}
		return a
	case "pdum":
		a := rec.Addr{TOA: g.one(0x91, 0x81, g.octet()), A: g.digits(g.small(30))}
		if g.p(10) {
			a = g.anyAddr()
		}
		return &rec.PdumA{Ad: a, B: g.bytes(g.small(40))}
	case "pduu", "pduh", "rejp":
		a := rec.Addr{TOA: g.octet(), A: g.digits(g.small(24))}
		var b rec.Bytes
		n := (len(a.A) + 1) / 2
		if n == 0 {
			b = rec.Bytes{0}
		} else {
			b = append(b, byte(n+1), byte(a.TOA))
			for i := 0; i < n; i++ {
				lo, hi := g.IntN(15), g.IntN(15)
				if i == n-1 && len(a.A)%2 == 1 {
					hi = 15
				}
				b = append(b, byte(lo|hi<<4))
			}
		}
		b = append(b, g.bytes(g.small(30))...)
		if g.p(40) {
			b = g.mutate(b)
		}
		if k != "pduh" {
			if k == "rejp" && g.p(60) {
				b = dropTo(b, g.IntN(len(b)+1))
			}
			return &rec.PduuA{B: b}
		}
		s := rec.Ints{}
		up := g.IntN(3)
		for _, o := range b {
			for _, d := range []int{int(o) >> 4, int(o) & 15} {
				c := int("0123456789abcdef"[d])
				if c >= 97 && (up == 1 || up == 2 && g.p(50)) {
					c -= 32
				}
				s = append(s, c)
			}
		}
		if g.p(15) && len(s) > 0 {
			s[g.IntN(len(s))] = g.one(103, 71, 32, 120, 0xe9, 64, 96, 47, 58)
		}
		if g.p(10) && len(s) > 0 {
			s = s[:len(s)-1]
		}
		return &rec.PduhA{S: s}
	}
	return randomText(k, g)
}
