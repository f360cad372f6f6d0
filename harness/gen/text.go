package gen

import (
	"time"

	"verif/pin/encoding/gsm7"
	"verif/pin/encoding/tpdu"
	"verif/pin/encoding/ucs2"
	"verif/rec"
)

func pinTime(t rec.Ints) tpdu.Timestamp {
	if len(t) != 7 {
		return tpdu.Timestamp{}
	}
	return tpdu.Timestamp{Time: time.Date(t[0], time.Month(t[1]), t[2], t[3], t[4], t[5], 0, time.FixedZone("any", t[6]))}
}

func pinAddr(a rec.Addr) tpdu.Address { return tpdu.Address{TOA: byte(a.TOA), Addr: a.A.Text()} }

func pinTPDU(t rec.TPDU) *tpdu.TPDU {
	return &tpdu.TPDU{
		Direction: tpdu.Direction(t.Dir), FirstOctet: tpdu.FirstOctet(t.FO), OA: pinAddr(t.OA), FCS: byte(t.FCS), MR: byte(t.MR),
		CT: byte(t.CT), MN: byte(t.MN), DA: pinAddr(t.DA), RA: pinAddr(t.RA), PI: tpdu.PI(t.PI), SCTS: pinTime(t.SCTS), DT: pinTime(t.DT),
		ST: byte(t.ST), PID: byte(t.PID), DCS: tpdu.DCS(t.DCS),
		VP: tpdu.ValidityPeriod{Format: tpdu.ValidityPeriodFormat(t.VP.F), Time: pinTime(t.VP.T), EFI: byte(t.VP.EFI),
			Duration: time.Duration(t.VP.S)*time.Second + time.Duration(t.VP.NS)},
		UDH: tpduUDH(t.UDH), UD: append([]byte(nil), t.UD...),
	}
}

func (g G) template(ty int) rec.TPDU {
	t := g.tpdu(ty)
	t.UDH, t.UD = nil, nil
	t.FO &^= 0x40
	return t
}

func sizeOf(u rec.IEs) int {
	n := 0
	for _, e := range u {
		n += 2 + len(e.D)
	}
	if n > 0 {
		n++
	}
	return n
}

// header of exactly n octets (0 or >= 3), without concatenation elements
func (g G) udhOf(n int) rec.IEs {
	if n < 3 {
		return nil
	}
	n--
	var u rec.IEs
	for n > 0 {
		k := n - 2
		if n > 6 && g.p(50) {
			k = g.rng(0, n-4)
		}
		if k < 0 {
			return nil
		}
		id := g.one(5, 4, 24, 25, 112, 9, 36)
		u = append(u, rec.IE{ID: id, D: g.bytes(k)})
		n -= k + 2
	}
	return u
}

func withUDH(t rec.TPDU, u rec.IEs) rec.TPDU {
	t.UDH = u
	t.FO &^= 0x40
	if len(u) > 0 {
		t.FO |= 0x40
		t.PI |= 4
	}
	return t
}

// message octets of n for an alphabet, dense in sequences that must not be split
func (g G) message(alpha, n int) rec.Bytes {
	b := make(rec.Bytes, 0, n+2)
	m := g.IntN(6)
	for len(b) < n {
		switch {
		case alpha == 0 && m < 2:
			b = append(b, byte(g.one(27, 27, 20, 60, 101)))
		case alpha == 0 && m == 2:
			b = append(b, 27, byte(g.one(20, 101)))
		case alpha == 0 && m == 3:
			if g.p(15) {
				b = append(b, 27)
			}
			b = append(b, byte(g.IntN(128)))
		case alpha == 2 && m < 2:
			c := 0x10000 + g.IntN(0x100000)
			b = append(b, ucs2.Encode([]rune{rune(c)})...)
		case alpha == 2 && m == 2:
			u := g.one(0xd800+g.IntN(1024), 0xdc00+g.IntN(1024), 0x41)
			b = append(b, byte(u>>8), byte(u))
		case alpha == 2 && m == 3:
			b = append(b, ucs2.Encode([]rune{rune(g.cp(g.one(4, 5), 0, 0))})...)
		case alpha == 2:
			b = append(b, byte(g.octet()), byte(g.octet()))
		case alpha == 0:
			b = append(b, byte(g.IntN(128)))
		default:
			b = append(b, byte(g.octet()))
		}
	}
	return b[:n]
}

func udRoom(ty, fcs int) int {
	switch ty {
	case 0, 3:
		return 140
	case 5:
		return 146
	case 4:
		return 131
	case 2:
		if fcs == 0 {
			return 152
		}
		return 151
	case 1:
		if fcs == 0 {
			return 159
		}
		return 158
	}
	return 0
}

func (g G) counterStart() rec.Ints {
	if g.p(15) {
		return nil
	}
	return rec.Ints{g.one(0, 1, 5, g.near(255, 6), g.near(256, 3), g.near(65535, 4), g.near(512, 3), g.IntN(70000))}
}

func (g G) seg() *rec.SegA {
	ty := g.one(3, 3, 3, 3, 0, 0, 0, 1, 2, 4, 5)
	t := g.template(ty)
	alpha := g.IntN(3)
	t.DCS = g.dcs(alpha)
	if g.p(2) {
		t.DCS = g.octet()
	}
	if g.p(10) {
		t.FCS = 0
	}
	is16 := g.p(40)
	room := udRoom(ty, t.FCS)
	cat := 5
	if is16 {
		cat = 6
	}
	h := 0
	switch g.IntN(6) {
	case 0, 1:
	case 2:
		h = g.rng(3, 20)
	case 3:
		h = g.IntN(room + 3)
	default:
		h = room - cat - g.rng(-2, 12)
	}
	t = withUDH(t, g.udhOf(h))
	h = sizeOf(t.UDH)
	c := h + cat
	if h == 0 {
		c++
	}
	unit := func(h int) int {
		if alpha == 0 {
			return room*8/7 - (8*h+6)/7
		}
		if alpha == 2 {
			return (room - h) &^ 1
		}
		return room - h
	}
	one, bs := unit(h), unit(c)
	n := 0
	switch g.IntN(6) {
	case 0:
		n = max(0, one+g.rng(-3, 3))
	case 5:
		n = g.IntN(400)
	default:
		if bs <= 12 && bs > 0 && g.p(30) {
			n = bs*g.one(255, 255, 254, 256, g.rng(3, 255)) + g.rng(-4, 4)
		} else {
			n = max(1, bs)*g.rng(1, 4) + g.rng(-4, 4)
		}
	}
	n = max(n, 0)
	if alpha == 2 && g.p(92) {
		n &^= 1
	}
	return &rec.SegA{T: t, Msg: g.message(alpha, n), Is16: is16, MR: g.counterStart(), CR: g.counterStart()}
}

func fixedText(k string) []any {
	var l []any
	add := func(a any) { l = append(l, a) }
	g := New(78, 2)
	switch k {
	case "blk":
		for ty := 0; ty < 6; ty++ {
			for d := 0; d < 12; d += 4 {
				for h := 0; h < 150; h++ {
					t := g.template(ty)
					t.DCS = d
					t.FCS = h % 3
					add(&rec.BlkA{T: withUDH(t, g.udhOf(h))})
				}
			}
		}
	case "seg":
		// escapes and surrogates at every position about the block ends
		for _, alpha := range []int{0, 2} {
			for d := -3; d <= 3; d++ {
				for e := 0; e < 3; e++ {
					t := g.template(3)
					t.DCS = alpha * 4
					one, bs := 160, 153
					if alpha == 2 {
						one, bs = 140, 134
					}
					for _, at := range []int{one, bs, 2 * bs} {
						n := at + d + e*2
						m := make(rec.Bytes, n+n%2)
						for i := range m {
							m[i] = 65
						}
						put := func(i int) {
							if alpha == 0 && i >= 0 && i+1 < len(m) {
								m[i], m[i+1] = 27, 101
							}
							if alpha == 2 && i >= 0 && i+3 < len(m) && i%2 == 0 {
								copy(m[i:], []byte{0xd8, 0x3d, 0xde, 0x00})
							}
						}
						put(at + d - 1)
						add(&rec.SegA{T: t, Msg: m, MR: rec.Ints{254}, CR: rec.Ints{255}})
						put(bs - 2)
						put(bs - 1)
						add(&rec.SegA{T: t, Msg: m, Is16: true, MR: rec.Ints{255}, CR: rec.Ints{65534}})
					}
				}
			}
		}
		// runs of escapes across the end of a block
		for r := 1; r < 8; r++ {
			for o := -8; o < 3; o++ {
				m := make(rec.Bytes, 330)
				for i := range m {
					m[i] = 66
				}
				for i := 0; i < r; i++ {
					m[153+o+i] = 27
				}
				add(&rec.SegA{T: g.template(3), Msg: m, CR: rec.Ints{7}})
				l[len(l)-1].(*rec.SegA).T.DCS = 0
			}
		}
		for h := 0; h <= 143; h++ {
			for alpha := 0; alpha < 3; alpha++ {
				t := g.template(g.one(0, 3))
				t.DCS = alpha * 4
				t = withUDH(t, g.udhOf(h))
				s := 140 - sizeOf(t.UDH)
				if alpha == 0 {
					s = s * 8 / 7
				}
				for _, n := range []int{s, s + 1} {
					n = max(n, 0)
					if alpha == 2 {
						n += n % 2
					}
					add(&rec.SegA{T: t, Msg: g.message(alpha, n), Is16: h%2 == 0, MR: rec.Ints{h}, CR: rec.Ints{h}})
				}
			}
		}
	case "eud":
		for n := 0; n < 14; n++ {
			for _, c := range lockRunes[n] {
				add(&rec.EudA{Cps: rec.Ints{c}, All: true, Lock: all13, Shift: all13})
			}
			for _, c := range shiftRunes[n] {
				add(&rec.EudA{Cps: rec.Ints{c}, All: true, Lock: all13, Shift: all13})
			}
		}
		for a := 1; a < 14; a++ {
			for b := 1; b < 14; b++ {
				c := rec.Ints{oneOf(g, lockRunes[a]...), oneOf(g, shiftRunes[b]...), 101}
				add(&rec.EudA{Cps: c, Lock: rec.Ints{b, a}, Shift: rec.Ints{a, b}})
				add(&rec.EudA{Cps: c, All: true, Lock: all13, Shift: all13})
				c = rec.Ints{oneOf(g, lockRunes[a]...), oneOf(g, shiftRunes[a]...), oneOf(g, lockRunes[a]...), oneOf(g, shiftRunes[a]...)}
				add(&rec.EudA{Cps: c, Lock: rec.Ints{b, a}, Shift: rec.Ints{a}})
				add(&rec.EudA{Cps: c, Lock: rec.Ints{b, a}, Shift: rec.Ints{b}})
				add(&rec.EudA{Cps: c, All: true, Lock: all13, Shift: all13})
			}
		}
		// text that the two tables of either of two languages have
		for _, c := range []rec.Ints{{65, 0x981}, {0x982, 90, 48}, {0x983, 66, 0x981, 67}} {
			for _, x := range []rec.Ints{{4, 6}, {6, 4}, {1, 6, 4}, {4, 1, 6}} {
				for _, y := range []rec.Ints{{4, 6}, {6, 4}, {6}, {4}, {2, 6, 4}, {4, 6, 4}} {
					add(&rec.EudA{Cps: c, Lock: x, Shift: y})
				}
			}
		}
		add(&rec.EudA{})
		for _, n := range far[:5] {
			add(&rec.EudA{Cps: g.text(n, 0, 0, 0, 1)})
			add(&rec.EudA{Cps: g.text(n, 3, 3, 0, 1), Lock: rec.Ints{3}, Shift: rec.Ints{3}})
			add(&rec.EudA{Cps: g.text(n, 0, 0, 4, 5)})
		}
		for _, c := range odd {
			add(&rec.EudA{Cps: rec.Ints{c}})
			add(&rec.EudA{Cps: rec.Ints{65, c}, All: true, Lock: all13, Shift: all13})
		}
	case "dud":
		for n := 0; n < 16; n++ {
			for m := 0; m < 16; m++ {
				g7 := rec.Bytes{4, 0, 9, 27, 4, 27, 40, 27, 101, 91}
				u := rec.IEs{{ID: 25, D: rec.Bytes{byte(n)}}, {ID: 24, D: rec.Bytes{byte(m)}}}
				add(&rec.DUDA{UD: g7, UDH: u, Lock: all13, Shift: all13, Via: 1})
				add(&rec.DUDA{UD: g7, UDH: u, Lock: rec.Ints{n}, Shift: rec.Ints{n}})
				add(&rec.DUDA{UD: g7, UDH: u, Lock: rec.Ints{m}, Shift: rec.Ints{m}})
				add(&rec.DUDA{UD: g7, UDH: append(rec.IEs{{ID: 25, D: rec.Bytes{byte(m)}}, {ID: 24, D: rec.Bytes{byte(n)}}}, u...), Lock: all13, Shift: all13})
			}
		}
	case "dec":
		// surrogates that end and start segments of each alphabet
		segs := []rec.Seg{{DCS: 8, UD: rec.Bytes{0, 65, 0xd8, 61}}, {DCS: 8, UD: rec.Bytes{0xde, 0}}, {DCS: 8, UD: rec.Bytes{0, 66}},
			{DCS: 8, UD: rec.Bytes{0xde, 1, 0xd8, 62}}, {DCS: 8}, {DCS: 0, UD: rec.Bytes{65, 27, 101}}, {DCS: 4, UD: rec.Bytes{0xc3, 0xa9}}, {DCS: 0}}
		add(&rec.DecA{Def: true})
		for _, x := range segs {
			add(&rec.DecA{Def: true, Segs: rec.L[rec.Seg]{x}})
			for _, y := range segs {
				add(&rec.DecA{Def: true, Via: 1, Segs: rec.L[rec.Seg]{x, y}})
				for _, z := range segs {
					add(&rec.DecA{Def: true, Segs: rec.L[rec.Seg]{x, y, z}})
				}
			}
		}
	case "icm":
		h8 := func(r, t, s int) rec.L[rec.IEs] {
			return rec.L[rec.IEs]{{{ID: 0, D: rec.Bytes{byte(r), byte(t), byte(s)}}}}
		}
		none := rec.L[rec.IEs]{nil}
		gone := rec.L[rec.IEs]{}
		add(&rec.IcmA{})
		var hs []rec.L[rec.IEs]
		hs = append(hs, none, gone)
		for r := 0; r < 2; r++ {
			for t := 0; t < 4; t++ {
				for s := 0; s < 4; s++ {
					hs = append(hs, h8(r, t, s))
				}
			}
		}
		for _, a := range hs {
			add(&rec.IcmA{Segs: rec.L[rec.L[rec.IEs]]{a}})
			for _, b := range hs {
				add(&rec.IcmA{Segs: rec.L[rec.L[rec.IEs]]{a, b}})
			}
		}
		for _, a := range hs[:12] {
			for _, b := range hs[:18] {
				add(&rec.IcmA{Segs: rec.L[rec.L[rec.IEs]]{h8(0, 3, 1), a, b}})
				add(&rec.IcmA{Segs: rec.L[rec.L[rec.IEs]]{a, b, h8(0, 3, 3)}})
			}
		}
		big := rec.L[rec.L[rec.IEs]]{}
		for i := 1; i <= 255; i++ {
			big = append(big, h8(3, 255, i))
		}
		add(&rec.IcmA{Segs: big})
		add(&rec.IcmA{Segs: big[:254]})
	case "hist":
		// concatenation and message counters across their wraps
		long := func(n int) rec.Bytes {
			b := make(rec.Bytes, n)
			for i := range b {
				b[i] = byte(97 + i%26)
			}
			return b
		}
		for _, cr := range []int{0, 253, 254, 255, 256, 510, 65534, 65535, 65536} {
			for _, mr := range []int{0, 250, 253, 255, 256, 65535} {
				a := &rec.HistA{MR: mr, CR: cr}
				for _, n := range []int{5, 161, 0, 160, 320, 1, 460} {
					a.Calls = append(a.Calls, rec.Call{Msg: long(n), Cps: rec.Cps(string(long(n)))})
				}
				add(a)
			}
		}
	}
	return l
}

var all13 = rec.Ints{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}

// cut octets at random places, at the given multiple
func (g G) cut(b rec.Bytes, k, step int) []rec.Bytes {
	var out []rec.Bytes
	for ; k > 1 && len(b) > 0; k-- {
		n := g.IntN(len(b)/step+1) * step
		out = append(out, b[:n])
		b = b[n:]
	}
	return append(out, b)
}

func nliIEs(l, s int) rec.IEs {
	var u rec.IEs
	if l > 0 {
		u = append(u, rec.IE{ID: 25, D: rec.Bytes{byte(l)}})
	}
	if s > 0 {
		u = append(u, rec.IE{ID: 24, D: rec.Bytes{byte(s)}})
	}
	return u
}

func (g G) opts(call bool) rec.L[rec.Opt] {
	var o rec.L[rec.Opt]
	add := func(x rec.Opt) { o = append(o, x) }
	if !call && g.p(40) || call && g.p(10) {
		t := g.template(g.one(3, 3, 0))
		if g.p(70) {
			t.DCS = g.one(0, 0, 4, 8)
		}
		if g.p(40) {
			t = withUDH(t, g.udhOf(g.one(g.rng(3, 10), g.rng(3, 30), g.rng(100, 138))))
		}
		add(rec.Opt{O: "template", T: &t})
	}
	if g.p(20) {
		add(rec.Opt{O: "type", N: g.one(0, 3)})
	}
	if g.p(15) {
		add(rec.Opt{O: "dcs", N: g.one(4, 8, g.dcsAny(), g.octet())})
	}
	if g.p(30) {
		n := g.digits(g.rng(1, 14))
		if g.p(50) {
			n = append(rec.Ints{43}, n...)
		}
		add(rec.Opt{O: oneOf(g, "to", "from"), Num: n})
	}
	if g.p(8) {
		if u := g.udhOf(g.one(g.rng(3, 20), g.rng(120, 138))); len(u) > 0 {
			add(rec.Opt{O: "udh", IEs: u})
		}
	}
	switch g.IntN(6) {
	case 0:
		if !call {
			add(rec.Opt{O: "all"})
		}
	case 1, 2:
		add(rec.Opt{O: oneOf(g, "charset", "locking", "shift"), NLI: g.nlis()})
		if g.p(30) {
			add(rec.Opt{O: oneOf(g, "charset", "locking", "shift"), NLI: g.nlis()})
		}
	}
	return o
}

// the alphabet that octets given to an encoder with these options are in: -1 if text
func rawAlpha(o ...rec.L[rec.Opt]) (int, bool) {
	d, valid := 0, true
	for _, l := range o {
		for _, x := range l {
			switch x.O {
			case "template":
				d = x.T.DCS
			case "dcs":
				d = x.N
			}
		}
	}
	a := alphaOf(d)
	if a < 0 {
		return 0, false
	}
	return a, valid
}

func (g G) body(alpha int) rec.Bytes {
	size := func(one, seg int) int {
		return g.one(g.IntN(20), one+g.rng(-3, 3), seg*2+g.rng(-3, 3), seg*g.rng(1, 4)+g.rng(-2, 2), g.IntN(300))
	}
	switch alpha {
	case 1:
		return g.bytes(size(140, 134))
	case 2:
		return g.message(2, size(140, 134)&^1)
	}
	var t rec.Ints
	n := size(160, 153)
	if g.p(30) {
		n = size(70, 67)
	}
	if g.p(10) {
		n = 0
	}
	t = g.anyText(n)
	return rec.Bytes(t.Text())
}

func (g G) call(base rec.L[rec.Opt], o rec.L[rec.Opt]) rec.Call {
	a, _ := rawAlpha(base, o)
	m := g.body(a)
	return rec.Call{Opts: o, Msg: m, Cps: rec.Cps(string(m))}
}

func randomText(k string, g G) any {
	switch k {
	case "seg":
		return g.seg()
	case "blk":
		t := g.tpdu(g.IntN(6))
		return &rec.BlkA{T: withUDH(t, g.udhOf(g.IntN(170)))}
	case "eud":
		a := &rec.EudA{Cps: g.anyText(g.long(30)), All: g.p(30), Lock: g.nlis(), Shift: g.nlis()}
		if g.p(30) {
			a.Shift = a.Lock
		}
		if a.All {
			a.Lock, a.Shift = all13, all13
		}
		return a
	case "dud":
		a := &rec.DUDA{Alpha: g.IntN(3), Lock: g.nlis(), Shift: g.nlis()}
		if g.p(30) {
			a.Via, a.Lock, a.Shift = 1, all13, all13
		}
		if g.p(80) {
			a.UDH = nliIEs(g.IntN(15), g.IntN(15))
			if g.p(30) {
				a.UDH = append(a.UDH, nliIEs(g.IntN(15), g.IntN(15))...)
			}
			if g.p(30) {
				a.UDH = append(g.ies(30), a.UDH...)
			}
		} else {
			a.UDH = g.ies(40)
		}
		a.UD = g.message(a.Alpha, g.long(60))
		if a.Alpha == 2 && g.p(90) {
			a.UD = a.UD[:len(a.UD)&^1]
		}
		return a
	case "dec":
		a := &rec.DecA{Def: g.p(40), Via: g.IntN(2)}
		if !a.Def {
			a.Lock, a.Shift = g.nlis(), g.nlis()
			if g.p(40) {
				a.Shift = a.Lock
			}
		}
		one := g.p(60)
		d := g.dcsAny()
		for n := g.rng(0, 4); n > 0; n-- {
			if !one {
				d = g.dcsAny()
			}
			s := rec.Seg{DCS: d}
			if g.p(60) {
				s.UDH = nliIEs(g.IntN(15), g.IntN(15))
			}
			if g.p(30) {
				s.UDH = append(g.ies(30), s.UDH...)
			}
			s.UD = g.message(max(0, alphaOf(d)), g.small(40))
			if alphaOf(d) == 2 && g.p(95) {
				s.UD = s.UD[:len(s.UD)&^1]
			}
			a.Segs = append(a.Segs, s)
		}
		return a
	case "split":
		a := &rec.DecA{Def: true, Whole: true}
		n := g.rng(0, 40)
		parts := g.rng(1, 4)
		if g.p(50) {
			a.Cps = g.text(n, 0, 0, 4, 5, 5)
			for _, b := range g.cut(ucs2.Encode([]rune(a.Cps.Text())), parts, 2) {
				a.Segs = append(a.Segs, rec.Seg{DCS: g.dcs(2), UD: b})
			}
			return a
		}
		l, s := g.nli(), g.nli()
		a.Cps = g.text(n, l, s, 0, 1)
		b, err := gsm7.Encode([]byte(a.Cps.Text()), gsm7.WithCharset(l), gsm7.WithExtCharset(s))
		if err != nil {
			panic(err)
		}
		var cuts []rec.Bytes
		start := 0
		for i := 0; i < len(b); i++ {
			if b[i] == 27 {
				i++
			}
			if g.IntN(len(b)+1) < parts {
				cuts = append(cuts, b[start:i+1])
				start = i + 1
			}
		}
		cuts = append(cuts, b[start:])
		for _, c := range cuts {
			u := nliIEs(l, s)
			if g.p(30) {
				u = append(rec.IEs{{ID: 0, D: rec.Bytes{1, 2, 1}}}, u...)
			}
			a.Segs = append(a.Segs, rec.Seg{DCS: 0, UDH: u, UD: c})
		}
		return a
	case "hist":
		a := &rec.HistA{Opts: g.opts(false)}
		a.MR, a.CR = g.one(0, 0, g.near(255, 5), g.near(65535, 3)), g.one(0, 0, g.near(255, 4), g.near(65535, 3))
		if g.p(10) {
			a.Top = true
			a.Opts, a.MR, a.CR = nil, 0, 0
		}
		n := g.rng(1, 4)
		if a.Top {
			n = 1
		}
		for ; n > 0; n-- {
			var o rec.L[rec.Opt]
			if a.Top {
				o = g.opts(false)
			} else if g.p(40) {
				o = g.opts(true)
			}
			a.Calls = append(a.Calls, g.call(a.Opts, o))
		}
		return a
	case "wf":
		o, raw := g.opts(false), false
		if len(o) == 0 || o[0].O != "template" {
			ty := g.one(0, 3, 0, 3, 0, 3, 1, 2, 4, 5)
			t := g.template(ty)
			if t.DCS = g.one(0, 0, 0, 4, 8); ty == 5 {
				t.DCS, raw = 4, true
			} else if t.DCS != 0 {
				t.PI |= 2
			}
			o = append(rec.L[rec.Opt]{{O: "template", T: &t}}, o...)
		}
		// a template that is changed between submit and deliver has no valid times or periods
		var ok rec.L[rec.Opt]
		for _, x := range o {
			if x.O == "udh" && len(o[0].T.UDH) > 0 || x.O == "type" || x.O == "dcs" && raw {
				continue
			}
			ok = append(ok, x)
		}
		c := g.call(ok, nil)
		return &rec.WfA{Opts: ok, Msg: c.Msg}
	case "icm":
		n := g.rng(1, 6)
		is16 := g.p(30)
		ref := g.one(0, 1, g.IntN(65536))
		mk := func(ref, t, s int) rec.L[rec.IEs] {
			e := rec.IE{ID: 0, D: rec.Bytes{byte(ref), byte(t), byte(s)}}
			if is16 {
				e = rec.IE{ID: 8, D: rec.Bytes{byte(ref >> 8), byte(ref), byte(t), byte(s)}}
			}
			u := rec.IEs{e}
			if g.p(20) {
				u = append(g.udhOf(g.rng(3, 12)), u...)
			}
			return rec.L[rec.IEs]{u}
		}
		a := &rec.IcmA{}
		for i := 1; i <= n; i++ {
			a.Segs = append(a.Segs, mk(ref, n, i))
		}
		i, j := g.IntN(n), g.IntN(n)
		switch g.IntN(10) {
		case 0:
		case 1:
			a.Segs[i] = rec.L[rec.IEs]{}
		case 2:
			a.Segs[i], a.Segs[j] = a.Segs[j], a.Segs[i]
		case 3:
			a.Segs[i] = a.Segs[j]
		case 4:
			a.Segs = append(a.Segs[:i:i], a.Segs[i+1:]...)
		case 5:
			a.Segs = append(a.Segs, mk(ref, n, g.one(n, n+1)))
		case 6:
			a.Segs[i] = mk(ref+g.one(1, 256, -1), n, i+1)
		case 7:
			a.Segs[i] = mk(ref, n+g.one(1, -1), i+1)
		case 8:
			a.Segs[i] = mk(ref, n, g.one(0, i, i+2, 255))
		case 9:
			a.Segs[i] = rec.L[rec.IEs]{g.ies(20)}
		}
		return a
	}
	panic("unknown kind " + k)
}
