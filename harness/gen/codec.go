package gen

import (
	"verif/pin/encoding/tpdu"
	"verif/rec"
)

// Fixed returns the structured arguments of a kind: the same for every seed.
func Fixed(k string) []any {
	switch k {
	case "col07", "col08", "col09", "colc", "colf":
		return fixedCol(k)
	case "e2e":
		return fixedE2E()
	case "iso":
		return fixedIso()
	case "conc":
		return fixedConc()
	case "reuse":
		return fixedReuse()
	case "shared":
		return fixedShared()
	case "sdecode", "sdeliver", "ssubmit", "scount", "chars":
		return fixedTools(k)
	}
	var l []any
	add := func(a any) { l = append(l, a) }
	g := New(78, 5)
	switch k {
	case "pack":
		for _, n := range far {
			u := g.septets(n)
			for f := 0; f < 7; f += 6 {
				add(&rec.PackA{U: u, F: f})
				add(&rec.PackA{U: u[1:], F: f, USSD: true})
			}
		}
		for n := 0; n <= 26; n++ {
			for f := 0; f < 7; f++ {
				for m := 0; m < 4; m++ {
					u := make(rec.Bytes, n)
					for i := range u {
						switch m {
						case 0:
							u[i] = byte(1 + (i*37+n)%127)
						case 1:
							u[i] = 127
						case 2:
							u[i] = byte(i % 2 * 127)
						}
					}
					if n > 0 && m == 3 {
						u[n-1] = 13
					}
					add(&rec.PackA{U: u, F: f})
					add(&rec.PackA{U: u, F: f, USSD: true})
				}
			}
		}
	case "unpack":
		for _, n := range far {
			p := g.bytes(n)
			for f := 0; f < 7; f += 6 {
				add(&rec.UnpackA{P: p, F: f})
				add(&rec.UnpackA{P: p[1:], F: f, USSD: true})
			}
		}
		for n := 0; n <= 16; n++ {
			for f := 0; f < 7; f++ {
				for _, last := range []int{0, 13, 26, 27, 255, 12, 141} {
					for _, prev := range []int{0, 26, 27, 255} {
						p := make(rec.Bytes, n)
						for i := range p {
							p[i] = byte(i*91 + n)
						}
						if n > 1 {
							p[n-2] = byte(prev)
						}
						if n > 0 {
							p[n-1] = byte(last)
						}
						add(&rec.UnpackA{P: p, F: f})
						add(&rec.UnpackA{P: p, F: f, USSD: true})
					}
				}
			}
		}
	case "genc":
		for _, n := range far {
			add(&rec.GEncA{Cps: g.text(n, 1, 1, 0, 1), L: 1, S: 1})
		}
		for n := 0; n < 14; n++ {
			for via := 0; via < 3; via++ {
				add(&rec.GEncA{Cps: lockRunes[n], L: n, S: 0, Via: via})
				add(&rec.GEncA{Cps: shiftRunes[n], L: 0, S: n, Via: via})
				add(&rec.GEncA{Cps: append(append(rec.Ints{}, shiftRunes[n]...), lockRunes[n]...), L: n, S: n, Via: via})
			}
			for _, c := range lockRunes[n] {
				add(&rec.GEncA{Cps: rec.Ints{c}, L: n, S: -1})
				add(&rec.GEncA{Cps: rec.Ints{65, c, c}, L: 0, S: 0, Via: 1})
			}
			for _, c := range shiftRunes[n] {
				add(&rec.GEncA{Cps: rec.Ints{c}, L: 0, S: n})
				add(&rec.GEncA{Cps: rec.Ints{c, 65, c}, L: n, S: 0, Via: 2})
			}
			for _, c := range odd {
				add(&rec.GEncA{Cps: rec.Ints{c}, L: n, S: n, Via: n % 3})
			}
		}
	case "gdec":
		for _, n := range far {
			add(&rec.GDecA{G: g.septets(n), L: 2, S: 2})
		}
		for n := 0; n < 14; n++ {
			for c := 0; c < 256; c++ {
				add(&rec.GDecA{G: rec.Bytes{byte(c)}, L: n, Strict: c%2 == 0, Via: c % 3})
				add(&rec.GDecA{G: rec.Bytes{27, byte(c)}, S: n, Strict: c%2 == 1, Via: c % 3})
			}
			g := rec.Bytes{}
			h := rec.Bytes{}
			for c := 0; c < 128; c++ {
				g = append(g, byte(c))
				h = append(h, 27, byte(c))
			}
			for via := 0; via < 3; via++ {
				add(&rec.GDecA{G: g, L: n, S: n, Via: via})
				add(&rec.GDecA{G: h, L: n, S: n, Via: via})
				add(&rec.GDecA{G: g, L: n, S: -1, Via: via})
				add(&rec.GDecA{G: h, L: n, S: -1, Via: via})
			}
		}
		for _, g := range []rec.Bytes{{}, {27}, {27, 27}, {27, 27, 27}, {27, 27, 101}, {65, 27}, {27, 65, 27}, {27, 27, 27, 27}} {
			for s := -1; s < 14; s++ {
				for via := 0; via < 6; via++ {
					add(&rec.GDecA{G: g, S: s, Via: via % 3, Strict: via > 2})
				}
			}
		}
	case "ctab":
		for n := -1; n < 17; n++ {
			for via := 0; via < 2; via++ {
				add(&rec.CTabA{N: n, Shift: true, Via: via})
				add(&rec.CTabA{N: n, Via: via})
			}
		}
	case "uenc":
		for _, n := range far {
			add(&rec.UEncA{Cps: g.text(n, 0, 0, 4, 5, 6, 9)})
		}
		for _, c := range odd {
			for _, d := range odd {
				add(&rec.UEncA{Cps: rec.Ints{c, d}})
			}
			add(&rec.UEncA{Cps: rec.Ints{c}})
		}
		for c := 0xd7f0; c < 0xe010; c += 3 {
			add(&rec.UEncA{Cps: rec.Ints{65, c, 66}})
		}
		add(&rec.UEncA{})
	case "udec":
		us := []int{0x41, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0xfeff}
		ub := func(v ...int) rec.Bytes {
			b := rec.Bytes{}
			for _, u := range v {
				b = append(b, byte(u>>8), byte(u))
			}
			return b
		}
		add(&rec.UDecA{})
		for _, n := range far {
			add(&rec.UDecA{B: rec.Bytes(g.message(2, n))})
		}
		for _, a := range us {
			add(&rec.UDecA{B: ub(a)})
			add(&rec.UDecA{B: ub(a)[:1]})
			for _, b := range us {
				add(&rec.UDecA{B: ub(a, b)})
				add(&rec.UDecA{B: ub(a, b)[:3]})
				for _, c := range us {
					add(&rec.UDecA{B: ub(a, b, c)})
					for _, d := range us[1:6] {
						add(&rec.UDecA{B: ub(a, b, c, d)})
					}
				}
			}
		}
	case "udhm":
		for n := 0; n < 258; n++ {
			add(&rec.UdhmA{IEs: rec.IEs{{ID: n % 256, D: make(rec.Bytes, min(n, 255))}}})
			if n < 256 {
				add(&rec.UdhmA{IEs: rec.IEs{{ID: 0, D: rec.Bytes{1, 2, 3}}, {ID: n % 256, D: make(rec.Bytes, n)}}})
				add(&rec.UdhmA{IEs: rec.IEs{{ID: n % 256, D: make(rec.Bytes, n)}, {ID: 5, D: rec.Bytes{}}}})
			}
		}
		add(&rec.UdhmA{})
		for n := 120; n < 132; n++ {
			var u rec.IEs
			for i := 0; i < n; i++ {
				u = append(u, rec.IE{ID: i, D: rec.Bytes{}})
			}
			add(&rec.UdhmA{IEs: u})
		}
		for n := 82; n < 88; n++ {
			var u rec.IEs
			for i := 0; i < n; i++ {
				u = append(u, rec.IE{ID: 7, D: rec.Bytes{byte(i)}})
			}
			add(&rec.UdhmA{IEs: u})
		}
	case "udhu":
		for _, b := range []rec.Bytes{{}, {0}, {0, 1}, {1}, {1, 0}, {2, 0}, {2, 0, 0}, {2, 0, 1}, {2, 0, 1, 5}, {3, 0, 1, 5}, {3, 0, 0, 5}, {5, 0, 3, 1, 2, 1}, {5, 0, 3, 1, 2}, {5, 0, 2, 1, 2, 1}, {5, 0, 4, 1, 2, 1, 9}, {6, 8, 4, 1, 2, 3, 1}, {4, 0, 0, 1, 0}, {4, 0, 1, 1, 0}, {255, 0}, {4, 24, 0, 25, 1, 7}, {3, 24, 1, 2, 25, 1, 3}} {
			add(&rec.UdhuA{B: b})
		}
	case "ies":
		mk := func(id, n int) rec.IE {
			d := make(rec.Bytes, n)
			for i := range d {
				d[i] = byte(16*id + 7*i + n)
			}
			return rec.IE{ID: id, D: d}
		}
		for n := 0; n < 7; n++ {
			for m := 0; m < 7; m++ {
				for _, x := range [][2]int{{0, 8}, {8, 0}, {0, 0}, {8, 8}, {0, 5}, {5, 8}} {
					add(&rec.IesA{IEs: rec.IEs{mk(x[0], n), mk(x[1], m)}, ID: x[0]})
					add(&rec.IesA{IEs: rec.IEs{mk(x[0], 3), mk(x[1], m), mk(x[0], n)}, ID: x[1]})
				}
			}
		}
		add(&rec.IesA{ID: 0})
		// as many elements as a header can have, and more
		for _, n := range []int{16, 17, 64, 126, 127, 128, 129, 256, 257} {
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				u := make(rec.IEs, n)
				for j := range u {
					u[j] = rec.IE{ID: 9, D: rec.Bytes{}}
				}
				u[i] = mk(8, 4)
				add(&rec.IesA{IEs: u, ID: 8})
				u = append(rec.IEs{}, u...)
				u[n-1-i] = mk(0, 3)
				add(&rec.IesA{IEs: u, ID: 0})
				add(&rec.IesA{IEs: u, ID: 9})
			}
		}
	case "addrm":
		for toa := 0; toa < 256; toa++ {
			add(&rec.AddrmA{Ad: rec.Addr{TOA: toa, A: rec.Cps("12345")}})
			add(&rec.AddrmA{Ad: rec.Addr{TOA: toa, A: rec.Cps("0*#abc")}})
		}
		for n := 0; n < 260; n++ {
			a := make(rec.Ints, n)
			for i := range a {
				a[i] = int("0123456789*#abc"[(i*7+n)%15])
			}
			add(&rec.AddrmA{Ad: rec.Addr{TOA: 0x91, A: a}})
			if n < 150 {
				b := make(rec.Ints, n)
				for i := range b {
					b[i] = lockRunes[0][(i*31+n*7)%len(lockRunes[0])]
				}
				add(&rec.AddrmA{Ad: rec.Addr{TOA: 0xd0, A: b}})
			}
		}
		for c := 0; c < 256; c++ {
			add(&rec.AddrmA{Ad: rec.Addr{TOA: 0x91, A: rec.Ints{49, c, 50}}})
			add(&rec.AddrmA{Ad: rec.Addr{TOA: 0xd0, A: rec.Ints{49, c}}})
		}
		for _, c := range lockRunes[0] {
			for n := 1; n < 10; n++ {
				a := rec.Ints{}
				for i := 0; i < n-1; i++ {
					a = append(a, 65+i)
				}
				add(&rec.AddrmA{Ad: rec.Addr{TOA: 0xd0, A: append(a, c)}})
			}
		}
		for _, c := range shiftRunes[0] {
			add(&rec.AddrmA{Ad: rec.Addr{TOA: 0xd0, A: rec.Ints{c}}})
		}
	case "addru":
		for n := 0; n < 256; n += 1 {
			for _, toa := range []int{0x91, 0xd0, 0x81} {
				b := rec.Bytes{byte(n), byte(toa)}
				for i := 0; i < (n+1)/2; i++ {
					b = append(b, byte(0x21+i*0x11%0x70))
				}
				if n%2 == 1 {
					b[len(b)-1] |= 0xf0
				}
				add(&rec.AddruA{B: b})
				add(&rec.AddruA{B: b[:len(b)-1]})
				if n%2 == 1 {
					c := append(rec.Bytes{}, b...)
					c[len(c)-1] &= 0x4f
					add(&rec.AddruA{B: c})
				}
			}
		}
		for x := 0; x < 256; x++ {
			add(&rec.AddruA{B: rec.Bytes{2, 0x91, byte(x)}})
			add(&rec.AddruA{B: rec.Bytes{1, 0x91, byte(x)}})
			add(&rec.AddruA{B: rec.Bytes{4, byte(x), 0x21, 0x43}})
			add(&rec.AddruA{B: rec.Bytes{3, byte(x), 0x21, 0xf3}})
			add(&rec.AddruA{B: rec.Bytes{4, 0xd0, byte(x), 0x43}})
			add(&rec.AddruA{B: rec.Bytes{3, 0xd0, byte(x), 0xf3}})
		}
		add(&rec.AddruA{})
		add(&rec.AddruA{B: rec.Bytes{0}})
		add(&rec.AddruA{B: rec.Bytes{1}})
		add(&rec.AddruA{B: rec.Bytes{0, 0x91}})
	case "num":
		nums := []string{"", "+", "++1", "1", "+1", "0123456789", "+*#abc", "1+"}
		for toa := 0; toa < 256; toa++ {
			add(&rec.NumA{Ad: rec.Addr{TOA: toa, A: rec.Cps("123")}, Num: rec.Cps(nums[toa%len(nums)]), Ton: toa % 8, NP: toa / 16})
			add(&rec.NumA{Ad: rec.Addr{TOA: toa, A: rec.Cps("123")}, Num: rec.Cps("77"), Ton: toa / 32, NP: toa % 16})
		}
		for _, n := range nums {
			for _, m := range nums {
				add(&rec.NumA{Ad: rec.Addr{TOA: 0x91, A: rec.Cps(n)}, Num: rec.Cps(m), Ton: 1, NP: 1})
			}
		}
	case "err":
		fixedErrs(add)
	case "semie":
		for c := 0; c < 300; c++ {
			add(&rec.SemieA{A: rec.Ints{c}})
			add(&rec.SemieA{A: rec.Ints{c, 49}})
			add(&rec.SemieA{A: rec.Ints{49, 50, c}})
		}
		add(&rec.SemieA{})
	case "semid":
		for n := 0; n < 9; n++ {
			for m := 0; m < 5; m++ {
				for x := 0; x < 256; x += 5 {
					b := rec.Bytes{}
					for i := 0; i < m; i++ {
						b = append(b, byte(0x21+i))
					}
					if m > 0 {
						b[m-1] = byte(x)
					}
					add(&rec.SemidA{N: n, B: b})
				}
			}
		}
	case "bcd":
		for v := -300; v < 300; v++ {
			add(&rec.BcdA{V: v})
			add(&rec.BcdA{V: v, S: true})
		}
	case "bcdd":
		for v := 0; v < 256; v++ {
			add(&rec.BcddA{B: v})
			add(&rec.BcddA{B: v, S: true})
		}
	case "tsm":
		for y := 1960; y < 2080; y++ {
			add(&rec.TsmA{T: rec.Ints{y, 1 + y%12, 1 + y%28, y % 24, y % 60, (y * 7) % 60, 900 * (y%159 - 79)}})
		}
		for q := -100; q <= 100; q++ {
			add(&rec.TsmA{T: rec.Ints{2020, 2, 29, 23, 59, 59, 900 * q}})
			add(&rec.TsmA{T: rec.Ints{1999, 12, 31, 0, 0, 0, 900*q + 899}})
			add(&rec.TsmA{T: rec.Ints{2000, 1, 1, 0, 30, 0, 900*q - 450}})
		}
		for d := 1; d <= 31; d++ {
			add(&rec.TsmA{T: rec.Ints{2021, 1, d, d % 24, d, 59 - d, 3600}})
		}
		for m := 1; m <= 12; m++ {
			add(&rec.TsmA{T: rec.Ints{2021, m, 28, m, m, m, -3600}})
		}
		for x := 0; x < 60; x++ {
			add(&rec.TsmA{T: rec.Ints{2021, 6, 15, x % 24, x, 59 - x, 0}})
		}
	case "tsu":
		base := rec.Bytes{0x12, 0x50, 0x51, 0x32, 0x54, 0x95, 0x42}
		for i := 0; i < 7; i++ {
			for x := 0; x < 256; x++ {
				b := append(rec.Bytes{}, base...)
				b[i] = byte(x)
				add(&rec.TsuA{B: b})
			}
		}
		for n := 0; n < 10; n++ {
			add(&rec.TsuA{B: append(append(rec.Bytes{}, base...), 1, 2, 3)[:n]})
		}
	case "vpm":
		for c := 0; c < 256; c++ {
			s := relPeriod(c)
			for _, d := range []int{-1, 0, 1} {
				add(&rec.VpmA{VP: rec.VP{F: 2, S: s + d}})
				add(&rec.VpmA{VP: rec.VP{F: 1, S: s + d, EFI: 1}})
			}
			add(&rec.VpmA{VP: rec.VP{F: 2, S: s, NS: 999999999}})
			add(&rec.VpmA{VP: rec.VP{F: 2, S: s - 1, NS: 999999999}})
			add(&rec.VpmA{VP: rec.VP{F: 1, S: c, EFI: 2}})
			add(&rec.VpmA{VP: rec.VP{F: 1, S: c, EFI: 0x82, NS: 1}})
			add(&rec.VpmA{VP: rec.VP{F: 1, S: 100 * c, EFI: c}})
			add(&rec.VpmA{VP: rec.VP{F: 1, S: 3600*(c%100) + 60*(c%60) + c/5, EFI: 3}})
			add(&rec.VpmA{VP: rec.VP{F: c, S: 300}})
			add(&rec.VpmA{VP: rec.VP{F: 3, T: rec.Ints{1970 + c%100, 1 + c%12, 1 + c%28, c % 24, c % 60, c % 60, 900 * (c%159 - 79)}}})
		}
		for _, s := range []int{0, 1, 254, 255, 256, 299, 300, 301, 359999, 86399, 2147483647} {
			for e := 0; e < 8; e++ {
				add(&rec.VpmA{VP: rec.VP{F: 1, S: s, EFI: e}})
			}
			add(&rec.VpmA{VP: rec.VP{F: 2, S: s}})
		}
	case "vpu":
		for c := 0; c < 256; c++ {
			add(&rec.VpuA{F: 2, B: rec.Bytes{byte(c)}})
			add(&rec.VpuA{F: 2, B: rec.Bytes{byte(c), 9}})
			for e := 0; e < 4; e++ {
				add(&rec.VpuA{F: 1, B: rec.Bytes{byte(e), byte(c), 0, 0, 0, 0, 0}})
				add(&rec.VpuA{F: 1, B: rec.Bytes{byte(e), 0, byte(c), 0, 0, 0, 0}})
				add(&rec.VpuA{F: 1, B: rec.Bytes{byte(e), 0, 0, byte(c), 0, 0, 0}})
			}
			add(&rec.VpuA{F: 1, B: rec.Bytes{byte(c), 0, 0, 0, 0, 0, 0}})
			add(&rec.VpuA{F: 1, B: rec.Bytes{byte(c), 0x21, 0x31, 0x41, 0, 0, 0}})
			add(&rec.VpuA{F: c, B: rec.Bytes{1, 2, 3, 4, 5, 6, 7}})
		}
		for e := 0; e < 4; e++ {
			for i := 1; i < 7; i++ {
				for _, v := range []byte{1, 0x80, 0x10} {
					b := make(rec.Bytes, 7)
					b[0] = byte(e)
					b[i] = v
					add(&rec.VpuA{F: 1, B: b})
				}
			}
		}
		for f := 0; f < 4; f++ {
			for n := 0; n < 9; n++ {
				add(&rec.VpuA{F: f, B: rec.Bytes{2, 0, 0, 0, 0, 0, 0, 0, 0}[:n]})
				add(&rec.VpuA{F: f, B: rec.Bytes{0x12, 0x50, 0x51, 0x32, 0x54, 0x95, 0x42, 1, 2}[:n]})
			}
		}
	case "dcs":
		for d := 0; d < 256; d++ {
			add(&rec.DcsA{D: d})
		}
	default:
		l = fixedTPDU(k)
	}
	return l
}

func relPeriod(c int) int {
	switch {
	case c < 144:
		return 300 * (c + 1)
	case c < 168:
		return 43200 + 1800*(c-143)
	case c < 197:
		return 86400 * (c - 166)
	}
	return 604800 * (c - 192)
}

func (g G) ie() rec.IE {
	switch g.IntN(8) {
	case 0:
		return rec.IE{ID: 0, D: g.bytes(g.one(3, 3, 3, 2, 4))}
	case 1:
		return rec.IE{ID: 8, D: g.bytes(g.one(4, 4, 4, 3, 5))}
	case 2:
		return rec.IE{ID: g.one(24, 25), D: rec.Bytes{byte(g.IntN(16))}}
	case 3:
		return rec.IE{ID: g.one(24, 25), D: g.bytes(g.IntN(3))}
	case 4:
		return rec.IE{ID: g.one(5, 4, 112, 10), D: g.bytes(g.IntN(6))}
	}
	return rec.IE{ID: g.octet(), D: g.bytes(g.small(20))}
}

// ies: a header of at most limit octets
func (g G) ies(limit int) rec.IEs {
	var u rec.IEs
	n := 0
	if g.p(2) {
		for k := g.rng(0, limit/2); k > 0; k-- {
			u = append(u, rec.IE{ID: g.one(0, 8, 9, g.octet()), D: rec.Bytes{}})
		}
		return u
	}
	for k := g.one(0, 1, 1, 1, 2, 2, 3, 5); k > 0; k-- {
		e := g.ie()
		if n+2+len(e.D) <= limit {
			u = append(u, e)
			n += 2 + len(e.D)
		}
	}
	return u
}

var digits = "0123456789*#abc"

func (g G) digits(n int) rec.Ints {
	a := make(rec.Ints, n)
	for i := range a {
		if n > 0 && g.p(70) {
			a[i] = 48 + g.IntN(10)
		} else {
			a[i] = int(digits[g.IntN(15)])
		}
	}
	return a
}

// addr: a valid address
func (g G) addr() rec.Addr {
	toa := g.one(0x91, 0x91, 0x81, 0xa1, 0x80, g.octet())
	if g.p(25) {
		return rec.Addr{TOA: 0x50 | g.octet()&0x8f, A: g.text(g.small(20), 0, 0, 2)}
	}
	if toa>>4&7 == 5 {
		return rec.Addr{TOA: toa, A: g.text(g.small(14), 0, 0, 2)}
	}
	return rec.Addr{TOA: toa, A: g.digits(g.small(24))}
}

// anyAddr: sometimes not a valid one
func (g G) anyAddr() rec.Addr {
	a := g.addr()
	switch g.IntN(12) {
	case 0:
		a.A = append(append(rec.Ints{}, a.A...), g.cp(g.IntN(9), 0, 0))
	case 1:
		a.TOA = g.octet()
	case 2:
		a.A = g.digits(g.near(255, 3))
	case 3:
		a = rec.Addr{TOA: 0xd0, A: g.text(g.near(145, 3), 0, 0, 2)}
	}
	return a
}

func (g G) time() rec.Ints {
	m := g.rng(1, 12)
	y := g.rng(1970, 2069)
	last := 28
	switch m {
	case 1, 3, 5, 7, 8, 10, 12:
		last = 31
	case 4, 6, 9, 11:
		last = 30
	default:
		if y%4 == 0 {
			last = 29
		}
	}
	d := g.rng(1, last)
	if g.p(20) {
		d = last
	}
	if g.p(30) {
		// offsets of time zones that there are, some of which change theirs
		return rec.Ints{y, m, d, g.rng(0, 23), g.rng(0, 59), g.rng(0, 59), 900 * g.one(4, 8, -16, -20, 42, 44, 23, -38)}
	}
	return rec.Ints{y, m, d, g.rng(0, 23), g.rng(0, 59), g.rng(0, 59), 900 * g.one(0, 4, -4, g.rng(-79, 79), g.rng(-79, 79), 79, -79)}
}

func bcdOctet(v int) byte { return byte(v%10<<4 | v/10) }

func (g G) timeOctets() rec.Bytes {
	t := g.time()
	q := t[6] / 900
	z := bcdOctet(max(q, -q))
	if q < 0 {
		z |= 8
	}
	b := rec.Bytes{bcdOctet(t[0] % 100), bcdOctet(t[1]), bcdOctet(t[2]), bcdOctet(t[3]), bcdOctet(t[4]), bcdOctet(t[5]), z}
	if g.p(15) {
		b[g.IntN(7)] = byte(g.octet())
	}
	return b
}

func (g G) vp() rec.VP {
	switch g.IntN(4) {
	case 1:
		e := g.one(0, 1, 2, 3) | g.one(0, 0, 0x80, 0x40, 0xf8, 8)
		s := g.one(g.IntN(256), g.IntN(360000), relPeriod(g.IntN(256))+g.rng(-1, 1))
		if e&7 == 3 {
			s %= 360000
		}
		return rec.VP{F: 1, EFI: e, S: s}
	case 2:
		return rec.VP{F: 2, S: g.one(relPeriod(g.IntN(256))+g.rng(-1, 1), g.IntN(90000), g.IntN(40000000))}
	case 3:
		return rec.VP{F: 3, T: g.time()}
	}
	return rec.VP{}
}

func dropTo(b rec.Bytes, n int) rec.Bytes { return append(rec.Bytes{}, b[:max(0, min(n, len(b)))]...) }

// mutate octets: flip, truncate, extend, change one
func (g G) mutate(b rec.Bytes) rec.Bytes {
	b = append(rec.Bytes{}, b...)
	for k := g.one(1, 1, 1, 2, 3); k > 0; k-- {
		switch g.IntN(8) {
		case 0:
			b = dropTo(b, len(b)-g.rng(1, 3))
		case 1:
			b = append(b, g.bytes(g.rng(1, 3))...)
		case 2:
			b = dropTo(b, g.IntN(len(b)+1))
		case 3:
			if len(b) > 0 {
				i := g.IntN(len(b))
				b = append(b[:i], b[i+1:]...)
			}
		case 4:
			i := g.IntN(len(b) + 1)
			b = append(b[:i], append(g.bytes(1), b[i:]...)...)
		case 5:
			if len(b) > 0 {
				i := g.IntN(len(b))
				b[i] += byte(g.one(1, 255, 2, 254, 16, 240))
			}
		case 6:
			if len(b) > 0 {
				b[g.IntN(len(b))] ^= 1 << g.IntN(8)
			}
		default:
			if len(b) > 0 {
				b[g.IntN(len(b))] = byte(g.octet())
			}
		}
	}
	return b
}

// Random returns random arguments of a kind.
func Random(k string, g G) any {
	switch k {
	case "col07", "col08", "col09", "colc", "colf":
		return randomCol(k, g)
	case "e2e":
		return g.e2e()
	case "err":
		return g.err()
	case "iso":
		return g.iso()
	case "conc":
		return g.conc()
	case "reuse":
		return g.reuse()
	case "shared":
		return g.shared()
	case "sdecode", "sdeliver", "ssubmit", "scount", "chars":
		return g.tools(k)
	case "pack":
		n := g.long(200)
		u := g.septets(n)
		if len(u) > 0 && g.p(20) {
			u[len(u)-1] = 13
		}
		if len(u) > 1 && g.p(10) {
			u[len(u)-2] = 13
		}
		return &rec.PackA{U: u, F: g.IntN(7), USSD: g.p(50)}
	case "unpack":
		p := g.bytes(g.long(180))
		if n := len(p); n > 0 {
			switch g.IntN(6) {
			case 0:
				p[n-1] = byte(13<<1 | g.IntN(2))
			case 1:
				p[n-1] = 13
				if n > 1 {
					p[n-2] = byte(13<<1 | g.IntN(2))
				}
			case 2:
				p[n-1] &= 1
			}
		}
		return &rec.UnpackA{P: p, F: g.IntN(7), USSD: g.p(50)}
	case "genc":
		l, s := g.nli(), g.rng(-1, 13)
		z := max(s, 0)
		n := g.long(60)
		var t rec.Ints
		switch g.IntN(6) {
		case 0:
			t = g.text(n, l, z, 0)
		case 1:
			t = g.text(n, l, z, 0, 1)
		case 2:
			t = g.text(n, l, z, 0, 0, 0, 0, 0, 0, 0, 0, 0, 6)
		case 3:
			t = g.text(n, l, z, 0, 0, 0, 0, 0, 7)
		case 4:
			t = g.text(n, l, z, 0, 1, 0, 1, 8)
		default:
			t = g.text(n, l, z, 1)
		}
		return &rec.GEncA{Cps: t, L: l, S: s, Via: g.IntN(3)}
	case "gdec":
		b := g.septets(g.long(60))
		if g.p(10) && len(b) > 0 {
			b[g.IntN(len(b))] = byte(g.octet())
		}
		return &rec.GDecA{G: b, L: g.nli(), S: g.rng(-1, 13), Strict: g.p(40), Via: g.IntN(3)}
	case "uenc":
		t := g.text(g.long(40), 0, 0, 4, 5, 6, 9)
		for i := range t {
			if g.p(4) {
				t[i] = g.one(0xd800+g.IntN(2048), -1, 0x110000+g.IntN(1000), -0x7fffffff, 0x7fffffff)
			}
		}
		return &rec.UEncA{Cps: t}
	case "udec":
		n := g.long(60)
		b := make(rec.Bytes, 0, 2*n)
		for i := 0; i < n; i++ {
			u := g.one(0x41, g.IntN(65536), 0xd800+g.IntN(1024), 0xdc00+g.IntN(1024), 0xd800+g.IntN(2048))
			b = append(b, byte(u>>8), byte(u))
		}
		if g.p(5) {
			b = append(b, byte(g.octet()))
		}
		return &rec.UDecA{B: b}
	case "udhm":
		u := g.ies(260)
		if g.p(15) {
			n := 0
			for _, e := range u {
				n += 2 + len(e.D)
			}
			if r := g.near(255, 2) - n - 2; r >= 0 && r < 256 {
				u = append(u, rec.IE{ID: g.octet(), D: g.bytes(r)})
			}
		}
		return &rec.UdhmA{IEs: u}
	case "udhu":
		var b rec.Bytes
		m, _ := tpduUDH(g.ies(250)).MarshalBinary()
		b = append(b, m...)
		switch g.IntN(4) {
		case 0:
			b = append(b, g.bytes(g.IntN(5))...)
		case 1, 2:
			b = g.mutate(b)
		default:
			if g.p(20) {
				b = g.bytes(g.small(40))
			}
		}
		return &rec.UdhuA{B: b}
	case "ies":
		var u rec.IEs
		for n := g.one(g.IntN(7), g.IntN(7), g.IntN(7), g.IntN(7), g.IntN(300)); n > 0; n-- {
			u = append(u, g.ie())
		}
		return &rec.IesA{IEs: u, ID: g.one(0, 8, 24, 25, 5, g.octet())}
	case "addrm":
		return &rec.AddrmA{Ad: g.anyAddr()}
	case "addru":
		a := g.anyAddr()
		ad := tpdu.NewAddress()
		ad.TOA, ad.Addr = byte(a.TOA), a.A.Text()
		b, _ := ad.MarshalBinary()
		r := append(rec.Bytes{}, b...)
		switch g.IntN(4) {
		case 0:
			r = append(r, g.bytes(g.IntN(5))...)
		case 1, 2:
			r = g.mutate(r)
		}
		return &rec.AddruA{B: r}
	case "num":
		n := g.digits(g.small(20))
		if g.p(50) {
			n = append(rec.Ints{43}, n...)
		}
		return &rec.NumA{Ad: g.addr(), Num: n, Ton: g.IntN(8), NP: g.IntN(16)}
	case "semie":
		a := g.digits(g.small(40))
		if g.p(30) && len(a) > 0 {
			a[g.IntN(len(a))] = g.one(43, 65, 100, 0x20, 0x31ff, 0x130, g.IntN(128))
		}
		return &rec.SemieA{A: a}
	case "semid":
		b := g.bytes(g.small(20))
		if g.p(70) {
			for i := range b {
				b[i] = byte(g.IntN(15)<<4 | g.IntN(15))
			}
			if len(b) > 0 && g.p(50) {
				b[len(b)-1] |= 0xf0
			}
		}
		return &rec.SemidA{N: max(0, 2*len(b)-g.rng(-3, 4)), B: b}
	case "bcd":
		return &rec.BcdA{V: g.rng(-1000, 1000), S: g.p(50)}
	case "bcdd":
		return &rec.BcddA{B: g.octet(), S: g.p(50)}
	case "tsm":
		t := g.time()
		switch g.IntN(10) {
		case 0:
			t[0] = g.rng(1800, 2200)
			t[2] = min(t[2], 28)
		case 1:
			t[6] = g.rng(-90000, 90000)
		case 2:
			t[6] = 900 * g.rng(-130, 130)
		}
		return &rec.TsmA{T: t}
	case "tsu":
		b := g.timeOctets()
		if g.p(10) {
			b = g.mutate(b)
		}
		return &rec.TsuA{B: b}
	case "vpm":
		v := g.vp()
		if g.p(30) {
			v.NS = g.IntN(1000000000)
		}
		if g.p(10) {
			v.F = g.IntN(6)
		}
		if g.p(5) {
			v.EFI = g.octet()
		}
		if v.F == 3 && v.T == nil {
			v.T = g.time()
		}
		if v.F == 3 && g.p(10) {
			v.T[6] = 900 * g.rng(-100, 100)
		}
		return &rec.VpmA{VP: v}
	case "vpu":
		f := g.one(0, 1, 1, 1, 2, 3, 3)
		var b rec.Bytes
		switch f {
		case 1:
			b = make(rec.Bytes, 7)
			b[0] = byte(g.one(0, 1, 2, 3, g.octet()))
			b[1] = byte(g.octet())
			if b[0]&7 == 3 || g.p(5) {
				b[1], b[2], b[3] = bcdOctet(g.IntN(100)), bcdOctet(g.IntN(100)), bcdOctet(g.IntN(100))
			}
			if g.p(20) {
				b[g.IntN(7)] = byte(g.octet())
			}
		case 2:
			b = g.bytes(1)
		case 3:
			b = g.timeOctets()
		}
		switch g.IntN(6) {
		case 0:
			b = append(b, g.bytes(3)...)
		case 1:
			b = g.mutate(b)
		}
		return &rec.VpuA{F: f, B: b}
	case "vpe":
		a := &rec.VpeA{}
		for n := g.rng(1, 5); n > 0; n-- {
			v := g.vp()
			e := rec.VPEdit{E: oneOf(g, "abs", "rel", "enh"), T: v.T, S: v.S, EFI: v.EFI}
			if e.E == "abs" {
				e.T = g.time()
			}
			if g.p(30) {
				e.NS = g.IntN(1000000000)
			}
			a.Edits = append(a.Edits, e)
		}
		return a
	case "ctab":
		return &rec.CTabA{N: g.rng(-1, 300), Shift: g.p(50), Via: g.IntN(2)}
	case "dcs":
		return &rec.DcsA{D: g.octet()}
	}
	return randomTPDU(k, g)
}

func tpduUDH(ies rec.IEs) tpdu.UserDataHeader {
	var u tpdu.UserDataHeader
	for _, e := range ies {
		u = append(u, tpdu.InformationElement{ID: byte(e.ID), Data: append([]byte{}, e.D...)})
	}
	return u
}
