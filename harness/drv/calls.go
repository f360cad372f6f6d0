package drv

import (
	"encoding/hex"
	"errors"
	"slices"
	"sort"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/bcd"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/semioctet"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"verif/rec"
)

// Run makes the call of kind k with the arguments a, and returns its results.
func Run(k string, a any) any {
	switch k {
	case "pack":
		return pack(a.(*rec.PackA))
	case "unpack":
		return unpack(a.(*rec.UnpackA))
	case "genc":
		return genc(a.(*rec.GEncA))
	case "gdec":
		return gdec(a.(*rec.GDecA))
	case "ctab":
		return ctab(a.(*rec.CTabA))
	case "uenc":
		return uenc(a.(*rec.UEncA))
	case "udec":
		return udec(a.(*rec.UDecA))
	case "dec", "split":
		return dec(a.(*rec.DecA))
	case "dud":
		return dud(a.(*rec.DUDA))
	case "udhm":
		return udhm(a.(*rec.UdhmA))
	case "udhu":
		return udhu(a.(*rec.UdhuA))
	case "ies":
		return ies(a.(*rec.IesA))
	case "addrm":
		return addrm(a.(*rec.AddrmA))
	case "addru":
		return addru(a.(*rec.AddruA))
	case "num":
		return num(a.(*rec.NumA))
	case "semie":
		return semie(a.(*rec.SemieA))
	case "semid":
		return semid(a.(*rec.SemidA))
	case "bcd":
		return bcde(a.(*rec.BcdA))
	case "bcdd":
		return bcdd(a.(*rec.BcddA))
	case "tsm":
		return tsm(a.(*rec.TsmA))
	case "tsu":
		return tsu(a.(*rec.TsuA))
	case "vpm":
		return vpm(a.(*rec.VpmA))
	case "vpu":
		return vpu(a.(*rec.VpuA))
	case "vpe":
		return vpe(a.(*rec.VpeA))
	case "dcs":
		return dcs(a.(*rec.DcsA))
	case "tm":
		return tm(a.(*rec.TmA))
	case "tmo":
		return tmo(a.(*rec.TmA))
	case "tu":
		return tu(a.(*rec.TuA))
	case "names":
		return names(a.(*rec.NamesA))
	case "err":
		return errOf(a.(*rec.ErrA))
	case "iei":
		return iei(a.(*rec.IeiA))
	case "str":
		return str(a.(*rec.StrA))
	case "rej":
		return rej(a.(*rec.TuA))
	case "rejm":
		return rejm(a.(*rec.TmA))
	case "rejp":
		return rejp(a.(*rec.PduuA))
	case "seg":
		return seg(a.(*rec.SegA))
	case "blk":
		return blk(a.(*rec.BlkA))
	case "eud":
		return eud(a.(*rec.EudA))
	case "hist":
		return hist(a.(*rec.HistA))
	case "wf":
		return wf(a.(*rec.WfA))
	case "e2e":
		return e2e(a.(*rec.E2EA))
	case "iso":
		return iso(a.(*rec.IsoA))
	case "reuse":
		return reuse(a.(*rec.ReuseA))
	case "conc":
		return conc(a.(*rec.ConcA))
	case "shared":
		return shared(a.(*rec.SharedA))
	case "icm":
		return icm(a.(*rec.IcmA))
	case "edit":
		return edit(a.(*rec.EditA))
	case "build":
		return build(a.(*rec.BuildA))
	case "pdum":
		return pdum(a.(*rec.PdumA))
	case "pduu":
		return pduu(a.(*rec.PduuA))
	case "pduh":
		return pduh(a.(*rec.PduhA))
	case "sdecode":
		return sdecode(a.(*rec.SdecodeA))
	case "sdeliver":
		return sdeliver(a.(*rec.SdeliverA))
	case "ssubmit":
		return ssubmit(a.(*rec.SsubmitA))
	case "scount":
		return scount(a.(*rec.ScountA))
	case "chars":
		return chars(a.(*rec.CharsA))
	case "col07", "col08", "col09", "colc", "colf":
		return col(a.(*rec.ColA))
	}
	panic("unknown kind " + k)
}

func pack(a *rec.PackA) *rec.PackR {
	if a.USSD {
		p := gsm7.Pack7BitUSSD(cp(a.U), a.F)
		return &rec.PackR{P: p, U: gsm7.Unpack7BitUSSD(cp(p), a.F)}
	}
	p := gsm7.Pack7Bit(cp(a.U), a.F)
	return &rec.PackR{P: p, U: gsm7.Unpack7Bit(cp(p), a.F)}
}

func unpack(a *rec.UnpackA) *rec.UnpackR {
	if a.USSD {
		return &rec.UnpackR{U: gsm7.Unpack7BitUSSD(cp(a.P), a.F)}
	}
	return &rec.UnpackR{U: gsm7.Unpack7Bit(cp(a.P), a.F)}
}

func encoder(l, s, via int) gsm7.Encoder {
	var e gsm7.Encoder
	switch via % 3 {
	case 0:
		opts := []gsm7.EncoderOption{}
		if l != 0 {
			opts = append(opts, gsm7.WithCharset(l))
		}
		if s > 0 {
			opts = append(opts, gsm7.WithExtCharset(s))
		}
		e = gsm7.NewEncoder(opts...)
	case 1:
		e = gsm7.NewEncoder(gsm7.WithExtCharset(max(s, 0)), gsm7.WithCharset(l))
	case 2:
		e = gsm7.NewEncoder().WithCharset(charset.NewEncoder(l)).WithExtCharset(charset.NewExtEncoder(max(s, 0)))
	}
	if s < 0 {
		e = e.WithExtCharset(nil)
	}
	return e
}

func decoder(l, s int, strict bool, via int) gsm7.Decoder {
	var d gsm7.Decoder
	switch via % 3 {
	case 0:
		opts := []gsm7.DecoderOption{}
		if l != 0 {
			opts = append(opts, gsm7.WithCharset(l))
		}
		if s > 0 {
			opts = append(opts, gsm7.WithExtCharset(s))
		}
		if s < 0 {
			opts = append(opts, gsm7.WithoutExtCharset)
		}
		if strict {
			opts = append(opts, gsm7.Strict)
		}
		return gsm7.NewDecoder(opts...)
	case 1:
		d = gsm7.NewDecoder(gsm7.WithExtCharset(max(s, 0)), gsm7.WithCharset(l))
	case 2:
		d = gsm7.NewDecoder().WithCharset(charset.NewDecoder(l)).WithExtCharset(charset.NewExtDecoder(max(s, 0)))
	}
	if s < 0 {
		d = d.WithExtCharset(nil)
	}
	if strict {
		d = d.Strict()
	}
	return d
}

func genc(a *rec.GEncA) *rec.GEncR { return gencWith(a, nil) }

func gencWith(a *rec.GEncA, c *codecs) *rec.GEncR {
	e := c.encoder(a.L, a.S, a.Via)
	g, err := e.Encode([]byte(a.Cps.Text()))
	r := &rec.GEncR{OK: err == nil}
	if err == nil {
		r.G = g
		d := c.decoder(a.L, a.S, true, a.Via)
		b, err := d.Decode(cp(g))
		if err != nil {
			b = []byte("!" + err.Error())
		}
		r.B = b
	}
	return r
}

func gdec(a *rec.GDecA) *rec.GDecR { return gdecWith(a, nil) }

func gdecWith(a *rec.GDecA, c *codecs) *rec.GDecR {
	d := c.decoder(a.L, a.S, a.Strict, a.Via)
	b, err := d.Decode(cp(a.G))
	r := &rec.GDecR{OK: err == nil}
	if err == nil {
		r.B = b
	}
	return r
}

func ctab(a *rec.CTabA) *rec.CTabR {
	var d charset.Decoder
	var e charset.Encoder
	switch {
	case a.Via == 2 && a.Shift && a.N == 0:
		e, d = charset.DefaultExtEncoder(), charset.DefaultExtDecoder()
	case a.Via == 2 && a.Shift:
		e, d = charset.NewExtEncoder(a.N), charset.NewExtDecoder(a.N)
	case a.Via == 2 && a.N == 0:
		e, d = charset.DefaultEncoder(), charset.DefaultDecoder()
	case a.Via == 2:
		e, d = charset.NewEncoder(a.N), charset.NewDecoder(a.N)
	case a.Shift && a.N == 0 && a.Via == 0:
		d, e = charset.DefaultExtDecoder(), charset.DefaultExtEncoder()
	case a.Shift:
		d, e = charset.NewExtDecoder(a.N), charset.NewExtEncoder(a.N)
	case a.N == 0 && a.Via == 0:
		d, e = charset.DefaultDecoder(), charset.DefaultEncoder()
	default:
		d, e = charset.NewDecoder(a.N), charset.NewEncoder(a.N)
	}
	r := &rec.CTabR{}
	for k, v := range d {
		r.Dec = append(r.Dec, rec.Ints{int(k), int(v)})
	}
	for k, v := range e {
		r.Enc = append(r.Enc, rec.Ints{int(k), int(v)})
	}
	for _, l := range []rec.L[rec.Ints]{r.Dec, r.Enc} {
		sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	}
	return r
}

func runes(v rec.Ints) []rune {
	r := make([]rune, len(v))
	for i, c := range v {
		r[i] = rune(c)
	}
	return r
}

func cps(r []rune) rec.Ints {
	v := make(rec.Ints, len(r))
	for i, c := range r {
		v[i] = int(c)
	}
	return v
}

func uenc(a *rec.UEncA) *rec.UEncR {
	b := ucs2.Encode(runes(a.Cps))
	d := udec(&rec.UDecA{B: b})
	return &rec.UEncR{B: b, St: d.St, Cps: d.Cps}
}

func udec(a *rec.UDecA) *rec.UDecR {
	m, err := ucs2.Decode(cp(a.B))
	var ds ucs2.ErrDanglingSurrogate
	switch {
	case err == nil:
		return &rec.UDecR{St: "ok", Cps: cps(m)}
	case errors.As(err, &ds):
		return &rec.UDecR{St: "dangling", Cps: cps(m), D: cp(ds)}
	case errors.Is(err, ucs2.ErrInvalidLength):
		return &rec.UDecR{St: "odd"}
	}
	return &rec.UDecR{St: "other"}
}

func dec(a *rec.DecA) *rec.DecR {
	var segs []*tpdu.TPDU
	for _, s := range a.Segs {
		segs = append(segs, &tpdu.TPDU{DCS: tpdu.DCS(s.DCS), UDH: toUDH(s.UDH), UD: cp(s.UD)})
	}
	var opts []sms.DecodeOption
	if !a.Def {
		p := parts(77, a.Lock, a.Shift)
		opts = append(opts, sms.WithDefaultCharset)
		if len(a.Lock) > 0 {
			opts = append(opts, sms.WithLockingCharset(p[0]...))
		}
		if len(a.Shift) > 0 {
			opts = append(opts, sms.WithShiftCharset(p[1]...))
		}
		if a.Via == 1 && len(a.Lock) == len(a.Shift) {
			same := true
			for i := range a.Lock {
				same = same && a.Lock[i] == a.Shift[i]
			}
			if same {
				opts = []sms.DecodeOption{sms.WithCharset(a.Lock...)}
			}
		}
	}
	b, err := sms.Decode(segs, opts...)
	if err != nil {
		return &rec.DecR{}
	}
	return &rec.DecR{OK: true, B: b}
}

func dud(a *rec.DUDA) *rec.DUDR {
	opts := []tpdu.UDDecodeOption{tpdu.WithLockingCharset(a.Lock...), tpdu.WithShiftCharset(a.Shift...)}
	if a.Via == 1 {
		opts = []tpdu.UDDecodeOption{tpdu.WithAllCharsets}
	}
	b, err := tpdu.DecodeUserData(cp(a.UD), toUDH(a.UDH), tpdu.Alphabet(a.Alpha), opts...)
	var ds ucs2.ErrDanglingSurrogate
	switch {
	case err == nil:
		return &rec.DUDR{St: "ok", B: b}
	case errors.As(err, &ds):
		return &rec.DUDR{St: "dangling", B: b}
	}
	return &rec.DUDR{St: "err"}
}

func udhm(a *rec.UdhmA) *rec.UdhmR {
	u := toUDH(a.IEs)
	b, err := u.MarshalBinary()
	r := &rec.UdhmR{OK: err == nil, UDHL: u.UDHL()}
	if err != nil {
		return r
	}
	r.B = b
	if len(b) > 0 {
		var v tpdu.UserDataHeader
		n, err := v.UnmarshalBinary(append(cp(b), 7, 1, 2))
		r.UOK, r.N, r.IEs = err == nil, n, fromUDH(v)
	}
	return r
}

func udhu(a *rec.UdhuA) *rec.UdhuR {
	var v tpdu.UserDataHeader
	n, err := v.UnmarshalBinary(cp(a.B))
	if err != nil {
		return &rec.UdhuR{}
	}
	return &rec.UdhuR{OK: true, N: n, IEs: fromUDH(v)}
}

func ies(a *rec.IesA) *rec.IesR {
	u := toUDH(a.IEs)
	r := &rec.IesR{}
	ie, ok := u.IE(byte(a.ID))
	r.Found = ok
	r.IE = fromIE(ie)
	r.All = fromUDH(u.IEs(byte(a.ID)))
	ci := func(segs, seqno, mref int, ok bool) rec.CI {
		return rec.CI{OK: ok, Total: segs, SeqNo: seqno, Ref: mref}
	}
	r.CI = ci(u.ConcatInfo())
	r.CI8 = ci(u.ConcatInfo8())
	r.CI16 = ci(u.ConcatInfo16())
	return r
}

func addrm(a *rec.AddrmA) *rec.AddrmR {
	ad := toAddr(a.Ad)
	b, err := ad.MarshalBinary()
	r := &rec.AddrmR{OK: err == nil}
	if err != nil {
		return r
	}
	r.B = b
	u := addru(&rec.AddruA{B: append(cp(b), 0x21, 0x43)})
	r.UOK, r.N, r.Ad = u.OK, u.N, u.Ad
	return r
}

func addru(a *rec.AddruA) *rec.AddruR {
	var ad tpdu.Address
	n, err := ad.UnmarshalBinary(cp(a.B))
	if err != nil {
		return &rec.AddruR{}
	}
	return &rec.AddruR{OK: true, N: n, Ad: fromAddr(ad)}
}

func num(a *rec.NumA) *rec.NumR {
	ad := toAddr(a.Ad)
	r := &rec.NumR{}
	r.Num = rec.Cps(ad.Number())
	r.Ton = int(ad.TypeOfNumber())
	r.NP = int(ad.NumberingPlan())
	x := ad
	x.SetTypeOfNumber(tpdu.TypeOfNumber(a.Ton))
	r.SetTon = int(x.TOA)
	x = ad
	x.SetNumberingPlan(tpdu.NumberingPlan(a.NP))
	r.SetNP = int(x.TOA)
	x = ad
	x.SetNumber(a.Num.Text())
	r.Set, r.SetNum = fromAddr(x), rec.Cps(x.Number())
	x = tpdu.NewAddress(tpdu.FromNumber(a.Num.Text()))
	r.New, r.NewNum = fromAddr(x), rec.Cps(x.Number())
	return r
}

func semie(a *rec.SemieA) *rec.SemieR {
	b, err := semioctet.Encode([]byte(a.A.Text()))
	r := &rec.SemieR{OK: err == nil}
	if err == nil {
		r.B = b
	}
	return r
}

func semid(a *rec.SemidA) *rec.SemidR {
	b, n, err := semioctet.Decode(make([]byte, a.N), cp(a.B))
	if err != nil {
		return &rec.SemidR{}
	}
	return &rec.SemidR{OK: true, A: rec.Cps(string(b)), N: n}
}

func bcde(a *rec.BcdA) *rec.BcdR {
	f := bcd.Encode
	if a.S {
		f = bcd.EncodeSigned
	}
	b, err := f(a.V)
	if err != nil {
		return &rec.BcdR{}
	}
	return &rec.BcdR{OK: true, B: rec.Bytes{b}}
}

func bcdd(a *rec.BcddA) *rec.BcddR {
	f := bcd.Decode
	if a.S {
		f = bcd.DecodeSigned
	}
	v, err := f(byte(a.B))
	if err != nil {
		return &rec.BcddR{}
	}
	return &rec.BcddR{OK: true, V: v}
}

func tsm(a *rec.TsmA) *rec.TsmR {
	t := toTime(a.T)
	b, err := t.MarshalBinary()
	r := &rec.TsmR{OK: err == nil}
	if err == nil {
		r.B = b
		u := tsu(&rec.TsuA{B: b})
		r.UOK, r.T = u.OK, u.T
	}
	return r
}

func tsu(a *rec.TsuA) *rec.TsuR {
	var t tpdu.Timestamp
	if err := t.UnmarshalBinary(cp(a.B)); err != nil {
		return &rec.TsuR{}
	}
	return &rec.TsuR{OK: true, T: fromTime(t)}
}

func vpm(a *rec.VpmA) *rec.VpmR {
	v := toVP(a.VP)
	b, err := v.MarshalBinary()
	r := &rec.VpmR{OK: err == nil}
	if err == nil {
		r.B = b
		var u tpdu.ValidityPeriod
		n, err := u.UnmarshalBinary(append(cp(b), 1, 2), v.Format)
		r.UOK, r.N, r.VP = err == nil, n, fromVP(u)
	}
	return r
}

func vpu(a *rec.VpuA) *rec.VpuR {
	var u tpdu.ValidityPeriod
	n, err := u.UnmarshalBinary(cp(a.B), tpdu.ValidityPeriodFormat(a.F))
	if err != nil {
		return &rec.VpuR{}
	}
	r := &rec.VpuR{OK: true, N: n, VP: fromVP(u)}
	m, err := u.MarshalBinary()
	r.MOK, r.M = err == nil, m
	return r
}

func vpe(a *rec.VpeA) *rec.VpeR {
	var v tpdu.ValidityPeriod
	r := &rec.VpeR{}
	for _, e := range a.Edits {
		switch e.E {
		case "abs":
			v.SetAbsolute(toTime(e.T))
		case "rel":
			v.SetRelative(dur(e.S, e.NS))
		case "enh":
			v.SetEnhanced(dur(e.S, e.NS), byte(e.EFI))
		}
		r.VPs = append(r.VPs, fromVP(v))
	}
	return r
}

func dcs(a *rec.DcsA) *rec.DcsR {
	d := tpdu.DCS(a.D)
	r := &rec.DcsR{}
	al, err := d.Alphabet()
	r.Alpha, r.AlphaOK = int(al), err == nil
	cl, err := d.Class()
	r.Class, r.ClassOK = int(cl), err == nil
	r.Comp = d.Compressed()
	for x := 0; x < 3; x++ {
		w, err := d.WithAlphabet(tpdu.Alphabet(x))
		r.WA = append(r.WA, rec.DcsW{OK: err == nil, D: int(w)})
	}
	for x := 0; x < 4; x++ {
		w, err := d.WithClass(tpdu.MessageClass(x))
		r.WC = append(r.WC, rec.DcsW{OK: err == nil, D: int(w)})
	}
	return r
}

func tmo(a *rec.TmA) *rec.TmR {
	t := toTPDU(a.T)
	b, err := t.MarshalBinary()
	r := &rec.TmR{OK: err == nil}
	if err == nil {
		r.B = b
	}
	return r
}

func tm(a *rec.TmA) *rec.TmR {
	r := tmo(a)
	if r.OK {
		u := tu(&rec.TuA{Dir: a.T.Dir, B: r.B})
		r.UOK, r.T = u.OK, u.T
	}
	return r
}

func tu(a *rec.TuA) *rec.TuR {
	if a.Via == 1 {
		t := tpdu.TPDU{Direction: tpdu.Direction(a.Dir)}
		if err := t.UnmarshalBinary(cp(a.B)); err != nil {
			return &rec.TuR{}
		}
		return &rec.TuR{OK: true, T: fromTPDU(&t)}
	}
	t, err := unmarshal(cp(a.B), a)
	if err != nil {
		return &rec.TuR{}
	}
	return &rec.TuR{OK: true, T: fromTPDU(t)}
}

func unmarshal(b []byte, a *rec.TuA) (*tpdu.TPDU, error) {
	return sms.Unmarshal(b, direction(a.Dir, a.Via)...)
}

// direction gives the options to read as coming from direction d; the last
// one counts
func direction(d, via int) []sms.UnmarshalOption {
	switch {
	case d == 1 && via == 2:
		return []sms.UnmarshalOption{sms.AsMT, sms.AsMO}
	case d == 1:
		return []sms.UnmarshalOption{sms.AsMO}
	case via == 2:
		return []sms.UnmarshalOption{sms.AsMT}
	case via == 3:
		return []sms.UnmarshalOption{sms.AsMO, sms.AsMT}
	}
	return nil
}

type counter struct{ n int }

func (c *counter) Count() int { c.n++; return c.n }

func seg(a *rec.SegA) *rec.SegR {
	t := toTPDU(a.T)
	var opts []tpdu.SegmentationOption
	var mr, cr *counter
	if a.Is16 {
		opts = append(opts, tpdu.With16BitConcatRef)
	}
	if len(a.MR) > 0 {
		mr = &counter{a.MR[0]}
		opts = append(opts, tpdu.WithMR(mr))
	}
	if len(a.CR) > 0 {
		cr = &counter{a.CR[0]}
		opts = append(opts, tpdu.WithConcatRef(cr))
	}
	r := &rec.SegR{PDUs: fromTPDUs(t.Segment(cp(a.Msg), opts...))}
	if mr != nil {
		r.MR = rec.Ints{mr.n}
	}
	if cr != nil {
		r.CR = rec.Ints{cr.n}
	}
	return r
}

func blk(a *rec.BlkA) *rec.BlkR {
	t := toTPDU(a.T)
	return &rec.BlkR{BS: t.UDBlockSize()}
}

func eud(a *rec.EudA) *rec.EudR {
	p := parts(77, a.Lock, a.Shift)
	opts := []tpdu.UDEncodeOption{tpdu.WithLockingCharset(p[0]...), tpdu.WithShiftCharset(p[1]...)}
	if n := min(len(p[0]), len(p[1])); n > 0 && slices.Equal(p[0][:n], p[1][:n]) {
		// what they begin with alike, in one option
		opts = []tpdu.UDEncodeOption{tpdu.WithCharset(p[0][:n]...), tpdu.WithLockingCharset(p[0][n:]...), tpdu.WithShiftCharset(p[1][n:]...)}
	}
	if a.All {
		opts = []tpdu.UDEncodeOption{tpdu.WithAllCharsets}
	}
	ud, udh, al := tpdu.EncodeUserData([]byte(a.Cps.Text()), opts...)
	return &rec.EudR{Alpha: int(al), UDH: fromUDH(udh), UD: cp(ud)}
}

func toOpts(l []rec.Opt) []sms.EncoderOption {
	var opts []sms.EncoderOption
	var nlis [][]int
	for _, o := range l {
		nlis = append(nlis, o.NLI)
	}
	nlis = parts(77, nlis...)
	for i, o := range l {
		o.NLI = nlis[i]
		switch o.O {
		case "template":
			opts = append(opts, sms.WithTemplate(toTPDU(*o.T)))
		case "type":
			switch tpdu.SmsType(o.N) {
			case tpdu.SmsSubmit:
				opts = append(opts, sms.AsSubmit)
			case tpdu.SmsDeliver:
				opts = append(opts, sms.AsDeliver)
			default:
				opts = append(opts, sms.WithTemplateOption(tpdu.SmsType(o.N)))
			}
		case "dcs":
			switch o.N {
			case 4:
				opts = append(opts, sms.As8Bit)
			case 8:
				opts = append(opts, sms.AsUCS2)
			default:
				opts = append(opts, sms.WithTemplateOption(tpdu.DCS(o.N)))
			}
		case "to":
			opts = append(opts, sms.To(o.Num.Text()))
		case "from":
			opts = append(opts, sms.From(o.Num.Text()))
		case "udh":
			opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(toUDH(o.IEs))))
		case "all":
			opts = append(opts, sms.WithAllCharsets)
		case "charset":
			opts = append(opts, sms.WithCharset(o.NLI...))
		case "locking":
			opts = append(opts, sms.WithLockingCharset(o.NLI...))
		case "shift":
			opts = append(opts, sms.WithShiftCharset(o.NLI...))
		}
	}
	return opts
}

func encErr(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, sms.ErrDcsConflict):
		return "dcs"
	case errors.Is(err, sms.ErrMessageTooLong):
		return "toolong"
	}
	return "other"
}

// an option of the caller's own
type counters struct{ mr, cr *counter }

func (c counters) ApplyEncoderOption(e *sms.Encoder) { e.MsgCount, e.ConcatRef = c.mr, c.cr }

func hist(a *rec.HistA) *rec.HistR {
	r := &rec.HistR{}
	var each [][]sms.EncoderOption // options of each call
	for _, c := range a.Calls {
		each = append(each, toOpts(c.Opts))
	}
	each = parts[sms.EncoderOption](sms.AsUCS2, each...)
	if a.Top {
		for i, c := range a.Calls {
			pdus, err := sms.Encode(cp(c.Msg), each[i]...)
			cr := 0
			if len(pdus) > 1 {
				cr = 1
			}
			r.Calls = append(r.Calls, rec.CallR{Err: encErr(err), PDUs: fromTPDUs(pdus), MR: len(pdus), CR: cr})
		}
		return r
	}
	mrc, crc := &counter{a.MR}, &counter{a.CR}
	opts := toOpts(a.Opts)
	if a.MR+a.CR > 2000 && a.MR%2 == 1 {
		opts = append(opts, counters{mrc, crc})
	}
	e := sms.NewEncoder(opts...)
	counts := func() (int, int) {
		return e.MsgCount.(*sms.Counter).Read(), e.ConcatRef.(*sms.Counter).Read()
	}
	if a.MR+a.CR > 2000 {
		if a.MR%2 == 0 {
			e.MsgCount, e.ConcatRef = mrc, crc
		}
		counts = func() (int, int) { return mrc.n, crc.n }
	} else {
		for i := 0; i < a.MR; i++ {
			e.MsgCount.Count()
		}
		for i := 0; i < a.CR; i++ {
			e.ConcatRef.Count()
		}
	}
	for i, c := range a.Calls {
		pdus, err := e.Encode(cp(c.Msg), each[i]...)
		mr, cr := counts()
		r.Calls = append(r.Calls, rec.CallR{Err: encErr(err), PDUs: fromTPDUs(pdus), MR: mr, CR: cr})
	}
	return r
}

func wire(t *tpdu.TPDU) rec.Wire {
	b, err := t.MarshalBinary()
	if err != nil {
		return rec.Wire{}
	}
	u := tu(&rec.TuA{Dir: int(t.Direction), B: b})
	return rec.Wire{OK: true, B: b, UOK: u.OK, T: u.T}
}

func wf(a *rec.WfA) *rec.WfR {
	e := sms.NewEncoder(toOpts(a.Opts)...)
	pdus, err := e.Encode(cp(a.Msg))
	r := &rec.WfR{Err: encErr(err), PDUs: fromTPDUs(pdus)}
	for i := range pdus {
		r.Wire = append(r.Wire, wire(&pdus[i]))
	}
	return r
}

func icm(a *rec.IcmA) *rec.IcmR {
	var segs []*tpdu.TPDU
	for _, s := range a.Segs {
		if len(s) == 0 {
			segs = append(segs, nil)
			continue
		}
		segs = append(segs, &tpdu.TPDU{UDH: toUDH(s[0])})
	}
	return &rec.IcmR{OK: sms.IsCompleteMessage(segs)}
}

func acc(t *tpdu.TPDU) rec.Acc {
	fo := t.FirstOctet
	al, err := t.Alphabet()
	total, seqno, ref, ok := t.ConcatInfo()
	if ok && total > 1 && t.IsSingleSegment() || !ok && !t.IsSingleSegment() {
		ok = !ok
	}
	return rec.Acc{
		Type: int(t.SmsType()), MTI: int(t.MTI()), VPF: int(fo.VPF()), UDHI: t.UDHI(),
		MMS: fo.MMS(), RD: fo.RD(), LP: fo.LP(), SRI: fo.SRI(), SRR: fo.SRR(), SRQ: fo.SRQ(), RP: fo.RP(),
		PiPID: t.PI.PID(), PiDCS: t.PI.DCS(), PiUDL: t.PI.UDL(),
		UDHL: t.UDHL(), Alpha: int(al), AlphaOK: err == nil,
		Concat: ok, Total: total, SeqNo: seqno, Ref: ref,
	}
}

func option(e rec.Edit) tpdu.Option {
	switch e.E {
	case "type":
		return tpdu.SmsType(e.N)
	case "mti":
		return tpdu.MessageType(e.N)
	case "dir":
		return tpdu.Direction(e.N)
	case "dcs":
		return tpdu.DCS(e.N)
	case "udh":
		if e.Abs {
			return tpdu.WithUDH(nil)
		}
		u := toUDH(e.IEs)
		if u == nil {
			u = tpdu.UserDataHeader{}
		}
		return tpdu.WithUDH(u)
	case "oa":
		return tpdu.WithOA(toAddr(e.Ad))
	case "da":
		return tpdu.WithDA(toAddr(e.Ad))
	}
	return nil
}

func apply(t *tpdu.TPDU, e rec.Edit) error {
	if o := option(e); o != nil && e.Via == 1 {
		return o.ApplyTPDUOption(t)
	}
	switch e.E {
	case "type":
		return t.SetSmsType(tpdu.SmsType(e.N))
	case "mti":
		t.FirstOctet = t.FirstOctet.WithMTI(tpdu.MessageType(e.N))
	case "vpf":
		t.FirstOctet = t.FirstOctet.WithVPF(tpdu.ValidityPeriodFormat(e.N))
	case "dir":
		t.Direction = tpdu.Direction(e.N)
	case "dcs":
		t.SetDCS(byte(e.N))
	case "pid":
		t.SetPID(byte(e.N))
	case "vp":
		t.SetVP(toVP(e.VP))
	case "ud":
		if e.Abs {
			t.SetUD(nil)
		} else {
			t.SetUD(append([]byte{}, e.B...))
		}
	case "udh":
		if e.Abs {
			t.SetUDH(nil)
		} else {
			t.SetUDH(append(tpdu.UserDataHeader{}, toUDH(e.IEs)...))
		}
	case "oa":
		t.OA = toAddr(e.Ad)
	case "da":
		t.DA = toAddr(e.Ad)
	}
	return nil
}

func edit(a *rec.EditA) *rec.EditR {
	t := toTPDU(a.T)
	r := &rec.EditR{}
	for _, e := range a.Edits {
		err := apply(&t, e)
		r.Snaps = append(r.Snaps, rec.Snap{Err: err != nil, T: fromTPDU(&t), Acc: acc(&t)})
	}
	return r
}

func build(a *rec.BuildA) *rec.Snap {
	var opts []tpdu.Option
	for _, e := range a.Edits {
		if o := option(e); o != nil {
			opts = append(opts, o)
		}
	}
	var t *tpdu.TPDU
	var err error
	switch a.Base {
	case int(tpdu.SmsSubmit):
		t, err = tpdu.NewSubmit(opts...)
	case int(tpdu.SmsDeliver):
		t, err = tpdu.NewDeliver(opts...)
	default:
		t, err = tpdu.New(opts...)
	}
	if err != nil {
		return &rec.Snap{Err: true}
	}
	return &rec.Snap{T: fromTPDU(t), Acc: acc(t)}
}

func fromPDU(p *pdumode.PDU, err error) *rec.PduR {
	if err != nil {
		return &rec.PduR{}
	}
	return &rec.PduR{OK: true, Ad: fromAddr(p.SMSC.Address), TPDU: cp(p.TPDU)}
}

func pdum(a *rec.PdumA) *rec.PdumR {
	p := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: toAddr(a.Ad)}, TPDU: cp(a.B)}
	b, err := p.MarshalBinary()
	r := &rec.PdumR{OK: err == nil, B: cp(b)}
	h, err := p.MarshalHexString()
	r.HOK = err == nil
	hb, err := hex.DecodeString(h)
	if err != nil {
		hb = nil
	}
	r.H = hb
	if r.OK {
		u := fromPDU(pdumode.UnmarshalBinary(cp(b)))
		r.UOK, r.Ad, r.TPDU = u.OK, u.Ad, u.TPDU
	}
	return r
}

func pduu(a *rec.PduuA) *rec.PduR {
	return fromPDU(pdumode.UnmarshalBinary(cp(a.B)))
}

func pduh(a *rec.PduhA) *rec.PduR {
	return fromPDU(pdumode.UnmarshalHexString(a.S.Text()))
}
