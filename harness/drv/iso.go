package drv

import (
	"reflect"

	"github.com/warthog618/sms"
	"github.com/warthog618/sms/encoding/gsm7"
	"github.com/warthog618/sms/encoding/pdumode"
	"github.com/warthog618/sms/encoding/tpdu"
	"github.com/warthog618/sms/encoding/ucs2"
	"verif/rec"
)

// a workspace of objects, that remembers what they look like
type space struct {
	look []func() any
	last []any
	bufs []bufObj
	hdrs []hdrObj
	pdus []pduObj
	sets [][]*tpdu.TPDU
	encs []*sms.Encoder
	c    *sms.Collector
	nli  []int // lists of national languages are parts of this one
}
type bufObj struct {
	id int
	b  []byte
}
type hdrObj struct {
	id int
	h  tpdu.UserDataHeader
}
type pduObj struct {
	id int
	t  *tpdu.TPDU
}

func (s *space) add(look func() any) int {
	s.look = append(s.look, look)
	s.last = append(s.last, look())
	return len(s.look)
}

func (s *space) buf(b []byte, all []byte) {
	if all == nil {
		all = b
	}
	s.bufs = append(s.bufs, bufObj{s.add(func() any { return string(all) }), b})
}

func (s *space) hdr(h, all tpdu.UserDataHeader) {
	if all == nil {
		all = h
	}
	s.hdrs = append(s.hdrs, hdrObj{s.add(func() any { return fromUDH(all) }), h})
}

func (s *space) pdu(t *tpdu.TPDU, ud []byte, udh tpdu.UserDataHeader) {
	s.pdus = append(s.pdus, pduObj{s.add(func() any {
		return [3]any{fromTPDU(t), string(ud), fromUDH(udh)}
	}), t})
}

func (s *space) set(l []*tpdu.TPDU) {
	s.add(func() any { return append([]*tpdu.TPDU(nil), l...) })
	s.sets = append(s.sets, l)
	for _, t := range l {
		// the collector shows a segment, by Pipes, more than once, and then
		// delivers it: that is one TPDU, not several
		if t != nil && !s.has(t) {
			s.pdu(t, nil, nil)
		}
	}
}

func (s *space) has(t *tpdu.TPDU) bool {
	for _, p := range s.pdus {
		if p.t == t {
			return true
		}
	}
	return false
}

func (s *space) segs(l []tpdu.TPDU) {
	var p []*tpdu.TPDU
	for i := range l {
		p = append(p, &l[i])
	}
	if len(p) > 6 {
		p = p[:6]
	}
	s.set(p)
}

func (s *space) seen(target int) rec.IsoSeen {
	r := rec.IsoSeen{Target: target, N: len(s.look)}
	for i, f := range s.look {
		if v := f(); !reflect.DeepEqual(v, s.last[i]) {
			r.Changed = append(r.Changed, i+1)
			s.last[i] = v
		}
	}
	return r
}

// octets within others that should be left alone
func guarded(b []byte) (in, all []byte) {
	all = make([]byte, len(b)+40)
	for i := range all {
		all[i] = 0xa5
	}
	copy(all[8:], b)
	return all[8 : 8+len(b)], all
}

func guardedUDH(ies rec.IEs) (in, all tpdu.UserDataHeader) {
	all = make(tpdu.UserDataHeader, len(ies)+5)
	for i := range all {
		all[i] = tpdu.InformationElement{ID: 0xa5, Data: []byte{0xa5}}
	}
	for i, e := range ies {
		_, d := guarded(e.D)
		all[i+1] = tpdu.InformationElement{ID: byte(e.ID), Data: d[8 : 8+len(e.D)]}
	}
	return all[1 : 1+len(ies)], all
}

func pick[T any](l []T, i int) T {
	return l[i%len(l)]
}

func (s *space) step(st rec.IsoStep) (target int) {
	nohdr := len(s.hdrs) == 0
	if len(s.bufs) == 0 || len(s.pdus) == 0 {
		return 0
	}
	// parts of the list of the caller's
	part := func(i, n int) []int {
		i = (st.X + st.Y + i) % 12
		return s.nli[i : i+n]
	}
	b := pick(s.bufs, st.X).b
	b2 := pick(s.bufs, st.Y).b
	p := pick(s.pdus, st.X)
	var h tpdu.UserDataHeader
	if !nohdr {
		h = pick(s.hdrs, st.Y).h
	}
	switch st.O {
	case "newenc":
		opts := []sms.EncoderOption{sms.WithTemplate(*p.t)}
		switch st.N % 5 {
		case 1:
			opts = append(opts, sms.WithAllCharsets)
		case 2:
			opts = append(opts, sms.WithCharset(part(0, 3)...), sms.WithLockingCharset(part(5, 1)...))
		case 3:
			opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(h)))
		case 4:
			opts = append(opts, sms.To("123"), sms.AsSubmit)
		}
		s.encs = append(s.encs, sms.NewEncoder(opts...))
	case "enc":
		if len(s.encs) == 0 {
			return 0
		}
		var opts []sms.EncoderOption
		switch st.N % 7 {
		case 1:
			opts = append(opts, sms.WithAllCharsets)
		case 2:
			opts = append(opts, sms.WithShiftCharset(part(1, 1)...), sms.WithLockingCharset(part(3, 1)...))
		case 3:
			opts = append(opts, sms.WithTemplateOption(tpdu.WithUDH(h)))
		case 4:
			opts = append(opts, sms.As8Bit)
		case 5:
			opts = append(opts, sms.WithTemplate(*p.t))
		}
		l, _ := pick(s.encs, st.Y).Encode(b, opts...)
		s.segs(l)
	case "top":
		l, _ := sms.Encode(b, sms.WithTemplate(*pick(s.pdus, st.Y).t))
		s.segs(l)
	case "seg":
		var opts []tpdu.SegmentationOption
		if st.N%2 == 1 {
			opts = append(opts, tpdu.With16BitConcatRef)
		}
		s.segs(pick(s.pdus, st.Y).t.Segment(b, opts...))
	case "mar":
		if o, err := p.t.MarshalBinary(); err == nil {
			s.buf(o, nil)
		}
	case "unm":
		o := sms.AsMT
		if st.N%2 == 1 {
			o = sms.AsMO
		}
		if t, err := sms.Unmarshal(b, o); err == nil {
			s.pdu(t, nil, nil)
		}
	case "reun":
		p.t.UnmarshalBinary(b2)
		return p.id
	case "col":
		if d, err := s.c.Collect(*p.t); err == nil && len(d) > 0 {
			s.set(d)
		}
	case "pipes":
		for _, v := range s.c.Pipes() {
			s.set(v)
		}
	case "dec":
		if len(s.sets) == 0 {
			return 0
		}
		var l []*tpdu.TPDU
		for _, t := range pick(s.sets, st.X) {
			if t != nil {
				l = append(l, t)
			}
		}
		if st.N%3 == 0 {
			// those of several messages
			l = append(l, p.t)
		}
		var opts []sms.DecodeOption
		if st.N%2 == 1 {
			opts = append(opts, sms.WithCharset(part(0, 2)...), sms.WithShiftCharset(part(4, 1)...), sms.WithLockingCharset(part(6, 2)...))
		}
		if o, err := sms.Decode(l, opts...); err == nil {
			s.buf(o, nil)
		}
	case "dud":
		opts := []tpdu.UDDecodeOption{tpdu.WithAllCharsets}
		if st.N%2 == 1 {
			opts = []tpdu.UDDecodeOption{tpdu.WithLockingCharset(part(0, 3)...), tpdu.WithCharset(part(1, 2)...)}
		}
		o, _ := tpdu.DecodeUserData(b, h, tpdu.Alphabet(st.N%3), opts...)
		s.buf(o, nil)
	case "eud":
		opts := []tpdu.UDEncodeOption{tpdu.WithAllCharsets}
		switch st.N % 4 {
		case 1:
			opts = append(opts, tpdu.WithLockingCharset(part(0, 1)...), tpdu.WithShiftCharset(part(2, 1)...))
		case 2:
			opts = []tpdu.UDEncodeOption{tpdu.WithCharset(part(0, 1)...), tpdu.WithLockingCharset(part(2, 1)...), tpdu.WithShiftCharset(part(4, 1)...)}
		case 3:
			opts = []tpdu.UDEncodeOption{tpdu.WithShiftCharset(part(0, 2)...), tpdu.WithLockingCharset(part(2, 2)...), tpdu.WithCharset(part(1, 3)...)}
		}
		o, u, _ := tpdu.EncodeUserData(b, opts...)
		s.buf(o, nil)
		s.hdr(u, nil)
	case "gsm":
		var o []byte
		switch st.N % 7 {
		case 0:
			o, _ = gsm7.Encode(b)
		case 1:
			o, _ = gsm7.Decode(b)
		case 2:
			o = gsm7.Pack7Bit(b, st.Y%7)
		case 3:
			o = gsm7.Unpack7Bit(b, st.Y%7)
		case 4:
			o = gsm7.Pack7BitUSSD(b, st.Y%7)
		case 5:
			o = gsm7.Unpack7BitUSSD(b, st.Y%7)
		case 6:
			r, err := ucs2.Decode(b)
			if d, ok := err.(ucs2.ErrDanglingSurrogate); ok {
				s.buf(d, nil)
			}
			o = ucs2.Encode(r)
		}
		s.buf(o, nil)
	case "umar":
		if o, err := h.MarshalBinary(); err == nil {
			s.buf(o, nil)
		}
	case "uunm":
		var u tpdu.UserDataHeader
		if _, err := u.UnmarshalBinary(b); err == nil {
			s.hdr(u, nil)
		}
	case "set":
		switch st.N % 6 {
		case 0:
			p.t.SetUDH(h)
		case 1:
			p.t.SetUD(b2)
		case 2:
			p.t.SetDCS(byte(st.Y))
		case 3:
			tpdu.WithUDH(h).ApplyTPDUOption(p.t)
			tpdu.WithOA(tpdu.NewAddress(tpdu.FromNumber("+1"))).ApplyTPDUOption(p.t)
		case 4:
			p.t.SetSmsType(tpdu.SmsType(st.Y % 6))
		case 5:
			var vp tpdu.ValidityPeriod
			vp.SetRelative(3600e9)
			p.t.SetVP(vp)
		}
		return p.id
	case "look":
		p.t.ConcatInfo()
		p.t.IsSingleSegment()
		p.t.UDBlockSize()
		p.t.Alphabet()
		p.t.UDH.IE(0)
		p.t.UDH.IEs(0)
		p.t.UDH.ConcatInfo16()
		h.ConcatInfo8()
		if len(s.sets) > 0 {
			sms.IsCompleteMessage(pick(s.sets, st.Y))
		}
	case "pdu":
		v := pdumode.PDU{SMSC: pdumode.SMSCAddress{Address: p.t.DA}, TPDU: b}
		if o, err := v.MarshalBinary(); err == nil {
			s.buf(o, nil)
		}
		if q, err := pdumode.UnmarshalBinary(b); err == nil {
			s.buf(q.TPDU, nil)
		}
	}
	return 0
}

func iso(a *rec.IsoA) *rec.IsoR {
	s := &space{c: sms.NewCollector(), nli: []int{3, 1, 12, 13, 4, 2, 7, 5, 9, 6, 8, 11, 10, 1, 2, 14}}
	s.add(func() any { return append([]int(nil), s.nli...) })
	for _, b := range a.Bufs {
		s.buf(guarded(b))
	}
	for _, u := range a.UDHs {
		s.hdr(guardedUDH(u))
	}
	for _, v := range a.TPDUs {
		t := toTPDU(v)
		var ud []byte
		var udh tpdu.UserDataHeader
		t.UD, ud = guarded(v.UD)
		t.UDH, udh = guardedUDH(v.UDH)
		s.pdu(&t, ud, udh)
	}
	r := &rec.IsoR{N: len(s.look)}
	for _, st := range a.Steps {
		r.Steps = append(r.Steps, s.seen(s.step(st)))
	}
	return r
}
