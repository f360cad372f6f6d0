// Package drv calls the library as the records say and records the results.
package drv

import (
	"time"

	"github.com/warthog618/sms/encoding/tpdu"
	"verif/rec"
)

func cp(b []byte) []byte { return append([]byte(nil), b...) }

func toTime(t rec.Ints) tpdu.Timestamp {
	if len(t) != 7 {
		return tpdu.Timestamp{}
	}
	loc := time.UTC
	if t[6] != 0 {
		loc = time.FixedZone("any", t[6])
	}
	if l := time.Date(t[0], time.Month(t[1]), t[2], t[3], t[4], t[5], 0, time.Local); l.Day() == t[2] && l.Hour() == t[3] && l.Minute() == t[4] {
		if _, off := l.Zone(); off == t[6] {
			// a zone that may have another offset at other times
			return tpdu.Timestamp{Time: l}
		}
	}
	return tpdu.Timestamp{Time: time.Date(t[0], time.Month(t[1]), t[2], t[3], t[4], t[5], 0, loc)}
}

func fromTime(t tpdu.Timestamp) rec.Ints {
	if t.IsZero() {
		return nil
	}
	_, off := t.Zone()
	v := rec.Ints{t.Year(), int(t.Month()), t.Day(), t.Hour(), t.Minute(), t.Second(), off}
	if t.Nanosecond() != 0 {
		v = append(v, t.Nanosecond())
	}
	return v
}

func toVP(v rec.VP) tpdu.ValidityPeriod {
	return tpdu.ValidityPeriod{
		Format:   tpdu.ValidityPeriodFormat(v.F),
		Time:     toTime(v.T),
		Duration: dur(v.S, v.NS),
		EFI:      byte(v.EFI),
	}
}

func dur(s, ns int) time.Duration {
	return time.Duration(s)*time.Second + time.Duration(ns)
}

func fromVP(v tpdu.ValidityPeriod) rec.VP {
	return rec.VP{
		F:   int(v.Format),
		T:   fromTime(v.Time),
		S:   int(v.Duration / time.Second),
		NS:  int(v.Duration % time.Second),
		EFI: int(v.EFI),
	}
}

func toUDH(ies rec.IEs) tpdu.UserDataHeader {
	var u tpdu.UserDataHeader
	for _, e := range ies {
		u = append(u, tpdu.InformationElement{ID: byte(e.ID), Data: cp(e.D)})
	}
	return u
}

func fromIE(e tpdu.InformationElement) rec.IE {
	return rec.IE{ID: int(e.ID), D: cp(e.Data)}
}

func fromUDH(u []tpdu.InformationElement) rec.IEs {
	var ies rec.IEs
	for _, e := range u {
		ies = append(ies, fromIE(e))
	}
	return ies
}

func toAddr(a rec.Addr) tpdu.Address {
	return tpdu.Address{TOA: byte(a.TOA), Addr: a.A.Text()}
}

func fromAddr(a tpdu.Address) rec.Addr {
	return rec.Addr{TOA: int(a.TOA), A: rec.Cps(a.Addr)}
}

func toTPDU(t rec.TPDU) tpdu.TPDU {
	return tpdu.TPDU{
		Direction:  tpdu.Direction(t.Dir),
		FirstOctet: tpdu.FirstOctet(t.FO),
		OA:         toAddr(t.OA),
		FCS:        byte(t.FCS),
		MR:         byte(t.MR),
		CT:         byte(t.CT),
		MN:         byte(t.MN),
		DA:         toAddr(t.DA),
		RA:         toAddr(t.RA),
		PI:         tpdu.PI(t.PI),
		SCTS:       toTime(t.SCTS),
		DT:         toTime(t.DT),
		ST:         byte(t.ST),
		PID:        byte(t.PID),
		DCS:        tpdu.DCS(t.DCS),
		VP:         toVP(t.VP),
		UDH:        toUDH(t.UDH),
		UD:         cp(t.UD),
	}
}

func fromTPDU(t *tpdu.TPDU) rec.TPDU {
	return rec.TPDU{
		Dir:  int(t.Direction),
		FO:   int(t.FirstOctet),
		OA:   fromAddr(t.OA),
		FCS:  int(t.FCS),
		MR:   int(t.MR),
		CT:   int(t.CT),
		MN:   int(t.MN),
		DA:   fromAddr(t.DA),
		RA:   fromAddr(t.RA),
		PI:   int(t.PI),
		SCTS: fromTime(t.SCTS),
		DT:   fromTime(t.DT),
		ST:   int(t.ST),
		PID:  int(t.PID),
		DCS:  int(t.DCS),
		VP:   fromVP(t.VP),
		UDH:  fromUDH(t.UDH),
		UD:   cp(t.UD),
	}
}

func fromTPDUs(ts []tpdu.TPDU) rec.L[rec.TPDU] {
	var l rec.L[rec.TPDU]
	for i := range ts {
		l = append(l, fromTPDU(&ts[i]))
	}
	return l
}

// parts makes the lists parts of one, as those of a caller may be: each is
// followed in memory by the next, and the last by something else
func parts[T any](beyond T, ls ...[]T) [][]T {
	var all []T
	for _, l := range ls {
		all = append(all, l...)
	}
	all = append(all, beyond, beyond, beyond)
	var r [][]T
	i := 0
	for _, l := range ls {
		r = append(r, all[i:i+len(l)])
		i += len(l)
	}
	return r
}
