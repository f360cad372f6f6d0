package drv

import (
	"github.com/warthog618/sms/encoding/gsm7/charset"
	"github.com/warthog618/sms/encoding/tpdu"
	"verif/rec"
)

var nameValues = rec.L[rec.Name]{
	{"TonUnknown", int(tpdu.TonUnknown)},
	{"TonInternational", int(tpdu.TonInternational)},
	{"TonNational", int(tpdu.TonNational)},
	{"TonNetworkSpecific", int(tpdu.TonNetworkSpecific)},
	{"TonSubscriberNumber", int(tpdu.TonSubscriberNumber)},
	{"TonAlphanumeric", int(tpdu.TonAlphanumeric)},
	{"TonAbbreviated", int(tpdu.TonAbbreviated)},
	{"TonExtension", int(tpdu.TonExtension)},
	{"NpUnknown", int(tpdu.NpUnknown)},
	{"NpISDN", int(tpdu.NpISDN)},
	{"NpData", int(tpdu.NpData)},
	{"NpTelex", int(tpdu.NpTelex)},
	{"NpScSpecificA", int(tpdu.NpScSpecificA)},
	{"NpScSpecificB", int(tpdu.NpScSpecificB)},
	{"NpNational", int(tpdu.NpNational)},
	{"NpPrivate", int(tpdu.NpPrivate)},
	{"NpErmes", int(tpdu.NpErmes)},
	{"NpExtension", int(tpdu.NpExtension)},
	{"MtDeliver", int(tpdu.MtDeliver)},
	{"MtSubmit", int(tpdu.MtSubmit)},
	{"MtCommand", int(tpdu.MtCommand)},
	{"MtReserved", int(tpdu.MtReserved)},
	{"FoMTIMask", int(tpdu.FoMTIMask)},
	{"FoMTIShift", int(tpdu.FoMTIShift)},
	{"FoMMS", int(tpdu.FoMMS)},
	{"FoRD", int(tpdu.FoRD)},
	{"FoLP", int(tpdu.FoLP)},
	{"FoVPFMask", int(tpdu.FoVPFMask)},
	{"FoVPFShift", int(tpdu.FoVPFShift)},
	{"FoSRI", int(tpdu.FoSRI)},
	{"FoSRR", int(tpdu.FoSRR)},
	{"FoSRQ", int(tpdu.FoSRQ)},
	{"FoUDHI", int(tpdu.FoUDHI)},
	{"FoRP", int(tpdu.FoRP)},
	{"PiPID", int(tpdu.PiPID)},
	{"PiDCS", int(tpdu.PiDCS)},
	{"PiUDL", int(tpdu.PiUDL)},
	{"VpfNotPresent", int(tpdu.VpfNotPresent)},
	{"VpfEnhanced", int(tpdu.VpfEnhanced)},
	{"VpfRelative", int(tpdu.VpfRelative)},
	{"VpfAbsolute", int(tpdu.VpfAbsolute)},
	{"EvpfNotPresent", int(tpdu.EvpfNotPresent)},
	{"EvpfRelative", int(tpdu.EvpfRelative)},
	{"EvpfRelativeSeconds", int(tpdu.EvpfRelativeSeconds)},
	{"EvpfRelativeHHMMSS", int(tpdu.EvpfRelativeHHMMSS)},
	{"Alpha7Bit", int(tpdu.Alpha7Bit)},
	{"Alpha8Bit", int(tpdu.Alpha8Bit)},
	{"AlphaUCS2", int(tpdu.AlphaUCS2)},
	{"AlphaReserved", int(tpdu.AlphaReserved)},
	{"MClass0", int(tpdu.MClass0)},
	{"MClass1", int(tpdu.MClass1)},
	{"MClass2", int(tpdu.MClass2)},
	{"MClass3", int(tpdu.MClass3)},
	{"Dcs8BitData", int(tpdu.Dcs8BitData)},
	{"DcsUCS2Data", int(tpdu.DcsUCS2Data)},
	{"MaxUDL", tpdu.MaxUDL},
	{"Default", int(charset.Default)},
	{"Turkish", int(charset.Turkish)},
	{"Spanish", int(charset.Spanish)},
	{"Portuguese", int(charset.Portuguese)},
	{"Bengali", int(charset.Bengali)},
	{"Gujaranti", int(charset.Gujaranti)},
	{"Hindi", int(charset.Hindi)},
	{"Kannada", int(charset.Kannada)},
	{"Malayalam", int(charset.Malayalam)},
	{"Oriya", int(charset.Oriya)},
	{"Punjabi", int(charset.Punjabi)},
	{"Tamil", int(charset.Tamil)},
	{"Telugu", int(charset.Telugu)},
	{"Urdu", int(charset.Urdu)},
}

// the types of TPDU, by their message type and direction
var smsTypes = []tpdu.SmsType{tpdu.SmsDeliver, tpdu.SmsDeliverReport, tpdu.SmsSubmitReport, tpdu.SmsSubmit, tpdu.SmsStatusReport, tpdu.SmsCommand}
var smsTypeNames = []string{"SmsDeliver", "SmsDeliverReport", "SmsSubmitReport", "SmsSubmit", "SmsStatusReport", "SmsCommand"}

func names(*rec.NamesA) *rec.NamesR {
	r := &rec.NamesR{L: append(rec.L[rec.Name]{}, nameValues...)}
	for i, t := range smsTypes {
		d := 0
		if t.Direction() == tpdu.MO {
			d = 1
		}
		r.L = append(r.L, rec.Name{N: smsTypeNames[i], V: 2*int(t.MTI()) + d})
	}
	return r
}

func str(a *rec.StrA) *rec.StrR {
	s := ""
	switch a.K {
	case "dcs":
		s = tpdu.DCS(a.N).String()
	case "pi":
		s = tpdu.PI(a.N).String()
	case "vpf":
		s = tpdu.ValidityPeriodFormat(a.N).String()
	case "evpf":
		s = tpdu.EnhancedValidityPeriodFormat(a.N).String()
	case "mti":
		s = tpdu.MessageType(a.N).String()
	case "type":
		s = tpdu.SmsType(a.N).String()
	case "ts":
		s = toTime(a.T).String()
	}
	return &rec.StrR{S: rec.Cps(s)}
}

// iei: which elements name the Turkish tables, to find U+011F in
func iei(a *rec.IeiA) *rec.IeiR {
	r := &rec.IeiR{IDs: rec.Ints{}}
	const text = "\u011f"
	if a.Enc {
		o := tpdu.UDEncodeOption(tpdu.WithShiftCharset(1))
		if a.Lock {
			o = tpdu.WithLockingCharset(1)
		}
		_, udh, _ := tpdu.EncodeUserData([]byte(text), o)
		for _, e := range udh {
			r.IDs = append(r.IDs, int(e.ID))
		}
		return r
	}
	ud := tpdu.UserData{0x1b, 0x67}
	if a.Lock {
		ud = tpdu.UserData{12}
	}
	for id := 0; id < 256; id++ {
		udh := tpdu.UserDataHeader{{ID: byte(id), Data: []byte{1}}}
		if s, err := tpdu.DecodeUserData(ud, udh, tpdu.Alpha7Bit, tpdu.WithAllCharsets); err == nil && string(s) == text {
			r.IDs = append(r.IDs, id)
		}
	}
	return r
}
