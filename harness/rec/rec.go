// Package rec holds the records exchanged with the specification: plain data,
// in the shapes the TLA+ modules use.
package rec

import (
	"encoding/json"
	"strconv"
)

// Ints is a sequence of numbers, never null.
type Ints []int

// MarshalJSON never yields null.
func (s Ints) MarshalJSON() ([]byte, error) {
	b := make([]byte, 0, 4*len(s)+2)
	b = append(b, '[')
	for i, v := range s {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(v), 10)
	}
	return append(b, ']'), nil
}

// L is a list, never null.
type L[T any] []T

// MarshalJSON never yields null.
func (l L[T]) MarshalJSON() ([]byte, error) {
	if len(l) == 0 {
		return []byte("[]"), nil
	}
	return json.Marshal([]T(l))
}

// Bytes is a sequence of octets, never null.
type Bytes []byte

// MarshalJSON writes the octets as numbers.
func (s Bytes) MarshalJSON() ([]byte, error) {
	b := make([]byte, 0, 4*len(s)+2)
	b = append(b, '[')
	for i, v := range s {
		if i > 0 {
			b = append(b, ',')
		}
		b = strconv.AppendInt(b, int64(v), 10)
	}
	return append(b, ']'), nil
}

// UnmarshalJSON reads numbers.
func (s *Bytes) UnmarshalJSON(src []byte) error {
	v := []byte{}
	n := -1
	for _, c := range src {
		if c >= '0' && c <= '9' {
			if n < 0 {
				n = 0
			}
			n = n*10 + int(c-'0')
			continue
		}
		if n >= 0 {
			v = append(v, byte(n))
			n = -1
		}
	}
	*s = v
	return nil
}

// Text converts code points to a string.
func (s Ints) Text() string {
	r := make([]rune, len(s))
	for i, v := range s {
		r[i] = rune(v)
	}
	return string(r)
}

// Cps converts a string to its code points.
func Cps(s string) Ints {
	v := make(Ints, 0, len(s))
	for _, r := range s {
		v = append(v, int(r))
	}
	return v
}

// IE is an information element.
type IE struct {
	ID int   `json:"id"`
	D  Bytes `json:"d"`
}

// IEs is a header, never null.
type IEs []IE

// Addr is an address.
type Addr struct {
	TOA int  `json:"toa"`
	A   Ints `json:"a"`
}

// VP is a validity period.
type VP struct {
	F   int  `json:"f"`
	S   int  `json:"s"`
	NS  int  `json:"ns"`
	EFI int  `json:"efi"`
	T   Ints `json:"t"`
}

// TPDU is a TPDU.
type TPDU struct {
	Dir  int   `json:"dir"`
	FO   int   `json:"fo"`
	OA   Addr  `json:"oa"`
	FCS  int   `json:"fcs"`
	MR   int   `json:"mr"`
	CT   int   `json:"ct"`
	MN   int   `json:"mn"`
	DA   Addr  `json:"da"`
	RA   Addr  `json:"ra"`
	PI   int   `json:"pi"`
	SCTS Ints  `json:"scts"`
	DT   Ints  `json:"dt"`
	ST   int   `json:"st"`
	PID  int   `json:"pid"`
	DCS  int   `json:"dcs"`
	VP   VP    `json:"vp"`
	UDH  IEs   `json:"udh"`
	UD   Bytes `json:"ud"`
}

// MarshalJSON never yields null.
func (s IEs) MarshalJSON() ([]byte, error) {
	b := []byte{'['}
	for i, e := range s {
		if i > 0 {
			b = append(b, ',')
		}
		b = append(b, `{"id":`...)
		b = strconv.AppendInt(b, int64(e.ID), 10)
		b = append(b, `,"d":`...)
		d, _ := e.D.MarshalJSON()
		b = append(b, d...)
		b = append(b, '}')
	}
	return append(b, ']'), nil
}

// --- arguments and results by kind of record ---

type PackA struct {
	U    Bytes `json:"u"`
	F    int   `json:"f"`
	USSD bool  `json:"ussd"`
}
type PackR struct {
	P Bytes `json:"p"`
	U Bytes `json:"u"`
}
type UnpackA struct {
	P    Bytes `json:"p"`
	F    int   `json:"f"`
	USSD bool  `json:"ussd"`
}
type UnpackR struct {
	U Bytes `json:"u"`
}

type GEncA struct {
	Cps Ints `json:"cps"`
	L   int  `json:"l"`
	S   int  `json:"s"`
	Via int  `json:"via"`
}
type GEncR struct {
	OK bool  `json:"ok"`
	G  Bytes `json:"g"`
	B  Bytes `json:"b"`
}
type GDecA struct {
	G      Bytes `json:"g"`
	L      int   `json:"l"`
	S      int   `json:"s"`
	Strict bool  `json:"strict"`
	Via    int   `json:"via"`
}
type GDecR struct {
	OK bool  `json:"ok"`
	B  Bytes `json:"b"`
}

// ErrA: a call that may be refused: O says which
type ErrA struct {
	O   string `json:"o"`
	N   int    `json:"n"`
	L   int    `json:"l"`
	S   int    `json:"s"`
	Cps Ints   `json:"cps"`
	B   Bytes  `json:"b"`
	Via int    `json:"via"`
}

// ErrR: what the error is, the value it has, and the numbers its text has
type ErrR struct {
	K string `json:"k"`
	V Ints   `json:"v"`
	T Ints   `json:"t"`
}
type CTabA struct {
	N     int  `json:"n"`
	Shift bool `json:"shift"`
	Via   int  `json:"via"`
}
type CTabR struct {
	Dec L[Ints] `json:"dec"`
	Enc L[Ints] `json:"enc"`
}

type UEncA struct {
	Cps Ints `json:"cps"`
}
type UEncR struct {
	B   Bytes  `json:"b"`
	St  string `json:"st"`
	Cps Ints   `json:"cps"`
}
type UDecA struct {
	B Bytes `json:"b"`
}
type UDecR struct {
	St  string `json:"st"`
	Cps Ints   `json:"cps"`
	D   Bytes  `json:"d"`
}

type Seg struct {
	DCS int   `json:"dcs"`
	UDH IEs   `json:"udh"`
	UD  Bytes `json:"ud"`
}
type DecA struct {
	Segs  L[Seg] `json:"segs"`
	Def   bool   `json:"def"`
	Lock  Ints   `json:"lock"`
	Shift Ints   `json:"shift"`
	Via   int    `json:"via"`
	Whole bool   `json:"whole"`
	Cps   Ints   `json:"cps"`
}
type DecR struct {
	OK bool  `json:"ok"`
	B  Bytes `json:"b"`
}
type DUDA struct {
	UD    Bytes `json:"ud"`
	UDH   IEs   `json:"udh"`
	Alpha int   `json:"alpha"`
	Lock  Ints  `json:"lock"`
	Shift Ints  `json:"shift"`
	Via   int   `json:"via"`
}
type DUDR struct {
	St string `json:"st"`
	B  Bytes  `json:"b"`
}

type UdhmA struct {
	IEs IEs `json:"ies"`
}
type UdhmR struct {
	OK   bool  `json:"ok"`
	B    Bytes `json:"b"`
	UDHL int   `json:"udhl"`
	UOK  bool  `json:"uok"`
	N    int   `json:"n"`
	IEs  IEs   `json:"ies"`
}
type UdhuA struct {
	B Bytes `json:"b"`
}
type UdhuR struct {
	OK  bool `json:"ok"`
	N   int  `json:"n"`
	IEs IEs  `json:"ies"`
}
type IesA struct {
	IEs IEs `json:"ies"`
	ID  int `json:"id"`
}
type CI struct {
	OK    bool `json:"ok"`
	Total int  `json:"total"`
	SeqNo int  `json:"seqno"`
	Ref   int  `json:"ref"`
}
type IesR struct {
	Found bool `json:"found"`
	IE    IE   `json:"ie"`
	All   IEs  `json:"all"`
	CI    CI   `json:"ci"`
	CI8   CI   `json:"ci8"`
	CI16  CI   `json:"ci16"`
}

type AddrmA struct {
	Ad Addr `json:"ad"`
}
type AddrmR struct {
	OK  bool  `json:"ok"`
	B   Bytes `json:"b"`
	UOK bool  `json:"uok"`
	N   int   `json:"n"`
	Ad  Addr  `json:"ad"`
}
type AddruA struct {
	B Bytes `json:"b"`
}
type AddruR struct {
	OK bool `json:"ok"`
	N  int  `json:"n"`
	Ad Addr `json:"ad"`
}
type NumA struct {
	Ad  Addr `json:"ad"`
	Num Ints `json:"num"`
	Ton int  `json:"ton"`
	NP  int  `json:"np"`
}
type NumR struct {
	Set    Addr `json:"set"`
	SetNum Ints `json:"setnum"`
	New    Addr `json:"new"`
	NewNum Ints `json:"newnum"`
	Num    Ints `json:"num"`
	Ton    int  `json:"ton"`
	NP     int  `json:"np"`
	SetTon int  `json:"setton"`
	SetNP  int  `json:"setnp"`
}
type SemieA struct {
	A Ints `json:"a"`
}
type SemieR struct {
	OK bool  `json:"ok"`
	B  Bytes `json:"b"`
}
type SemidA struct {
	N int   `json:"n"`
	B Bytes `json:"b"`
}
type SemidR struct {
	OK bool `json:"ok"`
	A  Ints `json:"a"`
	N  int  `json:"n"`
}

type BcdA struct {
	V int  `json:"v"`
	S bool `json:"s"`
}
type BcdR struct {
	OK bool  `json:"ok"`
	B  Bytes `json:"b"`
}
type BcddA struct {
	B int  `json:"b"`
	S bool `json:"s"`
}
type BcddR struct {
	OK bool `json:"ok"`
	V  int  `json:"v"`
}
type TsmA struct {
	T Ints `json:"t"`
}
type TsmR struct {
	OK  bool  `json:"ok"`
	B   Bytes `json:"b"`
	UOK bool  `json:"uok"`
	T   Ints  `json:"t"`
}
type TsuA struct {
	B Bytes `json:"b"`
}
type TsuR struct {
	OK bool `json:"ok"`
	T  Ints `json:"t"`
}
type VpmA struct {
	VP VP `json:"vp"`
}
type VpmR struct {
	OK  bool  `json:"ok"`
	B   Bytes `json:"b"`
	UOK bool  `json:"uok"`
	N   int   `json:"n"`
	VP  VP    `json:"vp"`
}
type VpuA struct {
	B Bytes `json:"b"`
	F int   `json:"f"`
}
type VpuR struct {
	OK  bool  `json:"ok"`
	N   int   `json:"n"`
	VP  VP    `json:"vp"`
	MOK bool  `json:"mok"`
	M   Bytes `json:"m"`
}
type VPEdit struct {
	E   string `json:"e"`
	T   Ints   `json:"t"`
	S   int    `json:"s"`
	NS  int    `json:"ns"`
	EFI int    `json:"efi"`
}
type VpeA struct {
	Edits L[VPEdit] `json:"edits"`
}
type VpeR struct {
	VPs L[VP] `json:"vps"`
}

type DcsA struct {
	D int `json:"d"`
}
type DcsW struct {
	OK bool `json:"ok"`
	D  int  `json:"d"`
}
type DcsR struct {
	Alpha   int     `json:"alpha"`
	AlphaOK bool    `json:"alphaok"`
	Class   int     `json:"class"`
	ClassOK bool    `json:"classok"`
	Comp    bool    `json:"comp"`
	WA      L[DcsW] `json:"wa"`
	WC      L[DcsW] `json:"wc"`
}

type TmA struct {
	T TPDU `json:"t"`
}
type TmR struct {
	OK  bool  `json:"ok"`
	B   Bytes `json:"b"`
	UOK bool  `json:"uok"`
	T   TPDU  `json:"t"`
}
type TuA struct {
	Dir int   `json:"dir"`
	B   Bytes `json:"b"`
	Via int   `json:"via"`
}
type TuR struct {
	OK bool `json:"ok"`
	T  TPDU `json:"t"`
}

// RejR is an error: the field it names, in parts, its offset and its cause;
// with the TPDU as it was read so far.
type RejR struct {
	OK   bool      `json:"ok"`
	Path L[string] `json:"path"`
	Off  int       `json:"off"`
	Why  string    `json:"why"`
	Txt  bool      `json:"txt"`
	T    TPDU      `json:"t"`
}

type SegA struct {
	T    TPDU  `json:"t"`
	Msg  Bytes `json:"msg"`
	Is16 bool  `json:"is16"`
	MR   Ints  `json:"mr"`
	CR   Ints  `json:"cr"`
}
type SegR struct {
	PDUs L[TPDU] `json:"pdus"`
	MR   Ints    `json:"mr"`
	CR   Ints    `json:"cr"`
}
type BlkA struct {
	T TPDU `json:"t"`
}
type BlkR struct {
	BS int `json:"bs"`
}
type EudA struct {
	Cps   Ints `json:"cps"`
	Lock  Ints `json:"lock"`
	Shift Ints `json:"shift"`
	All   bool `json:"all"`
}
type EudR struct {
	Alpha int   `json:"alpha"`
	UDH   IEs   `json:"udh"`
	UD    Bytes `json:"ud"`
}

// Opt is an encoder option.
type Opt struct {
	O   string `json:"o"`
	T   *TPDU  `json:"t,omitempty"`
	N   int    `json:"n"`
	Num Ints   `json:"num"`
	IEs IEs    `json:"ies"`
	NLI Ints   `json:"nli"`
}
type Call struct {
	Opts L[Opt] `json:"opts"`
	Msg  Bytes  `json:"msg"`
	Cps  Ints   `json:"cps"`
}
type HistA struct {
	Opts  L[Opt]  `json:"opts"`
	Calls L[Call] `json:"calls"`
	MR    int     `json:"mr"`
	CR    int     `json:"cr"`
	Top   bool    `json:"top"`
}
type CallR struct {
	Err  string  `json:"err"`
	PDUs L[TPDU] `json:"pdus"`
	MR   int     `json:"mr"`
	CR   int     `json:"cr"`
}
type HistR struct {
	Calls L[CallR] `json:"calls"`
}

type WfA struct {
	Opts L[Opt] `json:"opts"`
	Msg  Bytes  `json:"msg"`
}
type Wire struct {
	OK  bool  `json:"ok"`
	B   Bytes `json:"b"`
	UOK bool  `json:"uok"`
	T   TPDU  `json:"t"`
}
type WfR struct {
	Err  string  `json:"err"`
	PDUs L[TPDU] `json:"pdus"`
	Wire L[Wire] `json:"wire"`
}

type IcmA struct {
	Segs L[L[IEs]] `json:"segs"`
}
type IcmR struct {
	OK bool `json:"ok"`
}

// Edit is an edit of a TPDU.
type Edit struct {
	E   string `json:"e"`
	N   int    `json:"n"`
	Abs bool   `json:"abs"`
	B   Bytes  `json:"b"`
	IEs IEs    `json:"ies"`
	VP  VP     `json:"vp"`
	Ad  Addr   `json:"ad"`
	Via int    `json:"via"`
}
type EditA struct {
	T     TPDU    `json:"t"`
	Edits L[Edit] `json:"edits"`
}
type Acc struct {
	Type    int  `json:"type"`
	MTI     int  `json:"mti"`
	VPF     int  `json:"vpf"`
	UDHI    bool `json:"udhi"`
	MMS     bool `json:"mms"`
	RD      bool `json:"rd"`
	LP      bool `json:"lp"`
	SRI     bool `json:"sri"`
	SRR     bool `json:"srr"`
	SRQ     bool `json:"srq"`
	RP      bool `json:"rp"`
	PiPID   bool `json:"pipid"`
	PiDCS   bool `json:"pidcs"`
	PiUDL   bool `json:"piudl"`
	UDHL    int  `json:"udhl"`
	Alpha   int  `json:"alpha"`
	AlphaOK bool `json:"alphaok"`
	Concat  bool `json:"concat"`
	Total   int  `json:"total"`
	SeqNo   int  `json:"seqno"`
	Ref     int  `json:"ref"`
}
type Snap struct {
	Err bool `json:"err"`
	T   TPDU `json:"t"`
	Acc Acc  `json:"acc"`
}
type EditR struct {
	Snaps L[Snap] `json:"snaps"`
}
type BuildA struct {
	Base  int     `json:"base"`
	Edits L[Edit] `json:"edits"`
}

type PdumA struct {
	Ad Addr  `json:"ad"`
	B  Bytes `json:"b"`
}
type PdumR struct {
	OK   bool  `json:"ok"`
	B    Bytes `json:"b"`
	HOK  bool  `json:"hok"`
	H    Bytes `json:"h"`
	UOK  bool  `json:"uok"`
	Ad   Addr  `json:"ad"`
	TPDU Bytes `json:"tpdu"`
}
type PduuA struct {
	B   Bytes `json:"b"`
	Via int   `json:"via,omitempty"`
}
type PduhA struct {
	S Ints `json:"s"`
}
type PduR struct {
	OK   bool  `json:"ok"`
	Ad   Addr  `json:"ad"`
	TPDU Bytes `json:"tpdu"`
}

// Rec is one recorded call.
type Rec struct {
	I int    `json:"i"`
	K string `json:"k"`
	X string `json:"x"`
	A any    `json:"a"`
	R any    `json:"r"`
}

// New returns a pointer to fresh arguments for a kind.
func New(k string) any {
	switch k {
	case "pack":
		return &PackA{}
	case "unpack":
		return &UnpackA{}
	case "genc":
		return &GEncA{}
	case "gdec":
		return &GDecA{}
	case "ctab":
		return &CTabA{}
	case "uenc":
		return &UEncA{}
	case "udec":
		return &UDecA{}
	case "dec", "split":
		return &DecA{}
	case "dud":
		return &DUDA{}
	case "udhm":
		return &UdhmA{}
	case "udhu":
		return &UdhuA{}
	case "ies":
		return &IesA{}
	case "addrm":
		return &AddrmA{}
	case "addru":
		return &AddruA{}
	case "num":
		return &NumA{}
	case "semie":
		return &SemieA{}
	case "semid":
		return &SemidA{}
	case "bcd":
		return &BcdA{}
	case "bcdd":
		return &BcddA{}
	case "tsm":
		return &TsmA{}
	case "tsu":
		return &TsuA{}
	case "vpm":
		return &VpmA{}
	case "vpu":
		return &VpuA{}
	case "vpe":
		return &VpeA{}
	case "dcs":
		return &DcsA{}
	case "names":
		return &NamesA{}
	case "err":
		return &ErrA{}
	case "iei":
		return &IeiA{}
	case "str":
		return &StrA{}
	case "tm", "tmo", "rejm":
		return &TmA{}
	case "tu", "rej":
		return &TuA{}
	case "seg":
		return &SegA{}
	case "blk":
		return &BlkA{}
	case "eud":
		return &EudA{}
	case "hist":
		return &HistA{}
	case "wf":
		return &WfA{}
	case "e2e":
		return &E2EA{}
	case "iso":
		return &IsoA{}
	case "conc":
		return &ConcA{}
	case "reuse":
		return &ReuseA{}
	case "shared":
		return &SharedA{}
	case "icm":
		return &IcmA{}
	case "edit":
		return &EditA{}
	case "build":
		return &BuildA{}
	case "pdum":
		return &PdumA{}
	case "pduu", "rejp":
		return &PduuA{}
	case "pduh":
		return &PduhA{}
	case "sdecode":
		return &SdecodeA{}
	case "sdeliver":
		return &SdeliverA{}
	case "ssubmit":
		return &SsubmitA{}
	case "scount":
		return &ScountA{}
	case "chars":
		return &CharsA{}
	case "col07", "col08", "col09", "colc", "colf":
		return &ColA{}
	}
	return nil
}
