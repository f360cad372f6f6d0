package rec

// SdecodeA are the argument and flags of smsdecode.
//
// Extra: the number of arguments beyond the one it takes.
type SdecodeA struct {
	S     Ints `json:"s"`
	P     bool `json:"p"`
	O     bool `json:"o"`
	Extra int  `json:"extra"`
}
type SdecodeR struct {
	Exit int  `json:"exit"`
	Out  Ints `json:"out"`
	Err  bool `json:"err"`
}

// SdeliverA are the arguments of smsdeliver: TPDUs, or frames, in hex.
type SdeliverA struct {
	Args L[Ints] `json:"args"`
	P    bool    `json:"p"`
}
type SdeliverR struct {
	Exit int   `json:"exit"`
	Out  Bytes `json:"out"`
	Left int   `json:"left"`
	Err  bool  `json:"err"`
}

// SsubmitA are the arguments of smssubmit.
type SsubmitA struct {
	Num Ints  `json:"num"`
	Msg Bytes `json:"msg"`
	Cps Ints  `json:"cps"`
	NLI int   `json:"nli"`
}
type SsubmitR struct {
	Exit   int     `json:"exit"`
	Labels Ints    `json:"labels"`
	Hex    L[Ints] `json:"hex"`
	Err    bool    `json:"err"`
}

// ScountA are the arguments of smscounter.
type ScountA struct {
	Msg Bytes `json:"msg"`
	Cps Ints  `json:"cps"`
	NLI int   `json:"nli"`
}
type ScountR struct {
	Exit  int    `json:"exit"`
	Enc   string `json:"enc"`
	N     int    `json:"n"`
	Total int    `json:"total"`
	Last  int    `json:"last"`
	Per   int    `json:"per"`
	Left  int    `json:"left"`
}

// CharsA: charsets has no arguments.
type CharsA struct {
	Via int `json:"via"`
}
type CharsT struct {
	Name  string  `json:"name"`
	NLI   int     `json:"nli"`
	Shift bool    `json:"shift"`
	Cells L[Ints] `json:"cells"`
}
type CharsR struct {
	Tables L[CharsT] `json:"tables"`
}
