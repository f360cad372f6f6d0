package rec

// Bubble runs a history with a clock of its own, if there is one; Wait waits
// until nothing more happens in it without time passing.
var (
	Bubble func(func())
	Wait   func()
)

// ColP is a TPDU given to a Collector; ID stands for its contents.
type ColP struct {
	ID   int  `json:"id"`
	Ty   int  `json:"ty"`
	TOA  int  `json:"toa"`
	Addr Ints `json:"addr"`
	UDH  IEs  `json:"udh"`
}

// ColOp is a step of a client: collect the TPDU P, pipes, close, sleep N,
// lock, unlock.
type ColOp struct {
	O string `json:"o"`
	P int    `json:"p"`
	N int    `json:"n"`
}

// ColA is a history: D is the timeout, in milliseconds (or microseconds if
// Real), HOps what the handler does, Settle whether the first client waits
// after each step.
type ColA struct {
	D       int         `json:"d"`
	Handler bool        `json:"handler"`
	Real    bool        `json:"real"`
	Settle  bool        `json:"settle"`
	HOps    L[ColOp]    `json:"hops"`
	Pdus    L[ColP]     `json:"pdus"`
	Clients L[L[ColOp]] `json:"clients"`
}

// ColEv is something seen.
type ColEv struct {
	E     string  `json:"e"`
	C     int     `json:"c"`
	T     int     `json:"t"`
	U     int     `json:"u"`
	Op    string  `json:"op"`
	P     int     `json:"p"`
	Err   string  `json:"err"`
	IDs   Ints    `json:"ids"`
	Pipes L[Ints] `json:"pipes"`
}

// ColR is what was seen.
type ColR struct {
	Ev L[*ColEv] `json:"ev"`
}
