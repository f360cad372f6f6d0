package rec

import "encoding/json"

// Sub is a call among others.
type Sub struct {
	K string `json:"k"`
	A any    `json:"a"`
}

// UnmarshalJSON makes the arguments of the kind.
func (s *Sub) UnmarshalJSON(b []byte) error {
	var h struct {
		K string
		A json.RawMessage
	}
	if err := json.Unmarshal(b, &h); err != nil {
		return err
	}
	s.K, s.A = h.K, New(h.K)
	return json.Unmarshal(h.A, s.A)
}

// SubR is the result of such a call.
type SubR struct {
	X string `json:"x"`
	R any    `json:"r"`
}

// ConcA are the calls of concurrent clients. Share: those with the same
// character sets use the same Encoder or Decoder of them.
type ConcA struct {
	Clients L[L[Sub]] `json:"clients"`
	Share   bool      `json:"share"`
}

// ConcR are their results.
type ConcR struct {
	Clients L[L[SubR]] `json:"clients"`
}

// SharedA are concurrent calls on one Encoder. Opts are the options of the
// Encoder, and Each those given to every call, made once.
type SharedA struct {
	Opts    L[Opt]     `json:"opts"`
	Each    L[Opt]     `json:"each"`
	Clients L[L[Call]] `json:"clients"`
	MR      int        `json:"mr"`
	CR      int        `json:"cr"`
}

// SharedR are their results and the counts after.
type SharedR struct {
	Clients L[L[CallR]] `json:"clients"`
	MR      int         `json:"mr"`
	CR      int         `json:"cr"`
}
