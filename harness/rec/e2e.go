package rec

// Sender is an Encoder, or (Wide) the steps it makes with 16 bit references:
// its first option is then the template.
type Sender struct {
	Opts L[Opt] `json:"opts"`
	MR   int    `json:"mr"`
	CR   int    `json:"cr"`
	Wide bool   `json:"wide"`
}

// Sent is a message given to the sender S.
type Sent struct {
	S    int    `json:"s"`
	Opts L[Opt] `json:"opts"`
	Msg  Bytes  `json:"msg"`
	Cps  Ints   `json:"cps"`
}

// E2EA is a set of messages sent, and how their TPDUs arrive.
type E2EA struct {
	Senders L[Sender] `json:"senders"`
	Msgs    L[Sent]   `json:"msgs"`
	// Order: 0 as sent, 1 reversed, 2 shuffled, 3 in turns, 4 last segments first,
	// 5 as At says: the number of the message and of the TPDU
	Order  int     `json:"order"`
	At     L[Ints] `json:"at"`
	Seed   int     `json:"seed"`
	Rounds int     `json:"rounds"`
	Via    int     `json:"via"`
}

// Fed is a TPDU, the Q-th of the message M, being collected.
type Fed struct {
	M   int     `json:"m"`
	Q   int     `json:"q"`
	Err string  `json:"err"`
	IDs L[Ints] `json:"ids"`
	OK  bool    `json:"ok"`
	B   Bytes   `json:"b"`
}

// E2ER is what happened.
type E2ER struct {
	Errs L[string] `json:"errs"`
	N    Ints      `json:"n"`
	Feed L[Fed]    `json:"feed"`
}
