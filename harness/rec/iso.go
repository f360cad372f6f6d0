package rec

// IsoStep is a call on objects of a workspace: X and Y choose among those of
// the kinds it takes, N among its variations.
type IsoStep struct {
	O string `json:"o"`
	X int    `json:"x"`
	Y int    `json:"y"`
	N int    `json:"n"`
}

// IsoA is a workspace and the calls made on it.
type IsoA struct {
	Bufs  L[Bytes]   `json:"bufs"`
	UDHs  L[IEs]     `json:"udhs"`
	TPDUs L[TPDU]    `json:"tpdus"`
	Steps L[IsoStep] `json:"steps"`
}

// IsoSeen is what a call did: the object it is meant to change, or 0, the
// number of objects after it, and the earlier objects that changed.
type IsoSeen struct {
	Target  int  `json:"target"`
	N       int  `json:"n"`
	Changed Ints `json:"changed"`
}

// IsoR has one for each step, and the number of objects at first.
type IsoR struct {
	N     int        `json:"n"`
	Steps L[IsoSeen] `json:"steps"`
}
