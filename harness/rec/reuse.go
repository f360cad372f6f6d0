package rec

// ReuseA are calls of one kind that read into the same variable, in turn.
type ReuseA struct {
	Calls L[Sub] `json:"calls"`
}

// ReuseR are the values it had after each, seen after the last.
type ReuseR struct {
	Calls L[SubR] `json:"calls"`
}
