package rec

// Name is a named value.
type Name struct {
	N string `json:"n"`
	V int    `json:"v"`
}

// NamesA is nothing; NamesR is the value of each name.
type NamesA struct{}
type NamesR struct {
	L L[Name] `json:"l"`
}

// IeiA says whether to encode or decode and with which kind of table; IeiR is
// the elements that name such a table.
type IeiA struct {
	Enc  bool `json:"enc"`
	Lock bool `json:"lock"`
}
type IeiR struct {
	IDs Ints `json:"ids"`
}

// StrA is a value of a kind, StrR its text.
type StrA struct {
	K string `json:"k"`
	N int    `json:"n"`
	T Ints   `json:"t"`
}
type StrR struct {
	S Ints `json:"s"`
}
