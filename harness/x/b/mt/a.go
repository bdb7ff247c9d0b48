// Package mt shares its name with another package the models use.
package mt

type (
	Kind  string
	Num   int16
	Money uint32
	Box   struct {
		W, H int
	}
)

// Base is embedded; its name is that of other packages' too.
type Base struct {
	XbOne string
	XbTwo *int
	XbNum Num
}
