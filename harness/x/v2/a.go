// Package v shares its name with another package the models use.
package v

type (
	Kind  string
	Num   int16
	Money uint32
	Box   struct {
		W, H int
	}
)

// Base is embedded; its name is that of other packages' too.
type Base struct {
	XvOne string
	XvTwo *int
	XvNum Num
}
