// Package encoding shares its name with another package the models use.
package encoding

type (
	Kind  string
	Num   int16
	Money uint32
	Box   struct {
		W, H int
	}
)

// Base is embedded; its name is that of other packages' too.
type Base struct {
	XdOne string
	XdTwo *int
	XdNum Num
}
