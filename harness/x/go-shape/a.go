// Package shape shares its name with another package the models use.
package shape

type (
	Kind  string
	Num   int16
	Money uint32
	Box   struct {
		W, H int
	}
)

// Base is embedded; its name is that of other packages' too.
type Base struct {
	XhOne string
	XhTwo *int
	XhNum Num
}
