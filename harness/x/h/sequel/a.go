// Package sequel shares its name with another package the models use.
package sequel

type (
	Kind  string
	Num   int16
	Money uint32
	Box   struct {
		W, H int
	}
)

// Base is embedded; its name is that of other packages' too.
type Base struct {
	XsOne string
	XsTwo *int
	XsNum Num
}
