// Package strconv shares its name with another package the models use.
package strconv

type (
	Kind  string
	Num   int16
	Money uint32
	Box   struct {
		W, H int
	}
)

// Base is embedded; its name is that of other packages' too.
type Base struct {
	XfOne string
	XfTwo *int
	XfNum Num
}
