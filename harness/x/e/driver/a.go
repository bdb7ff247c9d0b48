// Package driver shares its name with another package the models use.
package driver

type (
	Kind  string
	Num   int16
	Money uint32
	Box   struct {
		W, H int
	}
)

// Base is embedded; its name is that of other packages' too.
type Base struct {
	XeOne string
	XeTwo *int
	XeNum Num
}
