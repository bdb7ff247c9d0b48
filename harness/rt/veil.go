package rt

import (
	"database/sql/driver"
	"reflect"

	"verif/harness/minisql"
)

// Veil is the converter of the columns with an SQL value function: it sends
// the value in a form only the function understands.
func Veil(v any) any {
	if x, ok := v.(driver.Valuer); ok {
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Pointer && rv.IsNil() {
			return v
		}
		y, err := x.Value()
		if err != nil {
			return v
		}
		v = y
	}
	y, err := driver.DefaultParameterConverter.ConvertValue(v)
	if err != nil {
		rv := reflect.ValueOf(v)
		if !rv.CanUint() {
			return v
		}
		y = rv.Uint()
	}
	if z, ok := minisql.Veil(y); ok {
		return z
	}
	return v
}

// Unveiling is the SQL value function.
func Unveiling(placeholder string) string { return "unveil(" + placeholder + ")" }
