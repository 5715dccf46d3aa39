package main

import (
	"fmt"
	"reflect"

	"github.com/akito0107/xsqlparser/sqltoken"
)

var posType = reflect.TypeOf(sqltoken.Pos{})

// diff compares two trees by their public content, positions excepted. It returns "" if they are equal.
func diff(a, b interface{}) string {
	return diffValue(reflect.ValueOf(a), reflect.ValueOf(b), false)
}

// diffPos is diff including positions.
func diffPos(a, b interface{}) string {
	return diffValue(reflect.ValueOf(a), reflect.ValueOf(b), true)
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Slice:
		if v.IsNil() {
			return "nil"
		}
	}
	for v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() == reflect.Ptr {
		return fmt.Sprintf("%s%+v", v.Type(), v.Elem().Interface())
	}
	if v.CanInterface() {
		return fmt.Sprintf("%s %#v", v.Type(), v.Interface())
	}
	return v.Type().String()
}

func diffValue(a, b reflect.Value, pos bool) string {
	if !a.IsValid() || !b.IsValid() {
		if a.IsValid() == b.IsValid() {
			return ""
		}
		return fmt.Sprintf(": %s, want %s", show(a), show(b))
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf(": %s, want %s", show(a), show(b))
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			return fmt.Sprintf(": %s, want %s", show(a), show(b))
		}
		return diffValue(a.Elem(), b.Elem(), pos)
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() == b.IsNil() {
				return ""
			}
			return fmt.Sprintf(": %s, want %s", show(a), show(b))
		}
		if a.Pointer() == b.Pointer() {
			return ""
		}
		return diffValue(a.Elem(), b.Elem(), pos)
	case reflect.Struct:
		if a.Type() == posType {
			if !pos || a.Interface() == b.Interface() {
				return ""
			}
			return fmt.Sprintf(": %v, want %v", a.Interface(), b.Interface())
		}
		fi := fieldsOf(a.Type())
		for _, f := range fi {
			if f.pos && !pos {
				continue
			}
			if f.args {
				// a table called without arguments is not a table
				x, y := a.Field(f.i), b.Field(f.i)
				if x.IsNil() != y.IsNil() {
					return fmt.Sprintf(".%s: %s, want %s", f.name, show(x), show(y))
				}
			}
			if d := diffValue(a.Field(f.i), b.Field(f.i), pos); d != "" {
				return "." + f.name + d
			}
		}
		return ""
	case reflect.Slice, reflect.Array:
		for i := 0; i < a.Len() && i < b.Len(); i++ {
			if d := diffValue(a.Index(i), b.Index(i), pos); d != "" {
				return "[" + itoa(i) + "]" + d
			}
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf(": %d elements, want %d", a.Len(), b.Len())
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf(": %q, want %q", a.String(), b.String())
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf(": %v, want %v", a.Bool(), b.Bool())
		}
		return ""
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf(": %d, want %d", a.Int(), b.Int())
		}
		return ""
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf(": %d, want %d", a.Uint(), b.Uint())
		}
		return ""
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() {
			return fmt.Sprintf(": %v, want %v", a.Float(), b.Float())
		}
		return ""
	}
	if a.CanInterface() && !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return ": differs"
	}
	return ""
}

func itoa(i int) string { return fmt.Sprint(i) }
