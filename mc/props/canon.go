package props

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// canon prints a value in full: pointers are followed, times are printed in
// UTC, unexported fields are left out.
func canon(v any) string {
	var b strings.Builder
	canonTo(&b, reflect.ValueOf(v))
	return b.String()
}

var timeType = reflect.TypeOf(time.Time{})

func canonTo(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if v.Type() == timeType {
		b.WriteString(v.Interface().(time.Time).UTC().Format("2006-01-02T15:04:05"))
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		canonTo(b, v.Elem())
	case reflect.Struct:
		t := v.Type()
		b.WriteByte('{')
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath != "" {
				continue
			}
			b.WriteString(t.Field(i).Name)
			b.WriteByte('=')
			canonTo(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(b, "%q", v.Bytes())
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			canonTo(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Map:
		var keys []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			keys = append(keys, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(keys)
		b.WriteByte('<')
		for _, k := range keys {
			b.WriteString(k + ":")
			canonTo(b, m[k])
			b.WriteByte(' ')
		}
		b.WriteByte('>')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Func, reflect.Chan:
		b.WriteString(v.Kind().String())
	default:
		fmt.Fprint(b, v.Interface())
	}
}
