package core

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
)

// Dump appends a canonical structural description of v to buf: everything
// reachable from v by following pointers, interfaces, slices (with spare
// capacity), arrays, maps and unexported fields. Addresses are not printed, so
// equal dumps mean structurally identical values, whatever the names or number
// of the fields are. It is the state identity used by the explicit-state search.
func Dump(buf []byte, v any) []byte {
	return dumpValue(buf, reflect.ValueOf(v), 0)
}

const maxDumpDepth = 400

func dumpValue(b []byte, v reflect.Value, depth int) []byte {
	if depth > maxDumpDepth {
		return append(b, "…"...)
	}
	switch v.Kind() {
	case reflect.Invalid:
		return append(b, '0')
	case reflect.Bool:
		if v.Bool() {
			return append(b, 'T')
		}
		return append(b, 'F')
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.AppendInt(b, v.Int(), 36)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return strconv.AppendUint(b, v.Uint(), 36)
	case reflect.Float32, reflect.Float64:
		return strconv.AppendFloat(b, v.Float(), 'g', -1, 64)
	case reflect.Complex64, reflect.Complex128:
		return append(b, fmt.Sprint(v.Complex())...)
	case reflect.String:
		return strconv.AppendQuote(b, v.String())
	case reflect.Pointer:
		if v.IsNil() {
			return append(b, '0')
		}
		b = append(b, '*')
		return dumpValue(b, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return append(b, '0')
		}
		e := v.Elem()
		b = append(b, typeTag(e.Type())...)
		return dumpValue(b, e, depth+1)
	case reflect.Struct:
		if v.NumField() == 1 {
			return dumpValue(b, v.Field(0), depth+1)
		}
		if v.Type() == typeE {
			b = append(b, 'e')
			return strconv.AppendInt(b, v.Field(0).Int(), 36)
		}
		b = append(b, '{')
		for i, n := 0, v.NumField(); i < n; i++ {
			if i > 0 {
				b = append(b, ' ')
			}
			b = dumpValue(b, v.Field(i), depth+1)
		}
		return append(b, '}')
	case reflect.Array:
		b = append(b, '[')
		for i, n := 0, v.Len(); i < n; i++ {
			f := v.Index(i)
			if k := f.Kind(); (k == reflect.Interface || k == reflect.Pointer) && f.IsNil() {
				continue
			}
			b = strconv.AppendInt(b, int64(i), 10)
			b = append(b, ':')
			b = dumpValue(b, f, depth+1)
		}
		return append(b, ']')
	case reflect.Slice:
		if v.IsNil() {
			return append(b, '0')
		}
		b = append(b, '(')
		if slack := v.Cap() - v.Len(); slack > 0 {
			b = append(b, '+')
			b = strconv.AppendInt(b, int64(slack), 10)
			b = append(b, ';')
		}
		for i, n := 0, v.Len(); i < n; i++ {
			if i > 0 {
				b = append(b, ' ')
			}
			b = dumpValue(b, v.Index(i), depth+1)
		}
		return append(b, ')')
	case reflect.Map:
		var es []string
		for it := v.MapRange(); it.Next(); {
			e := dumpValue(nil, it.Key(), depth+1)
			e = append(e, '=')
			e = dumpValue(e, it.Value(), depth+1)
			es = append(es, string(e))
		}
		sort.Strings(es)
		b = append(b, 'm', '{')
		for _, e := range es {
			b = append(append(b, e...), ' ')
		}
		return append(b, '}')
	default: // func, chan, unsafe pointer
		if v.IsNil() {
			return append(b, '0')
		}
		return append(b, '?')
	}
}

var typeE = reflect.TypeOf(E{})

var tagCache = map[reflect.Type]string{}

func typeTag(t reflect.Type) string {
	tagMu.RLock()
	s, ok := tagCache[t]
	tagMu.RUnlock()
	if ok {
		return s
	}
	tagMu.Lock()
	defer tagMu.Unlock()
	if s, ok := tagCache[t]; ok {
		return s
	}
	s = fmt.Sprintf("#%d", len(tagCache))
	tagCache[t] = s
	return s
}
