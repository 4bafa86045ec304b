package simrt

import "time"

// Sprintf is a small fmt.Sprintf (%s, %v, %d, %q, %%). The simulator formats with
// it because memory touched by package fmt is visible to the race detector.
func Sprintf(format string, args ...any) string {
	var b []byte
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 == len(format) {
			b = append(b, format[i])
			continue
		}
		i++
		if format[i] == '%' {
			b = append(b, '%')
			continue
		}
		if k < len(args) {
			b = appendAny(b, args[k], format[i] == 'q')
		}
		k++
	}
	return string(b)
}

func appendInt(b []byte, v int64) []byte {
	if v < 0 {
		b = append(b, '-')
		v = -v
	}
	var t [20]byte
	i := len(t)
	for {
		i--
		t[i] = byte('0' + v%10)
		v /= 10
		if v == 0 {
			break
		}
	}
	return append(b, t[i:]...)
}

func appendQuoted(b []byte, s string) []byte {
	const hex = "0123456789abcdef"
	b = append(b, '"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '\n':
			b = append(b, '\\', 'n')
		case c == '"' || c == '\\':
			b = append(b, '\\', c)
		case c < 0x20 || c == 0x7f:
			b = append(b, '\\', 'x', hex[c>>4], hex[c&15])
		default:
			b = append(b, c)
		}
	}
	return append(b, '"')
}

func appendAny(b []byte, a any, quote bool) []byte {
	str := func(s string) []byte {
		if quote {
			return appendQuoted(b, s)
		}
		return append(b, s...)
	}
	switch v := a.(type) {
	case nil:
		return append(b, "nil"...)
	case string:
		return str(v)
	case []byte:
		return str(string(v))
	case int:
		return appendInt(b, int64(v))
	case int64:
		return appendInt(b, v)
	case uint32:
		return appendInt(b, int64(v))
	case bool:
		if v {
			return append(b, "true"...)
		}
		return append(b, "false"...)
	case time.Duration:
		if v%time.Millisecond == 0 {
			return append(appendInt(b, int64(v/time.Millisecond)), "ms"...)
		}
		return append(appendInt(b, int64(v)), "ns"...)
	case error:
		return str(v.Error())
	case interface{ String() string }:
		return str(v.String())
	}
	return append(b, '?')
}
