package zzvnd

import (
	"errors"
	"io"
	"os"
	"strconv"
)

// File makes a file with the given content and returns its path. The engine
// keeps the content, with symbolic bytes, and gives it to readers of that path.
func File(content []byte) string {
	f, err := os.CreateTemp("", "vnd")
	if err != nil {
		panic(status{"error", err.Error()})
	}
	os.Remove(f.Name())
	if _, err := f.Write(content); err != nil {
		panic(status{"error", err.Error()})
	}
	return "/proc/self/fd/" + strconv.Itoa(int(f.Fd()))
}

// Sscanf stands for fmt.Sscanf in symbolic runs, for formats of %d and
// literals other than spaces and for input without spaces.
func Sscanf(str, format string, a ...any) (int, error) {
	pos, n := 0, 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			if format[i] == ' ' || format[i] == '\n' {
				Unsupported("a space in a scanning format")
			}
			if pos >= len(str) {
				return n, io.ErrUnexpectedEOF
			}
			if str[pos] != format[i] {
				return n, errors.New("input does not match format")
			}
			pos++
			continue
		}
		i++
		if i >= len(format) || format[i] != 'd' || n >= len(a) {
			Unsupported("a scanning format with other verbs than %d")
		}
		if pos >= len(str) {
			return n, io.EOF
		}
		if str[pos] <= ' ' || str[pos] >= 0x80 {
			Unsupported("spaces and wide characters before a number")
		}
		neg := false
		if str[pos] == '-' || str[pos] == '+' {
			neg = str[pos] == '-'
			pos++
		}
		v, digits := uint64(0), 0
		for pos < len(str) {
			c := str[pos]
			if c == '_' || c >= 0x80 {
				Unsupported("underscores and wide characters in scanned text")
			}
			if c < '0' || c > '9' {
				break
			}
			if digits >= 18 {
				return n, errors.New("integer overflow")
			}
			v = v*10 + uint64(c-'0')
			digits++
			pos++
		}
		if digits == 0 {
			if pos >= len(str) {
				return n, io.EOF
			}
			return n, errors.New("expected integer")
		}
		x := int64(v)
		if neg {
			x = -x
		}
		switch p := a[n].(type) {
		case *int:
			*p = int(x)
		case *int64:
			*p = x
		case *uint64:
			*p = uint64(x)
		default:
			Unsupported("scanning into another type than int")
		}
		n++
	}
	if n < len(a) {
		return n, errors.New("too many operands")
	}
	return n, nil
}

// Unsupported gives up a symbolic run.
func Unsupported(s string) { panic(status{"error", s}) }
