package ref

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// Str is a byte string that survives JSON and stays readable in replay files:
// printable ASCII is kept, other bytes are \xNN and long runs \*COUNT:NN;.
type Str []byte

func (s Str) MarshalJSON() ([]byte, error) {
	return json.Marshal(quote(s))
}

func quote(s []byte) string {
	out := make([]byte, 0, len(s)+8)
	for i := 0; i < len(s); {
		c := s[i]
		j := i
		for j < len(s) && s[j] == c {
			j++
		}
		if j-i >= 16 {
			out = append(out, fmt.Sprintf("\\*%d:%02x;", j-i, c)...)
			i = j
			continue
		}
		switch {
		case c == '\\':
			out = append(out, '\\', '\\')
		case c >= 0x20 && c < 0x7f:
			out = append(out, c)
		default:
			out = append(out, fmt.Sprintf("\\x%02x", c)...)
		}
		i++
	}
	return string(out)
}

func (s *Str) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	out := make([]byte, 0, len(q))
	for i := 0; i < len(q); i++ {
		if q[i] != '\\' {
			out = append(out, q[i])
			continue
		}
		if i+1 >= len(q) {
			return fmt.Errorf("bad escape in %q", q)
		}
		switch q[i+1] {
		case '\\':
			out = append(out, '\\')
			i++
		case 'x':
			if i+3 >= len(q) {
				return fmt.Errorf("bad escape in %q", q)
			}
			v, err := strconv.ParseUint(q[i+2:i+4], 16, 8)
			if err != nil {
				return err
			}
			out = append(out, byte(v))
			i += 3
		case '*':
			end := strings.IndexByte(q[i:], ';')
			if end < 0 {
				return fmt.Errorf("bad escape in %q", q)
			}
			var n int
			var v byte
			if _, err := fmt.Sscanf(q[i:i+end], "\\*%d:%02x", &n, &v); err != nil {
				return err
			}
			for ; n > 0; n-- {
				out = append(out, v)
			}
			i += end
		default:
			return fmt.Errorf("bad escape in %q", q)
		}
	}
	*s = out
	return nil
}

func (s Str) String() string { return `"` + quote(s) + `"` }

// Trunc formats v for an error message, cut to a readable length.
func Trunc(v any) string {
	s := fmt.Sprintf("%v", v)
	if len(s) > 600 {
		s = s[:600] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}
