package checks

import (
	"bytes"
	"fmt"
	"net/netip"

	"pgregory.net/rapid"

	"verif/harness/ref"
)

// list makes a slice without naming its (possibly unexported) element type.
func list[T any](x ...T) []T { return x }

func pick[T any](t *rapid.T, label string, xs ...T) T {
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, label)]
}

// chance is true in n out of 100 cases, and shrinks to false.
func chance(t *rapid.T, label string, n int) bool {
	if n >= 12 { // IntRange favours small numbers
		x := 0
		for i := 0; i < 4; i++ {
			x *= 2
			if rapid.Bool().Draw(t, label) {
				x++
			}
		}
		return x >= 16-(n*16+50)/100
	}
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-n
}

// widthEdges are the values where the varint encoding gets longer.
var widthEdges = func() []uint64 {
	e := []uint64{0, 1, 239, 240}
	v := uint64(240)
	for i := uint(0); i < 8; i++ {
		v += 128 << (7*i + 4)
		e = append(e, v-1, v, v+1)
	}
	for _, b := range []uint{7, 8, 15, 16, 31, 32, 33, 47, 48, 62, 63} {
		e = append(e, 1<<b-1, 1<<b, 1<<b+1)
	}
	return append(e, 1<<64-1, 1<<64-2, 1<<64-16, 1<<64-240, 1<<64-241)
}()

// genU64 favours small values and the edges of encodings.
func genU64(t *rapid.T, label string) uint64 {
	if n, ok := dictNum(t, label, 0, 1<<64-1); ok {
		return n
	}
	switch rapid.IntRange(0, 3).Draw(t, label+"/kind") {
	case 0:
		return rapid.Uint64Range(0, 300).Draw(t, label)
	case 1:
		e := widthEdges[rapid.IntRange(0, len(widthEdges)-1).Draw(t, label+"/edge")]
		return e + rapid.Uint64Range(0, 32).Draw(t, label+"/off") - 16
	case 2:
		return 1<<rapid.UintRange(0, 63).Draw(t, label+"/bit") | rapid.Uint64().Draw(t, label+"/low")&0xff
	default:
		return rapid.Uint64().Draw(t, label)
	}
}

func genU32(t *rapid.T, label string) uint32 {
	if n, ok := dictNum(t, label, 0, 1<<32-1); ok {
		return uint32(n)
	}
	switch rapid.IntRange(0, 2).Draw(t, label+"/kind") {
	case 0:
		return uint32(genU64(t, label))
	case 1:
		return pick[uint32](t, label, 0, 1, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe)
	default:
		return rapid.Uint32().Draw(t, label)
	}
}

// genLen favours short lengths but visits those around the edges of the length
// prefix, up to max.
func genLen(t *rapid.T, label string, max int) int {
	if n, ok := dictNum(t, label, 0, uint64(max)); ok {
		return int(n)
	}
	switch rapid.IntRange(0, 19).Draw(t, label+"/len") {
	case 17:
		return min(rapid.IntRange(236, 244).Draw(t, label+"/n"), max)
	case 18:
		return min(rapid.IntRange(2284, 2292).Draw(t, label+"/n"), max)
	case 19:
		return rapid.IntRange(0, max).Draw(t, label+"/n")
	default:
		return min(rapid.IntRange(0, 12).Draw(t, label+"/n"), max)
	}
}

// genBig makes a length of 30000 and more, often where something may end: 16
// bits, the third byte of a varint, powers of two.
func genBig(t *rapid.T, label string) int {
	if n, ok := dictNum(t, label, 30000, 1<<23); ok {
		return int(n)
	}
	n := pick(t, label, 30000, 65535, 65536, 65536, 131072, 264432, 264432, 1<<20, 1<<20, 1<<22, 1<<23)
	if chance(t, label+"/huge", 6) {
		n = pick(t, label, 1<<24, 1<<25, 33818864)
	}
	return max(0, n+pick(t, label+"/more", 0, 0, 0, -1, -1, 1, 1, -2, 2, -20, 300, rapid.IntRange(-5000, 5000).Draw(t, label+"/any")))
}

// fill makes n bytes that are not the same everywhere.
func fill(n int) ref.Str {
	b := make(ref.Str, n)
	x := uint32(n) + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// genStr makes arbitrary bytes. Long strings are a run of one byte with
// arbitrary bytes at both ends, to keep cases small.
func genStr(t *rapid.T, label string, max int) ref.Str {
	if s, ok := dictStr(t, label, max); ok {
		return ref.Str(s)
	}
	n := genLen(t, label, max)
	if n <= 24 {
		return genBytes(t, label, n)
	}
	b := bytes.Repeat([]byte{rapid.Byte().Draw(t, label+"/fill")}, n)
	copy(b, genBytes(t, label+"/head", 4))
	copy(b[n-4:], genBytes(t, label+"/tail", 4))
	return b
}

func genBytes(t *rapid.T, label string, n int) ref.Str {
	b := make([]byte, n)
	kind := rapid.IntRange(0, 2).Draw(t, label+"/alpha")
	for i := range b {
		switch kind {
		case 0:
			b[i] = rapid.ByteRange('a', 'e').Draw(t, label)
		case 1:
			b[i] = pick[byte](t, label, 0, 1, 8, 0x10, 0x7f, 0x80, 0xef, 0xf0, 0xff, 'a', '\n', ' ')
		default:
			b[i] = rapid.Byte().Draw(t, label)
		}
	}
	return b
}

// genValue makes a typed value of any type.
func genValue(t *rapid.T, label string, max int) ref.Value {
	return genValueOf(t, label, rapid.IntRange(ref.TNull, ref.TBinary).Draw(t, label+"/type"), max)
}

func genValueOf(t *rapid.T, label string, typ, max int) ref.Value {
	v := ref.Value{T: typ}
	switch typ {
	case ref.TBool:
		v.Bool = rapid.Bool().Draw(t, label)
	case ref.TInt32:
		v.Int = uint64(int64(int32(genU32(t, label))))
	case ref.TUInt32:
		v.Int = uint64(genU32(t, label))
	case ref.TInt64, ref.TUInt64:
		v.Int = genU64(t, label)
	case ref.TIPv4:
		v.Bytes = genBytes(t, label, 4)
	case ref.TIPv6:
		if chance(t, label+"/4in6", 20) {
			v.Bytes = append(append(ref.Str(nil), "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff"...), genBytes(t, label, 4)...)
		} else {
			v.Bytes = genBytes(t, label, 16)
		}
	case ref.TString, ref.TBinary:
		v.Bytes = genStr(t, label, max)
	}
	return v
}

func genKV(t *rapid.T, max int) ref.KV {
	return ref.KV{Name: genStr(t, "name", max), V: genValue(t, "value", max)}
}

func genKVs(t *rapid.T, maxCount, maxLen int) []ref.KV {
	n := genCount(t, "nkv", 0, maxCount, max(maxCount, countOf(maxLen, 255)))
	kvs := make([]ref.KV, n)
	for i := range kvs {
		kvs[i] = genKV(t, maxLen)
	}
	return kvs
}

// countOf bounds a count of things that are up to maxLen long each.
func countOf(maxLen, most int) int { return min(most, 100000/(maxLen+1)) }

func genMessage(t *rapid.T, maxArgs, maxLen int) ref.Message {
	return ref.Message{Name: genStr(t, "message", maxLen), Args: genKVs(t, maxArgs, maxLen)}
}

func addrOf(b []byte) netip.Addr {
	a, ok := netip.AddrFromSlice(b)
	if !ok {
		panic(fmt.Sprintf("harness: address of %d bytes", len(b)))
	}
	return a
}

// genSizes makes chunk sizes for splitting a stream into reads.
func genSizes(t *rapid.T, label string, maxChunks int) []int {
	switch rapid.IntRange(0, 3).Draw(t, label+"/kind") {
	case 0:
		return nil // all at once
	case 1: // many single bytes
		n := rapid.IntRange(1, maxChunks).Draw(t, label+"/ones")
		s := make([]int, n)
		for i := range s {
			s[i] = 1
		}
		return s
	default:
		s := rapid.SliceOfN(rapid.IntRange(1, 40), 0, maxChunks).Draw(t, label)
		if n, ok := dictNum(t, label, 1, 70000); ok && len(s) > 0 {
			// Of all, or of what follows the length of a frame.
			s[0] = int(n) + pick(t, label+"/after", 0, 4)
		}
		return s
	}
}

// mutate makes malformed variants of a valid encoding: truncation, changed,
// removed and inserted bytes, huge integers.
func mutate(t *rapid.T, b []byte) ref.Str {
	b = append([]byte(nil), b...)
	for n := rapid.IntRange(0, 3).Draw(t, "mutations"); n > 0; n-- {
		if len(b) == 0 {
			return append(b, genBytes(t, "junk", rapid.IntRange(0, 8).Draw(t, "njunk"))...)
		}
		i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
		switch rapid.IntRange(0, 5).Draw(t, "mutation") {
		case 0:
			b = b[:i]
		case 1:
			b[i] = rapid.Byte().Draw(t, "byte")
		case 2:
			b[i] ^= 1 << rapid.UintRange(0, 7).Draw(t, "flip")
		case 3:
			b = append(b[:i], b[i+1:]...)
		case 4:
			b = append(b[:i], append(genBytes(t, "insert", rapid.IntRange(1, 4).Draw(t, "ninsert")), b[i:]...)...)
		case 5:
			b = append(b[:i], append(ref.AppendVarint(nil, genU64(t, "huge")), b[i+1:]...)...)
		}
	}
	return b
}

// trunc shortens values in messages.
func trunc(v any) string { return ref.Trunc(v) }

// canary surrounds a buffer to detect writes outside of it.
const canaryByte = 0xA5

func canaryBuf(n int) (buf []byte, check func() error) {
	const pad = 32
	all := bytes.Repeat([]byte{canaryByte}, n+2*pad)
	buf = all[pad : pad+n]
	for i := range buf {
		buf[i] = 0x5A
	}
	return buf, func() error {
		for i, c := range all {
			if (i < pad || i >= pad+n) && c != canaryByte {
				return fmt.Errorf("byte %d relative to a buffer of %d bytes was overwritten", i-pad, n)
			}
		}
		return nil
	}
}
