// Package pbt is a small property-based testing engine: every random decision of a
// property is one bounded integer drawn from a choice sequence, so a failing case is
// replayed and shrunk by editing that sequence. A run is a pure function of the seed
// and of the code under test.
package pbt

import (
	"fmt"
	"hash/fnv"
	"math"
	"runtime/debug"
	"sort"
	"strings"
)

// T is handed to a property; all randomness must come from it.
type T struct {
	rng     uint64
	prefix  []uint64 // choices to replay
	replay  bool     // beyond the prefix every choice is 0
	choices []uint64
	spans   []span
	open    []int

	labels     []string
	nontrivial bool
	notes      []string
	key        uint64
	haskey     bool
}

type span struct{ lo, hi int }

type failure struct{ msg string }
type discard struct{}
type enough struct{}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func caseSeed(seed int64, sub string, idx int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%d", seed, sub, idx)
	s := h.Sum64()
	splitmix(&s)
	return s
}

const maxChoices = 400000

// N draws an integer in [0,n); n==0 means the full 64-bit range. 0 is the simplest value.
func (t *T) N(n uint64) uint64 {
	var v uint64
	i := len(t.choices)
	if i < len(t.prefix) {
		v = t.prefix[i]
		if n != 0 && v >= n {
			v = n - 1
		}
	} else if t.replay {
		v = 0
	} else {
		v = splitmix(&t.rng)
		if n != 0 {
			v %= n
		}
	}
	if i > maxChoices {
		panic(discard{})
	}
	t.choices = append(t.choices, v)
	return v
}

// Int draws an int in [lo,hi]; lo is the simplest.
func (t *T) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + int(t.N(uint64(hi-lo)+1))
}

func (t *T) Bool() bool { return t.N(2) == 1 }

// Chance is true with probability num/den; false is the simplest.
func (t *T) Chance(num, den int) bool { return int(t.N(uint64(den))) >= den-num }

// Pick draws an index with the given weights; index 0 is the simplest.
func (t *T) Pick(weights ...int) int {
	tot := 0
	for _, w := range weights {
		tot += w
	}
	v := int(t.N(uint64(tot)))
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return len(weights) - 1
}

// Begin/End delimit a group of choices that the shrinker may delete as one.
func (t *T) Begin() { t.open = append(t.open, len(t.choices)) }
func (t *T) End() {
	lo := t.open[len(t.open)-1]
	t.open = t.open[:len(t.open)-1]
	t.spans = append(t.spans, span{lo, len(t.choices)})
}

// Repeat runs f up to max times, each time preceded by a "one more" choice, with the
// given mean length; deleting one repetition keeps the rest meaningful.
func (t *T) Repeat(max, mean int, f func(i int)) int {
	n := 0
	for n < max {
		t.Begin()
		if !t.Chance(mean, mean+1) {
			t.End()
			break
		}
		f(n)
		n++
		t.End()
	}
	return n
}

func (t *T) U64() uint64 { return t.N(0) }

var interesting = []int64{0, 1, -1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, -127, 128, -128, -129, 255, 256, -256,
	1000, 16383, 16384, -16384, 32767, -32768, 32768, -32769, 65535, 65536, 1 << 20, 1<<21 - 1, 1 << 21, 1<<28 - 1, 1 << 28,
	math.MaxInt32, math.MinInt32, math.MaxInt32 + 1, math.MinInt32 - 1, 1 << 35, 1<<35 - 1, 1 << 42, 1 << 49, 1 << 53, 1<<53 + 1, 1 << 56, 1<<56 - 1, 1 << 62, 1 << 63 >> 1,
	math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}

// I64 draws an int64 biased to boundaries.
func (t *T) I64() int64 {
	switch t.Pick(3, 4, 2, 2) {
	case 0:
		v := int64(t.N(32))
		return v>>1 ^ -(v & 1)
	case 1:
		return interesting[t.N(uint64(len(interesting)))]
	case 2:
		w := t.Int(1, 63)
		v := int64(t.U64() >> uint(64-w))
		if t.Bool() {
			v = -v
		}
		return v
	}
	return int64(t.U64())
}

var floats = []float64{0, 1, -1, 0.5, -0.5, 1.5, 0.1, -0.1, 3.14159, 100, 1e10, -1e10, 1e21, 1e20, 1e22, -1e21, 1e-5, 1e-7, 1e100, -1e-100, 1e300, 123456789.123456789,
	math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat32, 2.2250738585072014e-308,
	math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 2, -(1 << 53), 4294967296, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.NaN(),
	math.Float64frombits(0x7ff8000000000000), math.Float64frombits(0xfff0000000000001), math.Float64frombits(0x7ff4123456789abc)}

// F64 draws a float64 including zeros, infinities, NaN and denormals.
func (t *T) F64() float64 {
	switch t.Pick(3, 4, 2, 2) {
	case 0:
		return float64(int64(t.N(64)))
	case 1:
		return floats[t.N(uint64(len(floats)))]
	case 2:
		return float64(t.I64()) / float64(int64(1)<<uint(t.N(20)))
	}
	return math.Float64frombits(t.U64())
}

// Bytes draws up to max bytes, mostly short.
func (t *T) Bytes(max int) []byte {
	if max > 0 && t.Chance(1, 24) { // long, from one seed choice
		n := t.Int(0, max)
		s := t.U64()
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(splitmix(&s))
		}
		return b
	}
	m := 12
	if m > max {
		m = max
	}
	n := t.Int(0, m)
	b := make([]byte, n)
	for i := range b {
		switch t.Pick(2, 1, 1) {
		case 0:
			b[i] = byte('a' + t.N(26))
		case 1:
			b[i] = byte(t.N(256))
		default:
			b[i] = "\x00\xff\x80\x7f\"\\{}[],:\n\r\t '/<>&%"[t.N(21)]
		}
	}
	return b
}

// SeedBytes makes exactly n bytes from one choice.
func (t *T) SeedBytes(n int) []byte {
	s := t.U64()
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(splitmix(&s))
	}
	return b
}

var runes = []rune{'a', 'z', '0', ' ', '"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0, 1, 0x1f, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x2028, 0x2029, 0x20ac, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, '<', '>', '&', '\'', '{', '}', '[', ']', ',', ':', 'n', 'u', 'N', 'I'}

// Text draws a valid UTF-8 string of mostly short length.
func (t *T) Text(max int) string {
	if max > 0 && t.Chance(1, 24) {
		n := t.Int(0, max)
		s := t.U64()
		var sb strings.Builder
		for sb.Len() < n {
			r := splitmix(&s)
			if r&7 == 0 {
				sb.WriteRune(runes[(r>>8)%uint64(len(runes))])
			} else {
				sb.WriteByte(byte('a' + (r>>8)%26))
			}
		}
		return sb.String()
	}
	switch t.Pick(6, 1) {
	case 1:
		words := []string{"null", "true", "false", "NaN", "Infinity", "-Infinity", "0", "-1", "\\", "\\\\", "\"", "\\\"", "\\\\\"", "a\\\"b\\\\", "]", "}", "\"\"\"", "\\u0041", "\n"}
		return words[t.N(uint64(len(words)))]
	}
	m := 10
	if m > max {
		m = max
	}
	n := t.Int(0, m)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		if t.Bool() {
			sb.WriteRune(runes[t.N(uint64(len(runes)))])
		} else {
			sb.WriteByte(byte('a' + t.N(26)))
		}
	}
	return sb.String()
}

// Label counts a class of cases in the evidence.
func (t *T) Label(s string) { t.labels = append(t.labels, s) }

// NonTrivial marks this case as counting by the property's rule.
func (t *T) NonTrivial() { t.nontrivial = true }

// Key gives the canonical identity of the case for the distinct count (default: the choices).
func (t *T) Key(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	t.key, t.haskey = h.Sum64(), true
}

// Note adds a line to the rendering of the case (samples and replay files).
func (t *T) Note(format string, a ...interface{}) {
	if len(t.notes) < 400 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 4000 {
			s = s[:4000] + "..."
		}
		t.notes = append(t.notes, s)
	}
}

// Failf reports a violation.
func (t *T) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Discard drops the case (it does not count).
func (t *T) Discard() { panic(discard{}) }

// Enough ends the case where it is: nothing was wrong so far.
func (t *T) Enough() { panic(enough{}) }

// Guard runs f and returns a description of a panic in it ("" if none). Failures and
// discards pass through.
func Guard(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case failure, discard, enough:
				panic(r)
			}
			msg = fmt.Sprintf("panic: %v", r)
			if st := string(debug.Stack()); st != "" {
				msg += " at " + where(st)
			}
		}
	}()
	f()
	return ""
}

func where(stack string) string {
	var out []string
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "panic(") || strings.Contains(l, "runtime.") && strings.HasPrefix(l, "runtime.") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "/thrift/") {
			l = strings.TrimSpace(l)
			if i := strings.LastIndex(l, "/"); i >= 0 {
				l = l[i+1:]
			}
			if i := strings.Index(l, " +"); i >= 0 {
				l = l[:i]
			}
			out = append(out, l)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

type result struct {
	failed     bool
	discarded  bool
	msg        string
	choices    []uint64
	spans      []span
	labels     []string
	nontrivial bool
	notes      []string
	key        uint64
}

func runCase(fn func(*T), t *T) (r result) {
	defer func() {
		if p := recover(); p != nil {
			switch x := p.(type) {
			case failure:
				r.failed, r.msg = true, x.msg
			case discard:
				r.discarded = true
			case enough:
			default:
				r.failed = true
				r.msg = fmt.Sprintf("panic: %v at %s", p, where(string(debug.Stack())))
			}
		}
		for len(t.open) > 0 {
			t.End()
		}
		r.choices, r.spans, r.labels, r.nontrivial, r.notes = t.choices, t.spans, t.labels, t.nontrivial, t.notes
		if t.haskey {
			r.key = t.key
		} else {
			h := fnv.New64a()
			var b [8]byte
			for _, c := range t.choices {
				for i := 0; i < 8; i++ {
					b[i] = byte(c >> (8 * i))
				}
				h.Write(b[:])
			}
			r.key = h.Sum64()
		}
	}()
	fn(t)
	return
}

// Draw runs f with the choices of a case outside of any check, where it must not fail.
func Draw(seed int64, name string, idx int, f func(*T)) {
	if r := runRandom(f, caseSeed(seed, name, idx)); r.failed {
		panic("check error: " + r.msg)
	}
}

func runRandom(fn func(*T), seed uint64) result { return runCase(fn, &T{rng: seed}) }
func runReplay(fn func(*T), ch []uint64) result {
	return runCase(fn, &T{prefix: ch, replay: true})
}

func lessSeq(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// shrink minimises a failing choice sequence; stop() ends it early.
func shrink(fn func(*T), best result, maxExec int, stop func() bool) (result, int) {
	execs := 0
	try := func(c []uint64) bool {
		if execs >= maxExec || stop() {
			return false
		}
		execs++
		r := runReplay(fn, c)
		if r.failed && lessSeq(r.choices, best.choices) {
			best = r
			return true
		}
		return false
	}
	cut := func(c []uint64, lo, hi int) []uint64 {
		d := make([]uint64, 0, len(c))
		d = append(d, c[:lo]...)
		return append(d, c[hi:]...)
	}
	for pass := 0; pass < 12 && execs < maxExec && !stop(); pass++ {
		before := append([]uint64(nil), best.choices...)
		// delete recorded spans, large ones first
		for again := true; again && execs < maxExec && !stop(); {
			again = false
			sp := append([]span(nil), best.spans...)
			sort.SliceStable(sp, func(i, j int) bool { return sp[i].hi-sp[i].lo > sp[j].hi-sp[j].lo })
			for _, s := range sp {
				if s.hi > s.lo && s.hi <= len(best.choices) && try(cut(best.choices, s.lo, s.hi)) {
					again = true
					break
				}
			}
		}
		for _, w := range []int{32, 16, 8, 4, 2, 1} {
			for i := len(best.choices) - w; i >= 0; i-- {
				if i+w <= len(best.choices) {
					try(cut(best.choices, i, i+w))
				}
				if execs >= maxExec || stop() {
					break
				}
			}
		}
		for i := 0; i < len(best.choices) && execs < maxExec && !stop(); i++ {
			if best.choices[i] == 0 {
				continue
			}
			set := func(v uint64) bool {
				c := append([]uint64(nil), best.choices...)
				if i >= len(c) || c[i] <= v {
					return false
				}
				c[i] = v
				return try(c)
			}
			if set(0) {
				continue
			}
			lo := uint64(0)
			for i < len(best.choices) && best.choices[i]-lo > 1 && execs < maxExec && !stop() {
				mid := lo + (best.choices[i]-lo)/2
				if !set(mid) {
					lo = mid
				}
			}
		}
		if len(before) == len(best.choices) {
			same := true
			for i := range before {
				if before[i] != best.choices[i] {
					same = false
				}
			}
			if same {
				break
			}
		}
	}
	return best, execs
}
