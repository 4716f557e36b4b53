// Package gv is the vocabulary of the contracts: symbolic inputs, ghost
// streams and proof obligations.  govc interprets these functions
// symbolically; the bodies below are the concrete meaning used to replay a
// failed obligation against the real code.
package gv

import (
	"bufio"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
)

// Violation is raised when a replayed obligation fails.
type Violation struct {
	Props, Label string
}

type discard struct{}

// Run state of a concrete execution.
var (
	rng   = rand.New(rand.NewSource(1))
	trace []string
	fuel  int
	Dict  []int64 // interesting constants taken from the source under test
)

// Outcome of one concrete run.
type Outcome struct {
	Failed    bool
	Props     string
	Label     string
	Trace     []string
	Discarded bool
}

// RunOne executes a harness on the inputs determined by seed.
func RunOne(seed int64, defProps string, h func()) (o Outcome) {
	rng = rand.New(rand.NewSource(seed))
	trace = nil
	fuel = 400
	profile = rng.Intn(6)
	swarm, favour = rng.Intn(2) == 0, map[int][]int{}
	defer func() {
		if r := recover(); r != nil {
			o.Trace = trace
			switch v := r.(type) {
			case discard:
				o.Discarded = true
			case Violation:
				o.Failed, o.Props, o.Label = true, v.Props, v.Label
			default:
				o.Failed, o.Props, o.Label = true, defProps, fmt.Sprintf("no-panic: %v", r)
				if os.Getenv("GV_STACK") != "" {
					panic(r)
				}
			}
		}
	}()
	atEnd = nil
	h()
	for _, f := range atEnd {
		f()
	}
	o.Trace = trace
	return
}

var profile int

func note(f string, a ...interface{}) {
	if len(trace) < 400 {
		trace = append(trace, fmt.Sprintf(f, a...))
	}
}

// Trace returns the trace of the run in progress.
func Trace() []string { return trace }

// Note adds a line to the replay trace (ignored by the verifier).
func Note(f string, a ...interface{}) { note(f, a...) }

var interesting = []int64{0, 1, -1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 31, 32, 63, 64, 65, 100, 127, 128, 129, 240, 254, 255, 256, 257,
	1000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 32766, 32767, 32768, 65535, 65536, 1 << 20, 1<<21 - 1, 1 << 21, 1<<24 - 1, 1 << 24, 1<<28 - 1, 1 << 28, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32,
	1<<35 - 1, 1 << 35, 1<<42 - 1, 1 << 42, 1<<49 - 1, 1 << 49, 1<<56 - 1, 1 << 56, 1<<63 - 1, -1 << 63, -2, -15, -16, -127, -128, -129, -32768, -32767, -65536, -1 << 31, -1<<31 + 1, 0x80010000, 0x7ff8000000000000}

func word() int64 {
	switch rng.Intn(5) {
	case 0, 1:
		return interesting[rng.Intn(len(interesting))]
	case 2:
		if len(Dict) > 0 {
			return Dict[rng.Intn(len(Dict))] + int64(rng.Intn(3)-1)
		}
		return int64(rng.Intn(20))
	case 3:
		return int64(rng.Uint64() >> uint(rng.Intn(64)))
	}
	return int64(rng.Intn(20))
}

func Bool() bool     { b := rng.Intn(2) == 0; note("bool %v", b); return b }
func Byte() byte     { b := byte(word()); note("byte %#x", b); return b }
func Int16() int16   { v := int16(word()); note("int16 %d", v); return v }
func Int32() int32   { v := int32(word()); note("int32 %d", v); return v }
func Int64() int64   { v := word(); note("int64 %d", v); return v }
func Int() int       { v := int(word()); note("int %d", v); return v }
func Uint64() uint64 { v := uint64(word()); note("uint64 %#x", v); return v }
func Float64() float64 {
	v := fbits(uint64(word()))
	note("float64 %v", v)
	return v
}

// Size is an int expected to be used as a length.
func Size() int {
	v := length()
	note("size %d", v)
	return v
}

func length() int {
	switch rng.Intn(8) {
	case 0:
		return 4090 + rng.Intn(12)
	case 1:
		return 8188 + rng.Intn(10)
	case 2:
		return 120 + rng.Intn(20)
	case 3:
		return rng.Intn(20000)
	case 4:
		return rng.Intn(300)
	}
	return rng.Intn(18)
}

// String is an arbitrary string.
func String() string {
	n := length()
	var sb strings.Builder
	for sb.Len() < n {
		sb.WriteByte(byte(rng.Intn(256)))
	}
	note("string len %d %.20q", n, sb.String())
	return sb.String()
}

// Bytes is an arbitrary byte slice (possibly nil, possibly with spare capacity).
func Bytes() []byte {
	if rng.Intn(6) == 0 {
		note("bytes nil")
		return nil
	}
	s := String()
	b := make([]byte, 0, len(s)+rng.Intn(3)*rng.Intn(40))
	b = append(b, s...)
	note("bytes len %d cap %d", len(b), cap(b))
	return b
}

// UUID is an arbitrary 16-byte array.
func UUID() (u [16]byte) {
	for i := range u {
		u[i] = byte(rng.Intn(256))
	}
	return u
}

// Error is an arbitrary non-nil error.
func Error() error { return errors.New("arbitrary error") }

// Choose is an arbitrary number in [0,n).
func Choose(n int) int {
	v := rng.Intn(n)
	if n > 3 && swarm {
		// each run favours a few of the operations
		f := favour[n]
		if f == nil {
			for i := 1 + rng.Intn(4); i > 0; i-- {
				f = append(f, rng.Intn(n))
			}
			favour[n] = f
		}
		if rng.Intn(12) != 0 {
			v = f[rng.Intn(len(f))]
		}
	}
	note("choose %d/%d", v, n)
	return v
}

var (
	swarm  bool
	favour map[int][]int
)

// Loop decides nondeterministically whether to go on.
func Loop() bool {
	fuel--
	if fuel <= 0 {
		return false
	}
	if swarm {
		return rng.Intn(60) != 0
	}
	return rng.Intn(12) != 0
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(discard{})
	}
}

// Ensure is a proof obligation belonging to the given properties.
func Ensure(props, label string, c bool) {
	if !c {
		panic(Violation{props, label})
	}
}

// Reach records that this point is reachable (vacuity guard).
func Reach(label string) {}

// Symbolic reports whether the verifier is running the code.
func Symbolic() bool { return false }

// EqBytes compares contents.
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Owned reports that a slice does not alias a reader's internal buffer.
func Owned(b []byte) bool {
	if len(b) == 0 {
		return true
	}
	for _, s := range sources {
		if s.reader == nil {
			continue
		}
		// overwrite the internal buffer by reading on, and look for a change
		old := string(b)
		s.clobber()
		if string(b) != old {
			return false
		}
	}
	return true
}

// SameError reports that err is, or wraps, target.
func SameError(err, target error) bool { return errors.Is(err, target) }

// ---- byte sources ----

var sources []*Source

// Source is an arbitrary finite stream that ends with an arbitrary error.
type Source struct {
	data   []byte
	given  int
	err    error
	chunk  int
	demand int
	reader *bufio.Reader
	clob   bool
}

// NewSource returns an arbitrary stream.
func NewSource() *Source {
	s := &Source{data: streamBytes()}
	s.chunk = []int{1, 1, 1, 3, 7, 4096}[rng.Intn(6)]
	s.err = io.EOF
	if rng.Intn(3) == 0 {
		s.err = errors.New("source failure")
	}
	note("source %d bytes, chunk %d, end %v: % x", len(s.data), s.chunk, s.err, s.data[:min(len(s.data), 60)])
	sources = []*Source{s}
	return s
}

// NewSourceOf is the stream with the given content; only contracts read it.
func NewSourceOf(content string) *Source {
	return &Source{data: []byte(content), err: io.EOF}
}

func streamBytes() []byte {
	var d []byte
	n := 1 + rng.Intn(30)
	if rng.Intn(4) == 0 {
		n = rng.Intn(4)
	}
	if rng.Intn(10) == 0 {
		n = 400
	}
	for i := 0; i < n; i++ {
		switch rng.Intn(10) {
		case 0:
			k := length()
			d = append(d, byte(k>>24), byte(k>>16), byte(k>>8), byte(k))
		case 1:
			v := uint64(word())
			for v >= 0x80 {
				d = append(d, byte(v)|0x80)
				v >>= 7
			}
			d = append(d, byte(v))
		case 2:
			k := uint64(length())
			for k >= 0x80 {
				d = append(d, byte(k)|0x80)
				k >>= 7
			}
			d = append(d, byte(k))
		case 3:
			for j := rng.Intn(12); j > 0; j-- {
				d = append(d, 0x80|byte(rng.Intn(256)))
			}
		case 4:
			for j := rng.Intn(40); j > 0; j-- {
				d = append(d, byte(rng.Intn(256)))
			}
		case 5:
			d = append(d, 0x80, 0x01, 0x00, byte(rng.Intn(6)))
		case 6:
			d = append(d, 0x82, byte(rng.Intn(8)<<5)|byte(rng.Intn(3)), byte(rng.Intn(256)))
		case 7:
			d = append(d, byte(rng.Intn(16)<<4)|byte(rng.Intn(16)))
		case 8:
			if rng.Intn(5) == 0 {
				for j := length(); j > 0; j-- {
					d = append(d, byte(rng.Intn(256)))
				}
			} else {
				d = append(d, byte(rng.Intn(18)))
			}
		default:
			d = append(d, byte(rng.Intn(256)))
		}
	}
	return d
}

func (s *Source) Read(p []byte) (int, error) {
	if s.clob {
		for i := range p {
			p[i] += 3
		}
		return len(p), nil
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.given+1 > s.demand {
		s.demand = s.given + 1
	}
	if s.given >= len(s.data) {
		return 0, s.err
	}
	n := s.chunk
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data)-s.given {
		n = len(s.data) - s.given
	}
	copy(p, s.data[s.given:s.given+n])
	s.given += n
	return n, nil
}

func (s *Source) clobber() {
	s.clob = true
	s.reader.Discard(s.reader.Buffered())
	s.reader.Peek(s.reader.Size())
	s.reader.Discard(s.reader.Buffered())
	s.reader.Peek(s.reader.Size())
	s.clob = false
}

// Total is the length of the stream.
func Total(s *Source) int { return len(s.data) }

// At is byte i of the stream.
func At(s *Source, i int) byte { return s.data[i] }

// Seg is the part [lo,lo+n) of the stream.
func Seg(s *Source, lo, n int) string { return string(s.data[lo : lo+n]) }

// End is the error the stream ends with.
func End(s *Source) error { return s.err }

// Demand is the number of bytes the consumer has waited for so far.
func Demand(s *Source) int { return s.demand }

// ArbReader is a bufio.Reader of arbitrary size over an arbitrary stream, in
// an arbitrary reachable state.
func ArbReader() (*bufio.Reader, *Source) {
	s := NewSource()
	size := 16 + rng.Intn(4)*rng.Intn(10)
	if rng.Intn(3) == 0 {
		size = 4096
	}
	b := bufio.NewReaderSize(s, size)
	if rng.Intn(2) == 0 {
		b.Peek(rng.Intn(size + 1))
	}
	b.Discard(rng.Intn(1 + rng.Intn(20)))
	if rng.Intn(2) == 0 {
		b.Peek(rng.Intn(size + 1))
	}
	s.reader = b
	note("reader size %d pos %d buffered %d", b.Size(), Pos(s, b), b.Buffered())
	return b, s
}

// Pos is the stream position of the next byte b will return.
func Pos(s *Source, b *bufio.Reader) int { return s.given - b.Buffered() }

// Commit moves the reader to the given position after a contract call.
func Commit(b *bufio.Reader, pos int) { panic("contract summary executed concretely") }

// Exhaust consumes everything and waits for more in vain.
func Exhaust(b *bufio.Reader) { panic("contract summary executed concretely") }

// Lose makes the reader's position unknown after a failed contract call.
func Lose(b *bufio.Reader) { panic("contract summary executed concretely") }

// Fn is the value at position p of an otherwise unknown function of the stream;
// it stands for a specification function proved to satisfy what is assumed of it.
func Fn(name string, s *Source, p int) uint64 { panic("contract summary executed concretely") }

// SourceOf is the stream below a reader.
func SourceOf(b *bufio.Reader) *Source { panic("contract summary executed concretely") }

// AllocBound starts checking that memory is only allocated in proportion to
// the bytes delivered.
func AllocBound(b *bufio.Reader) {
	s := sources[0]
	base, given := allocated(), s.given
	atEnd = append(atEnd, func() {
		if n := allocated() - base; n > 1<<20+uint64(32*(s.given-given)) {
			panic(Violation{"C10", fmt.Sprintf("memory is allocated in proportion to the bytes delivered (%d bytes for %d)", n, s.given-given)})
		}
	})
}

var atEnd []func()

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// ---- byte sinks ----

// Sink is a destination that may refuse data at any point.
type Sink struct {
	recv   []byte
	failed bool
	serr   error
	limit  int
}

func NewSink() *Sink {
	s := new(Sink)
	initSink(s)
	return s
}
func initSink(s *Sink) {
	s.serr = errors.New("sink failure")
	s.limit = 1 << 40
	if rng.Intn(3) == 0 {
		s.limit = rng.Intn(2 + rng.Intn(20000))
	}
	note("sink limit %d", s.limit)
}
func (s *Sink) Write(p []byte) (int, error) {
	if len(s.recv)+len(p) > s.limit {
		s.failed = true
		k := s.limit - len(s.recv)
		if k < 0 {
			k = 0
		}
		s.recv = append(s.recv, p[:k]...)
		return k, s.serr
	}
	s.recv = append(s.recv, p...)
	return len(p), nil
}

// Received is what has reached the sink.
func Received(s *Sink) string { return string(s.recv) }

// Failed reports whether the sink has refused data.
func Failed(s *Sink) bool { return s.failed }

// SinkErr is the error the sink refuses with.
func SinkErr(s *Sink) error { return s.serr }

// FlushSink is a sink with a Flush method of its own.
type FlushSink struct {
	Sink
	Flushes int
	Ferr    error
	Last    error
	Whole   string // what had been received when Flush was last called
}

func NewFlushSink() *FlushSink {
	s := new(FlushSink)
	initSink(&s.Sink)
	s.Ferr = Error()
	return s
}

func (s *FlushSink) Flush() error {
	s.Flushes++
	s.Whole = Received(&s.Sink)
	s.Last = nil
	if Bool() {
		s.Last = s.Ferr
	}
	return s.Last
}

// Rand is a source of random choices for generators of bounded contracts.
func Rand() *rand.Rand { return rng }

// Wrap makes a ghost value appear as a reflect.Value, and Unwrap gets it back:
// nil for the zero Value.  Both are for contracts of package reflect, which
// exist for the verifier only.
func Wrap(ghost any) reflect.Value { panic("gv.Wrap: not concrete") }
func Unwrap(v reflect.Value) any   { panic("gv.Unwrap: not concrete") }

// Lazy is a slice of n elements, where at gives the address of each.
func Lazy[T any](n int, at func(int) *T) []T { panic("gv.Lazy: not concrete") }

// LazyMap is a map that is looked up with get.
func LazyMap[K comparable, V any](get func(K) (V, bool)) map[K]V {
	panic("gv.LazyMap: not concrete")
}

// Progress requires every iteration of every loop of the code under test
// that runs from here on to increase the counter, which is bounded.
func Progress(props, label string, counter *int) {}
