package wire

import (
	"io"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/encoding/thriftwire"
)

// stub is a protocol that records how it is used and returns what it was
// told to.  The code under contract can only call its methods, so arbitrary
// results make it an arbitrary protocol.
type stub struct {
	in      io.Reader
	out     io.Writer
	ins     int
	outs    int
	rd      thriftwire.Reader
	wr      thriftwire.Writer
	strings int
}

type stubReader struct {
	thriftwire.Reader
	n int
}

type stubWriter struct {
	thriftwire.Writer
	n int
}

func (p *stub) NewReader(r io.Reader) thriftwire.Reader { p.in = r; p.ins++; return p.rd }
func (p *stub) NewWriter(w io.Writer) thriftwire.Writer { p.out = w; p.outs++; return p.wr }
func (p *stub) String() string                          { p.strings++; return "stub" }

func newStub() *stub {
	p := &stub{}
	if gv.Bool() {
		p.rd = &stubReader{n: gv.Int()}
	}
	if gv.Bool() {
		p.wr = &stubWriter{n: gv.Int()}
	}
	return p
}

type plainStream struct{ n int }

func (p *plainStream) Read(b []byte) (int, error)  { p.n++; return 0, io.EOF }
func (p *plainStream) Write(b []byte) (int, error) { p.n++; return len(b), nil }

// flushStream can be flushed.
type flushStream struct {
	plainStream
	err     error
	flushes int
}

func (p *flushStream) Flush() error { p.flushes++; return p.err }

// HJoin: a joined protocol reads with the one and writes with the other.
//
//gv:harness wire/Join props=C22 default=C22
func HJoin() {
	r, w := newStub(), newStub()
	if gv.Bool() {
		w = r
	}
	var pr, pw thriftwire.Protocol = r, w
	if gv.Bool() {
		// joined protocols can be joined again
		other := newStub()
		pr = thriftwire.JoinProtocol(r, other)
		pw = thriftwire.JoinProtocol(other, w)
	}
	p := thriftwire.JoinProtocol(pr, pw)
	for gv.Loop() {
		var in io.Reader
		var out io.Writer
		var pin, pout *plainStream
		if gv.Bool() {
			pin, pout = &plainStream{}, &plainStream{}
			in, out = pin, pout
			if gv.Bool() {
				f := &flushStream{}
				out, pout = f, &f.plainStream
			}
		}
		ni, no := r.ins, w.outs
		ri, wi := r.outs, w.ins
		if gv.Bool() {
			gv.Reach("NewReader")
			got := p.NewReader(in)
			gv.Ensure("C22", "the reader is the one created by the reading protocol", got == r.rd)
			gv.Ensure("C22", "it is created from the stream given", r.in == in)
			gv.Ensure("C22", "exactly one reader and no writer is created", r.ins == ni+1 && r.outs == ri && w.outs == no && (w == r || w.ins == wi))
		} else {
			gv.Reach("NewWriter")
			got := p.NewWriter(out)
			gv.Ensure("C22", "the writer is the one created by the writing protocol", got == w.wr)
			gv.Ensure("C22", "it is created from the stream given", w.out == out)
			gv.Ensure("C22", "exactly one writer and no reader is created", w.outs == no+1 && w.ins == wi && r.ins == ni && (w == r || r.outs == ri))
		}
		gv.Ensure("C22", "the stream is passed on untouched", pin == nil || pin.n == 0 && pout.n == 0)
	}
}

// HFlush: the Flush helper.
//
//gv:harness wire/Flush props=C22,C08 default=C22
func HFlush() {
	switch gv.Choose(3) {
	case 0:
		p := &plainStream{}
		gv.Ensure("C22,C08", "flushing a plain writer does nothing", thriftwire.Flush(p) == nil && p.n == 0)
	case 1:
		f := &flushStream{}
		if gv.Bool() {
			f.err = gv.Error()
		}
		err := thriftwire.Flush(f)
		gv.Ensure("C22,C08", "the writer's own Flush is called once", f.flushes == 1 && f.n == 0)
		gv.Ensure("C22,C08", "its result is returned", err == f.err)
	case 2:
		gv.Ensure("C22", "flushing no writer does nothing", thriftwire.Flush(nil) == nil)
	}
}
