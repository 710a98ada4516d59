package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/chronos-tachyon/flate"
)

// ---------------------------------------------------------------- sources

// Src is a monitored source: it hands out data in a chosen pattern and
// records how it is used.
type Src struct {
	data    []byte
	pos     int
	r       *Rand
	mode    int
	chunk   int
	err     error // final error (default io.EOF)
	withErr bool  // deliver the error together with the last data
	scratch bool  // scribble over the unused part of p
	stall   int
	zeros   bool // sometimes return (0, nil)
	delay   bool // sometimes yield
	calls   atomic.Int64
	ended   atomic.Int64 // calls made after the final error was delivered
	given   atomic.Int64
	done    bool
	inCall  atomic.Int32
	overlap atomic.Int32
	closed  atomic.Int32
	slow    bool
}

const (
	srcAll = iota
	srcOne
	srcFixed
	srcRandom
	srcMixed
	srcModes
)

func (s *Src) String() string {
	return fmt.Sprintf("src{mode=%d chunk=%d withErr=%v scratch=%v zeros=%v err=%v len=%d}", s.mode, s.chunk, s.withErr, s.scratch, s.zeros, s.err, len(s.data))
}

func NewSrc(r *Rand, data []byte) *Src {
	s := &Src{data: data, r: r.Fork(), err: io.EOF}
	s.mode = r.N(srcModes)
	s.chunk = r.Pick(1, 2, 3, 5, 7, 8, 9, 13, 64, 127, 128, 129, 255, 256, 511, 512, 1000, 4096, 32768, 32769)
	s.withErr = r.P(1, 3)
	s.scratch = r.P(1, 3)
	s.zeros = r.P(1, 4)
	s.delay = r.P(1, 8) && len(data) < 200000
	return s
}

func PlainSrc(data []byte) *Src {
	return &Src{data: data, r: NewRand("plain"), err: io.EOF, mode: srcAll}
}

func (s *Src) Close() error { s.closed.Add(1); return nil }

func (s *Src) Read(p []byte) (int, error) {
	if s.inCall.Add(1) != 1 {
		s.overlap.Add(1)
	}
	defer s.inCall.Add(-1)
	s.calls.Add(1)
	if s.done {
		s.ended.Add(1)
		return 0, s.err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.delay && s.r.P(1, 16) {
		time.Sleep(time.Microsecond)
	}
	if s.stall > 0 {
		s.stall--
		return 0, nil
	}
	if s.zeros && s.r.P(1, 5) {
		if s.r.P(1, 200) { // a long series of empty reads
			s.stall = s.r.Pick(10, 99, 100, 101, 300, 1500)
		}
		return 0, nil
	}
	n := len(p)
	switch s.mode {
	case srcOne:
		n = 1
	case srcFixed:
		n = s.chunk
	case srcRandom:
		n = 1 + s.r.N(len(p))
	case srcMixed:
		switch s.r.N(4) {
		case 0:
			n = 1
		case 1:
			n = s.chunk
		case 2:
			n = 1 + s.r.N(40)
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	copy(p[:n], s.data[s.pos:s.pos+n])
	s.pos += n
	s.given.Add(int64(n))
	if s.scratch {
		q := p[n:]
		if n < 16 && len(q) > 1024 && s.calls.Load()%64 != 0 { // bound the cost
			for i := len(q) - 64; i < len(q); i++ {
				q[i] = 0xA5
			}
			q = q[:256]
		}
		for i := range q {
			q[i] = 0xA5
		}
	}
	if s.pos == len(s.data) {
		if n == 0 || s.withErr {
			s.done = true
			return n, s.err
		}
	}
	return n, nil
}

// GateSrc hands out data only up to a limit which the test raises; beyond it
// Read blocks on a condition variable.
type GateSrc struct {
	mu      sync.Mutex
	cv      *sync.Cond
	data    []byte
	pos     int
	limit   int
	err     error
	fin     bool // after data: return err
	chunk   int
	calls   int
	blocked bool
	aborted bool
	nudge   int // number of Reads to answer with 0, nil
}

// Nudge makes the source return 0, nil once.
func (g *GateSrc) Nudge() { g.mu.Lock(); g.nudge++; g.cv.Broadcast(); g.mu.Unlock() }

func NewGateSrc(data []byte, chunk int) *GateSrc {
	g := &GateSrc{data: data, err: io.EOF, chunk: chunk}
	g.cv = sync.NewCond(&g.mu)
	return g
}

func (g *GateSrc) Allow(n int) {
	g.mu.Lock()
	if n > g.limit {
		g.limit = n
	}
	g.cv.Broadcast()
	g.mu.Unlock()
}

func (g *GateSrc) Finish() {
	g.mu.Lock()
	g.limit = len(g.data)
	g.fin = true
	g.cv.Broadcast()
	g.mu.Unlock()
}

func (g *GateSrc) Abort(err error) {
	g.mu.Lock()
	g.aborted = true
	g.err = err
	g.cv.Broadcast()
	g.mu.Unlock()
}

func (g *GateSrc) Pulled() int { g.mu.Lock(); defer g.mu.Unlock(); return g.pos }
func (g *GateSrc) Blocked() bool {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.blocked
}
func (g *GateSrc) Calls() int { g.mu.Lock(); defer g.mu.Unlock(); return g.calls }

func (g *GateSrc) Read(p []byte) (int, error) {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.calls++
	for {
		if g.aborted {
			return 0, g.err
		}
		if g.nudge > 0 {
			g.nudge--
			return 0, nil
		}
		n := g.limit - g.pos
		if n > 0 {
			if n > len(p) {
				n = len(p)
			}
			if g.chunk > 0 && n > g.chunk {
				n = g.chunk
			}
			copy(p, g.data[g.pos:g.pos+n])
			g.pos += n
			return n, nil
		}
		if g.fin && g.pos == len(g.data) {
			return 0, g.err
		}
		g.blocked = true
		g.cv.Wait()
		g.blocked = false
	}
}

// ---------------------------------------------------------------- sinks

type sinkEvent struct {
	kind byte // 'w' 'f' 's' 'c'
	n    int
	pos  int
}

// Sink records everything handed to the underlying writer.
type Sink struct {
	mu       sync.Mutex
	buf      bytes.Buffer
	events   []sinkEvent
	calls    int
	failCall int   // fail at this call number (1-based), 0 = never
	failByte int   // fail once this many bytes were accepted, -1 = never
	failErr  error // error to return
	short    bool  // short write without an error
	flushAt  int   // fail the n-th Flush (1-based)
	syncAt   int
	syncErr  error
	flushErr error
	nFlush   int
	nSync    int
	failed   bool
	after    int // calls after the failure
	keep     [][]byte
	closed   int
	retain   bool
	inCall   atomic.Int32
	overlap  atomic.Int32
}

var errSink = errors.New("injected sink failure")
var errFlush = errors.New("injected Flush failure")
var errSync = errors.New("injected Sync failure")
var errSource = errors.New("injected source failure")

// oddErr draws an error which is an ordinary failure of the source or sink,
// though it may look like one of those with a meaning of their own.
func oddErr(r *Rand) error {
	switch r.N(12) {
	case 0:
		return io.ErrClosedPipe
	case 1:
		return io.ErrUnexpectedEOF
	case 2:
		return fmt.Errorf("wrapped: %w", io.EOF)
	case 3:
		return context.Canceled
	case 4:
		return fs.ErrClosed
	case 5:
		return io.ErrNoProgress
	case 6:
		return flate.CorruptInputError{OffsetTotal: 1, Problem: "of the source"}
	case 7:
		return &fs.PathError{Op: "io", Path: "x", Err: syscall.EINTR}
	case 8:
		return syscall.EAGAIN
	case 9:
		return io.ErrShortWrite
	}
	return fmt.Errorf("failure %d", r.N(1000000))
}

func NewSink() *Sink { return &Sink{failByte: -1, failErr: errSink} }

func (s *Sink) Bytes() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]byte(nil), s.buf.Bytes()...)
}

func (s *Sink) Len() int { s.mu.Lock(); defer s.mu.Unlock(); return s.buf.Len() }

func (s *Sink) Write(p []byte) (int, error) {
	if s.inCall.Add(1) != 1 {
		s.overlap.Add(1)
	}
	defer s.inCall.Add(-1)
	s.mu.Lock()
	defer s.mu.Unlock()
	s.calls++
	if s.failed {
		s.after++
	}
	if s.failCall != 0 && s.calls == s.failCall {
		s.failed = true
		n := 0
		if s.short && len(p) > 0 {
			n = len(p) / 2
			s.buf.Write(p[:n])
			s.events = append(s.events, sinkEvent{'w', n, s.buf.Len()})
			return n, nil
		}
		return 0, s.failErr
	}
	if s.failByte >= 0 && s.buf.Len()+len(p) > s.failByte {
		n := s.failByte - s.buf.Len()
		if n < 0 {
			n = 0
		}
		s.failed = true
		s.buf.Write(p[:n])
		s.events = append(s.events, sinkEvent{'w', n, s.buf.Len()})
		if s.short { // once; the rest is accepted if it is offered again
			s.failByte = -1
			return n, nil
		}
		return n, s.failErr
	}
	s.buf.Write(p)
	s.events = append(s.events, sinkEvent{'w', len(p), s.buf.Len()})
	return len(p), nil
}

func (s *Sink) Close() error { s.mu.Lock(); s.closed++; s.mu.Unlock(); return nil }

func (s *Sink) doFlush() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.nFlush++
	if s.failed {
		s.after++
	}
	s.events = append(s.events, sinkEvent{'f', 0, s.buf.Len()})
	if s.flushAt != 0 && s.nFlush == s.flushAt {
		s.failed = true
		return s.flushErr
	}
	return nil
}

func (s *Sink) doSync() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.nSync++
	if s.failed {
		s.after++
	}
	s.events = append(s.events, sinkEvent{'s', 0, s.buf.Len()})
	if s.syncAt != 0 && s.nSync == s.syncAt {
		s.failed = true
		return s.syncErr
	}
	return nil
}

type flushSink struct{ *Sink }

func (f flushSink) Flush() error { return f.doFlush() }

type syncSink struct{ *Sink }

func (f syncSink) Sync() error { return f.doSync() }

type fullSink struct{ *Sink }

func (f fullSink) Flush() error { return f.doFlush() }
func (f fullSink) Sync() error  { return f.doSync() }

// As wraps the sink so that it offers the chosen optional methods.
func (s *Sink) As(kind int) io.Writer {
	switch kind & 3 {
	case 1:
		return flushSink{s}
	case 2:
		return syncSink{s}
	case 3:
		return fullSink{s}
	}
	return s
}
