//go:build race

package main

import (
	"sync"
	"syscall"
	"unsafe"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

// Alternation of two parsers at the calls of their readers that the race
// detector does not see: no happens-before edge comes from the scheduler, so
// any conflict between the two is reported whatever the rhythm.

type quiet struct {
	fds   [2][2]int // pipes to wake each one
	left  int
	turns [2]int
	done  [2]bool
}

//go:norace
func (q *quiet) wake(id int) {
	var b [1]byte
	syscall.RawSyscall(syscall.SYS_WRITE, uintptr(q.fds[id][1]), uintptr(unsafe.Pointer(&b[0])), 1)
}

//go:norace
func (q *quiet) wait(id int) {
	var b [1]byte
	for {
		n, _, _ := syscall.Syscall(syscall.SYS_READ, uintptr(q.fds[id][0]), uintptr(unsafe.Pointer(&b[0])), 1)
		if n == 1 {
			return
		}
	}
}

//go:norace
func (q *quiet) point(id int) {
	if q.done[1-id] {
		return
	}
	if q.left > 1 {
		q.left--
		return
	}
	q.left = q.turns[1-id]
	q.wake(1 - id)
	q.wait(id)
}

//go:norace
func (q *quiet) finish(id int) {
	q.done[id] = true
	q.wake(1 - id)
}

type quietReader struct {
	reader.Reader
	q  *quiet
	id int
}

func (r *quietReader) GetChar() (uint32, error) { r.q.point(r.id); return r.Reader.GetChar() }
func (r *quietReader) GetLongCharAt(o int32) (uint64, error) {
	r.q.point(r.id)
	return r.Reader.GetLongCharAt(o)
}
func (r *quietReader) GetCharAt(o int32) (uint32, error) {
	r.q.point(r.id)
	return r.Reader.GetCharAt(o)
}
func (r *quietReader) SkipChar(c uint32) bool    { r.q.point(r.id); return r.Reader.SkipChar(c) }
func (r *quietReader) SkipCharSeq(s string) bool { r.q.point(r.id); return r.Reader.SkipCharSeq(s) }
func (r *quietReader) SetOffset(o int)           { r.q.point(r.id); r.Reader.SetOffset(o) }

// raceRounds parses the two documents step by step in turn, and one after
// the other.
func raceRounds(a, b int) {
	for _, turns := range [][2]int{{1, 1}, {1 << 30, 1}} {
		q := &quiet{turns: turns, left: turns[0]}
		for i := range q.fds {
			if err := syscall.Pipe(q.fds[i][:]); err != nil {
				return
			}
		}
		var outs [2]*outcome
		for i, d := range []int{a, b} {
			outs[i] = &outcome{}
			outs[i].p, outs[i].newErr = newDocParser(d)
		}
		var wg sync.WaitGroup
		for id := range outs {
			id, o := id, outs[id]
			if o.newErr == nil {
				o.p.VerifWrapReader(func(r reader.Reader) reader.Reader { return &quietReader{r, q, id} })
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				q.wait(id)
				if o.newErr == nil {
					o.err = o.p.Parse()
				}
				q.finish(id)
				fingerprint(o)
			}()
		}
		q.wake(0)
		wg.Wait()
		for i := range q.fds {
			syscall.Close(q.fds[i][0])
			syscall.Close(q.fds[i][1])
		}
	}
}
