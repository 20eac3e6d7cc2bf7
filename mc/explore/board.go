package explore

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// A Board is a shared memory file in which a checker process notes what each
// worker is executing, so that a supervising process knows which executions were
// under way if the code under test ends the whole process (stack overflow,
// concurrent map access, os.Exit, a panic in a goroutine of its own ...).
type Board struct{ m []byte }

const (
	boardHead  = 512
	boardSlot  = 16 << 10
	boardSlots = 64
	boardLen   = boardHead + boardSlots*boardSlot
)

// OpenBoard maps the file (made if it is not there).
func OpenBoard(path string) (*Board, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(boardLen); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, boardLen, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Board{m}, nil
}

// Close unmaps the board.
func (b *Board) Close() { syscall.Munmap(b.m) }

// Done marks that the checker came to its own end.
func (b *Board) Done() {
	if b != nil {
		b.m[0] = 1
	}
}

// IsDone tells whether the checker came to its own end.
func (b *Board) IsDone() bool { return b.m[0] == 1 }

// Space notes the space explored.
func (b *Board) Space(name string) {
	if b == nil {
		return
	}
	n := copy(b.m[9:boardHead], name)
	b.m[8] = byte(n)
}

// SpaceName is the space noted last.
func (b *Board) SpaceName() string { return string(b.m[9 : 9+int(b.m[8])]) }

func (b *Board) slot(w int) []byte {
	i := boardHead + w%boardSlots*boardSlot
	return b.m[i : i+boardSlot]
}

// Begin notes that worker w executes trace.
func (b *Board) Begin(w int, trace []int) {
	if b == nil {
		return
	}
	s := b.slot(w)
	n := len(trace)
	if 16+4*n > len(s) {
		n = 0
	}
	for i, t := range trace[:n] {
		binary.LittleEndian.PutUint32(s[16+4*i:], uint32(t))
	}
	binary.LittleEndian.PutUint32(s[4:], uint32(n))
	s[0] = 1
}

// End notes that worker w is done with its execution.
func (b *Board) End(w int) {
	if b == nil {
		return
	}
	s := b.slot(w)
	s[0] = 0
	atomic.AddInt64((*int64)(unsafe.Pointer(&s[8])), 1)
}

// Running returns the traces under way, Count the executions ended.
func (b *Board) Running() (traces [][]int) {
	for w := 0; w < boardSlots; w++ {
		s := b.slot(w)
		if s[0] == 0 {
			continue
		}
		t := make([]int, binary.LittleEndian.Uint32(s[4:]))
		for i := range t {
			t[i] = int(binary.LittleEndian.Uint32(s[16+4*i:]))
		}
		traces = append(traces, t)
	}
	return traces
}

// Count returns the number of executions ended.
func (b *Board) Count() (n int64) {
	for w := 0; w < boardSlots; w++ {
		n += atomic.LoadInt64((*int64)(unsafe.Pointer(&b.slot(w)[8])))
	}
	return n
}
