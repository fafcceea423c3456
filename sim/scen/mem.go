package scen

import (
	"bytes"
	"fmt"
	"syscall"
	"unsafe"
)

const page = 4096

// Buf is one piece of input memory.
type Buf struct {
	Data  []byte `json:"data"`
	Place string `json:"place,omitempty"` // heap, ro-end, ro-start, rw-end, rw-start, abort
	Spare int    `json:"spare,omitempty"` // heap: capacity beyond the length
	// abort: the memory from this byte on faults when touched
	AbortAt int `json:"abort_at,omitempty"`

	b       []byte // what the library is given
	all     []byte // heap: with spare capacity
	want    []byte // expected content of all / b
	mapping []byte
	gone    bool
}

const canary = 0xA5

func (b *Buf) setup() error {
	n := len(b.Data)
	b.gone = false
	switch b.Place {
	case "ro-end", "ro-start", "rw-end", "rw-start", "abort":
		pages := (n + page - 1) / page
		if pages == 0 {
			pages = 1
		}
		// guard | pages | guard (big enough for everything behind an abort point)
		m, err := syscall.Mmap(-1, 0, (2*pages+1)*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return fmt.Errorf("mmap: %w", err)
		}
		b.mapping = m
		lo, hi := page, page+pages*page
		var at int
		switch b.Place {
		case "ro-start", "rw-start":
			at = lo
		case "ro-end", "rw-end":
			at = hi - n
		case "abort":
			at = hi - b.AbortAt
		}
		copy(m[at:], b.Data)
		// the slice is made without going through m so that its capacity ends with it
		b.b = unsafe.Slice((*byte)(unsafe.Pointer(&m[at])), n)
		b.all, b.want = b.b, append([]byte(nil), b.Data...)
		if err := syscall.Mprotect(m[:lo], syscall.PROT_NONE); err != nil {
			return err
		}
		prot := syscall.PROT_READ
		if b.Place == "rw-end" || b.Place == "rw-start" {
			prot |= syscall.PROT_WRITE
		}
		if err := syscall.Mprotect(m[lo:hi], prot); err != nil {
			return err
		}
		return syscall.Mprotect(m[hi:], syscall.PROT_NONE)
	default:
		b.all = make([]byte, n+b.Spare)
		copy(b.all, b.Data)
		for i := n; i < len(b.all); i++ {
			b.all[i] = canary
		}
		b.b = b.all[:n]
		b.want = append([]byte(nil), b.all...)
		return nil
	}
}

func (b *Buf) protect(prot int) {
	if b.mapping != nil {
		if err := syscall.Mprotect(b.mapping, prot); err != nil {
			panic("harness: mprotect: " + err.Error())
		}
	}
}

// scribble is the caller overwriting its own memory.
func (b *Buf) scribble(how int) {
	b.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	for i := range b.b {
		switch how % 4 {
		case 0:
			b.b[i] = 0
		case 1:
			b.b[i] = 'X'
		case 2:
			b.b[i] ^= 0x20
		case 3:
			b.b[i] = b.b[i]*31 + byte(i) | 0x80
		}
		if i < len(b.want) {
			b.want[i] = b.b[i]
		}
	}
}

// refill is the caller reading the next input into the same memory.
func (b *Buf) refill(data []byte) []byte {
	b.protect(syscall.PROT_READ | syscall.PROT_WRITE)
	n := copy(b.all, data)
	copy(b.want, data)
	return b.all[:n]
}

// unmap makes every later touch of the memory fault.
func (b *Buf) unmap() {
	if b.mapping != nil {
		b.protect(syscall.PROT_NONE)
		b.gone = true
	}
}

func (b *Buf) release() {
	if b.mapping != nil {
		if err := syscall.Munmap(b.mapping); err != nil {
			panic("harness: munmap: " + err.Error())
		}
		b.mapping = nil
	}
	b.b, b.all = nil, nil
}

// readable is how many bytes the harness itself may look at.
func (b *Buf) readable() int {
	if b.gone {
		return 0
	}
	if b.Place == "abort" {
		return b.AbortAt
	}
	return len(b.all)
}

// intact reports the first byte that is not what the caller put there, or -1.
func (b *Buf) intact() int {
	n := b.readable()
	if bytes.Equal(b.all[:n], b.want[:n]) {
		return -1
	}
	for i := range n {
		if b.all[i] != b.want[i] {
			return i
		}
	}
	return -1
}

// holds reports whether the address lies in this memory (guards included).
func (b *Buf) holds(addr uintptr) bool {
	if b.mapping == nil {
		return false
	}
	lo := uintptr(unsafe.Pointer(&b.mapping[0]))
	return addr >= lo && addr < lo+uintptr(len(b.mapping))
}
