//go:build vhcov

// Package cov reads the edge counters and comparison operands of the
// instrumented library (built with -gcflags=...=-d=libfuzzer).
package cov

import (
	"math/bits"
	"unsafe"
)

const size = 1 << 16

// Compared has a mark for every comparison made, by its place and by how close
// the operands were.
var Compared [size]byte

func mark(pc uint, class uint) {
	h := uint64(pc)*0x9e3779b97f4a7c15 + uint64(class)*0xbf58476d1ce4e5b9
	Compared[(h^h>>29)>>7&(size-1)] = 1
}

func near(a, b uint64) uint {
	if a == b {
		return 0
	}
	if d := a - b; d < 8 || -d < 8 { // a few apart
		return 100 + uint(d+8)
	}
	return uint(bits.Len64(a ^ b))
}

//go:linkname counters internal/fuzz._counters
//go:linkname ecounters internal/fuzz._ecounters
var counters, ecounters [0]byte

//go:linkname traceCmp1 runtime.libfuzzerTraceCmp1
func traceCmp1(a, b uint8, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname traceCmp2 runtime.libfuzzerTraceCmp2
func traceCmp2(a, b uint16, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname traceCmp4 runtime.libfuzzerTraceCmp4
func traceCmp4(a, b uint32, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname traceCmp8 runtime.libfuzzerTraceCmp8
func traceCmp8(a, b uint64, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname traceConstCmp1 runtime.libfuzzerTraceConstCmp1
func traceConstCmp1(a, b uint8, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname traceConstCmp2 runtime.libfuzzerTraceConstCmp2
func traceConstCmp2(a, b uint16, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname traceConstCmp4 runtime.libfuzzerTraceConstCmp4
func traceConstCmp4(a, b uint32, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname traceConstCmp8 runtime.libfuzzerTraceConstCmp8
func traceConstCmp8(a, b uint64, pc uint) { mark(pc, near(uint64(a), uint64(b))) }

//go:linkname hookStrCmp runtime.libfuzzerHookStrCmp
func hookStrCmp(a, b string, pc uint) { mark(pc, common(a, b)) }

//go:linkname hookEqualFold runtime.libfuzzerHookEqualFold
func hookEqualFold(a, b string, pc uint) { mark(pc, common(a, b)) }

// Counters returns the edge counters of the instrumented code.
func Counters() []byte {
	p := unsafe.Pointer(&counters)
	n := uintptr(unsafe.Pointer(&ecounters)) - uintptr(p)
	return unsafe.Slice((*byte)(p), int(n))
}

func common(a, b string) uint {
	if a == b {
		return 0
	}
	i := 0
	for i < len(a) && i < len(b) && i < 30 && a[i] == b[i] {
		i++
	}
	c := uint(2 * (i + 1))
	if len(a) == len(b) {
		c++
	}
	return c
}
