package gen

import "sort"

type bitw struct {
	b   []byte
	acc uint64
	n   uint
}

func (w *bitw) put(v uint64, n uint) {
	for i := int(n) - 1; i >= 0; i-- {
		w.acc = w.acc<<1 | (v>>uint(i))&1
		w.n++
		if w.n == 8 {
			w.b = append(w.b, byte(w.acc))
			w.acc, w.n = 0, 0
		}
	}
}

func bzCRC(d []byte) uint32 {
	c := uint32(0xffffffff)
	for _, x := range d {
		c ^= uint32(x) << 24
		for i := 0; i < 8; i++ {
			if c&0x80000000 != 0 {
				c = c<<1 ^ 0x04c11db7
			} else {
				c <<= 1
			}
		}
	}
	return ^c
}

// Bzip2 is a small bzip2 encoder (one block, for short inputs).
func Bzip2(data []byte) []byte {
	w := &bitw{}
	w.b = append(w.b, "BZh9"...)
	if len(data) == 0 {
		w.put(0x177245385090, 48)
		w.put(0, 32)
		return w.b
	}
	crc := bzCRC(data)
	// run lengths of four and more
	var r []byte
	for i := 0; i < len(data); {
		j := i
		for j < len(data) && data[j] == data[i] && j-i < 4+251 {
			j++
		}
		n := j - i
		for k := 0; k < n && k < 4; k++ {
			r = append(r, data[i])
		}
		if n >= 4 {
			r = append(r, byte(n-4))
		}
		i = j
	}
	n := len(r)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool {
		x, y := idx[a], idx[b]
		for k := 0; k < n; k++ {
			if r[x] != r[y] {
				return r[x] < r[y]
			}
			x++
			if x == n {
				x = 0
			}
			y++
			if y == n {
				y = 0
			}
		}
		return false
	})
	last := make([]byte, n)
	orig := 0
	for i, s := range idx {
		if s == 0 {
			orig = i
		}
		last[i] = r[(s+n-1)%n]
	}
	var used [256]bool
	for _, x := range r {
		used[x] = true
	}
	var mtf []byte
	for i := 0; i < 256; i++ {
		if used[i] {
			mtf = append(mtf, byte(i))
		}
	}
	eob := len(mtf) + 1
	var syms []int
	run := 0
	flush := func() {
		for run > 0 {
			if run&1 == 1 {
				syms = append(syms, 0)
				run = (run - 1) / 2
			} else {
				syms = append(syms, 1)
				run = (run - 2) / 2
			}
		}
	}
	for _, x := range last {
		k := 0
		for mtf[k] != x {
			k++
		}
		if k == 0 {
			run++
			continue
		}
		flush()
		copy(mtf[1:k+1], mtf[:k])
		mtf[0] = x
		syms = append(syms, k+1)
	}
	flush()
	syms = append(syms, eob)
	ns := eob + 1
	k := 0
	for 1<<k < ns {
		k++
	}
	short := 1<<k - ns // that many codes are one bit shorter
	w.put(0x314159265359, 48)
	w.put(uint64(crc), 32)
	w.put(0, 1)
	w.put(uint64(orig), 24)
	for i := 0; i < 16; i++ {
		any := uint64(0)
		for j := 0; j < 16; j++ {
			if used[i*16+j] {
				any = 1
			}
		}
		w.put(any, 1)
	}
	for i := 0; i < 16; i++ {
		any := false
		for j := 0; j < 16; j++ {
			any = any || used[i*16+j]
		}
		if any {
			for j := 0; j < 16; j++ {
				if used[i*16+j] {
					w.put(1, 1)
				} else {
					w.put(0, 1)
				}
			}
		}
	}
	sel := (len(syms) + 49) / 50
	w.put(2, 3)
	w.put(uint64(sel), 15)
	for i := 0; i < sel; i++ {
		w.put(0, 1)
	}
	length := func(s int) int {
		if s < short {
			return k - 1
		}
		return k
	}
	for t := 0; t < 2; t++ {
		cur := length(0)
		w.put(uint64(cur), 5)
		for s := 0; s < ns; s++ {
			for cur < length(s) {
				w.put(2, 2)
				cur++
			}
			w.put(0, 1)
		}
	}
	for _, s := range syms {
		if s < short {
			w.put(uint64(s), uint(k-1))
		} else {
			w.put(uint64(short*2+s-short), uint(k))
		}
	}
	w.put(0x177245385090, 48)
	w.put(uint64(crc), 32)
	if w.n > 0 {
		w.put(0, 8-w.n)
	}
	return w.b
}
