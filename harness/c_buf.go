package main

import (
	"bytes"
	"fmt"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"math"
	"reflect"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/buffer"
)

var edge64 = []int64{0, 1, -1, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, 1 << 31, 1 << 32, 1<<32 - 1, -(1 << 32), -(1 << 31) - 1, 0x7fffffff80000000, -0x7fffffff80000001, 0x00000000ffffffff, -0x100000000}

func (r *Rng) i64() int64 {
	if n := dictLen(r, math.MaxInt64, 6); n > 0 {
		return int64(n) << ([]uint{0, 0, 0, 32}[r.N(4)])
	}
	if r.P(1, 3) {
		return edge64[r.N(len(edge64))]
	}
	if r.P(1, 3) {
		return int64(r.N(1000)) - 500
	}
	return int64(r.U64())
}

// idx is an index into or near a list of n entries, often at a border of a page of ps entries
func idx(r *Rng, n, ps int) int {
	if v := dictLen(r, n+1, 6); v > 0 {
		return v
	}
	if ps > 1 && ps < n && r.P(1, 3) {
		return r.N(n/ps+1)*ps + r.In(-2, 1)
	}
	switch r.N(6) {
	case 0:
		return extremes[r.N(len(extremes))]
	case 1:
		return n + r.N(3) - 1
	case 2:
		return r.In(-3, n+1100)
	}
	return r.N(n)
}

func pageExp(r *Rng) (exp int, given bool) {
	switch r.N(12) {
	case 0:
		return 10, false
	case 1:
		return -r.In(1, 70), true
	case 2:
		return []int{15, 20, 31, 32, 33, 40, 61, 62}[r.N(8)], true
	}
	if n := dictLen(r, 14, 4); n > 0 {
		return n, true
	}
	return []int{0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11}[r.N(13)], true
}

// how many entries a run may reach
func runLen(r *Rng) int {
	if n := dictLen(r, 6000, 4); n > 0 {
		return n + r.N(4)
	}
	return []int{3, 10, 40, 70, 300, 1100, 2600, 5000}[r.N(8)]
}

type opLog struct {
	b bytes.Buffer
	n int
}

func (l *opLog) add(f string, a ...interface{}) {
	l.n++
	if l.b.Len() > 6000 {
		x := append([]byte("…"), l.b.Bytes()[l.b.Len()-2000:]...)
		l.b.Reset()
		l.b.Write(x)
	}
	fmt.Fprintf(&l.b, f+"; ", a...)
}

// lst is the common view of the integer and the long buffer
type lst struct {
	name         string
	at           func(int) (int64, error)
	modify       func(int, int64) error
	app          func(int64) error
	size         func() int
	setSize      func(int)
	clear        func()
	array        func() ([]int64, error)
	scribble     func() // changes the last array that was returned
	lower, upper func(int) (int32, error)
	asInt        bool
}

func intList(b *buffer.FastIntBuffer) *lst {
	var last []int32
	return &lst{name: "FastIntBuffer", asInt: true,
		at:     func(i int) (int64, error) { v, e := b.IntAt(i); return int64(v), e },
		modify: func(i int, v int64) error { return b.ModifyEntry(i, int32(v)) },
		app:    func(v int64) error { return b.Append(int32(v)) },
		size:   b.GetSize, setSize: b.SetSize, clear: b.Clear,
		array: func() ([]int64, error) {
			a, e := b.ToIntArray()
			last = a
			var o []int64
			for _, x := range a {
				o = append(o, int64(x))
			}
			return o, e
		},
		scribble: func() {
			for i := range last {
				last[i] ^= 0x55
			}
		},
	}
}

func longList(b *buffer.FastLongBuffer) *lst {
	var last []int64
	return &lst{name: "FastLongBuffer",
		at: b.LongAt, modify: b.ModifyEntry, app: b.Append, size: b.GetSize, setSize: b.SetSize, clear: b.Clear,
		array: func() ([]int64, error) {
			a, e := b.ToLongArray()
			last = a
			return append([]int64(nil), a...), e
		},
		scribble: func() {
			for i := range last {
				last[i] ^= 0x55
			}
		},
		lower: b.Lower32At, upper: b.Upper32At,
	}
}

// runList drives the list, which has pages of ps entries, by operations; pre entries are appended first
func runList(c *Ctx, l *lst, pre, max, ps int, log *opLog) {
	r := c.R
	m := make([]int64, 0, pre)
	val := func() int64 {
		v := r.i64()
		if l.asInt {
			v = int64(int32(v))
		}
		return v
	}
	bad := func(f string, a ...interface{}) {
		c.Detail("operations", log.b.String()).Fail(l.name+": "+f, a...)
	}
	in := func(i int) bool { return i >= 0 && i < len(m) }
	read := func(i int) {
		var v int64
		var err error
		c.lib(l.name+" read", func() { v, err = l.at(i) })
		if in(i) {
			if err != nil || v != m[i] {
				bad("entry %d of %d is %d (%v), expected %d", i, len(m), v, err, m[i])
			}
		} else if !isKind(err, kInvalidArg) {
			bad("entry %d of %d gives %d %v, expected an invalid-argument error", i, len(m), v, err)
		}
		if l.lower != nil {
			var lo, up int32
			var e1, e2 error
			c.lib(l.name+" halves", func() { lo, e1 = l.lower(i); up, e2 = l.upper(i) })
			if in(i) {
				if e1 != nil || e2 != nil || lo != int32(uint32(uint64(m[i]))) || up != int32(uint32(uint64(m[i])>>32)) {
					bad("halves of entry %d (%#x) are %#x %#x (%v %v)", i, m[i], lo, up, e1, e2)
				}
			} else if !isKind(e1, kInvalidArg) || !isKind(e2, kInvalidArg) {
				bad("halves of entry %d of %d give %v %v, expected invalid-argument errors", i, len(m), e1, e2)
			}
		}
		c.Count("reads", 1)
	}
	all := func() {
		var a []int64
		var err error
		c.lib(l.name+" array", func() { a, err = l.array() })
		if err != nil || len(a) != len(m) {
			bad("array has %d entries (%v), expected %d", len(a), err, len(m))
		}
		for i := range m {
			if a[i] != m[i] {
				bad("array entry %d is %d, expected %d", i, a[i], m[i])
			}
		}
		c.Count("arrays", 1)
		if r.P(1, 3) {
			c.lib("scribble", l.scribble)
		}
	}
	each := func() {
		for i := range m {
			v, err := l.at(i)
			if err != nil || v != m[i] {
				bad("entry %d of %d is %d (%v), expected %d", i, len(m), v, err, m[i])
			}
		}
		c.Count("reads", len(m))
	}
	if pre > 0 {
		log.add("append %d entries", pre)
		c.lib(l.name+" append", func() {
			for i := 0; i < pre; i++ {
				v := int64(mix(uint64(i)))
				if l.asInt {
					v = int64(int32(v))
				}
				if err := l.app(v); err != nil {
					panic(fmt.Sprintf("append to %d entries fails: %v", i, err))
				}
				m = append(m, v)
			}
		})
		c.Count("lists of many entries", 1)
	}
	ops := max - pre + r.In(10, 200)
	grow := r.In(40, 95)
	for k := 0; k < ops; k++ {
		var size int
		c.lib(l.name+" size", func() { size = l.size() })
		if size != len(m) {
			bad("size is %d, expected %d", size, len(m))
		}
		c.Count("operations", 1)
		if r.P(grow, 100) && len(m) < max {
			for n := 1 + r.Geo(7); n > 0; n-- {
				v := val()
				var err error
				log.add("append %d", v)
				c.lib(l.name+" append", func() { err = l.app(v) })
				if err != nil {
					bad("append to %d entries fails: %v", len(m), err)
				}
				m = append(m, v)
			}
			continue
		}
		switch r.N(14) {
		case 0, 1, 2, 3:
			read(idx(r, len(m), ps))
		case 4, 5, 6:
			i, v := idx(r, len(m), ps), val()
			var err error
			log.add("modify %d %d", i, v)
			c.lib(l.name+" modify", func() { err = l.modify(i, v) })
			if in(i) {
				if err != nil {
					bad("modify %d of %d fails: %v", i, len(m), err)
				}
				m[i] = v
			} else if !isKind(err, kInvalidArg) {
				bad("modify %d of %d gives %v, expected an invalid-argument error", i, len(m), err)
			}
		case 7, 8:
			if r.P(1, 2) {
				all()
			} else {
				each()
			}
		case 9, 10, 11:
			if pre > 0 && r.P(4, 5) {
				read(idx(r, len(m), ps))
				break
			}
			n := 0
			switch r.N(5) {
			case 0:
				n = r.N(len(m) + 1)
				if pre > 0 && r.P(3, 4) {
					n = idx(r, len(m), ps)
				}
			case 1:
				n = len(m) - r.N(4)
			case 2:
				n = len(m) + 1 + r.N(2000)
			case 3:
				n = extremes[r.N(len(extremes))]
			case 4:
				n = -1 - r.N(5)
			}
			log.add("set size %d", n)
			c.lib(l.name+" set size", func() { l.setSize(n) })
			if n >= 0 && n < len(m) {
				m = m[:n:n]
				c.Count("reductions", 1)
			}
			read(n)
			read(len(m))
		case 12:
			if r.P(1, 3) && (pre == 0 || r.P(1, 8)) {
				log.add("clear")
				c.lib(l.name+" clear", l.clear)
				m = nil
				c.Count("clears", 1)
				read(0)
			}
		default:
			read(len(m) - 1)
			read(len(m))
		}
	}
	each()
	all()
	h := hashStr(l.name)
	for _, v := range m {
		h = mix(h ^ uint64(v))
	}
	c.Distinct(h + uint64(log.n))
	c.Eval(1)
}

func init() {
	register(&Check{
		ID: "C11", Title: "integer and long buffers behave as lists", Cases: tiers(4000, 60000),
		Need:   map[string]int64{"operations": 500000, "reads": 1000000, "reductions": 10000, "clears": 1000, "arrays": 5000, "page sizes refused": 50},
		Rule:   "random operation sequences (appends past many pages, modifications, reads, size changes, clears, conversions, extreme indices, sizes and values) for page exponents 0 to 62, the default and negative ones; every answer compared with a plain list; distinct by final content",
		Tech:   "online monitor: operation sequences shadowed by a plain list",
		Assume: []string{"a plain Go slice is the model of a list"},
		Run: func(c *Ctx) {
			r := c.R
			for b := 0; b < 8; b++ {
				exp, given := pageExp(r)
				max := runLen(r)
				if exp > 11 && max > 300 && r.P(3, 4) {
					max = 300
				}
				log := &opLog{}
				pre := 0
				if c.Case%16 == 5 && b == 0 {
					// pages of every size, filled, and the borders of the pages behind each other
					exp, given = (c.Case/16)%18, true
					pre = (1 << uint(exp)) * r.In(1, 3)
					if pre < 30000 {
						pre = 30000
					}
					pre += r.In(-2, 40)
					max = pre + r.N(60)
				}
				ps := 1024
				if exp >= 0 && exp < 31 {
					ps = 1 << uint(exp)
				}
				log.add("page exponent %d given %v", exp, given)
				var l *lst
				long := r.P(1, 2)
				c.lib("constructor", func() {
					var err error
					if long {
						var o []buffer.FastLongBufferOption
						if given {
							if r.P(1, 6) {
								o = append(o, buffer.WithFastLongBufferPageSize(r.N(12)))
								if exp < 0 {
									exp = 5
								}
							}
							o = append(o, buffer.WithFastLongBufferPageSize(exp))
						}
						var x *buffer.FastLongBuffer
						if x, err = buffer.NewFastLongBuffer(o...); err == nil {
							l = longList(x)
						}
					} else {
						var o []buffer.FastIntBufferOption
						if given {
							o = append(o, buffer.WithFastIntBufferPageSize(exp))
						}
						var x *buffer.FastIntBuffer
						if x, err = buffer.NewFastIntBuffer(o...); err == nil {
							l = intList(x)
						}
					}
				})
				if l == nil {
					c.Fail("constructor with page exponent %d fails", exp)
				}
				runList(c, l, pre, max, ps, log)
				if c.Case%200 == 1 {
					c.Sample("%s %d operations: %s", l.name, log.n, clipStr(log.b.String(), 300))
				}
			}
			for _, e := range []int{63, 64, 65, 100, math.MaxInt32, math.MaxInt64} {
				c.lib("constructor", func() {
					_, e1 := buffer.NewFastLongBuffer(buffer.WithFastLongBufferPageSize(e))
					_, e2 := buffer.NewFastIntBuffer(buffer.WithFastIntBufferPageSize(e))
					if !isKind(e1, kInvalidArg) || !isKind(e2, kInvalidArg) {
						panic(fmt.Sprintf("page exponent %d is not refused: %v %v", e, e1, e2))
					}
				})
				c.Count("page sizes refused", 1)
			}
		},
	})

	register(&Check{
		ID: "C12", Title: "the byte buffer gives bounds-checked views", Cases: tiers(6000, 100000),
		Need:   map[string]int64{"bytes read": 100000, "slices read": 100000, "refused": 100000},
		Rule:   "byte slices of length 0 to 300 (also parts of larger arrays), all indices and all offset/length pairs of short ones, extreme values for all; every answer compared with the slice; distinct by content",
		Tech:   "online monitor: every view compared with the original slice",
		Assume: []string{"a Go slice expression is the model of a view"},
		Run: func(c *Ctx) {
			r := c.R
			n := []int{0, 1, 2, 3, 5, 9, 17, 30, 64, 300}[r.N(10)]
			switch {
			case r.P(1, 5) && directed():
				n = dictLen(r, 600000, 1)
			case r.P(1, 6):
				n = r.In(0, 700)
			case r.P(1, 20):
				n = someLen(r, 70000)
			case r.P(1, 60):
				n = someLen(r, 600000)
			}
			back := make([]byte, n+r.N(20)+r.N(2)*50)
			for i := range back {
				back[i] = byte(r.N(256))
			}
			a := r.N(len(back) - n + 1)
			src := back[a : a+n]
			if n > 0 && r.P(1, 3) { // runs of one byte, at the start, the end or anywhere
				for k := r.In(1, 4); k > 0; k-- {
					v := []byte{0, 0, ' ', '\n', '\r', 0xff, 0x80, '<', 0xef}[r.N(9)]
					i, e := r.N(n), r.In(1, n)
					switch r.N(3) {
					case 0:
						i = 0
					case 1:
						i = n - e
					}
					for ; i < n && e > 0; i, e = i+1, e-1 {
						src[i] = v
					}
				}
			}
			if r.P(1, 2) {
				src = src[:n:n]
			}
			if n == 0 {
				src = []byte{}
			}
			orig := append([]byte{}, src...)
			c.Detail("bytes", fmt.Sprintf("%q", orig))
			var b *buffer.UniByteBuffer
			c.lib("NewUniByteBuffer", func() {
				var err error
				if b, err = buffer.NewUniByteBuffer(src); err != nil || b == nil {
					panic(fmt.Sprintf("constructor fails for %d bytes: %v", n, err))
				}
				if _, err = buffer.NewUniByteBuffer(nil); !isKind(err, kInvalidArg) {
					panic(fmt.Sprintf("nil is not refused: %v", err))
				}
			})
			whole := func() {
				c.lib("GetSize, GetBytes", func() {
					if b.GetSize() != n || !bytes.Equal(b.GetBytes(), orig) {
						panic(fmt.Sprintf("size %d content %q, expected %q", b.GetSize(), b.GetBytes(), orig))
					}
				})
			}
			byteAt := func(i int) {
				var v byte
				var err error
				c.lib("ByteAt", func() { v, err = b.ByteAt(i) })
				if i >= 0 && i < n {
					if err != nil || v != orig[i] {
						c.Fail("ByteAt(%d) of %d is %#x (%v), expected %#x", i, n, v, err, orig[i])
					}
					c.Count("bytes read", 1)
				} else {
					if !isKind(err, kInvalidArg) {
						c.Fail("ByteAt(%d) of %d gives %#x %v, expected an invalid-argument error", i, n, v, err)
					}
					c.Count("refused", 1)
				}
			}
			slice := func(o, l int) {
				if l == 0 {
					return
				}
				var v []byte
				var err error
				c.lib(fmt.Sprintf("GetByteSlice(%d, %d) of %d", o, l, n), func() { v, err = b.GetByteSlice(o, l) })
				if o >= 0 && l > 0 && o <= n && l <= n-o {
					if err == nil && bytes.Equal(v, orig[o:o+l]) {
						c.Count("slices read", 1)
						return
					}
					if l == n-o && isKind(err, kInvalidArg) {
						c.Known("byteslice-last-byte", "GetByteSlice refuses a range that ends at the last byte")
						c.Count("range up to the last byte refused (known finding)", 1)
						return
					}
					c.Fail("GetByteSlice(%d, %d) of %d is %q (%v), expected %q", o, l, n, v, err, orig[o:o+l])
				}
				if !isKind(err, kInvalidArg) {
					c.Fail("GetByteSlice(%d, %d) of %d gives %q %v, expected an invalid-argument error", o, l, n, v, err)
				}
				c.Count("refused", 1)
			}
			for i := -3; i < n+4; i++ {
				if n < 3000 || i < 10 || i > n-10 || r.P(1, 30) {
					byteAt(i)
				}
			}
			for _, e := range extremes {
				byteAt(e)
				for _, e2 := range extremes {
					slice(e, e2)
				}
				for k := 0; k < 3; k++ {
					x := r.In(-1, n+1)
					slice(x, e)
					slice(e, x)
					slice(x, e-x)
					slice(x, math.MaxInt64-x+1)
				}
			}
			if n <= 30 {
				for o := -2; o <= n+2; o++ {
					for l := -2; l <= n+3; l++ {
						slice(o, l)
					}
				}
			}
			for k := 0; k < 200; k++ {
				o := r.N(n + 1)
				slice(o, r.In(1, n-o+2))
				if k%20 == 0 {
					c.lib("SetSize, Clear", func() {
						b.SetSize(extreme(r, n))
						if r.P(1, 3) {
							b.Clear()
						}
					})
					whole()
				}
			}
			whole()
			if !bytes.Equal(src, orig) {
				c.Fail("the caller's bytes were changed: %q", src)
			}
			c.Eval(1)
			c.Distinct(hashBytes(orig))
			if c.Case%200 == 1 {
				c.Sample("%d bytes %q", n, orig)
			}
		},
	})

	type obj struct{ n int }
	register(&Check{
		ID: "C13", Title: "the object buffer", Cases: tiers(8000, 100000),
		Need:   map[string]int64{"operations": 500000, "reads": 1000000, "page reductions": 10000, "clears": 1000, "appends after a reduction": 10000},
		Rule:   "random operation sequences for page exponents 0 to 62, the default and negative ones, with pointers, values, nil, typed nil, errors, functions, maps and slices (also of the length of a page) as objects; every answer compared with a list and a page count; distinct by operation sequence",
		Tech:   "online monitor: operation sequences shadowed by a list with pages",
		Assume: []string{"a Go slice with a page count is the model"},
		Run: func(c *Ctx) {
			r := c.R
			exp, given := pageExp(r)
			max, pre := runLen(r), 0
			if c.Case%32 == 5 {
				exp, given = (c.Case/32)%17, true
				pre = (1<<uint(exp))*r.In(1, 3) + r.In(-2, 40)
				if pre < 10000 {
					pre += 10000
				}
				max = pre + r.N(60)
			}
			eff := exp
			if exp < 0 {
				eff = 10
			}
			ps := 1 << uint(eff)
			log := &opLog{}
			log.add("page exponent %d given %v", exp, given)
			var b *buffer.FastObjectBuffer
			c.lib("NewFastObjectBuffer", func() {
				var o []buffer.FastObjectBufferOption
				if given {
					o = append(o, buffer.WithFastObjectBufferPageSize(exp))
				}
				var err error
				if b, err = buffer.NewFastObjectBuffer(o...); err != nil {
					panic(fmt.Sprintf("constructor with page exponent %d fails: %v", exp, err))
				}
				for _, e := range []int{63, 64, 100, math.MaxInt64} {
					if _, err := buffer.NewFastObjectBuffer(buffer.WithFastObjectBufferPageSize(e)); !isKind(err, kInvalidArg) {
						panic(fmt.Sprintf("page exponent %d is not refused: %v", e, err))
					}
				}
			})
			var m []interface{}
			pages := func() int {
				if len(m) == 0 {
					return 0
				}
				return (len(m)-1)/ps + 1
			}
			bad := func(f string, a ...interface{}) { c.Detail("operations", log.b.String()).Fail(f, a...) }
			serial := 0
			val := func() interface{} {
				serial++
				switch r.N(6) {
				case 0:
					return serial
				case 1:
					return fmt.Sprint("s", serial)
				case 2:
					if r.P(1, 3) {
						return nil
					}
				case 3:
					return oddObject(r, serial, ps)
				}
				return &obj{serial}
			}
			in := func(i int) bool { return i >= 0 && i < len(m) }
			read := func(i int) {
				var v interface{}
				var err error
				c.lib("ObjectAt", func() { v, err = b.ObjectAt(i) })
				if in(i) {
					if err != nil || !sameObject(v, m[i]) {
						bad("object %d of %d is %v (%v), expected %v", i, len(m), v, err, m[i])
					}
				} else if !isKind(err, kInvalidArg) {
					bad("object %d of %d gives %v %v, expected an invalid-argument error", i, len(m), v, err)
				}
				c.Count("reads", 1)
			}
			if pre > 0 {
				log.add("append %d numbers", pre)
				c.lib("Append", func() {
					for i := 0; i < pre; i++ {
						serial++
						if err := b.Append(serial); err != nil {
							panic(fmt.Sprintf("append to %d objects fails: %v", i, err))
						}
						m = append(m, serial)
					}
				})
				c.Count("lists of many objects", 1)
			}
			ops := max - pre + r.In(10, 200)
			grow := r.In(40, 95)
			reduced := false
			for k := 0; k < ops; k++ {
				c.Count("operations", 1)
				var size int
				c.lib("GetSize", func() { size = b.GetSize() })
				if size != pages() {
					bad("size is %d, expected %d pages (%d objects, %d per page)", size, pages(), len(m), ps)
				}
				if r.P(grow, 100) && len(m) < max {
					for n := 1 + r.Geo(7); n > 0; n-- {
						v := val()
						var err error
						log.add("append")
						c.lib("Append", func() { err = b.Append(v) })
						if err != nil {
							bad("append to %d objects fails: %v", len(m), err)
						}
						m = append(m, v)
						if reduced {
							c.Count("appends after a reduction", 1)
						}
					}
					continue
				}
				switch r.N(10) {
				case 0, 1, 2:
					read(idx(r, len(m), ps))
				case 3, 4:
					i, v := idx(r, len(m), ps), val()
					var err error
					log.add("modify %d", i)
					c.lib("ModifyEntry", func() { err = b.ModifyEntry(i, v) })
					if in(i) {
						if err != nil {
							bad("modify %d of %d fails: %v", i, len(m), err)
						}
						m[i] = v
					} else if !isKind(err, kInvalidArg) {
						bad("modify %d of %d gives %v, expected an invalid-argument error", i, len(m), err)
					}
				case 5:
					if pre > 0 && r.P(3, 4) {
						break
					}
					for i := range m {
						read(i)
					}
				case 6, 7:
					if pre > 0 && r.P(4, 5) {
						read(idx(r, len(m), ps))
						break
					}
					n := r.N(pages() + 1)
					switch r.N(5) {
					case 0:
						n = extremes[r.N(len(extremes))]
					case 1:
						n = -1 - r.N(4)
					case 2:
						n = pages() + r.N(3) - 1
					}
					log.add("set size %d", n)
					c.lib("SetSize", func() { b.SetSize(n) })
					if n >= 0 && n < pages() {
						m = m[: n*ps : n*ps]
						c.Count("page reductions", 1)
						reduced = true
					}
					read(len(m))
					read(len(m) - 1)
				case 8:
					if r.P(1, 3) && (pre == 0 || r.P(1, 8)) {
						log.add("clear")
						c.lib("Clear", b.Clear)
						m = nil
						c.Count("clears", 1)
						reduced = true
						read(0)
					}
				default:
					read(len(m))
					read(len(m) + ps)
				}
			}
			for i := range m {
				read(i)
			}
			c.Eval(1)
			c.Distinct(hashBytes(log.b.Bytes()))
			if c.Case%200 == 1 {
				c.Sample("%d operations: %s", log.n, clipStr(log.b.String(), 300))
			}
		},
	})
}

type oddStruct struct {
	a int
	b []int
}

// oddObject: an object of a kind that code may treat specially
func oddObject(r *Rng, serial, page int) interface{} {
	n := r.N(4)
	if r.P(1, 2) && page <= 4096 {
		n = page + r.N(3) - 1
	}
	switch r.N(16) {
	case 0:
		x := make([]interface{}, n)
		for i := range x {
			x[i] = serial
		}
		return x
	case 1:
		return make([]byte, n)
	case 2:
		return make([]int, n, n+3)
	case 3:
		return fmt.Errorf("error %d", serial)
	case 4:
		return erroring.NewEOFError("x")
	case 5:
		return (*oddStruct)(nil)
	case 6:
		return error((*erroring.EOFError)(nil))
	case 7:
		return []interface{}(nil)
	case 8:
		return func() int { return serial }
	case 9:
		return map[string]int{"a": serial}
	case 10:
		return &oddStruct{serial, nil}
	case 11:
		return [2]int{serial, 1}
	case 12:
		return []interface{}{[]interface{}{serial}, nil}
	case 13:
		return int32(serial)
	case 14:
		return serial%2 == 0
	}
	x := interface{}(serial)
	return &x
}

// sameObject: the same value, or the same slice, map or function
func sameObject(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	if x.Type() != y.Type() {
		return false
	}
	switch x.Kind() {
	case reflect.Slice:
		return x.Pointer() == y.Pointer() && x.Len() == y.Len() && x.Cap() == y.Cap()
	case reflect.Map, reflect.Func:
		return x.Pointer() == y.Pointer()
	}
	return a == b
}
