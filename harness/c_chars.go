package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/erroring"
	"github.com/alexZaicev/go-vtd-xml/vtdxml/reader"
)

var errEOFTarget *erroring.EOFError

// classes of one character, as bits: valid, space, name start, name, content
func refClasses(v uint32) uint {
	r := int(v)
	var m uint
	if refChar(r) != 0 {
		m |= 1
		if r != '<' && r != '&' && r != ']' {
			m |= 16
		}
	}
	if refSpace(r) {
		m |= 2
	}
	if refNameStart(r) {
		m |= 4
	}
	if refName(r) {
		m |= 8
	}
	return m
}

func bit(b bool, n uint) uint {
	if b {
		return 1 << n
	}
	return 0
}

func classesOf(x *common.XmlChar, ch uint32) uint {
	return bit(x.IsValidChar(ch), 0) | bit(x.IsSpaceChar(ch), 1) | bit(x.IsNameStartChar(ch), 2) | bit(x.IsNameChar(ch), 3) | bit(x.IsContentChar(ch), 4)
}

func classNames(m uint) string {
	var l []string
	for i, n := range []string{"valid", "space", "name start", "name", "content"} {
		if m>>uint(i)&1 == 1 {
			l = append(l, n)
		}
	}
	return "{" + strings.Join(l, ", ") + "}"
}

func init() {
	const uni = 0x120000
	var probes []uint32 // a value on either side of every border of a class
	for v := uint32(1); v <= uni; v++ {
		if refClasses(v) != refClasses(v-1) {
			probes = append(probes, v-1, v)
		}
	}
	var shared *common.XmlChar // one instance for the whole worker: its history grows
	register(&Check{
		ID: "C14", Title: "character classes are exact for every code point", Cases: tiers(72, 72+256),
		Need:   map[string]int64{"values judged": uni, "surrogates": 2048, "name characters beyond ASCII": 900000, "values beyond Unicode": 1000000},
		Rule:   "every value 0..0x11FFFF in shuffled order on a fresh and on a long-lived instance, each class queried in a random order; all values within 40 of a multiple of 0x10000 or a power of two and a strided sample of the 32-bit range; the thorough tier adds every 32-bit value; distinct by value",
		Tech:   "exhaustive oracle: the answers of the classifier compared with an independent statement of the XML tables",
		Assume: []string{"the harness's tables of NameStartChar, NameChar, Char and S are those of the specification"}, CPU: 200,
		Run: func(c *Ctx) {
			r := c.R
			if shared == nil {
				c.lib("NewXmlChar", func() { shared = common.NewXmlChar() })
			}
			fresh := common.NewXmlChar()
			judge := func(x *common.XmlChar, who string, ch uint32) {
				if got, want := classesOf(x, ch), refClasses(ch); got != want {
					c.Fail("U+%04X is classified as %s by %s, should be %s", ch, classNames(got), who, classNames(want))
				}
			}
			// the borders of all classes, in any order
			borders := func(who string, x *common.XmlChar) {
				for i := range probes {
					judge(x, who, probes[(i*13+c.Case)%len(probes)])
				}
				c.Count("borders judged", len(probes))
			}
			if len(probes)%13 == 0 {
				c.Fail("harness: 13 divides the number of borders")
			}
			c.lib("classifier", func() {
				borders("a long-used instance", shared)
				defer borders("a long-used instance", shared)
				defer borders("an instance that has judged one range", fresh)
				if c.Case < 64 {
					// a slice of the Unicode range, permuted
					n := uint32(uni / 64)
					base := uint32(c.Case) * n
					step := uint32(r.N(int(n)))*2 + 1
					for n%3 == 0 && step%3 == 0 {
						step += 2
					}
					add := uint32(r.N(int(n)))
					for i := uint32(0); i < n; i++ {
						ch := base + (i*step+add)%n
						judge(shared, "a long-used instance", ch)
						judge(fresh, "a new instance", ch)
						if i%8 == 0 {
							judge(shared, "a long-used instance", probes[r.N(len(probes))])
							judge(fresh, "an instance in use", probes[r.N(len(probes))])
						}
						// single questions, in any order, repeated
						q := r.N(5)
						want := refClasses(ch)>>uint(q)&1 == 1
						for k := 0; k < 2; k++ {
							var got bool
							switch q {
							case 0:
								got = fresh.IsValidChar(ch)
							case 1:
								got = shared.IsSpaceChar(ch)
							case 2:
								got = fresh.IsNameStartChar(ch)
							case 3:
								got = shared.IsNameChar(ch)
							case 4:
								got = shared.IsContentChar(ch)
							}
							if got != want {
								c.Fail("class %d of U+%04X: %v, should be %v", q, ch, got, want)
							}
						}
						if ch >= 0xD800 && ch < 0xE000 {
							c.Count("surrogates", 1)
						}
						if ch > 127 && refName(int(ch)) {
							c.Count("name characters beyond ASCII", 1)
						}
						if i%16 == 0 {
							c.Distinct(uint64(ch))
						}
					}
					c.Count("values judged", int(n))
					c.Eval(int(n) * 12)
					if c.Case%16 == 0 {
						c.Sample("U+%04X..U+%04X, first asked U+%04X: %s", base, base+n-1, base+add, classNames(refClasses(base+add)))
					}
					return
				}
				if c.Case < 72 {
					k := uint32(c.Case - 64)
					cnt := 0
					for hi := k; hi < 0x10000; hi += 8 {
						for d := uint32(0); d < 80; d++ {
							judge(shared, "a long-used instance", hi<<16+d-40)
							cnt++
						}
					}
					for p := uint(0); p < 32; p++ {
						for d := uint32(0); d < 200; d++ {
							judge(fresh, "a new instance", 1<<p+d-100)
							cnt++
						}
					}
					for i := 0; i < 400000; i++ {
						judge(shared, "a long-used instance", uint32(r.U64())>>uint(r.N(12)))
						cnt++
					}
					judge(fresh, "a new instance", math.MaxUint32)
					c.Count("values beyond Unicode", cnt/2)
					c.Eval(cnt)
					c.Distinct(uint64(c.Case) << 40)
					return
				}
				n := uint32(c.Case-72) << 24
				for i := uint32(0); i < 1<<24; i++ {
					ch := n + i
					if classesOf(fresh, ch) != refClasses(ch) {
						judge(fresh, "a new instance", ch)
					}
				}
				c.Count("values of the complete 32-bit sweep", 1<<24)
				c.Eval(1 << 24)
				c.Distinct(uint64(c.Case) << 40)
			})
		},
	})
}

// ---- readers ----

// rdModel is what a reader should do
type rdModel struct {
	d          []byte
	end        int
	pos        int
	ascii      bool
	start      int
	mode       string
	unspecific bool
}

// at decodes the character at a position inside the window: value, width; value<0 if it cannot be decoded
func (m *rdModel) at(i int) (int, int) {
	if m.ascii {
		if m.d[i] >= 0x80 {
			return -1, 1
		}
		return int(m.d[i]), 1
	}
	return refDecode(m.d[:m.end], i)
}

// skip gives the position behind the sequence, or -1
func (m *rdModel) skip(seq []rune) int {
	p := m.pos
	for _, want := range seq {
		if p >= m.end || p < 0 {
			return -1
		}
		v, n := m.at(p)
		if v < 0 || v != int(want) {
			return -1
		}
		p += n
	}
	return p
}

func readerBytes(r *Rng) []byte {
	var b []byte
	n := []int{0, 1, 2, 5, 12, 40, 100}[r.N(7)]
	mode := r.N(5)
	if v := dictLen(r, 5000, 4); v > 0 {
		n = v + r.N(8)
		if r.P(1, 3) {
			b = append(b, rep(r.Pick("a", "\n", "\r\n", "é", "中"), v)...)
			n += r.N(20)
		}
	}
	for len(b) < n {
		if x := dictRune(r, 8); x != 0 {
			b = append(b, string(x)...)
			continue
		}
		if x := dictWord(r, 12); x != "" {
			b = append(b, x...)
			continue
		}
		switch {
		case mode == 0:
			b = append(b, byte(0x20+r.N(0x5f)))
		case mode == 1 && r.P(1, 2):
			b = append(b, "\r\n\n\r\t a\r\r\n"[r.N(10)])
		case mode == 2:
			b = append(b, byte(r.N(256)))
		default:
			switch r.N(9) {
			case 0:
				b = append(b, []byte("\r\n")...)
			case 1:
				b = append(b, '\r')
			case 2:
				b = append(b, badSeqs[r.N(len(badSeqs))]...)
			case 3:
				b = append(b, byte(r.N(128)))
			default:
				pal := paletteRunes[r.N(len(paletteRunes))]
				b = append(b, string(pal[r.N(len(pal))])...)
			}
		}
	}
	return b
}

var badSeqs = []string{
	"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xc2A", "\xe0\x9f\xbf", "\xe0\xa0", "\xe0\xa0A", "\xed\xa0\x80", "\xed\xbf\xbf",
	"\xef\xbf", "\xf0\x8f\xbf\xbf", "\xf0\x90\x80", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xfe", "\xf8\x88\x80\x80\x80",
	"\xe1\x80\xc0", "\xf0\x9f\x98A", "\xc3\x28", "\xc2\xc2", "\xe2\x82\xe2", "\xf1\x80\xff\x80",
	"\xfc\x84\x80\x80\x80\x80", "\xc0\xaf", "\xe0\x80\xaf", "\xf0\x80\x80\xaf", "\xc0\xbc", "\xc1\xa1",
}

func init() {
	register(&Check{
		ID: "C15", Title: "readers deliver characters in sequence and stay in bounds", Cases: tiers(160000, 1600000),
		Need: map[string]int64{"characters read": 300000, "end of window reported": 20000, "undecodable input reported": 20000, "skips that match": 10000,
			"sequences that end at the window": 2000, "sequences with a wrong tail": 5000, "positional reads": 200000, "positional reads outside": 20000, "CR LF pairs": 5000, "CR at the end of the window": 500, "constructor arguments refused": 10000,
			"cut characters at the window's end": 1000},
		Rule:   "byte slices of ASCII, Unicode, line endings, malformed sequences and random bytes, readers over random windows in hostile surroundings and at far offsets of slices of up to 2 GB, driven by random sequences of reads, skips, positional reads and position changes; distinct by bytes and window",
		Tech:   "online monitor: every answer and position compared with a reference reader",
		Assume: []string{"the harness decodes UTF-8 correctly (RFC 3629)"},
		Run: func(c *Ctx) {
			r := c.R
			core := readerBytes(r)
			pre, post := []byte{}, []byte{}
			if r.P(2, 3) {
				pre = readerBytes(r)
				post = append([]byte([]string{"\n", "\x80\x80\x80", "amp;", "", "\xbf", "a"}[r.N(6)]), readerBytes(r)...)
			}
			d := append(append(append([]byte{}, pre...), core...), post...)
			start, end := len(pre), len(pre)+len(core)
			if len(core) > 1 && r.P(1, 6) {
				end = start + r.In(1, len(core)) // possibly in the middle of a character
			}
			ascii := r.P(1, 3)
			orig, local := append([]byte{}, d...), d
			if r.P(1, 8) && len(d) > 0 && len(d) < 1<<16 { // far inside a long slice
				off := farAt(r, len(d), 1<<31-1)
				copy(farMem[off:], d)
				d = farMem[: off+len(d) : off+len(d)]
				local = d[off:]
				start, end = start+off, end+off
				c.Count("readers at far offsets", 1)
			}
			mk := func(doc []byte, off, e int) (reader.Reader, error) {
				if ascii {
					x, err := reader.NewAsciiReader(doc, off, e)
					if x == nil {
						return nil, err
					}
					return x, err
				}
				x, err := reader.NewUtf8Reader(doc, off, e)
				if x == nil {
					return nil, err
				}
				return x, err
			}
			c.Detail("bytes", fmt.Sprintf("%q", local)).Detail("window", fmt.Sprintf("%d..%d of %d, ascii=%v", start, end, len(d), ascii))
			// constructor
			c.lib("constructor", func() {
				type arg struct {
					doc    []byte
					off, e int
				}
				n := len(d)
				bad := []arg{{nil, 0, 0}, {nil, 0, 1}, {d, -1 - r.N(5), n}, {d, math.MinInt64, n}, {d, 0, -1 - r.N(3)}, {d, 0, n + 1 + r.N(3)}, {d, 0, math.MaxInt64}, {d, 0, math.MinInt64}, {d, math.MinInt32, math.MaxInt32}}
				for _, a := range bad {
					x, err := mk(a.doc, a.off, a.e)
					if err == nil || x != nil || !isKind(err, kInvalidArg) {
						c.Fail("constructor with offset %d, end %d, nil=%v gives %v, %v", a.off, a.e, a.doc == nil, x, err)
					}
					c.Count("constructor arguments refused", 1)
				}
			})
			var x reader.Reader
			var err error
			c.lib("constructor", func() { x, err = mk(d, start, end) })
			if err != nil || x == nil {
				c.Fail("constructor refuses offset %d, end %d of %d bytes: %v", start, end, len(d), err)
			}
			m := &rdModel{d: d, end: end, pos: start, ascii: ascii, start: start}
			var log opLog
			fail := func(f string, a ...interface{}) {
				c.Detail("operations", log.b.String()).Fail(f, a...)
			}
			pos := func(what string) {
				if x.GetOffset() != m.pos {
					fail("position %d after %s, should be %d", x.GetOffset(), what, m.pos)
				}
			}
			pos("construction")
			positional := func(i int32, long bool) {
				c.Count("positional reads", 1)
				in := int(i) >= 0 && int(i) < m.end
				var v int
				var n int
				if in {
					v, n = m.at(int(i))
				}
				if !long {
					var got uint32
					c.lib("GetCharAt", func() { got, err = x.GetCharAt(i) })
					log.add("GetCharAt(%d)=%#x,%v", i, got, err)
					switch {
					case !in:
						c.Count("positional reads outside", 1)
						if err == nil {
							fail("GetCharAt(%d) outside the document returns %#x without error", i, got)
						}
					case v < 0:
						if err == nil {
							fail("GetCharAt(%d) returns %#x for bytes that are no character", i, got)
						}
					case err != nil || int(got) != v:
						fail("GetCharAt(%d) returns %#x, %v; should be %#x", i, got, err, v)
					}
				} else {
					var got uint64
					c.lib("GetLongCharAt", func() { got, err = x.GetLongCharAt(i) })
					log.add("GetLongCharAt(%d)=%#x,%v", i, got, err)
					if in && v == '\r' {
						v = '\n'
						if int(i)+1 < m.end && d[i+1] == '\n' {
							n = 2
							c.Count("CR LF pairs", 1)
						} else if int(i)+1 == m.end {
							c.Count("CR at the end of the window", 1)
						}
					}
					switch {
					case !in:
						c.Count("positional reads outside", 1)
						if err == nil {
							fail("GetLongCharAt(%d) outside the document returns %#x without error", i, got)
						}
					case v < 0:
						if err == nil {
							fail("GetLongCharAt(%d) returns %#x for bytes that are no character", i, got)
						}
					case err != nil || got != uint64(n)<<32|uint64(v):
						fail("GetLongCharAt(%d) returns %#x, %v; should be character %#x of width %d", i, got, err, v, n)
					}
				}
				pos("a positional read")
			}
			runes := func(s []rune) string { return string(s) }
			ops := r.In(10, 80)
			for k := 0; k < ops; k++ {
				inside := m.pos >= start && m.pos <= m.end
				if !inside {
					m.pos = r.In(start, m.end)
					x.SetOffset(m.pos)
				}
				switch op := r.N(10); op {
				case 0, 1, 2, 3:
					var got uint32
					var err error
					c.lib("GetChar", func() { got, err = x.GetChar() })
					log.add("GetChar=%#x,%v", got, err)
					if m.pos >= m.end {
						if err == nil || !isKind(err, kEOF) || !errors.As(err, &errEOFTarget) {
							fail("GetChar at the end of the window gives %#x, %v; should be an end-of-file error", got, err)
						}
						c.Count("end of window reported", 1)
						pos("a read at the end")
						continue
					}
					v, n := m.at(m.pos)
					if v < 0 {
						if err == nil {
							fail("GetChar at %d gives %#x for bytes that are no character", m.pos, got)
						}
						if isKind(err, kEOF) && m.end-m.pos >= 4 {
							fail("GetChar at %d reports the end of the window", m.pos)
						}
						c.Count("undecodable input reported", 1)
						if m.end-m.pos < 4 && refDecodeFull(m.d, m.pos) {
							c.Count("cut characters at the window's end", 1)
						}
						if o := x.GetOffset(); o < 0 || o > m.end {
							fail("position %d behind the window after a failed read", o)
						}
						// the position after a failed read is not specified
						m.pos += 1
						x.SetOffset(m.pos)
						continue
					}
					if err != nil || int(got) != v {
						fail("GetChar at %d gives %#x, %v; should be %#x", m.pos, got, err, v)
					}
					m.pos += n
					c.Count("characters read", 1)
					pos("GetChar")
				case 4, 5:
					// skip one character: the right one, or a near miss
					want := rune(r.N(128))
					if m.pos < m.end {
						if v, _ := m.at(m.pos); v >= 0 {
							want = rune(v)
							switch r.N(5) {
							case 0:
								want ^= 1 << uint(r.N(8))
							case 1:
								want += 0x100
							}
						} else if r.P(1, 2) {
							want = rune(d[m.pos])
						} else {
							want = []rune{0, 0xFFFD}[r.N(2)]
						}
					} else if m.end < len(d) { // what follows behind the window
						if v, _ := refDecode(d, m.end); v >= 0 {
							want = rune(v)
						}
					} else {
						want = 0
					}
					to := m.skip([]rune{want})
					var got bool
					c.lib("SkipChar", func() { got = x.SkipChar(uint32(want)) })
					log.add("SkipChar(%#x)=%v", want, got)
					if got != (to >= 0) {
						fail("SkipChar(%#x) at %d of %d gives %v", want, m.pos, m.end, got)
					}
					if to >= 0 {
						m.pos = to
						c.Count("skips that match", 1)
					}
					pos("SkipChar")
				case 6, 7:
					// a sequence: what is there, possibly longer than the window or with a wrong end
					var seq []rune
					p := m.pos
					n := r.In(0, 9)
					for len(seq) < n && p < len(d) {
						v, w := refDecode(d, p)
						if v < 0 {
							v = 'x'
						}
						if p >= m.end && len(seq) > 0 && r.P(1, 2) {
							break
						}
						seq = append(seq, rune(v))
						p += w
					}
					kind := ""
					if len(seq) > 0 && r.P(1, 3) {
						i := len(seq) - 1 - r.N(2)
						if i < 0 {
							i = 0
						}
						seq[i] ^= 1
						kind = "sequences with a wrong tail"
					} else if r.P(1, 4) {
						seq = append(seq, 'z')
					}
					// not every value is a character of a Go string
					for i, v := range seq {
						if v == 0xFFFD || !utf8.ValidRune(v) {
							seq[i] = 'q'
						}
					}
					to := m.skip(seq)
					var got bool
					c.lib("SkipCharSeq", func() { got = x.SkipCharSeq(runes(seq)) })
					log.add("SkipCharSeq(%q)=%v", runes(seq), got)
					if got != (to >= 0) {
						fail("SkipCharSeq(%q) at %d of %d gives %v", runes(seq), m.pos, m.end, got)
					}
					if to >= 0 {
						m.pos = to
						if to == m.end {
							c.Count("sequences that end at the window", 1)
						}
						c.Count("skips that match", 1)
					} else if kind != "" {
						c.Count(kind, 1)
					}
					pos("SkipCharSeq")
				case 8:
					for i := 0; i < 3; i++ {
						at := int32(r.In(start, m.end))
						if r.P(1, 4) {
							at = int32(extreme(r, m.end))
						}
						if r.P(1, 6) {
							at = []int32{-1, math.MinInt32, math.MaxInt32, int32(m.end), int32(len(d))}[r.N(5)]
						}
						if at >= 0 && int(at) < start {
							continue // bytes before the window: not specified
						}
						positional(at, r.P(1, 2))
					}
				case 9:
					m.pos = r.In(start, m.end)
					x.SetOffset(m.pos)
					log.add("SetOffset(%d)", m.pos)
					if r.P(1, 8) {
						// outside: any read must fail, none may panic
						o := []int{m.end + 1, m.end + 1000, math.MaxInt64, -1, -1000, math.MinInt64, len(d) + 5}[r.N(7)]
						var err error
						c.lib(fmt.Sprintf("reading from position %d", o), func() {
							x.SetOffset(o)
							if x.GetOffset() != o {
								err = errors.New("position not taken over")
								return
							}
							_, err = x.GetChar()
							x.SetOffset(o)
							if x.SkipChar('a') || x.SkipCharSeq("ab") {
								err = nil
							}
						})
						if err == nil {
							fail("a read or skip at position %d outside the window succeeds", o)
						}
						if o >= m.end && !isKind(err, kEOF) {
							fail("a read at position %d behind the window is reported as %s, should be an end-of-file error", o, errText(err))
						}
						x.SetOffset(m.pos)
					}
					pos("SetOffset")
				}
			}
			// a full pass with both kinds of positional reads
			for i := start; i < end; i++ {
				positional(int32(i), i%2 == 0)
			}
			if string(orig) != string(local) {
				fail("the reader changes the bytes")
			}
			c.Eval(ops + end - start)
			c.Distinct(hashBytes(local) ^ uint64(start)<<20 ^ uint64(end))
			if c.Case%4000 == 1 {
				c.Sample("%q window %d..%d ascii=%v", local, start, end, ascii)
			}
		},
	})
}

// refDecodeFull: is there a complete character when bytes behind the window count
func refDecodeFull(d []byte, i int) bool {
	v, n := refDecode(d, i)
	return v >= 0 && n > 1
}
