package main

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf16"

	"github.com/alexZaicev/go-vtd-xml/vtdxml/common"
)

func randCase(r *Rng, s string) string {
	b := []byte(s)
	for i, ch := range b {
		switch r.N(3) {
		case 0:
			b[i] = bytes.ToUpper([]byte{ch})[0]
		case 1:
			b[i] = bytes.ToLower([]byte{ch})[0]
		}
	}
	return string(b)
}

var encNames = []string{"UTF-8", "utf-8", "ASCII", "US-ASCII", "us-ascii", "ascii"}
var otherEncs = []string{"UTF-16", "UTF-16LE", "UTF-16BE", "UTF-7", "UTF-32", "UTF8", "UTF-80", "UTF-", "UTF", "U", "US", "US-ASCI", "US-ASCIII", "USASCII", "ASCI", "ASCIII", "A", "ASCII-US",
	"ISO-8859-1", "ISO-8859-2", "ISO-8859-9", "ISO-8859-10", "ISO-8859-15", "ISO-8859-16", "iso-8859-1", "ISO-8859", "ISO-10646-UCS-2", "Windows-1252", "windows-1252", "WINDOWS-1250", "cp1252", "CP1251", "cp1258", "latin1", "EUC-JP", "Shift_JIS", "GB2312",
	"Big5", "KOI8-R", "x-user", "", " ", "UTF-8 ", " UTF-8", "UTF 8", "UTF_8", "1UTF-8", "-8", "utf-8;", "ANSI", "unicode", "UTF\u20118", "utf-8\u0000", "\u0130SO-8859-1", "a\u017fcii", "UTF-1", "UTF-16X"}

// unicodeTemplates: where one character is put
var unicodeTemplates = []struct{ pre, post, what string }{
	{"<", "/>", "element name start"},
	{"<a", "/>", "element name"},
	{"<a ", "='1'/>", "attribute name start"},
	{"<a b", "='1'/>", "attribute name"},
	{"<?", " x?><a/>", "target start"},
	{"<?p", " x?><a/>", "target"},
	{"<a>", "</a>", "text"},
	{"<a b='", "'/>", "attribute value"},
	{"<a><!--", "--></a>", "comment"},
	{"<a><![CDATA[", "]]></a>", "CDATA"},
	{"<a><?p ", "?></a>", "instruction"},
	{"<a>x&#65;", "y</a>", "text behind a reference"},
	{"<a b=\"&lt;", "\">", "attribute value behind a reference"},
	{"<!--", "--><a/>", "comment in the prolog"},
	{"<a/><!--", "-->", "comment behind the root"},
	{"<a/><?p ", "?>", "instruction behind the root"},
	{"", "<a/>", "start of the document"},
	{"<a/>", "", "end of the document"},
	{"<a", ">x</a>", "start tag"},
	{"<a></a", ">", "end tag"},
}

func enc(r rune) string { // also surrogates
	if r >= 0xD800 && r < 0xE000 {
		return string([]byte{byte(0xE0 | r>>12), byte(0x80 | r>>6&0x3F), byte(0x80 | r&0x3F)})
	}
	return string(r)
}

// judgeDoc compares acceptance, tokens, strings and reported encoding with the reference
func judgeDoc(c *Ctx, doc []byte, o Opts, kind string) bool {
	return judgeWin(c, doc, nil, nil, o, kind)
}

// judgeWin does it for a document with something around it
func judgeWin(c *Ctx, doc, pre, post []byte, o Opts, kind string) bool {
	ref := RefParse(doc, o.Ns)
	src := doc
	if pre != nil || post != nil {
		o.Win, o.Off, o.N = true, len(pre), len(doc)
		src = append(append(append(make([]byte, 0, len(pre)+len(doc)+len(post)), pre...), doc...), post...)
	} else if c.R.P(1, 8) {
		src = far(c.R, doc, &o)
	}
	c.Eval(1)
	if ref.V == Hard {
		c.Count("unspecified", 1)
		return false
	}
	if ref.V == Reject {
		mustReject(c, src, o, ref, kind)
		c.Count("refused: "+ref.Class, 1)
		return false
	}
	if ref.Soft {
		return false
	}
	res := mustAccept(c, src, o, ref, kind)
	c.Count("accepted", 1)
	checkTokens(c, src, o, ref, res, kind)
	want := common.FormatUtf8
	if ref.Ascii {
		want = common.FormatAscii
		c.Count("accepted as ASCII", 1)
	}
	c.Detail("document", show(doc))
	c.lib("GetEncoding", func() {
		if g := res.Nav.GetEncoding(); g != want {
			c.Fail("the navigator reports encoding %d, the document is in %d", g, want)
		}
	})
	for i, t := range ref.Toks {
		if i == 0 || t.AnyOff || t.Len > maxTok {
			continue
		}
		bs := doc[t.Off : t.Off+t.Len]
		c.lib("string extraction", func() {
			s, err := res.Nav.ToRawStringAtIndex(i)
			judgeString(c, "ToRawStringAtIndex", t, bs, s, err, false)
			s, err = res.Nav.ToStringAtIndex(i)
			judgeString(c, "ToStringAtIndex", t, bs, s, err, t.Type == tText || t.Type == tVal)
		})
	}
	return true
}

func init() {
	const uniCases = 0x110000 / 4096
	// every one-place edit of the names of encodings
	oneCharNames := func(c *Ctx) {
		i := 0
		for _, name := range []string{"UTF-8", "utf-8", "ASCII", "ascii", "US-ASCII", "us-ascii", "UTF-16", "utf-16le", "ISO-8859-1", "windows-1252"} {
			for at := 0; at <= len(name); at++ {
				for ch := 0x20; ch < 0x180; ch++ {
					i++
					if i%uniCases != c.Case || ch == '\'' || ch == '<' {
						continue
					}
					x := string(rune(ch))
					judgeDoc(c, []byte("<?xml version='1.0' encoding='"+name[:at]+x+name[at:]+"'?><a/>"), Opts{Ns: i&8 == 0}, "name with one more character")
					if at < len(name) {
						judgeDoc(c, []byte("<?xml version='1.0' encoding='"+name[:at]+x+name[at+1:]+"'?><a/>"), Opts{Ns: i&8 == 0}, "name with another character")
						judgeDoc(c, []byte("<?xml version='1.0' encoding='"+name[:at]+name[at+1:]+"'?><a/>"), Opts{Ns: i&8 == 0}, "name without a character")
					}
					c.Count("edited names", 1)
				}
			}
		}
	}
	rest := tiers(2400, 24000)
	register(&Check{
		ID: "C16", GC: 600, Title: "encodings are recognised, decoded and refused correctly", Cases: func(t string) int { return uniCases + rest(t) },
		Need: map[string]int64{"characters tried": 0x110000, "malformed sequences inserted": 60000, "declared encodings tried": 20000, "accepted": 100000, "accepted as ASCII": 2000, "UTF-16 documents": 3000, "byte order marks": 5000, "non-ASCII in ASCII documents": 5000},
		Rule: "every code point (surrogates as three-byte forms) in names and in content of documents with many characters and singly; malformed sequences of every kind inserted at every position of generated documents, with and without declaration and byte order mark; a list of declared encodings in all letter cases against content, byte order mark and declaration forms; documents in UTF-16 and UTF-32 with and without byte order mark; distinct by document",
		Tech: "oracle: acceptance, tokens, strings and reported encoding compared with a reference reader with its own strict decoder",
		Run: func(c *Ctx) {
			r := c.R
			if c.Case < uniCases {
				oneCharNames(c)
				base := rune(c.Case * 4096)
				// many at once
				for _, q := range []string{"'", "\""} {
					var content, names strings.Builder
					for i := rune(0); i < 4096; i++ {
						ch := base + i
						if refChar(int(ch)) != 1 || strings.ContainsRune("<&'\"]>-?\r", ch) {
							continue
						}
						content.WriteRune(ch)
						if refNameStart(int(ch)) && ch != ':' {
							names.WriteString("<" + string(ch) + "x a" + string(ch) + "=" + q + string(ch) + q + "/>")
						} else if refName(int(ch)) && ch != ':' {
							names.WriteString("<x" + string(ch) + " a" + string(ch) + "=" + q + string(ch) + q + "/>")
						}
					}
					s := content.String()
					doc := []byte("<a b=" + q + s + q + "><!--" + s + "-->x" + s + "<![CDATA[" + s + "]]><?p x" + s + "?>" + names.String() + "&#" + fmt.Sprint(int(base)+1000) + ";</a>")
					judgeDoc(c, doc, opts(r.P(1, 2), r), "characters of a block")
				}
				for i := rune(0); i < 4096; i++ {
					ch := enc(base + i)
					c.Count("characters tried", 1)
					for k, t := range unicodeTemplates {
						if c.Tier == "quick" && base >= 0x3000 {
							n := 24
							if k < 4 {
								n = 1
							}
							if base >= 0x10000 {
								n *= 12
							}
							if lo := (base + i) & 0xFFFF; (lo+64)&0xFFFF >= 128 && (k+int(i)+int(c.Seed))%n != 0 {
								continue
							}
						}
						c.Distinct(uint64(base + i))
						judgeDoc(c, []byte(t.pre+ch+t.post), Opts{Ns: k&1 == 0}, t.what)
					}
				}
				if c.Case%64 == 0 {
					c.Sample("U+%04X..U+%04X, each in %d places", base, base+4095, len(unicodeTemplates))
				}
				return
			}
			switch c.Kind(4) {
			case 0: // malformed sequences everywhere
				st := randStyle(r, 4)
				st.Palette, st.LongName, st.ManyAttrs, st.ManyDecls, st.TextLen = r.N(3), 0, 0, 0, 5
				if st.Palette != 0 {
					st.AsciiDecl = false
				}
				doc := GenStyle(r, st)
				if len(doc) > 600 {
					doc = []byte("<?xml version='1.0' encoding='utf-8'?><!--a--><?p q?><é b=\"x\">t&amp;<![CDATA[c]]></é ><!--e-->")
				}
				if r.P(1, 4) {
					doc = append([]byte("\xef\xbb\xbf"), bytes.TrimPrefix(doc, []byte("\xef\xbb\xbf"))...)
				}
				for at := 0; at <= len(doc); at++ {
					seq := badSeqs[r.N(len(badSeqs))]
					if r.P(1, 5) {
						seq = string([]byte{byte(0x80 + r.N(128))})
					}
					x := splice(doc, at, at, seq)
					if r.P(1, 4) && at < len(doc) {
						x = splice(doc, at, at+1, seq)
					}
					c.Count("malformed sequences inserted", 1)
					c.Distinct(hashBytes(x))
					judgeDoc(c, x, opts(r.P(1, 2), r), "malformed sequence")
				}
			case 1: // declared encodings
				for k := 0; k < 60; k++ {
					name := encNames[r.N(len(encNames))]
					if r.P(1, 3) {
						name = otherEncs[r.N(len(otherEncs))]
					}
					name = randCase(r, name)
					if r.P(1, 12) && len(name) > 0 {
						b := []byte(name)
						b[r.N(len(b))] ^= byte(1 << uint(r.N(7)))
						name = string(b)
					}
					q := r.Pick("'", "\"")
					w := r.Pick(" ", "\n", "\t", "  \r\n")
					eq := r.Pick("=", " =", "= ", "\t=\n")
					d := "<?xml" + w + "version" + eq + q + r.Pick("1.0", "1.1") + q + w + "encoding" + eq + q + name + q
					if r.P(1, 3) {
						d += w + "standalone" + eq + q + r.Pick("yes", "no") + q
					}
					d += r.Pick("", " ", "\n") + "?>"
					body := r.Pick("<a/>", "<a b='c'>d&#233;&lt;</a>", "\n<a>&#x1F600;<b/></a> ", "<a>é</a>", "<é/>", "<a b='é'/>", "<a><!--é--></a>", "<a/><!--\U0001F600-->", "<a><![CDATA[中]]></a>", "<?p é?><a/>", "<!DOCTYPE a><a/>", "<a>\x80</a>", "<a>\xe9</a>", "<a>\x7f</a>", "<a\u00e9/>", "<a ü='1'/>", "<?é x?><a/>", "<a></a\u00a0>", "<a\u00a0b='1'/>")
					if r.P(1, 4) {
						st := randStyle(r, 6)
						st.Decl, st.Bom, st.AsciiDecl = 0, false, false
						body = string(GenStyle(r, st))
					}
					doc := []byte(d + body)
					if r.P(1, 4) {
						doc = append([]byte("\xef\xbb\xbf"), doc...)
						c.Count("byte order marks", 1)
					}
					c.Count("declared encodings tried", 1)
					if strings.Contains(strings.ToLower(name), "ascii") && !isASCII([]byte(body)) {
						c.Count("non-ASCII in ASCII documents", 1)
					}
					c.Distinct(hashBytes(doc))
					switch r.N(8) {
					case 0:
						doc = amplify(r, doc)
					case 1:
						if x := ampSpace(r, doc); x != nil {
							doc = x
						}
					}
					o := opts(r.P(1, 2), r)
					judgeDoc(c, doc, o, "declared encoding "+name)
					if r.P(1, 3) {
						judgeWin(c, doc, []byte(hostilePre[r.N(len(hostilePre))]), []byte(hostilePost[r.N(len(hostilePost))]), o, "declared encoding "+name+" in a window")
					}
					if c.Case%400 == 1 && k < 2 {
						c.Sample("%q", doc)
					}
				}
			case 2: // other encodings and byte order marks
				for k := 0; k < 12; k++ {
					st := randStyle(r, 4)
					st.Bom, st.AsciiDecl = false, false
					body := string(GenStyle(r, st))
					if r.P(1, 3) {
						body = r.Pick("<a/>", "<a></a>", "<", "<?xml version='1.0' encoding='UTF-16'?><a/>", "<?xml version='1.0'?><a>x</a>", "<中/>")
					}
					u := utf16.Encode([]rune(body))
					var doc []byte
					kind := r.N(6)
					bom := r.P(1, 2)
					put := func(v uint32) {
						switch kind {
						case 0, 2:
							doc = append(doc, byte(v), byte(v>>8))
						case 1, 3:
							doc = append(doc, byte(v>>8), byte(v))
						case 4:
							doc = append(doc, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
						case 5:
							doc = append(doc, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
						}
					}
					if bom {
						put(0xFEFF)
					}
					if kind < 4 {
						for _, v := range u {
							put(uint32(v))
						}
					} else {
						for _, v := range body {
							put(uint32(v))
						}
					}
					if kind >= 2 && kind < 4 && len(doc) > 1 && r.P(1, 2) {
						doc = doc[:len(doc)-1-r.N(len(doc)-1)]
					}
					c.Count("UTF-16 documents", 1)
					c.Distinct(hashBytes(doc))
					res := Parse(doc, opts(r.P(1, 2), r))
					c.Eval(1)
					if res.Err == nil || res.Panic != nil {
						c.Detail("document", show(doc)).Fail("a document in another encoding (form %d, byte order mark %v) gives: %s", kind, bom, res.Outcome())
					}
				}
				// marks in front of UTF-8
				for k := 0; k < 12; k++ {
					st := randStyle(r, 4)
					st.Bom = false
					body := string(GenStyle(r, st))
					m := r.Pick("\xef\xbb\xbf", "\xef\xbb\xbf", "\xef\xbb\xbf\xef\xbb\xbf", "\xef\xbb", "\xef", "\xef\xbb\xbe", "\xef\xbf\xbf", "\xfe\xff", "\xff\xfe", "\x00", "\x00\x00\xfe\xff", "\xff\xfe\x00\x00", "+/v8-", "\xef\xbb\xbf ", "\xef\xbb\xbf\n", " \xef\xbb\xbf", "\xbb\xbf", "\xfe", "\xff")
					doc := []byte(m + body)
					c.Count("byte order marks", 1)
					c.Distinct(hashBytes(doc))
					if r.P(1, 10) {
						doc = amplify(r, doc)
					}
					o := opts(r.P(1, 2), r)
					judgeDoc(c, doc, o, "mark")
					if r.P(1, 2) {
						judgeWin(c, doc, []byte(hostilePre[r.N(len(hostilePre))]), []byte(hostilePost[r.N(len(hostilePost))]), o, "mark in a window")
					}
					// marks only
					if k == 0 {
						judgeDoc(c, []byte(m), opts(r.P(1, 2), r), "mark only")
					}
				}
			case 3: // valid documents in several palettes keep their characters
				for k := 0; k < 10; k++ {
					st := randStyle(r, 10)
					st.Palette = 1 + r.N(3)
					st.AsciiDecl = false
					doc := GenStyle(r, st)
					if r.P(1, 8) {
						doc = amplify(r, doc)
					}
					c.Distinct(hashBytes(doc))
					judgeDoc(c, doc, opts(r.P(1, 2), r), "generated")
					// the same document declared ASCII
					if r.P(1, 2) {
						st.Decl, st.Bom = 0, false
						x := append([]byte("<?xml version='1.0' encoding='"+randCase(r, r.Pick("ascii", "us-ascii"))+"'?>"), GenStyle(r, st)...)
						c.Count("non-ASCII in ASCII documents", 1)
						if r.P(1, 6) {
							x = amplify(r, x)
						}
						judgeDoc(c, x, opts(r.P(1, 2), r), "declared ASCII")
					}
				}
			}
		},
	})
}
