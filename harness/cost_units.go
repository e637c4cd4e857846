package main

import (
	"bytes"
	"strings"
)

// ---- documents that repeat a unit put together by chance ----

var costPieces = []string{
	"<e/>", "<e></e>", "<e>t</e>", "<e> </e>", "<e a=''/>", "<e a='v'>t</e>", "<e a=\"&lt;\" b='w'/>", "<p:e/>", "<p:e>t</p:e>", "<e p:x=''/>", "<e p:x='1' q:x='2'/>", "<p:e q:x=''>t</p:e>", "<e a='' p:a='' q:a=''></e>",
	"<e xmlns='u'/>", "<e xmlns:z='z'/>", "<z:e xmlns:z='z'/>", "<z:e xmlns:z='z' z:x=''></z:e>", "<e xmlns:p='z'><p:f p:x=''/></e>", "<e xml:lang='x'/>", "<e xml:a='' b='' p:a=''/>", "<é ü='ö'>ß</é>", "<中:e xmlns:中='文'/>",
	"t", "\n", " \n\t", "text with spaces\n", "é", "😀", "]", "]]", "x]]x>", "&lt;", "&amp;&gt;", "&#65;", "&#x1F600;", "&apos;&quot;", "\r\n", "t&lt;t\n",
	"<!--c-->", "<!---->", "<!--c-c\n-->", "<?p?>", "<?p q?>", "<?p ?q?>", "<?p-q\n?>", "<?xm?>", "<?xmlp q?>", "<![CDATA[]]>", "<![CDATA[c]]>", "<![CDATA[]c]]]>", "<![CDATA[<&\n]]>",
	"<e\n/>", "<e >t</e >", "<e a = 'b' />", "<e\ta='b'\n\tc='d'></e\n>", "<e><f/></e>", "<e><f><g/></f><f/></e>", "<e><f><g><h>t</h></g></f></e>", "<p:e><q:f><p:g/></q:f></p:e>", "<e>t<f/>u</e>", "<e><f/>\n</e>",
	"<e a='' b='' c='' d='' e='' f='' g='' h='' i=''/>", "<longer-name.of_1 an-attribute.of_1='value'/>", "<e a='long value with & quot'/>"[:13] + "'/>", "<e a='>'/>", "<e a='\"'/>", "<e a='\n'/>",
}

// what stands at the end of refused documents
var costEnds = []string{"<", "&", "&#0;", "]]>", "<e", "<e a", "<e a='", "<!--", "<!-- -- -->", "<?p", "<?xml?>", "<![CDATA[", "</x>", "<e a='' a=''/>", "<e a='<'/>", "\x00", "\xff", "<e/ >", "<x></y>", "<!x>", "<1/>", "&nbsp;", "<?p \x00?>", "<!--\x00-->", "<e a='&'/>"}

// costUnit is a run of content of at most some hundred bytes; ns tells that p and q have to be declared
func costUnit(r *Rng) (unit string, ns bool) {
	for {
		switch r.N(5) {
		case 0: // the root of a generated document
			d, _ := GenDoc(r, r.In(1, 8))
			a := rootStart(d)
			if a < 0 {
				continue
			}
			e := rootStop(d, a)
			if e <= a || e-a > 600 {
				continue
			}
			unit = string(d[a:e])
		case 1:
			it := gridItems[r.N(len(gridItems))]
			s := strings.ReplaceAll(it.doc, "@", strings.Repeat(it.unit, r.In(0, 20)))
			at := strings.LastIndex(s, "!")
			unit = s[:at] + s[at+1:]
		default:
			var b strings.Builder
			for i := []int{1, 1, 2, 3, 5}[r.N(5)]; i > 0; i-- {
				b.WriteString(costPieces[r.N(len(costPieces))])
			}
			unit = b.String()
		}
		if r.P(1, 3) {
			unit += "\n"
		}
		doc := []byte("<r xmlns:p='u' xmlns:q='v'>" + unit + unit + "</r>")
		if ref := RefParse(doc, false); ref.V != Accept || ref.Soft {
			continue
		}
		ref := RefParse(doc, true)
		return unit, ref.V == Accept && !ref.Soft
	}
}

// costFamily repeats a unit at a chosen depth
func costFamily(r *Rng) (f family, ns bool) {
	unit, ns := costUnit(r)
	depth := []int{1, 1, 2, 3, 4, 5, 6, 7, r.In(8, 100), r.In(1, 240)}[r.N(10)]
	head := r.Pick("", "", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version='1.0'?>\n", "<!--c-->\n", "<!DOCTYPE r>")
	at := r.Pick("", "", " a='b'", " xmlns='w'", " xmlns:w='w'")
	open, end := "<r xmlns:p='u' xmlns:q='v'>", "</r>"
	for i := 1; i < depth; i++ {
		open += "<w" + at + ">"
		end = "</w>" + end
	}
	if ns && r.P(1, 4) || strings.Contains(unit, ":") && r.P(1, 6) {
		ns = false
		open = strings.Replace(open, " xmlns:p='u' xmlns:q='v'", "", 1)
	}
	if r.P(1, 8) { // the level above is repeated
		k := strings.LastIndex(open, "<")
		in := strings.Repeat(unit, r.In(1, 4))
		if n := open[k+1:]; depth > 1 {
			unit = "<" + n + in + "</w>"
			open, end = open[:k], end[4:]
		}
	}
	f.name = "repeated " + unit
	if r.P(1, 6) {
		f.bad = true
		end = costEnds[r.N(len(costEnds))] + r.Pick("", end, "<e/>"+end)
	} else if r.P(1, 5) {
		end += r.Pick("\n", "<!--c-->", "<?p?>\n")
	}
	head += open
	f.make = func(n int) []byte { return fill(head, unit, end, n) }
	d := f.make(2*len(unit) + len(head) + len(end))
	ref := RefParse(d, ns)
	if ref.Soft || (ref.V == Accept) == f.bad || ref.V == Hard || bytes.Contains(d, []byte("\x00")) && !f.bad {
		return costFamily(r)
	}
	return f, ns
}
