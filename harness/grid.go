package main

import (
	"fmt"
	"strings"
)

// One item of a chosen size at a chosen depth, well-formed or broken at its end. In the items, @ is
// the repeated part, ! the place where a broken one is broken.

type gridItem struct {
	doc  string // R is repeated n times in place of @
	unit string
	max  int
	bad  []string
}

var gridItems = []gridItem{
	{"<e>@!</e>", " ", 5000, []string{"&", "]]>", "\x00", "&#0;"}},
	{"<e>@!</e>", "\n", 5000, []string{"&", "]]>"}},
	{"<e>@!</e>", "\r\n", 2000, []string{"<", "&x;"}},
	{"<e>@!</e>", "t", 5000, []string{"&", "]]>", "\xff", "&#xFFFE;", "\ufffe"}},
	{"<e>@!</e>", "é", 3000, []string{"\xc3", "]]>"}},
	{"<e>@!</e>", "]", 3000, []string{"]]>", ">]]>"}},
	{"<e>@!</e>", "&lt;", 1000, []string{"&lt", "&LT;"}},
	{"<e>@!</e>", "&#65;", 1000, []string{"&#65", "&#x;"}},
	{"<e>x@!</e>", "\n", 3000, []string{"]]>", "&"}},
	{"<e/>@!", " ", 3000, []string{"]]>", "&", "\x00"}},
	{"<e></e>@!", " ", 3000, []string{"]]>", "&;"}},
	{"<e></e>@!<f/>", "t", 3000, []string{"]]>", "&;"}},
	{"<e/>@!<f/>", "]", 2000, []string{"]]>"}},
	{"<!--c-->@!", " ", 2000, []string{"]]>", "&"}},
	{"<!--c-->@!", "]", 2000, []string{"]]>", "&"}},
	{"<?p?>@!", " ", 2000, []string{"]]>", "&"}},
	{"<?p q?>@!", "t]", 2000, []string{"]]>", "&"}},
	{"<![CDATA[c]]>@!", " ", 2000, []string{"]]>", "&"}},
	{"<![CDATA[c]]>@!", "&amp;", 1000, []string{"]]>", "&"}},
	{"<![CDATA[@!]]>", "c", 5000, []string{"\x00", "\xff"}},
	{"<![CDATA[@!]]>", "]", 5000, []string{"]]>]]>"}},
	{"<![CDATA[@!]]>", "]>", 2000, []string{"\x00", "]]>&"}},
	{"<!--@!-->", "c", 5000, []string{"-", "--", "\x00", "-->-->&"}},
	{"<!--@!-->", "-c", 3000, []string{"-", "--"}},
	{"<!--@!-->", "\n", 3000, []string{"-", "--x"}},
	{"<?p @!?>", "d", 5000, []string{"\x00", "\xff"}},
	{"<?p @!?>", "?", 3000, []string{"\x00"}},
	{"<?p@!?>", " ", 3000, []string{"\x00"}},
	{"<?p@!?>", "p", 5000, []string{"?", "\x00", "<"}},
	{"<e@!/>", "e", 2046, []string{"<", "\x00", "&", "/"}},
	{"<e@!></e@>", "e", 2046, []string{"<", "'", "&"}},
	{"<e@></e@!>", "é", 1000, []string{"e", "<", "é", ":"}},
	{"<e@ a=''></e@!>", "ab", 1000, []string{"b", "/", "\x00"}},
	{"<e@/><e@!>x</e@>", "-", 2000, []string{"!", "x"}},
	{"<e @!/>", " ", 3000, []string{"a", "=", "a=b"}},
	{"<e @!></e>", "\n", 3000, []string{"a", "/", "<"}},
	{"<e a@!=''/>", "a", 2046, []string{"<", "&", " b", "\x00"}},
	{"<e a@='' a@!=''/>", "a", 2000, []string{""}},
	{"<e a@='' b='' a@b!=''/>", "a", 2000, []string{" ", "="}},
	{"<e a='@!'/>", "v", 5000, []string{"<", "&", "'", "\x00"}},
	{"<e a=\"@!\" b=''/>", " ", 3000, []string{"<", "\"", "&#0;"}},
	{"<e a='@!'></e>", "&quot;", 800, []string{"&quot", "&;"}},
	{"<e a@!=''/>", " ", 3000, []string{"a", "'"}},
	{"<e a=@!''/>", "\n", 3000, []string{"a", "<"}},
	{"<e a=''@!/>", " ", 3000, []string{"a", "<", "/"}},
	{"<e a=''@! b=''/>", "\n", 3000, []string{"a", "a=''"}},
	{"<e></e@!>", " ", 3000, []string{"e", "/"}},
	{"<e a=''/@!>", "", 1, []string{" ", "/"}},
	{"<e xmlns:p@!='u'/>", "p", 2030, []string{"<", "&"}},
	{"<e xmlns:p@='u' p@!:a=''/>", "p", 500, []string{"p", "<"}},
	{"<p@:e xmlns:p@!='u'/>", "p", 500, []string{"p", "q"}},
	{"<e xmlns:p@='u'><p@!:e/></e>", "p", 500, []string{"p", "q"}},
	{"<e xmlns:p='u@!'/>", "u", 3000, []string{"<", "&"}},
	{"<e xmlns:p='u@' xmlns:q='u@!' p:a='' q:b=''/>", "u", 2000, []string{"<"}},
	{"<e xmlns:p='u@' xmlns:q='u@x!' p:a='' q:a=''/>", "u", 2000, []string{"<"}},
	{"<e xmlns:p='u@x' xmlns:q='u@!' p:a='' q:a=''/>", "/", 2000, []string{"x"}},
	{"<e xmlns:p='@x' xmlns:q='@&#120;!' p:a='' q:b=''/>", "u", 2000, []string{"' q:a='"}},
	{"<e>@!</e>", "<e>x</e>", 300, []string{"</e>", "<e>"}},
	{"<e>@!</e>", "<e/>", 1500, []string{"</e>", "<p:e/>"}},
	{"<e>@!</e>", "<!---->", 600, []string{"<!-->", "<!--->"}},
	{"<e>@!</e>", "<?p?>", 600, []string{"<?>", "<?p"}},
	{"<e>@!</e>", "<![CDATA[]]>", 500, []string{"<![CDATA[]>", "]]>"}},
	{"<e>@!</e>", "\t<e a=''/>", 500, []string{"<e a=''a=''/>", "<e a/>"}},
}

// depths of the item; the rest are random
var gridDepths = []int{0, 1, 2, 3, 4, 5, 6, 7, 15, 31, 32, 63, 64, 100, 126, 127, 128, 129, 150, 199, 200, 220, 252}

func gridDocs() int {
	n := 0
	for _, it := range gridItems {
		n += 1 + len(it.bad)
	}
	return n * len(gridDepths) * 2
}

// gridDoc is document number i of these
func gridDoc(r *Rng, i int) []byte {
	depth := gridDepths[i%len(gridDepths)]
	i /= len(gridDepths)
	deep := i%2 == 0
	i /= 2
	var it gridItem
	bad := ""
	for _, it = range gridItems {
		if i <= len(it.bad) {
			if i > 0 {
				bad = it.bad[i-1]
			}
			break
		}
		i -= 1 + len(it.bad)
	}
	n := someLen(r, it.max)
	if !deep || r.P(1, 3) { // most are small
		n = r.In(0, min(it.max, 140))
	}
	if v := dictLen(r, it.max, 4); v > 0 {
		n = v
	}
	if r.P(1, 4) {
		depth = r.N(253)
	}
	item := strings.ReplaceAll(it.doc, "@", strings.Repeat(it.unit, n))
	if at := strings.LastIndex(item, "!"); at >= 0 { // the ! of <! is never the last
		item = item[:at] + bad + item[at+1:]
	}
	w := r.Pick("w", "w", "w", "wide", "é")
	at := r.Pick("", "", "", " z='y'", " xmlns:z='y'", " z=''\n", " xmlns='y'")
	fill := r.Pick("", "", "", "t", "<s/>", "\n", "<s>t</s>", "<!--c-->", "<?q?>")
	var b strings.Builder
	b.WriteString(r.Pick("", "", "<?xml version='1.0'?>", "<!--c-->\n", "<!DOCTYPE w>"))
	vary := r.P(1, 4)
	name := func(d int) string {
		if vary {
			return fmt.Sprintf("%s%d", w, d)
		}
		return w
	}
	for d := 0; d <= depth; d++ {
		b.WriteString("<" + name(d) + at + ">")
		if d%5 == 3 {
			b.WriteString(fill)
		}
	}
	b.WriteString(r.Pick("", "", fill) + item + r.Pick("", "", fill))
	for d := depth; d >= 0; d-- {
		b.WriteString("</" + name(d) + ">")
		if d%5 == 2 {
			b.WriteString(fill)
		}
	}
	b.WriteString(r.Pick("", "", "\n", "<!--c-->"))
	return []byte(b.String())
}

// ---- the two reserved namespace URIs, spelled with references ----

var reservedUris = []string{"http://www.w3.org/XML/1998/namespace", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/2000/xmlns", "http://www.w3.org/XML/1998/namespace/", "http://www.w3.org/XML/1998/Namespace", "http://www.w3.org/1999/xhtml", "HTTP://www.w3.org/2000/xmlns/"}

var reservedUses = []string{"<a xmlns:p='@'/>", "<a xmlns='@'/>", "<a xmlns:xml='@'/>", "<p:a xmlns:p='@' p:b=''/>", "<a xmlns:p='@' xmlns:q='%' p:b='' q:b=''/>", "<a xmlns:xml=\"@\" xml:b=''/>", "<a b='@'/>", "<a xmlns:p='%' xmlns:q='@' p:b='' q:b=''/>"}

const reservedForms = 7

func reservedDocs() int {
	n := 0
	for _, u := range reservedUris {
		n += (len(u) + 2) * reservedForms
	}
	return n * len(reservedUses)
}

// reservedDoc is document number i of these
func reservedDoc(r *Rng, i int) []byte {
	use := reservedUses[i%len(reservedUses)]
	i /= len(reservedUses)
	form := i % reservedForms
	i /= reservedForms
	var u string
	for _, u = range reservedUris {
		if i < len(u)+2 {
			break
		}
		i -= len(u) + 2
	}
	s := u
	if i >= len(u) { // no reference, or all of them
		if i > len(u) {
			s = ""
			for k := 0; k < len(u); k++ {
				if form == 0 || r.P(1, 1+form) {
					s += charRef(r, u[k], form)
				} else {
					s += u[k : k+1]
				}
			}
		} else if form > 0 { // without one character, or one too many
			k := r.N(len(u))
			s = u[:k] + u[k+form%2:]
			if form > 2 {
				s = u[:k] + r.Pick("x", "/", u[k:k+1], "&amp;", " ") + u[k:]
			}
		}
	} else {
		s = u[:i] + charRef(r, u[i], form) + u[i+1:]
		if form == 5 { // another one as well
			k := r.N(i + 1)
			if k < i {
				s = u[:k] + charRef(r, u[k], r.N(4)) + u[k+1:i] + charRef(r, u[i], 0) + u[i+1:]
			}
		}
	}
	doc := strings.Replace(strings.Replace(use, "@", s, 1), "%", u, 1)
	if r.P(1, 3) {
		doc = "<w>" + doc + "</w>"
	}
	return []byte(doc)
}

func charRef(r *Rng, ch byte, form int) string {
	switch form {
	case 0:
		return fmt.Sprintf("&#%d;", ch)
	case 1:
		return fmt.Sprintf("&#x%x;", ch)
	case 2:
		return fmt.Sprintf("&#x%X;", ch)
	case 3:
		return fmt.Sprintf("&#%0*d;", r.In(3, 9), ch)
	case 4:
		return fmt.Sprintf("&#x%0*x;", r.In(2, 9), ch)
	case 5:
		return fmt.Sprintf("&#%d;", ch)
	}
	return fmt.Sprintf("&#%d;", ch+1) // another character
}
