package main

import (
	"fmt"
	"strings"
)

// Pairs of places that belong together (two attributes of one name, a declaration and its use, a
// binding and one that hides it) with a chosen number of other things in front, between and behind.

var pairDists = func() (l []int) {
	for i := 0; i <= 40; i++ {
		l = append(l, i)
	}
	return append(l, 47, 48, 49, 50, 62, 63, 64, 65, 66, 80, 95, 96, 99, 100, 101, 126, 127, 128, 129, 130, 150, 199, 200, 201, 245)
}()

// @ is where the others go; the first piece stands in front of the element's other attributes
var attrPairs = [][2]string{
	{" n=''", " n=''"}, {" n=''", " m=''"}, {" p:n=''", " p:n=''"}, {" p:n=''", " s:n=''"}, {" p:n=''", " q:n=''"}, {" n=''", " p:n=''"},
	{" xmlns:z='z'", " z:n=''"}, {" z:n=''", " xmlns:z='z'"}, {" xmlns:z='z'", " y:n=''"}, {" y:n=''", " q:n=''"},
	{" xmlns:z='z'", " xmlns:z='y'"}, {" xmlns='z'", " xmlns='z'"}, {" xmlns='z'", " xmlns:z='z'"},
	{" xmlns:z='u'", " p:n='' z:n=''"}, {" z:n='' p:n=''", " xmlns:z='u'"}, {" z:n='' p:n=''", " xmlns:z='v'"},
	{" xmlns:z=''", ""}, {"", " xmlns:z=''"}, {"", " xmlns:xml='v'"}, {"", " n"}, {"", " n='<'"}, {"", " n=\"&#0;\""}, {"", "n=''"}, {" xml:n=''", " xml:n=''"}, {" xml:n=''", " p:n=''"},
}

var pairFills = []func(i int) string{
	func(i int) string { return fmt.Sprintf(" f%d=''", i) },
	func(i int) string { return fmt.Sprintf(" p:f%d=''", i) },
	func(i int) string { return fmt.Sprintf(" xmlns:f%d='w%d'", i, i) },
	func(i int) string {
		return fmt.Sprintf([]string{" f%d=''", " q:f%d=''", " xmlns:f%d='u'", " p:f%d=''", " s:f%d=''"}[i%5], i)
	},
}

// elements: @ stands for things between
var elemPairs = []string{
	"<b xmlns:z='z'/>@<z:c/>", "<b xmlns:z='z'/>@<c z:n=''/>", "<b xmlns:z='z'></b>@<c/>", "<b xmlns:z='z'>@<z:c z:n=''/></b>", "<b xmlns:z='z'>@</b><z:c/>", "<b xmlns:p='v'>@</b><c p:n='' q:n=''/>",
	"<b xmlns:p='v'>@</b><c p:n='' s:n=''/>", "<b xmlns:p='v'>@<c p:n='' q:n=''/></b>", "<b xmlns:p='v'>@<c p:n='' s:n=''/></b>", "<b xmlns:p='v'/>@<c p:n='' s:n=''/>", "<b xmlns:p='v'/>@<c p:n='' q:n=''/>",
	"<p:b>@</p:b>", "<p:b>@</q:b>", "<b>@</c>", "<b n=''>@<b n=''/></b>", "<b>@</b>&#0;", "<b>@</b>]]>", "@<b xmlns:z=''/>", "@<z:b/>",
}

var elemFills = []func(i int) string{
	func(i int) string { return "<f/>" },
	func(i int) string { return fmt.Sprintf("<f xmlns:f%d='w'/>", i) },
	func(i int) string { return fmt.Sprintf("<f xmlns:p='w%d' p:n=''/>", i) },
	func(i int) string { return fmt.Sprintf("<f xmlns:z='w%d' z:n=''></f>", i) },
	func(i int) string {
		return []string{"<p:f/>", "t<q:f>t</q:f>", "<!--c-->", "<f n='' p:n=''/>", "<?p?>"}[i%5]
	},
}

// elements that stay open between
var nestFills = []func(i int) string{
	func(i int) string { return "<f>" },
	func(i int) string { return fmt.Sprintf("<f xmlns:f%d='w'>", i) },
	func(i int) string { return fmt.Sprintf("<f xmlns:g='w%d'>", i) },
	func(i int) string { return "<p:f q:n=''>" },
}

const pairRoot = "<r xmlns:p='u' xmlns:q='v' xmlns:s='u'>"

func pairDocs() int {
	return len(pairDists) * (len(attrPairs)*len(pairFills) + len(elemPairs)*len(elemFills) + len(elemPairs)*len(nestFills))
}

// pairDoc is document number i of these
func pairDoc(r *Rng, i int) []byte {
	n := pairDists[i%len(pairDists)]
	i /= len(pairDists)
	if v := dictLen(r, 1500, 5); v > 0 {
		n = v + r.In(-2, 1)
	}
	front, behind := 0, 0
	if r.P(1, 3) {
		front = someLen(r, 150)
	}
	if r.P(1, 3) {
		behind = someLen(r, 40)
	}
	many := func(f func(i int) string, from, n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f(from + i))
		}
		return b.String()
	}
	if k := len(attrPairs) * len(pairFills); i < k {
		p, f := attrPairs[i/len(pairFills)], pairFills[i%len(pairFills)]
		root := "<r xmlns:p='u' xmlns:q='v' xmlns:s='u'>"
		e := many(f, 0, front) + p[0] + many(f, front, n) + p[1] + many(f, front+n, behind)
		if r.P(1, 3) {
			return []byte(root[:len(root)-1] + e + "></r>")
		}
		return []byte(root + r.Pick("", "<b/>", "<b xmlns:z='z'/>", "<b xmlns:p='v' p:n=''/>") + "<" + r.Pick("e", "e", "p:e") + e + "/></r>")
	} else {
		i -= k
	}
	if k := len(elemPairs) * len(elemFills); i < k {
		p, f := elemPairs[i/len(elemFills)], elemFills[i%len(elemFills)]
		return []byte(pairRoot + many(f, 0, front) + strings.Replace(p, "@", many(f, front, n), 1) + many(f, 0, behind) + "</r>")
	} else {
		i -= k
	}
	p, f := elemPairs[i/len(nestFills)%len(elemPairs)], nestFills[i%len(nestFills)]
	n = min(n, 245)
	front = min(front, 250-n)
	at := strings.Index(p, "@")
	var mid string
	if strings.Contains(p, "<b xmlns:z='z'>@<") || strings.Contains(p, "<b xmlns:p='v'>@<c") { // the use inside
		end := strings.LastIndex(p, "</b>")
		mid = p[:at] + many(f, 0, n) + p[at+1:end] + closeAll(many(f, 0, n)) + p[end:]
	} else {
		mid = strings.Replace(p, "@", many(f, 0, n)+closeAll(many(f, 0, n)), 1)
	}
	return []byte(pairRoot + many(f, n, front) + mid + closeAll(many(f, n, front)) + "</r>")
}

// closeAll are the end tags of a run of start tags
func closeAll(s string) string {
	var l []string
	for _, t := range strings.Split(s, "<")[1:] {
		l = append(l, "</"+t[:strings.IndexAny(t, " >")]+">")
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return strings.Join(l, "")
}
