package main

import (
	"bytes"
	"fmt"
	"strings"
)

// ---- amplification: something of a document becomes deep, long or numerous ----
//
// The edits know nothing of what the document means, so they work on broken documents as well:
// a rule that is broken in a small document stays broken, deep inside or far behind, in most of
// them. The reference reader judges the outcome.

func ampLen(r *Rng) int {
	if r.huge {
		n := 1 << r.In(15, 20)
		if r.P(1, 2) {
			return r.In(n, 2*n)
		}
		return n + r.In(-2, 2)
	}
	return someLen(r, []int{20, 70, 70, 300, 300, 1100, 1100, 5000, 5000, 20000}[r.N(10)])
}

// rootStart skips what stands in front of the first element, as far as it can be told
func rootStart(d []byte) int {
	for i := 0; i < len(d); {
		k := bytes.IndexByte(d[i:], '<')
		if k < 0 {
			return -1
		}
		i += k
		t := d[i:]
		end := ""
		switch {
		case bytes.HasPrefix(t, []byte("<?")):
			end = "?>"
		case bytes.HasPrefix(t, []byte("<!--")):
			end = "-->"
		case bytes.HasPrefix(t, []byte("<!")):
			depth := 0
			j := 0
			for ; j < len(t); j++ {
				if t[j] == '[' {
					depth++
				} else if t[j] == ']' {
					depth--
				} else if t[j] == '>' && depth <= 0 {
					break
				}
			}
			if j == len(t) {
				return -1
			}
			i += j + 1
			continue
		default:
			return i
		}
		e := bytes.Index(t, []byte(end))
		if e < 0 {
			return -1
		}
		i += e + len(end)
	}
	return -1
}

// rootStop is the place behind the last tag
func rootStop(d []byte, from int) int {
	e := bytes.LastIndexByte(d, '>')
	for e > from {
		t := d[:e+1]
		if bytes.HasSuffix(t, []byte("-->")) {
			if k := bytes.LastIndex(t, []byte("<!--")); k > from {
				e = bytes.LastIndexByte(d[:k], '>')
				continue
			}
		}
		if bytes.HasSuffix(t, []byte("?>")) {
			if k := bytes.LastIndex(t, []byte("<?")); k > from {
				e = bytes.LastIndexByte(d[:k], '>')
				continue
			}
		}
		return e + 1
	}
	return -1
}

func ampNest(r *Rng, d []byte) []byte {
	a := rootStart(d)
	if a < 0 {
		return nil
	}
	e := rootStop(d, a)
	if e < 0 {
		e = len(d)
	}
	k := []int{r.In(1, 6), r.In(1, 20), r.In(10, 70), r.In(60, 140), r.In(120, 254), someLen(r, 254)}[r.N(6)]
	w := r.Pick("w", "w", "p:w", rep("w", someLen(r, 200)))
	if strings.HasPrefix(w, "p:") {
		w = w[2:]
	}
	vary := r.P(1, 3)
	sib := r.Pick("", "", "", "<s/>", "x", "\n", "<s><t/></s>", "<!--c-->", "<s a='b'>x</s>")
	attr := r.Pick("", "", " a='b'", " xmlns='v'", " a='' b='c'", " xmlns:v='w'")
	var b bytes.Buffer
	b.Write(d[:a])
	name := func(i int) string {
		if vary {
			return fmt.Sprintf("%s%d", w, i)
		}
		return w
	}
	for i := 0; i < k; i++ {
		b.WriteString("<" + name(i) + attr + ">")
		if i%7 == 0 || k < 12 {
			b.WriteString(sib)
		}
	}
	b.Write(d[a:e])
	if r.P(1, 15) { // not closed, or not far enough
		k = r.N(k)
	}
	after := r.Pick("", "", sib)
	for i := k - 1; i >= 0; i-- {
		if i%5 == 0 {
			b.WriteString(after)
		}
		b.WriteString("</" + name(i) + ">")
	}
	b.Write(d[e:])
	return b.Bytes()
}

var ampKeep = map[string]bool{"xml": true, "version": true, "encoding": true, "standalone": true, "CDATA": true, "DOCTYPE": true, "amp": true, "lt": true, "gt": true, "apos": true, "quot": true, "xmlns": true, "yes": true, "no": true, "x": true}

func ampIsWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c >= 0x80
}

// ampWord makes a name (or some other word) longer, everywhere or at one place
func ampWord(r *Rng, d []byte) []byte {
	for try := 0; try < 12; try++ {
		i := r.N(len(d))
		if try < 6 { // behind a delimiter
			k := bytes.IndexAny(d[i:], "</:' \"")
			if k < 0 {
				continue
			}
			i += k + 1
		}
		if i >= len(d) || !ampIsWord(d[i]) {
			continue
		}
		a, e := i, i
		for a > 0 && ampIsWord(d[a-1]) {
			a--
		}
		for e < len(d) && ampIsWord(d[e]) {
			e++
		}
		w := string(d[a:e])
		if ampKeep[w] || e-a > 300 || a > 0 && (d[a-1] == '#' || d[a-1] == '&') {
			continue
		}
		n := ampLen(r)
		if n > 2047 {
			n = r.In(1, 2047)
		}
		unit := r.Pick("a", "a", "b1", "é", "x.", "-")
		add := rep(unit, n)
		front := r.P(1, 4) && unit == "a"
		if r.P(1, 12) {
			if front {
				return splice(d, a, a, add)
			}
			return splice(d, e, e, add)
		}
		var b bytes.Buffer
		for j := 0; j < len(d); {
			if !ampIsWord(d[j]) {
				b.WriteByte(d[j])
				j++
				continue
			}
			q := j
			for q < len(d) && ampIsWord(d[q]) {
				q++
			}
			x := string(d[j:q])
			switch {
			case x != w:
				b.WriteString(x)
			case front:
				b.WriteString(add + x)
			default:
				b.WriteString(x + add)
			}
			j = q
		}
		if b.Len() < 400000 {
			return b.Bytes()
		}
	}
	return nil
}

func ampSpace(r *Rng, d []byte) []byte {
	for try := 0; try < 20; try++ {
		i := r.N(len(d))
		if k := bytes.IndexAny(d[i:], " \n\t\r"); k >= 0 && try < 15 {
			i += k
		}
		if refSpace(int(d[i])) {
			w := string(d[i : i+1])
			if r.P(1, 2) {
				w = r.Pick(" ", "\n", "\t", "\r\n", "\r", " \n")
			}
			return splice(d, i, i, strings.Repeat(w, ampLen(r)))
		}
	}
	return nil
}

// ampRun repeats what stands somewhere
func ampRun(r *Rng, d []byte) []byte {
	i := r.N(len(d))
	e := i + 1
	for e < len(d) && d[e]&0xc0 == 0x80 {
		e++
	}
	if r.P(1, 3) {
		e = min(e+r.N(4), len(d))
	}
	n := ampLen(r)
	if r.huge {
		n /= e - i
	} else if r.P(1, 3) {
		n = r.In(1, 8)
	}
	return splice(d, i, i, rep(string(d[i:e]), n*(e-i)))
}

// ampFill puts characters in front of a place inside a token: behind an opening delimiter, in
// front of a closing one, behind any character
func ampFill(r *Rng, d []byte) []byte {
	fill := rep(r.Pick("a", "é", "中", "😀", "ab\n", " ", "\n", "x-", "x]", "a ", "&amp;", "&#65;", "?x"), ampLen(r))
	i := r.N(len(d) + 1)
	for try := 0; try < 4; try++ {
		p := r.Pick("<!--", "<![CDATA[", "='", "=\"", ">", "-->", "]]>", "?>", "</", "'", "\"", "<", "<?p ", "&", "--", "]]", "?", "<!DOCTYPE ")
		k := bytes.Index(d[r.N(len(d)):], []byte(p))
		if k < 0 {
			if k = bytes.Index(d, []byte(p)); k < 0 {
				continue
			}
		} else {
			k = bytes.LastIndex(d, []byte(p))
			if r.P(1, 2) {
				k = bytes.Index(d, []byte(p))
			}
		}
		i = k
		if r.P(2, 3) && p != "]]>" && p != "-->" && p != "?>" {
			i += len(p)
		}
		break
	}
	return splice(d, i, i, fill)
}

func ampProlog(r *Rng, d []byte) []byte {
	at := 0
	if bytes.HasPrefix(d, []byte("\xef\xbb\xbf")) {
		at = 3
	}
	if bytes.HasPrefix(d[at:], []byte("<?xml ")) {
		if k := bytes.Index(d, []byte("?>")); k > 0 {
			at = k + 2
		}
	}
	n := ampLen(r)
	s := ""
	switch r.N(4) {
	case 0:
		s = rep(r.Pick(" ", "\n", "\r\n", "\t\n"), n)
	case 1:
		s = "<!--" + rep(r.Pick("a", "é", "\n", "中"), n) + "-->"
	case 2:
		s = "<?p " + rep(r.Pick("a", "é", "\n", "?x"), n) + "?>"
	case 3:
		s = strings.Repeat(r.Pick("<!---->", "<?p?>", "<?p q?>\n", "<!--x-->"), min(n, 2000))
	}
	return splice(d, at, at, s)
}

// ampAttrs gives a start tag more attributes or declarations
func ampAttrs(r *Rng, d []byte) []byte {
	i := r.N(len(d))
	k := bytes.IndexByte(d[i:], '<')
	if k < 0 || i+k+1 >= len(d) || !ampIsWord(d[i+k+1]) {
		i = 0
		if k = rootStart(d); k < 0 || k+1 >= len(d) || !ampIsWord(d[k+1]) {
			return nil
		}
	}
	e := i + k + 1
	for e < len(d) && (ampIsWord(d[e]) || d[e] == ':' || d[e] == '-') {
		e++
	}
	if r.P(1, 3) { // behind the others, if it looks like that
		if q := bytes.IndexByte(d[e:], '>'); q > 0 {
			if d[e+q-1] == '/' {
				q--
			}
			e += q
		}
	}
	n := someLen(r, []int{8, 20, 70, 300}[r.N(4)])
	var b strings.Builder
	f := r.Pick(" zz%d='v'", " xmlns:zz%d='u%[1]d'", " zz%d=''", " xmlns:zz%d='u%[1]d' zz%[1]d:a='v'", " zzzzzzzzzz%d=\"&lt;\"")
	for j := 0; j < n; j++ {
		fmt.Fprintf(&b, f, j)
	}
	return splice(d, e, e, b.String())
}

// ampSiblings puts elements and other things behind a tag
func ampSiblings(r *Rng, d []byte) []byte {
	i := r.N(len(d))
	k := bytes.IndexByte(d[i:], '>')
	if k < 0 {
		return nil
	}
	n := someLen(r, []int{8, 70, 300, 1100, 5000}[r.N(5)])
	if r.huge {
		n = ampLen(r) / 10
	}
	return splice(d, i+k+1, i+k+1, strings.Repeat(r.Pick("<s/>", "<s></s>", "<s><t/></s>", "<s a='b'/>", "<!--c-->", "t<s/>", "<?p?>", "<?p d?>", "<s>x</s>", "<![CDATA[x]]>"), n))
}

// ampRef lengthens a character reference with zeros
func ampRef(r *Rng, d []byte) []byte {
	k := bytes.LastIndex(d[:r.N(len(d)+1)], []byte("&#"))
	if k < 0 {
		if k = bytes.Index(d, []byte("&#")); k < 0 {
			return nil
		}
	}
	k += 2
	if k < len(d) && d[k] == 'x' {
		k++
	}
	return splice(d, k, k, strings.Repeat("0", ampLen(r)))
}

var ampOps = []func(r *Rng, d []byte) []byte{ampNest, ampNest, ampNest, ampWord, ampWord, ampSpace, ampRun, ampFill, ampFill, ampProlog, ampAttrs, ampSiblings, ampRef}

func amplify(r *Rng, d []byte) []byte {
	if len(d) == 0 || len(d) > 100000 {
		return d
	}
	if r.P(1, 60) { // as small as it is, with one long part
		r.huge = true
		for i := 0; i < 8; i++ {
			if x := ampHuge[r.N(len(ampHuge))](r, d); len(x) > 1<<15 {
				d = x
				break
			}
		}
		r.huge = false
		return d
	}
	for n, i := r.In(1, 2), 0; i < 8 && n > 0; i++ {
		if x := ampOps[r.N(len(ampOps))](r, d); len(x) > 0 {
			d = x
			n--
		}
	}
	return d
}

var ampHuge = []func(r *Rng, d []byte) []byte{ampSpace, ampRun, ampFill, ampFill, ampFill, ampProlog, ampRef, ampSiblings}
