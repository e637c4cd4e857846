package main

import (
	"bytes"
	"strings"
)

// Mutators: small edits of well-formed documents. What an edit means is decided by the
// reference reader afterwards; most edits break a rule, some do not.

func splice(d []byte, a, b int, s string) []byte {
	o := make([]byte, 0, len(d)+len(s))
	o = append(o, d[:a]...)
	o = append(o, s...)
	return append(o, d[b:]...)
}

var badRefs = []string{"&", "&;", "&#;", "&#x;", "&#xG;", "&#0;", "&#x0;", "&#xD800;", "&#xDFFF;", "&#x110000;", "&#xFFFE;", "&#xFFFF;", "&#99999999999999999999;",
	"&amp", "&amp ;", "&AMP;", "&foo;", "& amp;", "&#X41;", "&#-1;", "&#+1;", "&#x 41;", "&#4294967361;", "&#x100000041;", "&#18446744073709551681;", "&lt", "&gt", "&l;", "&lt>", "&qu;", "&quo;",
	"&ap;", "&apo;", "&amp;&", "&a", "&#", "&#x", "&#6", "&#1a;", "&Lt;", "&lT;", "&ltt;", "&aamp;", "&amps;", "&gtx;", "&quott;", "&apos", "&quot", "&nbsp;", "&#55296;", "&#65535;", "&#1114112;", "&g;", "&q;", "&&amp;", "&#x4 1;", "&#65 ;", "&.;", "&1;"}

var badChars = []string{"\x00", "\xef\xbf\xbe", "\xef\xbf\xbf", "\x00", "\xef\xbf\xbe", "\xef\xbf\xbf", "\x00", "\xef\xbf\xbe", "\xef\xbf\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80",
	"\x80", "\xbf", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xff", "\xfe", "\xc3(", "\xe2\x28\xa1", "\xf8\x88\x80\x80\x80"}

var badNameStart = []string{"1", "-", ".", "·", "×", "÷", "\u0300", "\u203f", "$", "@", "\u037e", "\u2041", "(", "\\", "\"", "=", "#", "\U000f0000", "\u3000", "\u2190", "\u206f", "\ufffe", "%", "+", ","}
var badNameChar = []string{"$", "@", "×", "÷", "\u037e", "(", "\\", "#", "%", "+", ",", "!", "*", "^", "|", "~", "`", "{", "\u2041", "\u203e", "\u2070\u2190", "\U000f0000", "\u3000", "\u0080", "\u00bf", "\u00b8", "\u00b6", "\u2fff", "?", ";", "&", "<"}

type site struct {
	d []byte
	g *Ref
	r *Rng
}

func (s *site) node() *RefNode { return &s.g.Nodes[s.r.N(len(s.g.Nodes))] }
func (s *site) open() *RefNode { // with an end tag
	for i := 0; i < 8; i++ {
		if n := s.node(); !n.Self {
			return n
		}
	}
	return nil
}
func (s *site) attr() (*RefNode, *AttrSite) {
	for i := 0; i < 8; i++ {
		if n := s.node(); len(n.Attrs) > 0 {
			return n, &n.Attrs[s.r.N(len(n.Attrs))]
		}
	}
	return nil, nil
}
func (s *site) tok(types ...int) *RefTok {
	k := s.r.N(len(s.g.Toks))
	for i := range s.g.Toks {
		t := &s.g.Toks[(i+k)%len(s.g.Toks)]
		for _, y := range types {
			if t.Type == y {
				return t
			}
		}
	}
	return nil
}

// content is a position in the content of an element, directly behind a tag
func (s *site) content() int {
	n := s.open()
	if n == nil {
		return -1
	}
	if s.r.P(1, 2) {
		return n.TagEnd
	}
	return n.Close
}
func (s *site) in(t *RefTok) int { return t.Off + s.r.In(0, t.Len) }

type mutator struct {
	name string
	f    func(s *site) []byte
}

func ins(s *site, at int, t string) []byte {
	if at < 0 {
		return nil
	}
	return splice(s.d, at, at, t)
}

var mutators = []mutator{
	{"end tag name", func(s *site) []byte {
		n := s.open()
		if n == nil {
			return nil
		}
		a, b := n.Close+2, n.Close+2+len(n.Name)
		switch s.r.N(10) {
		case 7, 8: // the same characters in another order
			if b-a < 2 {
				break
			}
			i, j := s.r.In(a, b-2), 0
			if j = i + 1; s.r.P(1, 2) {
				j = s.r.In(i+1, b-1)
			}
			d := append([]byte(nil), s.d...)
			d[i], d[j] = d[j], d[i]
			return d
		case 9: // two changes that make up for each other
			if b-a < 2 {
				break
			}
			i := s.r.In(a, b-2)
			j := s.r.In(i+1, b-1)
			d := append([]byte(nil), s.d...)
			switch s.r.N(3) {
			case 0:
				d[i], d[j] = d[i]+1, d[j]-1
			case 1:
				d[i], d[j] = d[i]-1, d[j]+1
			default:
				d[i], d[j] = d[i]^32, d[j]^32
			}
			return d
		case 0:
			return splice(s.d, b, b, s.r.Pick("x", "1", "-", "é", ":"))
		case 1:
			return splice(s.d, b-1, b, "")
		case 2:
			k := s.r.In(a, b-1)
			return splice(s.d, k, k+1, s.r.Pick("z", "Z", "q", "_"))
		case 3:
			return splice(s.d, a, b, strings.ToUpper(n.Name))
		case 4:
			return splice(s.d, a, b, s.node().Name)
		case 5:
			k := s.r.In(a, b)
			return splice(s.d, k, k, s.r.Pick(" ", "x", "\n"))
		}
		return splice(s.d, a, b, "")
	}},
	{"end tag removed", func(s *site) []byte {
		n := s.open()
		if n == nil {
			return nil
		}
		return splice(s.d, n.Close, n.End, "")
	}},
	{"end tag cut", func(s *site) []byte {
		n := s.open()
		if n == nil {
			return nil
		}
		switch s.r.N(4) {
		case 0:
			return splice(s.d, n.End-1, n.End, "")
		case 1:
			return splice(s.d, n.Close, n.Close+1, "")
		case 2:
			return splice(s.d, n.Close+1, n.Close+2, "")
		}
		return splice(s.d, n.Close+2, n.Close+2, s.r.Pick(" ", "\n", "/", "<"))
	}},
	{"end tag with more", func(s *site) []byte {
		n := s.open()
		if n == nil {
			return nil
		}
		return ins(s, n.End-1, s.r.Pick(" a='b'", "/", " x", " /", "<", "?", " >", "\x00", "="))
	}},
	{"end tag again", func(s *site) []byte {
		n := s.open()
		if n == nil {
			return nil
		}
		return ins(s, n.End, "</"+n.Name+">")
	}},
	{"start tag removed", func(s *site) []byte {
		n := s.open()
		if n == nil {
			return nil
		}
		return splice(s.d, n.Open, n.TagEnd, "")
	}},
	{"stray end tag", func(s *site) []byte {
		at := s.content()
		if s.r.P(1, 4) {
			at = s.g.RootEnd
		}
		if s.r.P(1, 6) {
			at = s.g.Nodes[0].Open
		}
		return ins(s, at, s.r.Pick("</a>", "</>", "</ >", "</"+s.node().Name+">", "</x "))
	}},
	{"unclosed element", func(s *site) []byte {
		return ins(s, s.content(), s.r.Pick("<a>", "<a", "<", "<a b='", "<a ", "<a b", "<a b=", "<"+s.node().Name+">"))
	}},
	{"self closing changed", func(s *site) []byte {
		n := s.node()
		if n.Self {
			return splice(s.d, n.TagEnd-2, n.TagEnd, s.r.Pick(">", "/", "/ >", "//>", "/>/>", "?>", "/ />", "\\>", "|>", "/<", "/\n>"))
		}
		return splice(s.d, n.TagEnd-1, n.TagEnd, s.r.Pick("/>", "", "/", "?>", ">>", "<>", "/ >"))
	}},
	{"second root", func(s *site) []byte {
		at := s.g.RootEnd
		if len(s.g.Items) > 0 && s.r.P(1, 2) {
			at = s.g.Items[s.r.N(len(s.g.Items))]
		}
		return ins(s, at, s.r.Pick("<a/>", "<b></b>", "\n<a/>", "<!---->"+"<a/>", "<?p?><x>", string(s.d[s.g.Nodes[0].Open:s.g.RootEnd])))
	}},
	{"outside root", func(s *site) []byte {
		at := s.g.RootEnd
		switch s.r.N(4) {
		case 0:
			at = s.g.Nodes[0].Open
		case 1:
			at = len(s.d)
		case 2:
			if len(s.g.Items) > 0 {
				at = s.g.Items[s.r.N(len(s.g.Items))]
			}
		}
		return ins(s, at, s.r.Pick("x", "&amp;", "<![CDATA[]]>", "<![CDATA[x]]>", "]]>", ">", "\x00", "<", "<!DOCTYPE a>", "<!x>", "-", "\xc2\xa0", "\ufeff", "é", "\x80", "&#32;", "</a>", "<!", "\x01", "]", "/", "?>", "-->"))
	}},
	{"no root", func(s *site) []byte {
		return splice(s.d, s.g.Nodes[0].Open, s.g.RootEnd, s.r.Pick("", " ", "<!--x-->", "<?p?>", "x"))
	}},
	{"name start", func(s *site) []byte {
		n := s.node()
		t := badNameStart[s.r.N(len(badNameStart))]
		if s.r.P(1, 4) {
			t = s.r.Pick(" ", "\n", "\t", "/", "<", "&", "\x00", "\x80", "\r")
		}
		d := ins(s, n.Open+1, t)
		if !n.Self && s.r.P(1, 2) {
			d = splice(d, n.Close+2+len(t), n.Close+2+len(t), t)
		}
		return d
	}},
	{"name char", func(s *site) []byte {
		n := s.node()
		t := badNameChar[s.r.N(len(badNameChar))]
		at := s.r.In(n.Open+2, n.NameEnd)
		d := ins(s, at, t)
		if !n.Self && s.r.P(3, 4) {
			k := n.Close + 2 + (at - n.Open - 1) + len(t)
			d = splice(d, k, k, t)
		}
		return d
	}},
	{"attribute duplicated", func(s *site) []byte {
		n, a := s.attr()
		if n == nil {
			return nil
		}
		at := n.NameEnd
		if s.r.P(1, 2) {
			at = n.Attrs[len(n.Attrs)-1].End + 1
		}
		v := "x"
		if s.r.P(1, 2) {
			v = ""
		}
		return ins(s, at, " "+string(s.d[a.Name:a.NameEnd])+"='"+v+"'")
	}},
	{"attribute quote", func(s *site) []byte {
		_, a := s.attr()
		if a == nil {
			return nil
		}
		switch s.r.N(5) {
		case 0:
			return splice(s.d, a.Quote, a.Quote+1, "")
		case 1:
			return splice(s.d, a.End, a.End+1, "")
		case 2:
			return splice(splice(s.d, a.End, a.End+1, ""), a.Quote, a.Quote+1, "")
		case 3:
			q := "'"
			if s.d[a.Quote] == '\'' {
				q = `"`
			}
			return splice(s.d, a.End, a.End+1, q)
		}
		return splice(s.d, a.Quote, a.Quote+1, s.r.Pick("`", "“", "x", "=", "<", ">", "/"))
	}},
	{"attribute equals", func(s *site) []byte {
		_, a := s.attr()
		if a == nil {
			return nil
		}
		switch s.r.N(3) {
		case 0:
			return splice(s.d, a.Eq, a.Eq+1, s.r.Pick("", " ", "==", ":", ":="))
		case 1:
			return splice(s.d, a.Eq, a.End+1, s.r.Pick("", "=", "= ", "=x"))
		}
		return splice(s.d, a.Name, a.NameEnd, s.r.Pick("", " ", "a b", "1", "a$", "a,b"))
	}},
	{"attribute whitespace", func(s *site) []byte {
		n, a := s.attr()
		if n == nil {
			return nil
		}
		if s.r.P(1, 3) {
			return ins(s, a.End+1, s.r.Pick("x='y'", "x", "\"", "'", "/", "=", "<", "xmlns='u'", "é='1'"))
		}
		k := a.Name
		for k > n.Open && refSpace(int(s.d[k-1])) {
			k--
		}
		return splice(s.d, k, a.Name, s.r.Pick("", "", "/", "\x00", ",", "\xc2\xa0"))
	}},
	{"attribute added", func(s *site) []byte {
		n := s.node()
		return ins(s, n.NameEnd, s.r.Pick(" nn='<'", " nn='a<b'", " nn='&'", " nn", " nn=", " nn=1", " nn='", " nn='x\"", " ='x'", " nn='x'nm='y'", " 'x'", " nn='x' nn='x'", " nn='x' nm='y' nn=\"z\"",
			" nn='\x00'", " nn='&#0;'", " $='x'", " nn:'x'", " nn=''", " nn='>'", " nn=']]>'", " nn='\"'", " nn=\"'\"", " nn='--'", "nn='x'", "\tnn\n=\r'x'", " Nn='' nn='' nN=''", " nn='&amp;&#38;'", " nn='&lt;a>'", "/nn='x'", " / nn='x'"))
	}},
	{"in attribute value", func(s *site) []byte {
		_, a := s.attr()
		if a == nil {
			return nil
		}
		at := s.r.In(a.Quote+1, a.End)
		switch s.r.N(3) {
		case 0:
			return ins(s, at, badRefs[s.r.N(len(badRefs))])
		case 1:
			return ins(s, at, badChars[s.r.N(len(badChars))])
		}
		return ins(s, at, s.r.Pick("<", "<a>", "'", `"`, "<!--", "\x01", ">", "]]>", "</a>", "?>"))
	}},
	{"reference in text", func(s *site) []byte {
		return ins(s, s.content(), s.r.Pick("", "t", " ", "]")+badRefs[s.r.N(len(badRefs))]+s.r.Pick("", "t", " ", ";", "&amp;"))
	}},
	{"in text", func(s *site) []byte {
		t := s.tok(tText)
		at := -1
		if t != nil && t.Len < maxTok && s.r.P(2, 3) {
			at = s.in(t)
		} else {
			at = s.content()
		}
		switch s.r.N(4) {
		case 0:
			return ins(s, at, badRefs[s.r.N(len(badRefs))])
		case 1:
			return ins(s, at, badChars[s.r.N(len(badChars))])
		case 2:
			return ins(s, at, s.r.Pick("]]>", "]]]>", "]]]]>", "a]]>b", "]]>]]>", " ]]>"))
		}
		return ins(s, at, s.r.Pick("<", "< ", "<>", "<1", "<&", "</", "<!", "<!-", "<![", "<!>", "<!ELEMENT a ANY>", "<!DOCTYPE a>", "<?", "<? ", "<?>", "<=", "<<a/>", "]", "]]", "]>", "]] >", ">", "--", "<!A>", "<![x]]>", "<![CDAT[x]]>", "<![cdata[x]]>", "<!--", "<![CDATA["))
	}},
	{"in comment", func(s *site) []byte {
		t := s.tok(tComm)
		if t == nil || s.r.P(1, 4) {
			return ins(s, s.content(), s.r.Pick("<!----->", "<!-- -- -->", "<!--a--->", "<!-->", "<!--->", "<!-- --", "<!---", "<!--x->", "<!- x -->", "<! -- x -->", "<!--x-- >", "<!--\x00-->", "<!----", "<!--&-->", "<!--<a>-->", "<!---->", "<!-- - -->", "<!-----a-->", "<!-a-->", "<!--]]>-->"))
		}
		switch s.r.N(3) {
		case 0:
			return ins(s, s.in(t), s.r.Pick("--", "---", "-", "--x", "-- "))
		case 1:
			return ins(s, s.in(t), badChars[s.r.N(len(badChars))])
		}
		e := t.Off + t.Len
		return splice(s.d, e, e+3, s.r.Pick("", "-", "--", "->", ">", "--->", "-- >", "--!>", "-->-->"))
	}},
	{"processing instruction", func(s *site) []byte {
		t := s.r.Pick("<?xml?>", "<?XML?>", "<?Xml x?>", "<?xmL ?>", "<?xml version='1.0'?>", "<? x?>", "<?1?>", "<?-x?>", "<?x", "<?x ", "<?x y", "<?x y?", "<?x?y?>", "<?x>", "<?x y>", "<?$?>", "<?x$?>", "<?x\x00?>", "<?x y\x00?>", "<?x&?>",
			"<?xml-x?>", "<?xmlx y?>", "<?x y??>", "<?x ??>", "<?x ?>", "<?x\n?>", "<?x?>", "<?x <a>&]]>--?>", "<?·?>", "<?x·?>", "<?é è?>", "<?XML-s x?>", "<?xm l?>", "<??>", "<?>", "<?x\xff?>", "<?x y\xc0\x80?>", "<?xMl\n?>")
		at := s.content()
		switch s.r.N(4) {
		case 0:
			at = s.g.RootEnd
		case 1:
			at = s.g.Nodes[0].Open
		case 2:
			if s.r.P(1, 2) {
				at = s.g.DocStart
			}
		}
		return ins(s, at, t)
	}},
	{"in processing instruction", func(s *site) []byte {
		t := s.tok(tPiN, tPiV)
		if t == nil {
			return nil
		}
		if s.r.P(1, 2) {
			return ins(s, s.in(t), badChars[s.r.N(len(badChars))])
		}
		e := t.Off + t.Len
		if t.AnyOff || e+2 > len(s.d) {
			return nil
		}
		if t.Type == tPiN {
			return ins(s, s.in(t), badNameChar[s.r.N(len(badNameChar))])
		}
		return splice(s.d, e, e+2, s.r.Pick("", "?", ">", "? >", "?x", "??>", "?>?>"))
	}},
	{"cdata", func(s *site) []byte {
		t := s.tok(tCdata)
		if t == nil || s.r.P(1, 3) {
			return ins(s, s.content(), s.r.Pick("<![CDATA[", "<![CDATA[x", "<![CDATA[x]", "<![CDATA[x]]", "<![CDATA[x]]]", "<![CDATA[]>", "<![CDATAx]]>", "<![CDATA x]]>", "<![CDATA[\x00]]>", "<![CDATA[]]]]>", "<![CDATA[]]]>", "<![CDATA[x]]>]]>",
				"<![cdata[x]]>", "<![CData[x]]>", "<[CDATA[x]]>", "<!CDATA[x]]>", "<! [CDATA[x]]>", "<![ CDATA[x]]>", "<![CDATA[<a>&amp;]]>", "<![CDATA[]] >]]>", "<![CDATA[\xed\xa0\x80]]>", "<![CDATA[\xef\xbf\xbe]]>", "<![CDATA[]]"))
		}
		if s.r.P(1, 2) {
			return ins(s, s.in(t), s.r.Pick(badChars[s.r.N(len(badChars))], "]]>", "]]", "]"))
		}
		e := t.Off + t.Len
		return splice(s.d, e, e+3, s.r.Pick("", "]", "]]", "]>", ">", "]] >", "]]]>"))
	}},
	{"declaration", func(s *site) []byte {
		decl := s.r.Pick("<?xml version='1.0'?>", "<?xml version=\"1.1\" ?>", "<?xml?>", "<?xml ?>", "<?xml version='2.0'?>", "<?xml version='1.'?>", "<?xml version='1'?>", "<?xml version=''?>", "<?xml version='1.0'>", "<?xml version='1.0?>",
			"<?xml version=1.0?>", "<?xml version='1.0\"?>", "<?xml version '1.0'?>", "<?xml encoding='UTF-8'?>", "<?xml encoding='UTF-8' version='1.0'?>", "<?xml version='1.0'encoding='UTF-8'?>", "<?xml version='1.0' encoding='UTF-8'standalone='yes'?>",
			"<?xml version='1.0' standalone='yes' encoding='UTF-8'?>", "<?xml version='1.0' standalone='maybe'?>", "<?xml version='1.0' standalone='YES'?>", "<?xml version='1.0' standalone=''?>", "<?xml version='1.0' standalone='yesno'?>", "<?xml version='1.0' standalone='noo'?>",
			"<?xml version='1.0' version='1.0'?>", "<?xml version='1.0' foo='bar'?>", "<?xml version='1.0' encoding=''?>", "<?xml version='1.0' encoding='x'?>", "<?xml version='1.0' encoding='UTF8'?>", "<?xml version='1.0' encoding=UTF-8?>", "<?xml version='1.0' encoding='UTF-8\"?>",
			"<?XML version='1.0'?>", "<?Xml version='1.0'?>", "<?xml Version='1.0'?>", "<?xmlversion='1.0'?>", "<?xml  version = '1.0' ?>", "<?xml\nversion='1.0'\nencoding\t=\r'utf-8'\n?>", "<?xml version='1.0' ? >", "<?xml version='1.0' ?", "<?xml version='1.0'?><?xml version='1.0'?>",
			" <?xml version='1.0'?>", "\n<?xml version='1.0'?>", "<!----><?xml version='1.0'?>", "\ufeff\ufeff<?xml version='1.0'?>", "<?xml version='1.0'?>x", "<?xml version='1.0' x?>", "<?xml version='1.0' encoding='UTF-16'?>", "<?xml version='1.0' encoding='ISO-8859-1'?>",
			"<?xml version='1.0' encoding='-utf'?>", "<?xml version='1.0' encoding='utf-8 '?>", "<?xml version='1.0' encoding=' utf-8'?>", "<?xml version='1.0' encoding='US-ASCII'?>", "<?xml version='1.0' encoding='ASCII' standalone='no'?>", "<?xml version='1.0' standalone='yes'/>", "<?xml version='1.01'?>", "<?xml version='1.0 '?>",
			"<?xml version='1.0'?>\xef\xbb\xbf", "<?xml version='1.0' encoding='utf-8' encoding='utf-8'?>", "<?xml version='1.0' standalone='no' standalone='no'?>", "<?xml version='1.0' standalone='yes'x?>", "<?xml version='1.0'encoding?>", "<?xml version='1.0'standalone='yes'?>", "<?xml version='1.0' enc='utf-8'?>", "<?xml version='1.0' stand='yes'?>", "<?xml ver='1.0'?>")
		body := s.d[s.g.DocStart:]
		if bytes.HasPrefix(body, []byte("<?xml")) && !bytes.HasPrefix(body, []byte("<?xml-")) && s.r.P(3, 4) {
			if e := bytes.Index(body, []byte("?>")); e > 0 {
				body = body[e+2:]
			}
		}
		d := append([]byte(nil), s.d[:s.g.DocStart]...)
		d = append(d, decl...)
		return append(d, body...)
	}},
	{"declaration edited", func(s *site) []byte {
		body := s.d[s.g.DocStart:]
		e := bytes.Index(body, []byte("?>"))
		if !bytes.HasPrefix(body, []byte("<?xml")) || e < 0 {
			decl := "<?xml" + s.r.Pick(" ", "\n", "  ") + "version" + s.r.Pick("=", " = ") + s.r.Pick("'1.0'", "\"1.1\"") + s.r.Pick("", " encoding='UTF-8'", " encoding = \"utf-8\"", " encoding='US-ASCII'") +
				s.r.Pick("", " standalone='yes'", " standalone='no'", " standalone = \"no\"") + s.r.Pick("", " ", "\n") + "?>"
			s = &site{append([]byte(decl), body...), s.g, s.r}
			e = len(decl) - 2
		}
		at := s.r.In(0, e+1)
		if len(s.d)-len(body) == s.g.DocStart {
			at += s.g.DocStart
		}
		piece := s.r.Pick(" ", "'", "\"", "=", "?", ">", "x", "1", "0", "\n", "<", "\xc3\xa9", "-", ".", "t", "e", "s", "o", "n", "N", "Y", "8", "U", "&", "/", ":", "\x00", "\t")
		switch s.r.N(4) {
		case 0:
			return splice(s.d, at, at+1, "")
		case 1:
			return ins(s, at, piece)
		case 2: // in front of or behind a quote
			for k := 0; k < e; k++ {
				q := (at + k) % len(s.d)
				if c := s.d[q]; c == '\'' || c == '"' {
					return ins(s, q+s.r.N(2), piece)
				}
			}
		}
		return splice(s.d, at, at+1, piece)
	}},
	{"declaration value", func(s *site) []byte {
		word := func(v string) string {
			if s.r.P(1, 3) {
				return v
			}
			l := string("abcdefghijklmnopqrstuvwxyzABCDENOSTUXYZ0123456789.-_ :"[s.r.N(54)])
			k := []int{0, len(v), s.r.N(len(v) + 1)}[s.r.N(3)]
			switch s.r.N(4) {
			case 0:
				if k < len(v) {
					return v[:k] + v[k+1:]
				}
			case 1:
				if k < len(v) {
					return v[:k] + l + v[k+1:]
				}
			case 2:
				return v + v[len(v)-1:]
			}
			return v[:k] + l + v[k:]
		}
		q := s.r.Pick("'", "\"")
		d := "<?xml " + s.r.Pick("version", "version", "version", word("version")) + "=" + q
		w := s.r.N(3)
		if w == 0 {
			d += word(s.r.Pick("1.0", "1.1")) + q
		} else {
			d += s.r.Pick("1.0", "1.1") + q
		}
		if w == 1 || s.r.P(1, 4) {
			d += " " + s.r.Pick("encoding", "encoding", "encoding", "encoding", word("encoding")) + "=" + q + word(s.r.Pick("UTF-8", "utf-8", "US-ASCII", "ascii", "us-ascii")) + q
		}
		if w == 2 {
			d += " " + s.r.Pick("standalone", "standalone", "standalone", "standalone", word("standalone")) + "=" + q + word(s.r.Pick("yes", "no", "no")) + q
		}
		body := s.d[s.g.DocStart:]
		if bytes.HasPrefix(body, []byte("<?xml ")) {
			body = body[bytes.Index(body, []byte("?>"))+2:]
		}
		return append([]byte(d+s.r.Pick("", "", " ")+"?>"), body...)
	}},
	{"character at a delimiter", func(s *site) []byte {
		for i := 0; i < 20; i++ {
			k := s.r.N(len(s.d))
			if j := bytes.IndexAny(s.d[k:], "<>/'\"=?-[];&! "); j >= 0 {
				return ins(s, k+j+s.r.N(2), s.r.Pick(badChars[s.r.N(len(badChars))], badChars[s.r.N(12)], "\x00", "\uffff", "\ufffe"))
			}
		}
		return nil
	}},
	{"document type", func(s *site) []byte {
		at := s.g.Nodes[0].Open
		switch s.r.N(4) {
		case 0:
			at = s.content()
		case 1:
			at = s.g.RootEnd
		}
		return ins(s, at, s.r.Pick("<!DOCTYPE a>", "<!DOCTYPE a []>", "<!DOCTYPE a [<!ELEMENT a ANY>]>", "<!doctype a>", "<!DOCTYPE a", "<!DOCTYPE a [", "<!DOCTYPE a [ <!-- ", "<!DOCTYP a>", "<!DOCTYPE a SYSTEM 'x>y'>", "<!DOCTYPE a>x", "<!DOCTYPE a PUBLIC \"x\" 'y'>", "<!DOCTYPE a [<?p >?>]>", "<!DOCTYPE a [<!ENTITY b 'c'>", "<!DOCTYPE a SYSTEM 'x"))
	}},
	{"piece removed", func(s *site) []byte {
		a := s.r.N(len(s.d))
		b := a + 1 + s.r.Geo(10)
		if b > len(s.d) {
			b = len(s.d)
		}
		return splice(s.d, a, b, "")
	}},
	{"piece doubled", func(s *site) []byte {
		a := s.r.N(len(s.d))
		b := a + 1 + s.r.N(12)
		if b > len(s.d) {
			b = len(s.d)
		}
		return ins(s, s.r.N(len(s.d)+1), string(s.d[a:b]))
	}},
	{"markup bytes changed", func(s *site) []byte {
		// a delimiter changed into another
		for i := 0; i < 20; i++ {
			k := s.r.N(len(s.d))
			if strings.IndexByte("<>/&;'\"=!?-[]: #", s.d[k]) >= 0 {
				return splice(s.d, k, k+1, s.r.Pick("<", ">", "/", "&", ";", "'", `"`, "=", "!", "?", "-", "[", "]", ":", " ", "#", "", "x"))
			}
		}
		return nil
	}},
	{"bytes changed", func(s *site) []byte {
		d := append([]byte(nil), s.d...)
		for i := s.r.In(1, 3); i > 0; i-- {
			k := s.r.N(len(d))
			d[k] = mutBytes[s.r.N(len(mutBytes))]
		}
		return d
	}},
	{"bytes inserted", func(s *site) []byte {
		d := s.d
		for i := s.r.In(1, 2); i > 0; i-- {
			k := s.r.N(len(d) + 1)
			d = splice(d, k, k, string(mutBytes[s.r.N(len(mutBytes)):][:1]))
		}
		return d
	}},
	{"namespaces", func(s *site) []byte {
		n := s.node()
		return ins(s, n.NameEnd, s.r.Pick(" xmlns:p=''", " xmlns:p=\"\"", " xmlns:xmlns='u'", " xmlns:xml='u'", " xmlns:xml='"+uri1998+"'", " xmlns:zz='"+uri1998+"'", " xmlns:zz='"+uri2000+"'", " xmlns='"+uri2000+"'", " xmlns='"+uri1998+"'", " zz:a='x'", " xmlns:zz='u' zz:a='1' zy:a='2' xmlns:zy='u'",
			" xmlns:zz='u' zz:a='1' zy:a='2' xmlns:zy='v'", " xmlns:zz='u&amp;' zz:a='1' zy:a='2' xmlns:zy='u&#38;'", " xmlns:zz='u' zz:a='1' a='2'", " xml:aa='1' xml:bb='2'", " xmlns:a='u' xmlns:a='u'", " xmlns='' ", " xmlns:zz='u' zz:b='' zz:c=''", " xmlns:xmlzz='u' xmlzz:e=''", " xmlnszz='u' xmlnszz:x=''", " xmlns:zz='"+uri1998+"x'", " xmlns:zz='"+uri2000[:len(uri2000)-1]+"'",
			" xmlns:zz='&#104;ttp://www.w3.org/2000/xmlns/'", " xmlns:z='u' z:a='' zz:a='' xmlns:zz='U'", " xmlns=\"a'b\" xmlns:zz='c'"))
	}},
	{"prefix changed", func(s *site) []byte {
		for i := 0; i < 12; i++ {
			n := s.node()
			if k := strings.IndexByte(n.Name, ':'); k > 0 {
				p := s.r.Pick("p", "q", "pp", "x", "xm", "xml", "xmlns", n.Name[:k]+"x", n.Name[:k-1])
				if p == "" {
					p = "zz"
				}
				d := s.d
				if !n.Self {
					d = splice(d, n.Close+2, n.Close+2+k, p)
				}
				return splice(d, n.Open+1, n.Open+1+k, p)
			}
		}
		return nil
	}},
	{"declaration of prefix changed", func(s *site) []byte {
		for i := 0; i < 20; i++ {
			_, a := s.attr()
			if a == nil {
				return nil
			}
			nm := string(s.d[a.Name:a.NameEnd])
			if strings.HasPrefix(nm, "xmlns") {
				switch s.r.N(4) {
				case 0:
					return splice(s.d, a.Name, a.End+1, "")
				case 1:
					return splice(s.d, a.Quote+1, a.End, s.r.Pick("", "urn:a", "urn:b", "u", uri1998, uri2000))
				case 2:
					return splice(s.d, a.Name, a.NameEnd, s.r.Pick("xmlns", "xmlns:p", "xmlns:q", "xmlns:xm", "xmlns:xml", "xmln", "xmlns:xmlns"))
				}
				return splice(s.d, a.NameEnd, a.NameEnd, s.r.Pick("x", "1", ":p"))
			}
		}
		return nil
	}},
}

var mutBytes = []byte("<>/&;'\"=!?-[]: \t\n\r#xX01aApxmlns\x00\x01\x1f\x7f\x80\xbf\xc2\xe0\xed\xef\xf0\xf4\xff<<>&]/")

// Mutate edits the document; ref is the reading of d without namespaces
func Mutate(r *Rng, d []byte, ref *Ref, which int) ([]byte, string) {
	if ref.V != Accept || len(ref.Nodes) == 0 {
		return d, "none"
	}
	s := &site{d, ref, r}
	for i := 0; i < 10; i++ {
		m := mutators[r.N(len(mutators))]
		if which >= 0 && i < 3 {
			m = mutators[which%len(mutators)]
		}
		if o := m.f(s); o != nil && len(o) > 0 {
			return o, m.name
		}
	}
	return d, "none"
}

// ---- exhaustive soups of pieces ----

type soup struct {
	name     string
	pre, suf string
	pieces   []string
}

var soups = []soup{
	{"content", "<a>", "</a>", []string{"<b>", "</b>", "<b/>", "x", " ", "]", "]]>", "<!--", "-->", "-", "&amp;", "&", "<![CDATA[", "<?p", "?>", ">", "<", "</a>", "\n"}},
	{"tag", "<a", ">", []string{" ", "b", "=", "\"", "'", "/", "<", "&lt;", "&", ">", "\n", "c='d'", "</a", "/>", "</a>"}},
	{"document", "", "", []string{"<?xml version='1.0'?>", " ", "<!--c-->", "<!DOCTYPE a>", "<?p?>", "<?p q?>", "x", "<a/>", "<a>", "</a>", "<![CDATA[]]>", "\n", "<!", "&amp;", "\ufeff", "<?xml"}},
	{"declaration", "<?xml", "?><a/>", []string{" ", " version='1.0'", " encoding='UTF-8'", " standalone='no'", "\n", " version = \"1.1\"", " encoding=\"ascii\"", " standalone=\"yes\"", "=", "'", "?", " version", "x", "1", " encoding='utf-9'", " standalone='x'"}},
	{"comment", "<a><!--", "--></a>", []string{"-", "--", ">", "->", "x", "<", "!", "\n", "--><!--", "&", "?"}},
	{"cdata", "<a><![CDATA[", "]]></a>", []string{"]", "]]", ">", "]>", "x", "<", "&", "]]>", "[", "\n", "]]><![CDATA["}},
	{"instruction", "<a><?", "?></a>", []string{"p", " ", "?", ">", "x", "xml", "X", "-", "1", "\n", "?><?", "M", "l", ":"}},
	{"reference", "<a>&", ";</a>", []string{"#", "x", "a", "m", "p", "l", "t", "g", "q", "u", "o", "s", "0", "1", "f", "F", "d8", " ", ";", "&", "10"}},
	{"attribute value", "<a b='", "'/>", []string{"&amp;", "&", "<", "\"", "'", " c='", "x", ">", "\n", ";", "&#65;", "]]>", "/", "é"}},
	{"tags", "", "", []string{"<a>", "</a>", "<b>", "</b>", "<ab>", "</ab>", "<a/>", "</a >", "<a />", "x", "</a:b>", "<a:b>", "<b/>"}},
}

// soupDocs counts the documents of a soup with at most n pieces
func (s *soup) count(n int) int {
	t, k := 0, 1
	for i := 0; i <= n; i++ {
		t += k
		k *= len(s.pieces)
	}
	return t
}

func (s *soup) doc(i int) []byte {
	n, k := 0, 1
	for i >= k {
		i -= k
		k *= len(s.pieces)
		n++
	}
	var b bytes.Buffer
	b.WriteString(s.pre)
	for j := 0; j < n; j++ {
		b.WriteString(s.pieces[i%len(s.pieces)])
		i /= len(s.pieces)
	}
	b.WriteString(s.suf)
	if b.Len() == 0 { // an empty document is an argument error, and another one for an empty window
		return []byte("<")
	}
	return b.Bytes()
}

// namespace soup: two elements with declarations and attributes from a small pool
var nsElems = []string{"e", "p:e", "q:e", "xml:e", "xmlns:e"}
var nsAttrs = []string{"", "xmlns='u'", "xmlns=''", "xmlns:p='u'", "xmlns:p='v'", "xmlns:q='u'", "xmlns:q='v'", "xmlns:p=''", "p:a='1'", "q:a='2'", "a='3'", "xml:a='4'", "xmlns:p='&#117;'", "p:b='5'",
	"xmlns:xml='" + uri1998 + "'", "xmlns:xml='u'", "xmlns:xmlns='u'", "xmlns:r='" + uri2000 + "'", "xmlns='" + uri1998 + "'", "pp:a='6'", "xmlns:pp='u'",
	"xmlns:p='a&quot;b'", "xmlns:q='a&#34;b'", "xmlns:p='a&apos;b'", "xmlns:q='a&#x27;b'", "xmlns:q=\"a'b\"", "xmlns:p='&lt;'", "xmlns:q='&#60;'", "xmlns:p='x&amp;y'", "xmlns:q='x&#x26;y'", "xmlns:q='a\"b'", "xmlns:p='x&gt;'", "xmlns:q='x>'"}

// the spellings of a character in a namespace name
var uriSpell = [][]string{
	{"a", "&#97;", "&#x61;"}, {"b", "&#98;", "&#x062;"}, {"/"}, {":", "&#58;"}, {"u"},
	{"&gt;", ">", "&#62;", "&#x3e;", "&#x003E;"}, {"&amp;", "&#38;", "&#x26;"}, {"&lt;", "&#60;", "&#x3c;"},
	{"&quot;", "\"", "&#34;", "&#x22;"}, {"&apos;", "&#39;", "&#x27;"},
	{"é", "&#233;", "&#xE9;"}, {"中", "&#20013;", "&#x4e2d;"}, {"😀", "&#128512;", "&#x1F600;"}, {"#"}, {"amp;"}, {"gt;", "g&#116;;"}, {"x"}, {" ", "&#32;", "&#x20;"},
	// characters with the same low bits as others
	{"\U00010061", "&#65633;", "&#x10061;"}, {"š", "&#353;", "&#x161;"}, {"\U00010062", "&#x10062;"}, {"Ţ", "&#x162;"}, {"\U000100E9", "&#x100e9;"}, {"\U00014E2D", "&#x14e2d;"},
	{"\U0002F600", "&#x2f600;"}, {"\uF600", "&#xF600;"}, {"A", "&#65;"}, {"B", "&#x42;"}, {"\U00100061", "&#x100061;"}, {"\U00010026"}, {"Ħ", "&#x126;"},
}

// uriTwins: spellings of characters that are easily taken for one another
var uriTwins = map[int][]int{0: {18, 19, 26, 28}, 1: {20, 21, 27}, 6: {29, 30}, 10: {22}, 11: {23}, 12: {24, 25}}

// uriPairs: a few namespace names that are equal, or equal up to one place, under several spellings
func uriPairs(r *Rng) []byte {
	n := r.In(1, 6)
	if r.P(1, 12) {
		n = someLen(r, 700)
	}
	base := make([]int, n)
	plain := r.P(1, 2)
	for i := range base {
		base[i] = r.N(len(uriSpell))
		if plain && r.P(2, 3) {
			base[i] = r.N(5)
		}
	}
	free := r.In(0, 3) // how often another spelling is taken
	spell := func() string {
		x := append([]int(nil), base...)
		if r.P(1, 3) {
			k := r.N(n)
			if r.P(1, 2) {
				k = n - 1
			}
			switch r.N(4) {
			case 0:
				x = append(x[:k], x[k+1:]...)
			case 1:
				x = append(x[:k], append([]int{r.N(len(uriSpell))}, x[k:]...)...)
			case 2:
				x = append(x, r.N(len(uriSpell)))
			default:
				if t := uriTwins[x[k]]; t != nil && r.P(2, 3) {
					x[k] = t[r.N(len(t))]
				} else {
					x[k] = r.N(len(uriSpell))
				}
			}
		}
		var b strings.Builder
		for _, k := range x {
			l := uriSpell[k]
			s := l[0]
			if r.P(free, 3) {
				s = l[r.N(len(l))]
			}
			b.WriteString(s)
		}
		return b.String()
	}
	pre := []string{"p", "q", "r", "pq"}[:r.In(2, 4)]
	decl := func(l []string) string {
		s := ""
		for _, p := range l {
			u := spell()
			q := "'"
			if strings.Contains(u, "'") {
				q = "\""
			}
			if strings.Contains(u, q) {
				u = strings.ReplaceAll(u, q, "v")
			}
			if u == "" {
				u = "w"
			}
			s += " xmlns:" + p + "=" + q + u + q
		}
		return s
	}
	use := func() string {
		s := ""
		for _, p := range pre {
			if r.P(4, 5) {
				s += " " + p + ":" + r.Pick("x", "x", "x", "y", "xy") + "=''"
			}
		}
		return s
	}
	switch r.N(3) {
	case 0: // all in one tag
		a, d := use(), decl(pre)
		if r.P(1, 2) {
			a, d = d, a
		}
		return []byte("<a" + a + d + "/>")
	case 1: // declared above
		return []byte("<p:a" + decl(pre) + "><b><q:c" + use() + "/></b><d" + use() + "/></p:a>")
	}
	k := r.N(len(pre))
	return []byte("<a" + decl(pre) + use() + "><b" + decl(pre[k:]) + use() + "><c" + use() + "/></b><c" + use() + "/></a>")
}

func nsSoup(r *Rng) []byte {
	var b strings.Builder
	var write func(depth int)
	write = func(depth int) {
		e := nsElems[r.N(3)]
		if r.P(1, 12) {
			e = nsElems[r.N(len(nsElems))]
		}
		b.WriteString("<" + e)
		for i := []int{0, 1, 2, 3, 4}[r.N(5)]; i > 0; i-- {
			a := nsAttrs[r.N(14)]
			if r.P(1, 6) {
				a = nsAttrs[r.N(len(nsAttrs))]
			}
			b.WriteString(" " + a)
		}
		if depth < 3 && r.P(2, 3) {
			b.WriteString(">")
			for i := r.In(1, 2); i > 0; i-- {
				write(depth + 1)
			}
			b.WriteString("</" + e + ">")
		} else if r.P(1, 2) {
			b.WriteString("/>")
		} else {
			b.WriteString("></" + e + ">")
		}
	}
	write(0)
	return []byte(b.String())
}

// scopeNodes are the elements of scope trees
var scopeNodes = []struct{ name, attrs string }{
	{"x", ""}, {"x", " xmlns:p='u'"}, {"p:x", ""}, {"x", " p:a='1'"}, {"p:x", " xmlns:p='v'"}, {"x", " xmlns:q='v'"}, {"q:x", " p:a='1'"}, {"x", " q:a='1' b='' xmlns:q='u' p:a='2'"},
}

// scopeShapes are all forests of three and four elements
var scopeShapes = func() (l []string) {
	var walk func(s string, open, left int)
	walk = func(s string, open, left int) {
		if open == 0 && left == 0 {
			l = append(l, s)
		}
		if left > 0 {
			walk(s+"(", open+1, left-1)
		}
		if open > 0 {
			walk(s+")", open-1, left)
		}
	}
	walk("", 0, 3)
	walk("", 0, 4)
	return
}()

func scopeCount(k int) int {
	n := 1
	for i := 0; i < len(scopeShapes[k]); i += 2 {
		n *= len(scopeNodes)
	}
	return n
}

// scopeTree is tree number i of a shape, below some plain elements
func scopeTree(r *Rng, shape string, i, above int) []byte {
	var b strings.Builder
	w := r.Pick("w", "w", "www")
	if above == 0 {
		above = 1
	}
	b.WriteString(strings.Repeat("<"+w+">", above))
	var names []string
	for k := 0; k < len(shape); k++ {
		if shape[k] == '(' {
			e := scopeNodes[i%len(scopeNodes)]
			i /= len(scopeNodes)
			b.WriteString("<" + e.name + e.attrs)
			if shape[k+1] == ')' && r.P(1, 2) {
				b.WriteString("/>")
				k++
				continue
			}
			b.WriteString(">")
			names = append(names, e.name)
			continue
		}
		b.WriteString("</" + names[len(names)-1] + ">")
		names = names[:len(names)-1]
	}
	b.WriteString(strings.Repeat("</"+w+">", above))
	return []byte(b.String())
}

// Source hands out documents of all kinds: generated, edited, soups
type Source struct {
	r    *Rng
	size int
}

func (s *Source) Next() (doc []byte, kind string) {
	doc, kind = s.next()
	if len(doc) == 0 {
		doc = []byte("<")
	}
	if directed() && s.r.P(1, 4) {
		return dictEdit(s.r, doc), kind + ", dictionary"
	}
	if s.r.P(1, 9) && kind != "generated" || s.r.P(1, 40) {
		return amplify(s.r, doc), kind + ", amplified"
	}
	return doc, kind
}

func (s *Source) next() (doc []byte, kind string) {
	r := s.r
	switch r.N(10) {
	case 0, 1, 2:
		n := s.size
		if r.P(1, 20) {
			return scaleDoc(r, r.P(1, 40)), "generated"
		}
		if r.P(1, 40) {
			n *= []int{5, 20, 60}[r.N(3)]
		}
		d, _ := GenDoc(r, n)
		if r.P(1, 30) {
			d = sizedDoc(r, d, []int{1023, 1024, 1025, 4096, 4097, 16384, 16385, 65536, 65537, 262144, 262145}[r.N(11)])
		}
		return d, "generated"
	case 3, 4, 5, 6:
		d := baseDoc(r, 6)
		m, k := Mutate(r, d, RefParse(d, false), -1)
		return m, "edited: " + k
	case 7:
		if r.P(1, 3) {
			return uriPairs(r), "namespace names of several spellings"
		}
		if r.P(1, 4) {
			return pairDoc(r, r.N(pairDocs())), "pairs"
		}
		if r.P(1, 12) {
			return reservedDoc(r, r.N(reservedDocs())), "reserved namespaces spelled"
		}
		return nsSoup(r), "namespace soup"
	case 8:
		if r.P(1, 3) {
			return gridDoc(r, r.N(gridDocs())), "one item deep inside"
		}
		sp := &soups[r.N(len(soups))]
		return sp.doc(r.N(sp.count(5))), "soup: " + sp.name
	}
	d := baseDoc(r, 6)
	m, k := Mutate(r, d, RefParse(d, false), -1)
	if ref := RefParse(m, false); ref.V == Accept {
		m, k = Mutate(r, m, ref, -1)
	} else {
		k2 := r.N(len(m) + 1)
		m = splice(m, k2, k2, string(mutBytes[r.N(len(mutBytes)):][:1]))
	}
	return m, "edited: " + k
}
