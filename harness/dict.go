package main

import (
	"bytes"
	"crypto/sha256"
	_ "embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

// ---- sizes, characters and words that a change brought into the code ----
//
// As fuzzers do, the workload takes a dictionary out of the code it runs: numbers, characters and
// words that occur in the library's source and did not occur (as often, or in a function that has
// changed since) when the checks were written. They only choose inputs. Whatever is observed with
// them is judged like everything else, and without changes the workload is what it always is.

//go:embed dict_base.json
var dictBaseJSON []byte

type dictSource struct {
	Lits  map[string]int    // how often a constant occurs
	Funcs map[string]string // what a function looks like
}

type dictionary struct {
	ints  []int
	runes []rune
	words []string
}

var (
	dictOnce sync.Once
	dictVal  dictionary
	dictUses int64
)

func librarySource() string {
	if d := os.Getenv("VH_DICTDIR"); d != "" {
		return d
	}
	if bi, ok := debug.ReadBuildInfo(); ok {
		for _, m := range bi.Deps {
			if strings.Contains(m.Path, "go-vtd-xml") && m.Replace != nil && filepath.IsAbs(m.Replace.Path) {
				return m.Replace.Path
			}
		}
	}
	return "/repo"
}

var narrow = map[string][]uint64{"uint8": {1 << 8}, "byte": {1 << 8}, "int8": {1 << 7, 1 << 8}, "int16": {1 << 15, 1 << 16}, "uint16": {1 << 16}, "int32": {1 << 31}, "uint32": {1 << 32}, "rune": {1 << 21}}

// evalConst folds what consists of literals
func evalConst(e ast.Expr) constant.Value {
	switch x := e.(type) {
	case *ast.BasicLit:
		v := constant.MakeFromLiteral(x.Value, x.Kind, 0)
		if v.Kind() == constant.Unknown {
			return nil
		}
		return v
	case *ast.ParenExpr:
		return evalConst(x.X)
	case *ast.BinaryExpr:
		a, b := evalConst(x.X), evalConst(x.Y)
		if a == nil || b == nil {
			return nil
		}
		defer func() { recover() }()
		switch x.Op {
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b); ok && n < 64 && a.Kind() == constant.Int {
				return constant.Shift(a, x.Op, uint(n))
			}
		case token.ADD, token.SUB, token.MUL, token.OR, token.AND:
			if a.Kind() == constant.Int && b.Kind() == constant.Int || a.Kind() == constant.String && b.Kind() == constant.String && x.Op == token.ADD {
				return constant.BinaryOp(a, x.Op, b)
			}
		}
	}
	return nil
}

// constantsOf names the constants in a piece of code
func constantsOf(n ast.Node, add func(key string)) {
	val := func(v constant.Value) {
		switch v.Kind() {
		case constant.Int:
			if u, ok := constant.Uint64Val(v); ok {
				add(fmt.Sprintf("i%d", u))
			}
		case constant.String:
			add("s" + constant.StringVal(v))
		}
	}
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			if v := evalConst(x); v != nil {
				val(v)
			}
			if x.Op == token.SHL || x.Op == token.SHR {
				if v := evalConst(x.Y); v != nil {
					if k, ok := constant.Uint64Val(v); ok && k > 1 && k < 32 {
						add(fmt.Sprintf("i%d", uint64(1)<<k))
					}
				}
			}
		case *ast.AssignStmt:
			if x.Tok == token.SHL_ASSIGN || x.Tok == token.SHR_ASSIGN {
				if v := evalConst(x.Rhs[0]); v != nil {
					if k, ok := constant.Uint64Val(v); ok && k > 1 && k < 32 {
						add(fmt.Sprintf("i%d", uint64(1)<<k))
					}
				}
			}
		case *ast.BasicLit:
			if v := evalConst(x); v != nil {
				val(v)
			}
		case *ast.Ident:
			for _, v := range narrow[x.Name] {
				add(fmt.Sprintf("i%d", v))
			}
		}
		return true
	})
}

// scanSource reads the library's source; consts are the constants in each function
func scanSource(dir string) (s dictSource, consts map[string][]string, err error) {
	s = dictSource{map[string]int{}, map[string]string{}}
	consts = map[string][]string{}
	fs := token.NewFileSet()
	named := map[string][]string{} // constants declared outside of functions
	refs := map[string][]string{}
	err = filepath.Walk(dir, func(p string, fi os.FileInfo, e error) error {
		if e != nil {
			return e
		}
		if fi.IsDir() && p != dir && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || fi.Name() == "mocks") {
			return filepath.SkipDir
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, e := parser.ParseFile(fs, p, nil, 0)
		if e != nil {
			return e
		}
		constantsOf(f, func(k string) { s.Lits[k]++ })
		rel, _ := filepath.Rel(dir, p)
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				for _, sp := range x.Specs {
					if v, ok := sp.(*ast.ValueSpec); ok {
						for i, n := range v.Names {
							if i < len(v.Values) {
								constantsOf(v.Values[i], func(k string) { named[n.Name] = append(named[n.Name], k) })
							}
						}
					}
				}
			case *ast.FuncDecl:
				var b bytes.Buffer
				printer.Fprint(&b, token.NewFileSet(), x)
				h := sha256.Sum256(b.Bytes())
				name := x.Name.Name
				if x.Recv != nil && len(x.Recv.List) > 0 {
					var t bytes.Buffer
					printer.Fprint(&t, token.NewFileSet(), x.Recv.List[0].Type)
					name = t.String() + "." + name
				}
				key := filepath.Dir(rel) + " " + name
				s.Funcs[key] += hex.EncodeToString(h[:8])
				constantsOf(x, func(k string) { consts[key] = append(consts[key], k) })
				ast.Inspect(x, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						refs[key] = append(refs[key], id.Name)
					}
					return true
				})
			}
		}
		return nil
	})
	for key, l := range refs {
		for _, id := range l {
			if k := named[id]; len(k) <= 4 {
				consts[key] = append(consts[key], k...)
			}
		}
	}
	return s, consts, err
}

func dict() *dictionary {
	dictOnce.Do(func() {
		if os.Getenv("VH_NODICT") != "" {
			return
		}
		var base dictSource
		if json.Unmarshal(dictBaseJSON, &base) != nil || len(base.Lits) == 0 {
			return
		}
		dir := librarySource()
		cur, consts, err := scanSource(filepath.Join(dir, "vtdxml"))
		if err != nil {
			return
		}
		weight := map[string]int{}
		for k, n := range cur.Lits {
			if n > base.Lits[k] {
				weight[k] += 3
				if base.Lits[k] == 0 {
					weight[k] += 5
				}
			}
		}
		for f, h := range cur.Funcs {
			if base.Funcs[f] != h {
				seen := map[string]bool{}
				for _, k := range consts[f] {
					if !seen[k] {
						seen[k] = true
						weight[k]++
					}
				}
			}
		}
		var keys []string
		for k := range weight {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			if len(k) < 2 {
				continue
			}
			for n := weight[k]; n > 0; n-- {
				if k[0] == 's' {
					w := k[1:]
					if len(w) > 200 || strings.Contains(w, "%") || n > 5 {
						continue
					}
					if utf8.ValidString(w) && len([]rune(w)) == 1 {
						dictVal.runes = append(dictVal.runes, []rune(w)[0])
					}
					if !strings.Contains(w, " ") || len(w) < 20 { // messages are of no use
						dictVal.words = append(dictVal.words, w)
					}
					// the names in it
					for _, x := range strings.FieldsFunc(w, func(c rune) bool { return c == ':' || !refName(int(c)) }) {
						if x != w && len(w) < 60 && isNCName(x) {
							dictVal.words = append(dictVal.words, x)
						}
					}
					continue
				}
				var u uint64
				fmt.Sscan(k[1:], &u)
				if u > 2 && u < 1<<33 {
					dictVal.ints = append(dictVal.ints, int(u))
				}
				if u >= 9 && u <= utf8.MaxRune && xmlChar(int(u)) {
					dictVal.runes = append(dictVal.runes, rune(u))
				}
			}
		}
	})
	return &dictVal
}

func isNCName(s string) bool {
	for i, c := range s {
		if c == ':' || !refName(int(c)) || i == 0 && !refNameStart(int(c)) {
			return false
		}
	}
	return s != ""
}

// dictPieces are words and characters to put at every place of the templates
func dictPieces() []string {
	d := dict()
	seen := map[string]bool{}
	var l []string
	for _, w := range d.words {
		if !seen[w] && len(l) < 12 && len(w) < 40 {
			seen[w] = true
			l = append(l, w)
		}
	}
	for _, c := range d.runes {
		if w := string(c); !seen[w] && len(l) < 24 {
			seen[w] = true
			l = append(l, w)
		}
	}
	return l
}

func xmlChar(c int) bool {
	return c >= 0x20 && c < 0xD800 || c >= 0xE000 && c <= 0x10FFFF && c != 0xFFFE && c != 0xFFFF || c == 9 || c == 10 || c == 13
}

// directed tells whether the library was changed in a way that gives a dictionary
func directed() bool { d := dict(); return len(d.ints)+len(d.runes)+len(d.words) > 0 }

// dictLen is a size out of the dictionary that is at most max, or 0. One time in den.
func dictLen(r *Rng, max, den int) int {
	d := dict()
	if len(d.ints) == 0 || !r.P(1, den) {
		return 0
	}
	for try := 0; try < 4; try++ {
		v := d.ints[r.N(len(d.ints))]
		switch r.N(10) {
		case 0, 1, 2:
		case 3, 4:
			v += r.In(-2, 2)
		case 5:
			v *= r.In(2, 4)
			if r.P(1, 2) {
				v += r.In(-1, 1)
			}
		case 6:
			v /= 2
		case 7:
			v += r.N(16)
		case 8:
			v -= r.N(16)
		case 9:
			v += d.ints[r.N(len(d.ints))] + r.In(-1, 1)
		}
		if v >= 1 && v <= max {
			dictUses++
			return v
		}
	}
	return 0
}

func dictRune(r *Rng, den int) rune {
	d := dict()
	if len(d.runes) == 0 || !r.P(1, den) {
		return 0
	}
	c := d.runes[r.N(len(d.runes))]
	if r.P(1, 6) {
		c += rune(r.In(-1, 1))
	}
	if !xmlChar(int(c)) {
		return 0
	}
	dictUses++
	return c
}

func dictWord(r *Rng, den int) string {
	d := dict()
	if len(d.words) == 0 || !r.P(1, den) {
		return ""
	}
	dictUses++
	w := d.words[r.N(len(d.words))]
	switch r.N(8) {
	case 0:
		w += w
	case 1:
		w = w[:r.N(len(w))+1]
	case 2:
		w += r.Pick("a", " ", "0")
	case 3:
		w = r.Pick("a", "_") + w
	case 4:
		w = randCase(r, w)
	}
	return w
}

// dictEdit brings something of the dictionary into a document, somewhere
func dictEdit(r *Rng, d []byte) []byte {
	if len(d) == 0 || len(d) > 200000 {
		return d
	}
	if r.P(1, 8) {
		d = dictDoc(r)
		if r.P(2, 3) {
			return d
		}
	}
	if r.P(1, 6) {
		d = dictName(r, d)
	}
	for n := r.In(1, 2); n > 0; n-- {
		switch r.N(8) {
		case 0, 1: // a character or a word, put in or instead of another
			w := dictWord(r, 2)
			if w == "" {
				c := dictRune(r, 1)
				if c == 0 {
					continue
				}
				w = string(c)
			}
			if k := r.N(6); k == 0 {
				w = strings.Repeat(w, r.In(2, 5))
			}
			d = dictPlace(r, d, w)
		case 2: // a reference to it
			if c := dictRune(r, 1); c != 0 {
				d = dictPlace(r, d, fmt.Sprintf(r.Pick("&#%d;", "&#x%x;", "&#x%X;"), c))
			}
		case 3: // something stands at that offset, or behind so many line breaks
			if n := dictLen(r, 300000, 1); n > 0 {
				at := 0
				if k := bytes.IndexAny(d[r.N(len(d)):], "<>='\"&]"); k > 0 && r.P(2, 3) {
					at = k
				}
				if k := n - at; k > 0 && r.P(4, 5) {
					n = k
				}
				s := rep(r.Pick(" ", "\n", "\r\n", "\t"), n)
				if r.P(1, 3) && n > 8 {
					s = "<!--" + rep(r.Pick("a", "\n", "é"), n-7) + "-->"
				}
				p := 0
				if bytes.HasPrefix(d, []byte("\xef\xbb\xbf")) {
					p = 3
				}
				if bytes.HasPrefix(d[p:], []byte("<?xml ")) {
					if k := bytes.Index(d, []byte("?>")); k > 0 {
						p = k + 2
					}
				}
				d = splice(d, p, p, s)
			}
		case 4: // so many characters inside something
			if n := dictLen(r, 100000, 1); n > 0 {
				i := r.N(len(d))
				if k := bytes.IndexAny(d[i:], " \n\t\r='\"->"); k >= 0 && r.P(2, 3) {
					i += k
					if r.P(1, 2) && i < len(d) {
						i++
					}
				}
				d = splice(d, i, i, rep(r.Pick("a", " ", "\n", "é", "x", "&#65;", "😀", "]"), n))
			}
		default: // sizes go into all of these
			if x := ampOps[r.N(len(ampOps))](r, d); len(x) > 0 {
				d = x
			}
		}
	}
	return d
}

// dictName gives a name, a prefix for example, another spelling everywhere
func dictName(r *Rng, d []byte) []byte {
	w := dictWord(r, 1)
	if !isNCName(w) {
		return d
	}
	var names []string
	seen := map[string]bool{}
	for j := 0; j < len(d) && j < 5000; j++ {
		if !ampIsWord(d[j]) {
			continue
		}
		q := j
		for q < len(d) && ampIsWord(d[q]) {
			q++
		}
		x := string(d[j:q])
		if x != w && !ampKeep[x] && isNCName(x) && !seen[x] {
			seen[x] = true
			names = append(names, x)
			if q < len(d) && d[q] == ':' || j > 0 && d[j-1] == ':' {
				names = append(names, x, x)
			}
		}
		j = q
	}
	if names == nil {
		return d
	}
	return ampReplaceWord(d, names[r.N(len(names))], w)
}

// dictDoc is a document with several sizes out of the dictionary, half of the
// time with a single wrong byte
func dictDoc(r *Rng) []byte {
	size := func(max, usual int) int {
		if n := dictLen(r, max, 2); n > 0 {
			return n
		}
		return r.In(1, usual)
	}
	word := func(max, usual int) string {
		n := size(max, usual)
		return rep(r.Pick("n", "abcdefghij", "é", "a-b.", "中a"), n)
	}
	fix := func(s string) string {
		if s[0] == '-' || s[0] == '.' || !utf8.ValidString(s) {
			return "n"
		}
		return s
	}
	var b strings.Builder
	depth := size(253, 8)
	outer := r.Pick("a", "ab", fix(word(100, 3)))
	b.WriteString(r.Pick("", "", rep(r.Pick(" ", "\n"), size(20000, 5)), "<?xml version='1.0'?>"))
	open := strings.Repeat("<"+outer+">"+r.Pick("", "", "x", "<s/>", "\n"), depth-1)
	b.WriteString(open)
	name := fix(word(2000, 5))
	b.WriteString("<" + name)
	for k := r.N(3); k > 0; k-- {
		fmt.Fprintf(&b, "%s%s%d='%s'", r.Pick(" ", "\n"), fix(word(600, 4)), k, rep(r.Pick("v", " ", "é", "&lt;"), size(5000, 5)))
	}
	b.WriteString(">")
	for k := r.N(3); k > 0; k-- {
		b.WriteString(r.Pick("<k/>", "<!--"+rep("c", size(3000, 4))+"-->", "<?"+fix(word(300, 3))+" "+rep("v", size(2000, 4))+"?>", "<![CDATA["+rep("]x", size(3000, 4))+"]]>", rep("t", size(3000, 5)),
			rep("<k/>", 4*size(600, 5)), "&#"+rep("0", size(400, 3))+"65;"))
	}
	end := []byte(name)
	if r.P(1, 2) {
		i := len(end) - 1
		if n := dictLen(r, len(end), 2); n > 0 {
			i = n - r.N(2)
			if i >= len(end) {
				i = len(end) - 1
			}
		} else if r.P(1, 2) {
			i = r.N(len(end))
		}
		if end[i] < 0x80 {
			end[i] = r.Pick("Z", "z", "_")[0]
		}
	}
	b.WriteString("</" + string(end) + ">")
	b.WriteString(strings.Repeat("</"+outer+">", depth-1))
	if b.Len() > 400000 {
		return []byte("<a/>")
	}
	return []byte(b.String())
}

func dictPlace(r *Rng, d []byte, w string) []byte {
	i := r.N(len(d) + 1)
	for i > 0 && i < len(d) && d[i]&0xc0 == 0x80 {
		i--
	}
	if r.P(1, 2) { // beside a delimiter
		if k := bytes.IndexAny(d[i:], "<>='\"&;/?!- \n"); k >= 0 {
			i += k + r.N(2)
		}
	}
	e := i
	if r.P(1, 3) && i < len(d) {
		e++
		for e < len(d) && d[e]&0xc0 == 0x80 {
			e++
		}
	}
	if r.P(1, 3) && i < len(d) && ampIsWord(d[i]) { // a whole name, everywhere
		a, e := i, i
		for a > 0 && ampIsWord(d[a-1]) {
			a--
		}
		for e < len(d) && ampIsWord(d[e]) {
			e++
		}
		if old := string(d[a:e]); !ampKeep[old] {
			nw := w
			switch r.N(3) {
			case 0:
				nw = old + w
			case 1:
				nw = w + old
			}
			return ampReplaceWord(d, old, nw)
		}
	}
	return splice(d, i, e, w)
}

func ampReplaceWord(d []byte, old, nw string) []byte {
	var b bytes.Buffer
	for j := 0; j < len(d); {
		if !ampIsWord(d[j]) {
			b.WriteByte(d[j])
			j++
			continue
		}
		q := j
		for q < len(d) && ampIsWord(d[q]) {
			q++
		}
		if x := string(d[j:q]); x == old {
			b.WriteString(nw)
		} else {
			b.WriteString(x)
		}
		j = q
	}
	if b.Len() > 400000 {
		return d
	}
	return b.Bytes()
}

func dictBase() {
	s, _, err := scanSource(filepath.Join(librarySource(), "vtdxml"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	b, _ := json.MarshalIndent(s, "", " ")
	fmt.Println(string(b))
}
