package main

// Reader of grammar files in pigeon's notation.

import (
	"fmt"
	"go/scanner"
	"go/token"
	"strconv"
	"strings"
	"unicode/utf8"
)

type pegFile struct {
	Header string
	G      *pegGrammar
}

type pegLexer struct {
	name string
	src  string
	off  int
}

type pegError struct{ msg string }

func (l *pegLexer) fail(f string, a ...interface{}) {
	panic(pegError{fmt.Sprintf("%s: %s", l.at(l.off), fmt.Sprintf(f, a...))})
}

func (l *pegLexer) at(off int) string {
	return fmt.Sprintf("%s:%d", l.name, 1+strings.Count(l.src[:off], "\n"))
}

func (l *pegLexer) skip() {
	for l.off < len(l.src) {
		switch c := l.src[l.off]; {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ';':
			l.off++
		case strings.HasPrefix(l.src[l.off:], "//"):
			if i := strings.IndexByte(l.src[l.off:], '\n'); i >= 0 {
				l.off += i
			} else {
				l.off = len(l.src)
			}
		case strings.HasPrefix(l.src[l.off:], "/*"):
			if i := strings.Index(l.src[l.off:], "*/"); i >= 0 {
				l.off += i + 2
			} else {
				l.fail("comment not closed")
			}
		default:
			return
		}
	}
}

func (l *pegLexer) peek() byte {
	if l.off < len(l.src) {
		return l.src[l.off]
	}
	return 0
}

func isIdentByte(c byte, first bool) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || !first && c >= '0' && c <= '9' || c >= 0x80
}

func (l *pegLexer) ident() string {
	i := l.off
	for i < len(l.src) && isIdentByte(l.src[i], i == l.off) {
		i++
	}
	s := l.src[l.off:i]
	l.off = i
	return s
}

// arrow reports whether a rule's arrow is next, and skips it.
func (l *pegLexer) arrow() bool {
	for _, a := range []string{"<-", "=", "←", "⟵"} {
		if strings.HasPrefix(l.src[l.off:], a) {
			l.off += len(a)
			return true
		}
	}
	return false
}

// startsRule: name, optional display name, arrow.
func (l *pegLexer) startsRule() bool {
	save := l.off
	defer func() { l.off = save }()
	if l.ident() == "" {
		return false
	}
	l.skip()
	if c := l.peek(); c == '"' || c == '\'' || c == '`' {
		l.literal()
		l.skip()
	}
	return l.arrow()
}

// code reads a balanced block of Go.
func (l *pegLexer) code() string {
	start := l.off
	fs := token.NewFileSet()
	rest := []byte(l.src[start:])
	f := fs.AddFile("", fs.Base(), len(rest))
	var sc scanner.Scanner
	sc.Init(f, rest, func(token.Position, string) {}, 0)
	depth := 0
	for {
		pos, tok, _ := sc.Scan()
		switch tok {
		case token.LBRACE:
			depth++
		case token.RBRACE:
			depth--
			if depth == 0 {
				end := f.Offset(pos)
				l.off = start + end + 1
				return l.src[start+1 : start+end]
			}
		case token.EOF:
			l.fail("code block not closed")
		}
	}
}

func (l *pegLexer) literal() (string, bool) {
	q := l.peek()
	i := l.off + 1
	if q == '`' {
		j := strings.IndexByte(l.src[i:], '`')
		if j < 0 {
			l.fail("string not closed")
		}
		l.off = i + j + 1
		return l.src[i : i+j], false
	}
	rest := l.src[i:]
	var out strings.Builder
	for {
		if rest == "" || rest[0] == '\n' {
			l.fail("string not closed")
		}
		if rest[0] == q {
			break
		}
		r, mb, tail, err := strconv.UnquoteChar(rest, q)
		if err != nil {
			l.fail("bad character in string: %v", err)
		}
		if r < utf8.RuneSelf || mb {
			out.WriteRune(r)
		} else {
			out.WriteByte(byte(r))
		}
		rest = tail
	}
	l.off = len(l.src) - len(rest) + 1
	fold := false
	if l.peek() == 'i' && (l.off+1 >= len(l.src) || !isIdentByte(l.src[l.off+1], false)) {
		l.off++
		fold = true
	}
	return out.String(), fold
}

func (l *pegLexer) class() *peg {
	n := &peg{Kind: "class", Pos: l.at(l.off)}
	rest := l.src[l.off+1:]
	inv := false
	if strings.HasPrefix(rest, "^") {
		inv = true
		rest = rest[1:]
	}
	char := func() rune {
		if strings.HasPrefix(rest, "\\]") || strings.HasPrefix(rest, "\\-") || strings.HasPrefix(rest, "\\^") || strings.HasPrefix(rest, "\\[") {
			r := rune(rest[1])
			rest = rest[2:]
			return r
		}
		if strings.HasPrefix(rest, "\\p") {
			l.fail("character classes by Unicode table are not modelled")
		}
		r, _, tail, err := strconv.UnquoteChar(rest, 0)
		if err != nil {
			l.fail("bad character class: %v", err)
		}
		rest = tail
		return r
	}
	for {
		if rest == "" || rest[0] == '\n' {
			l.fail("character class not closed")
		}
		if rest[0] == ']' {
			break
		}
		lo := char()
		hi := lo
		if len(rest) > 1 && rest[0] == '-' && rest[1] != ']' {
			rest = rest[1:]
			hi = char()
		}
		n.Set = append(n.Set, [2]rune{lo, hi})
	}
	l.off = len(l.src) - len(rest) + 1
	if l.peek() == 'i' {
		l.off++
		n.Fold = true
	}
	n.Set = n.Set.norm()
	if inv {
		n.Set = n.Set.invert()
	}
	return n
}

func (l *pegLexer) choice() *peg {
	pos := l.at(l.off)
	alts := []*peg{l.action()}
	for {
		l.skip()
		if l.peek() != '/' {
			break
		}
		l.off++
		if l.peek() == '{' {
			l.fail("recovery expressions are not part of the notation")
		}
		l.skip()
		alts = append(alts, l.action())
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return &peg{Kind: "choice", Sub: alts, Pos: pos}
}

func (l *pegLexer) action() *peg {
	pos := l.at(l.off)
	var els []*peg
	for {
		l.skip()
		c := l.peek()
		if c == 0 || c == '/' || c == ')' || c == '{' {
			break
		}
		if isIdentByte(c, true) && l.startsRule() {
			break
		}
		els = append(els, l.labeled())
	}
	if len(els) == 0 {
		l.fail("empty sequence")
	}
	n := els[0]
	if len(els) > 1 {
		n = &peg{Kind: "seq", Sub: els, Pos: pos}
	}
	if l.peek() == '{' {
		p := l.at(l.off)
		n = &peg{Kind: "action", Sub: []*peg{n}, Code: l.code(), Pos: p}
	}
	return n
}

func (l *pegLexer) labeled() *peg {
	if isIdentByte(l.peek(), true) {
		save := l.off
		id := l.ident()
		l.skip()
		if l.peek() == ':' {
			pos := l.at(save)
			l.off++
			l.skip()
			return &peg{Kind: "label", Str: id, Sub: []*peg{l.prefixed()}, Pos: pos}
		}
		l.off = save
	}
	return l.prefixed()
}

func (l *pegLexer) prefixed() *peg {
	pos := l.at(l.off)
	switch l.peek() {
	case '&', '!':
		k := "and"
		if l.peek() == '!' {
			k = "not"
		}
		l.off++
		l.skip()
		if l.peek() == '{' {
			l.fail("code predicates are not part of the notation")
		}
		return &peg{Kind: k, Sub: []*peg{l.suffixed()}, Pos: pos}
	}
	return l.suffixed()
}

func (l *pegLexer) suffixed() *peg {
	pos := l.at(l.off)
	n := l.primary()
	save := l.off
	l.skip()
	switch l.peek() {
	case '?':
		l.off++
		return &peg{Kind: "opt", Sub: []*peg{n}, Pos: pos}
	case '*':
		l.off++
		return &peg{Kind: "star", Sub: []*peg{n}, Pos: pos}
	case '+':
		l.off++
		return &peg{Kind: "plus", Sub: []*peg{n}, Pos: pos}
	}
	l.off = save
	return n
}

func (l *pegLexer) primary() *peg {
	pos := l.at(l.off)
	switch c := l.peek(); {
	case c == '"' || c == '\'' || c == '`':
		s, fold := l.literal()
		return &peg{Kind: "lit", Str: s, Fold: fold, Pos: pos}
	case c == '[':
		return l.class()
	case c == '.':
		l.off++
		return &peg{Kind: "any", Pos: pos}
	case c == '(':
		l.off++
		l.skip()
		n := l.choice()
		l.skip()
		if l.peek() != ')' {
			l.fail("missing )")
		}
		l.off++
		return n
	case isIdentByte(c, true):
		return &peg{Kind: "ref", Str: l.ident(), Pos: pos}
	}
	l.fail("unexpected %q", l.peek())
	return nil
}

// parsePeg reads a grammar file.
func parsePeg(name, src string) (f *pegFile, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(pegError)
			if !ok {
				panic(r)
			}
			f, err = nil, fmt.Errorf("%s", e.msg)
		}
	}()
	l := &pegLexer{name: name, src: src}
	f = &pegFile{}
	l.skip()
	if l.peek() == '{' {
		f.Header = l.code()
	}
	var rs []*pegRule
	for {
		l.skip()
		if l.off >= len(l.src) {
			break
		}
		if !l.startsRule() {
			l.fail("rule expected")
		}
		r := &pegRule{Name: l.ident()}
		l.skip()
		if c := l.peek(); c == '"' || c == '\'' || c == '`' {
			l.literal()
			l.skip()
		}
		l.arrow()
		l.skip()
		r.Body = l.choice()
		rs = append(rs, r)
	}
	f.G = newGrammar(rs)
	if len(f.G.by) != len(rs) {
		return nil, fmt.Errorf("%s: a rule is defined twice", name)
	}
	return f, nil
}
