package h

import (
	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// isAt: p occurs in s at i.
func isAt(s, p string, i int) bool {
	ok := true
	for j := 0; j < len(p); j++ {
		ok = ok && s[i+j] == p[j]
	}
	return ok
}

// Len, IsEmpty, Contains and Find.
func H_C30_Find() {
	nd.Bound("subjects of 0..6 (quick) or 0..9 (thorough) arbitrary bytes, patterns of 0..3")
	n := nd.Choice("n", nd.Tier(7, 10))
	m := nd.Choice("m", 4)
	s, p := nd.Str("s", n), nd.Str("p", m)
	g := gost.String(s)
	nd.Assert(int(g.Len()) == n, "Len is the number of bytes")
	nd.Assert(bool(g.IsEmpty()) == (n == 0), "IsEmpty")
	f := g.Find(gost.String(p))
	any := false
	first := true
	for i := 0; i+m <= n; i++ {
		at := isAt(s, p, i)
		if f.IsSome() {
			k := int(f.Unwrap())
			first = first && (k != i || at) && (i >= k || !at)
		}
		any = any || at
	}
	nd.Assert(bool(f.IsSome()) == any, "Find finds exactly the patterns that occur")
	if f.IsSome() {
		nd.Assert(int(f.Unwrap())+m <= n, "Find: within the string")
	}
	nd.Assert(first, "Find: the first match")
	nd.Assert(bool(g.Contains(gost.String(p))) == any, "Contains")
}

// Split at a separator.
func H_C30_Split() {
	nd.Bound("subjects of 0..5 (quick) or 0..8 (thorough) arbitrary bytes, separators of 1..2 arbitrary bytes")
	n := nd.Choice("n", nd.Tier(6, 9))
	m := nd.Choice("m", 2) + 1
	s, p := nd.Str("s", n), nd.Str("p", m)
	v := gost.String(s).Split(gost.String(p))
	k := int(v.Len())
	nd.Assert(k >= 1, "Split: at least one piece")
	pos := 0
	for i := 0; i < k; i++ {
		piece := string(v.GetUnchecked(gost.USize(i)))
		nd.Assert(pos+len(piece) <= n, "Split: pieces fit")
		nd.Assert(s[pos:pos+len(piece)] == piece, "Split: pieces in order")
		// no separator starts inside the piece
		for j := pos; j < pos+len(piece) && j+m <= n; j++ {
			nd.Assert(!isAt(s, p, j), "Split: every separator splits")
		}
		pos += len(piece)
		if i+1 < k {
			nd.Assert(pos+m <= n && isAt(s, p, pos), "Split: only at separators")
			pos += m
		}
	}
	nd.Assert(pos == n, "Split: joining the pieces restores the string")
}

func replaceOracle(s, old, with string) string {
	out := ""
	for i := 0; i < len(s); {
		if i+len(old) <= len(s) && s[i:i+len(old)] == old {
			out += with
			i += len(old)
		} else {
			out += s[i : i+1]
			i++
		}
	}
	return out
}

// Replace every match, from the left.
func H_C30_Replace() {
	nd.Bound("subjects of 0..5 (quick) or 0..8 (thorough) arbitrary bytes, patterns of 1..2 and replacements of 0..2 arbitrary bytes")
	n := nd.Choice("n", nd.Tier(6, 9))
	m := nd.Choice("m", 2) + 1
	r := nd.Choice("r", 3)
	s, p, w := nd.Str("s", n), nd.Str("p", m), nd.Str("w", r)
	got := gost.String(s).Replace(gost.String(p), gost.String(w))
	nd.Assert(string(got) == replaceOracle(s, p, w), "Replace")
}

// Repeat.
func H_C30_Repeat() {
	nd.Bound("strings of 0..4 arbitrary bytes repeated 0..5 times")
	n := nd.Choice("n", 5)
	k := nd.Choice("k", 6)
	s := nd.Str("s", n)
	want := ""
	for i := 0; i < k; i++ {
		want += s
	}
	g := gost.String(s)
	nd.Assert(string(g.Repeat(gost.USize(k))) == want, "Repeat")
	nd.Assert(string(g) == s, "Repeat leaves the receiver")
}

func isSpaceRune(c rune) bool {
	return c == ' ' || c >= 9 && c <= 13 || c == 0x85 || c == 0xA0 || c == 0x1680 ||
		c >= 0x2000 && c <= 0x200a || c == 0x2028 || c == 0x2029 || c == 0x202f || c == 0x205f || c == 0x3000
}

// Trim strips the white space at both ends.
func H_C30_TrimASCII() {
	nd.Bound("ASCII strings of 0..5 (quick) or 0..8 (thorough) bytes")
	n := nd.Choice("n", nd.Tier(6, 9))
	s := nd.Str("s", n)
	for i := 0; i < n; i++ {
		nd.Assume(s[i] < 0x80)
	}
	a, b := 0, n
	for a < n && isSpaceRune(rune(s[a])) {
		a++
	}
	for b > a && isSpaceRune(rune(s[b-1])) {
		b--
	}
	nd.Assert(string(gost.String(s).Trim()) == s[a:b], "Trim")
}

// Trim with characters of any length.
func H_C30_TrimUnicode() {
	nd.Bound("strings of 0..3 (quick) or 0..4 (thorough) arbitrary characters of any encoded length")
	k := nd.Choice("k", nd.Tier(4, 5))
	want, s := "", ""
	tail := ""
	started := false
	for i := 0; i < k; i++ {
		c, t := anyChar("c")
		s += t
		if isSpaceRune(c) {
			if started {
				tail += t
			}
		} else {
			started = true
			want += tail + t
			tail = ""
		}
	}
	nd.Assert(string(gost.String(s).Trim()) == want, "Trim")
}

// anyChar is an arbitrary Unicode scalar value and its UTF-8 encoding.
func anyChar(name string) (rune, string) {
	c := rune(nd.U32(name))
	switch nd.Choice(name+".len", 4) {
	case 0:
		nd.Assume(c >= 0 && c < 0x80)
		return c, string([]byte{byte(c)})
	case 1:
		nd.Assume(c >= 0x80 && c < 0x800)
		return c, string([]byte{0xC0 | byte(c>>6), 0x80 | byte(c)&0x3F})
	case 2:
		nd.Assume(c >= 0x800 && c < 0x10000 && (c < 0xD800 || c > 0xDFFF))
		return c, string([]byte{0xE0 | byte(c>>12), 0x80 | byte(c>>6)&0x3F, 0x80 | byte(c)&0x3F})
	}
	nd.Assume(c >= 0x10000 && c <= 0x10FFFF)
	return c, string([]byte{0xF0 | byte(c>>18), 0x80 | byte(c>>12)&0x3F, 0x80 | byte(c>>6)&0x3F, 0x80 | byte(c)&0x3F})
}

// Push appends one character; Pop undoes it.
func H_C30_PushPop() {
	nd.Bound("strings of 0..3 (quick) or 0..5 (thorough) arbitrary bytes, any character")
	n := nd.Choice("n", nd.Tier(4, 6))
	s := nd.Str("s", n)
	c, t := anyChar("c")
	g := gost.String(s)
	r := g.Push(gost.Char(c))
	nd.Assert(string(g) == s+t, "Push appends the character")
	nd.Assert(string(r) == s+t, "Push returns the string")
	p := g.Pop()
	nd.Assert(bool(p.IsSome()) && rune(p.Unwrap()) == c, "Pop returns the last character")
	nd.Assert(string(g) == s, "Pop undoes Push")
}

// Pop on any string.
func H_C30_Pop() {
	nd.Bound("strings of 0..4 (quick) or 0..5 (thorough) arbitrary bytes, well-formed or not")
	n := nd.Choice("n", nd.Tier(5, 6))
	s := nd.Str("s", n)
	g := gost.String(s)
	p := g.Pop()
	nd.Assert(bool(p.IsSome()) == (n > 0), "Pop is Some for every non-empty string")
	if n == 0 {
		nd.Assert(string(g) == "", "Pop of the empty string")
		return
	}
	rest := len(g)
	nd.Assert(rest < n && rest >= n-4, "Pop removes one character")
	nd.Assert(string(g) == s[:rest], "Pop leaves the rest as it was")
	if c := p.Unwrap(); c != 0xFFFD {
		nd.Assert(c >= 0 && c <= 0x10FFFF, "Pop: a character")
		g.Push(c)
		nd.Assert(string(g) == s, "pushing the popped character restores the string")
	}
}

// Several pushes, popped in reverse.
func H_C30_Stack() {
	nd.Bound("1..3 arbitrary characters of any encoded length")
	k := nd.Choice("k", 3) + 1
	g := gost.String("")
	cs := []rune{}
	for i := 0; i < k; i++ {
		c, _ := anyChar("c")
		g.Push(gost.Char(c))
		cs = append(cs, c)
	}
	for i := k - 1; i >= 0; i-- {
		nd.Assert(rune(g.Pop().Unwrap()) == cs[i], "characters come back in reverse")
	}
	nd.Assert(bool(g.IsEmpty()), "nothing is left")
}

// Concatenation.
func H_C30_Concat() {
	nd.Bound("strings of 0..4 arbitrary bytes each")
	a, b := nd.Str("a", nd.Choice("n", 5)), nd.Str("b", nd.Choice("m", 5))
	x := gost.String(a)
	nd.Assert(string(x.Add(gost.String(b))) == a+b, "Add concatenates")
	nd.Assert(string(x) == a, "Add leaves the receiver")
	x.AddAssign(gost.String(b))
	nd.Assert(string(x) == a+b, "AddAssign concatenates")
}

// Case mapping of ASCII text.
func H_C30_Case() {
	nd.Bound("ASCII strings of 0..5 (quick) or 0..8 (thorough) bytes")
	n := nd.Choice("n", nd.Tier(6, 9))
	s := nd.Str("s", n)
	for i := 0; i < n; i++ {
		nd.Assume(s[i] < 0x80)
	}
	lo, up := string(gost.String(s).ToLowercase()), string(gost.String(s).ToUppercase())
	nd.Assert(len(lo) == n && len(up) == n, "case mapping keeps the length of ASCII text")
	for i := 0; i < n; i++ {
		c := s[i]
		l, u := c, c
		if c >= 'A' && c <= 'Z' {
			l = c + 32
		}
		if c >= 'a' && c <= 'z' {
			u = c - 32
		}
		nd.Assert(lo[i] == l, "ToLowercase")
		nd.Assert(up[i] == u, "ToUppercase")
	}
}

// Bytes out and in again.
func H_C31_Bytes() {
	nd.Bound("strings of 0..6 (quick) or 0..12 (thorough) arbitrary bytes")
	n := nd.Choice("n", nd.Tier(7, 13))
	s := nd.Str("s", n)
	v := gost.String(s).IntoBytes()
	nd.Assert(int(v.Len()) == n, "IntoBytes: length")
	for i := 0; i < n; i++ {
		nd.Assert(byte(v.GetUnchecked(gost.USize(i))) == s[i], "IntoBytes: bytes in order")
	}
	nd.Assert(string(gost.StringFromUTF8(v)) == s, "StringFromUTF8 of IntoBytes gives the string back")
	u := gost.VecNew[gost.U8]()
	for i := 0; i < n; i++ {
		u.Push(gost.U8(s[i]))
	}
	t := gost.StringFromUTF8(u)
	nd.Assert(string(t) == s, "StringFromUTF8")
	if n > 0 {
		u.Set(0, u.GetUnchecked(0)+1)
		nd.Assert(string(t) == s, "StringFromUTF8 takes a copy")
	}
}

// Chars of well-formed text.
func H_C31_Chars() {
	nd.Bound("0..3 (quick) or 0..4 (thorough) arbitrary characters of any encoded length")
	k := nd.Choice("k", nd.Tier(4, 5))
	s := ""
	cs := []rune{}
	for i := 0; i < k; i++ {
		c, t := anyChar("c")
		s += t
		cs = append(cs, c)
	}
	v := gost.String(s).Chars()
	nd.Assert(int(v.Len()) == k, "Chars: one entry per character")
	for i := 0; i < k; i++ {
		nd.Assert(rune(v.GetUnchecked(gost.USize(i))) == cs[i], "Chars: in order")
	}
}

// Well-formed UTF-16.
func H_C31_UTF16() {
	nd.Bound("0..3 (quick) or 0..4 (thorough) arbitrary characters, one or two units each")
	k := nd.Choice("k", nd.Tier(4, 5))
	s := ""
	u := gost.VecNew[gost.U16]()
	for i := 0; i < k; i++ {
		c, t := anyChar("c")
		s += t
		if c < 0x10000 {
			u.Push(gost.U16(c))
		} else {
			u.Push(gost.U16(0xD800 + (c-0x10000)>>10))
			u.Push(gost.U16(0xDC00 + (c-0x10000)&0x3FF))
		}
	}
	r := gost.StringFromUTF16(u)
	nd.Assert(bool(r.IsOk()), "well-formed UTF-16 is accepted")
	nd.Assert(string(r.Unwrap()) == s, "StringFromUTF16 decodes the characters")
}

// Any units: accepted exactly when every surrogate is paired.
func H_C31_Surrogates() {
	nd.Bound("0..5 (quick) or 0..8 (thorough) arbitrary units")
	n := nd.Choice("n", nd.Tier(6, 9))
	u := gost.VecNew[gost.U16]()
	ok := true
	open := false // an unpaired high surrogate just before
	for i := 0; i < n; i++ {
		x := nd.U16("u")
		u.Push(gost.U16(x))
		hi, lo := x&0xFC00 == 0xD800, x&0xFC00 == 0xDC00
		ok = ok && lo == open
		open = hi && !open
	}
	ok = ok && !open
	r := gost.StringFromUTF16(u)
	nd.Assert(bool(r.IsOk()) == ok, "StringFromUTF16 is Ok exactly for well-formed sequences")
}
