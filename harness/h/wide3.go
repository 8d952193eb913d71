package h

import (
	"github.com/myyrakle/gost"

	"gostverif/nd"
)

// utf8Of is the text of one character.
func utf8Of(c uint32) string {
	switch {
	case c < 0x80:
		return string([]byte{byte(c)})
	case c < 0x800:
		return string([]byte{0xC0 | byte(c>>6), 0x80 | byte(c)&0x3F})
	}
	return string([]byte{0xE0 | byte(c>>12), 0x80 | byte(c>>6)&0x3F, 0x80 | byte(c)&0x3F})
}

// Case mapping of other alphabets whose two cases lie a fixed distance apart.
func H_C30_CaseLetters() {
	nd.Bound("an arbitrary letter of the Latin-1, Greek, Cyrillic, Armenian, full-width, circled and Roman-numeral ranges and the Latin digraphs, with fixed case distance, between arbitrary ASCII characters")
	r := []struct{ first, last, skip, distance uint32 }{
		{0xC0, 0xDE, 0xD7, 32},    // Latin-1
		{0x391, 0x3A9, 0x3A2, 32}, // Greek
		{0x410, 0x42F, 0, 32},     // Cyrillic
		{0x400, 0x40F, 0, 80},     // Cyrillic
		{0x531, 0x556, 0, 48},     // Armenian
		{0xFF21, 0xFF3A, 0, 32},   // full width
		{0x24B6, 0x24CF, 0, 26},   // circled
		{0x2160, 0x216F, 0, 16},   // Roman numerals
		{0x1C4, 0x1C4, 0, 2},      // digraphs with a title case of their own
		{0x1C7, 0x1C7, 0, 2},
		{0x1CA, 0x1CA, 0, 2},
		{0x1F1, 0x1F1, 0, 2},
	}[nd.Choice("alphabet", 12)]
	k := nd.U8("letter")
	nd.Assume(uint32(k) <= r.last-r.first)
	c := r.first + uint32(k)
	nd.Assume(c != r.skip)
	a, b := nd.U8("before"), nd.U8("after")
	nd.Assume(a < 0x80 && b < 0x80)
	low := func(b byte) byte {
		if b >= 'A' && b <= 'Z' {
			return b + 32
		}
		return b
	}
	up := func(b byte) byte {
		if b >= 'a' && b <= 'z' {
			return b - 32
		}
		return b
	}
	big, small := utf8Of(c), utf8Of(c+r.distance)
	for _, m := range []string{big, small} {
		s := gost.String(string([]byte{a}) + m + string([]byte{b}))
		nd.Assert(string(s.ToLowercase()) == string([]byte{low(a)})+small+string([]byte{low(b)}), "ToLowercase of a letter of another alphabet")
		nd.Assert(string(s.ToUppercase()) == string([]byte{up(a)})+big+string([]byte{up(b)}), "ToUppercase of a letter of another alphabet")
	}
}

// Text without case is left alone.
func H_C30_CaseNone() {
	nd.Bound("characters of a script without case (Chinese, Japanese, Korean, Hebrew, Arabic, digits, symbols) between arbitrary ASCII characters which are no letters")
	m := []string{"\u4e2d", "\u3042", "\ud55c", "\u05d0", "\u0628", "\u0661", "\u20ac", "\U0001f600", "\u00d7", "\u00a0"}[nd.Choice("character", 10)]
	a := nd.U8("before")
	nd.Assume(a < 0x80 && !(a >= 'A' && a <= 'Z') && !(a >= 'a' && a <= 'z'))
	t := string([]byte{a}) + m + string([]byte{a})
	nd.Assert(string(gost.String(t).ToLowercase()) == t, "ToLowercase leaves text without case")
	nd.Assert(string(gost.String(t).ToUppercase()) == t, "ToUppercase leaves text without case")
}
