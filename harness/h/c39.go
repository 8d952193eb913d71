package h

import (
	"math"
	"strconv"

	"github.com/myyrakle/gost"
	"gostverif/nd"
)

// ---- C39 ----

// Where the texts themselves are computed, next to the arbitrary float, for
// which the shortest decimal is an uninterpreted function of the value.
var shown = []float64{0, math.Copysign(0, -1), 1, -2.5, 0.1, 1e21, 1e-7, 1.5e300, 5e-324, 16777217, 0.3333333333333333, 3.4e38, 123456789.125, math.Inf(1), math.Inf(-1), math.NaN()}

func plain(x float64, bits int) string { return strconv.FormatFloat(x, 'f', -1, bits) }

func H_C39_F64_Text() {
	nd.Bound("every float for Display and ToString; the listed floats for Debug, Format and the text itself")
	x := nd.F64("a")
	k := nd.Choice("at", len(shown)+1)
	if k > 0 {
		x = shown[k-1]
	}
	a := gost.F64(x)
	w := plain(x, 64)
	nd.Assert(string(a.ToString()) == w, "F64.ToString: must be the shortest decimal that reads back as the value")
	nd.Assert(string(a.Display()) == w, "F64.Display: must be the shortest decimal that reads back as the value")
	r := a.ToString().ParseF64()
	nd.Assert(bool(r.IsOk()), "ParseF64: must accept the text of every float")
	nd.Assert(nd.SameF64(float64(r.Unwrap()), x), "ParseF64: must give back the float whose text it reads")
	if k > 0 {
		nd.Assert(string(a.Debug()) == "F64("+w+")", "F64.Debug")
		nd.Assert(string(gost.Format("<{}>", a)) == "<"+w+">", "Format of an F64")
		nd.Observe("text", string(a.Display()))
	}
}

func H_C39_F32_Text() {
	nd.Bound("every float for Display and ToString; the listed floats for Debug, Format and the text itself")
	x := nd.F32("a")
	k := nd.Choice("at", len(shown)+1)
	if k > 0 {
		x = float32(shown[k-1])
	}
	a := gost.F32(x)
	w := plain(float64(x), 32)
	nd.Assert(string(a.ToString()) == w, "F32.ToString: must be the shortest decimal that reads back as the value")
	nd.Assert(string(a.Display()) == w, "F32.Display: must be the shortest decimal that reads back as the value")
	if k > 0 {
		nd.Assert(string(a.Debug()) == "F32("+w+")", "F32.Debug")
		nd.Assert(string(gost.Format("<{}>", a)) == "<"+w+">", "Format of an F32")
		nd.Observe("text", string(a.Display()))
	}
}

func H_C39_Complex_Text() {
	nd.Bound("every complex number for Display and ToString; pairs of the listed floats for Debug and the text itself")
	x, y := nd.F64("re"), nd.F64("im")
	k, j := nd.Choice("re.at", len(shown)+1), 0
	if k > 0 {
		j = nd.Choice("im.at", len(shown))
		x, y = shown[k-1], shown[j]
	}
	if nd.Choice("wide", 2) == 1 {
		z := complex(x, y)
		a := gost.Complex128(z)
		w := strconv.FormatComplex(z, 'f', -1, 128)
		nd.Assert(string(a.ToString()) == w, "Complex128.ToString: must show both parts in full")
		nd.Assert(string(a.Display()) == w, "Complex128.Display: must show both parts in full")
		if k > 0 {
			nd.Assert(string(a.Debug()) == "Complex128("+w+")", "Complex128.Debug")
		}
		return
	}
	z := complex(float32(x), float32(y))
	a := gost.Complex64(z)
	w := strconv.FormatComplex(complex128(z), 'f', -1, 64)
	nd.Assert(string(a.ToString()) == w, "Complex64.ToString: must show both parts in full")
	nd.Assert(string(a.Display()) == w, "Complex64.Display: must show both parts in full")
	if k > 0 {
		nd.Assert(string(a.Debug()) == "Complex64("+w+")", "Complex64.Debug")
	}
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// H_C39_Parse reads every short text without letters.
func H_C39_Parse() {
	nd.Bound("every text of up to 3 bytes (thorough: 4) without letters or underscores")
	n := nd.Choice("n", nd.Tier(4, 5))
	s := nd.Str("s", n)
	for i := 0; i < n; i++ {
		nd.Assume(!(s[i]|0x20 >= 'a' && s[i]|0x20 <= 'z') && s[i] != '_')
	}
	// [sign] digits [. digits]
	i, neg := 0, false
	if n > 0 && (s[0] == '-' || s[0] == '+') {
		neg = s[0] == '-'
		i = 1
	}
	mant, digits, div, dot, bad := int64(0), 0, 1.0, false, false
	for ; i < n && !bad; i++ {
		switch {
		case isDigit(s[i]):
			mant = mant*10 + int64(s[i]-'0')
			digits++
			if dot {
				div *= 10
			}
		case s[i] == '.' && !dot:
			dot = true
		default:
			bad = true
		}
	}
	r := gost.String(s).ParseF64()
	if bad || digits == 0 {
		nd.Assert(bool(r.IsErr()), "ParseF64: must reject a text that is no number")
		return
	}
	w := float64(mant)
	if dot && div > 1 {
		w /= div
	}
	if neg {
		w = -w
	}
	nd.Assert(bool(r.IsOk()), "ParseF64: must accept a decimal number")
	nd.Assert(nd.SameF64(float64(r.Unwrap()), w), "ParseF64: must give the float nearest to the decimal")
}

// H_C39_ParseWords reads texts with letters.
func H_C39_ParseWords() {
	texts := []string{"1e3", "-1.5E-2", "1e400", "-1e400", "inf", "-Infinity", "NaN", "0x1p4", "1_0", "abc", "1e", "e5", " 1", "1 ", "0.1", "1.7976931348623157e308", "4.9e-324", "16777217", "1e-400", "1e999999999", "-00000001e400", "100000000000000000000.5", "0.30000000000000004", "123456789012345678901234567890", "0x1.fffffffffffffp1023", "0x1p1024", "+Inf", "infinit", "nan()", "1,234", "1e+5", "1e+-5", "--1", "0b1", "0x", "1p4"}
	s := texts[nd.Choice("text", len(texts))]
	w, err := strconv.ParseFloat(s, 64)
	r := gost.String(s).ParseF64()
	nd.Assert(bool(r.IsErr()) == (err != nil), "ParseF64: must report Err exactly for a text that is no number in range")
	if err == nil {
		nd.Assert(nd.SameF64(float64(r.Unwrap()), w), "ParseF64: must give the float nearest to the text")
	}
}
