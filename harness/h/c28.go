package h

import (
	"github.com/myyrakle/gost"
	"gostverif/fakeos"
	"gostverif/nd"
)

// piece returns a piece of a template, what it stands for (nil: the next
// argument), and whether it is a placeholder.
func tplPiece(kinds int) (tpl, out string, arg bool) {
	switch nd.Choice("piece", kinds) {
	case 0:
		return "{}", "", true
	case 1:
		return "{{", "{", false
	case 2:
		return "}}", "}", false
	case 3:
		b := nd.Bytes("lit", 1)
		nd.Assume(b[0] < 0x80 && b[0] != '{' && b[0] != '}')
		return string(b), string(b), false
	case 4:
		b := nd.Bytes("two", 2)
		nd.Assume(b[0] >= 0xC2 && b[0] <= 0xDF && b[1]&0xC0 == 0x80)
		return string(b), string(b), false
	case 5:
		b := nd.Bytes("three", 3)
		nd.Assume(b[0] >= 0xE1 && b[0] <= 0xEC && b[1]&0xC0 == 0x80 && b[2]&0xC0 == 0x80)
		return string(b), string(b), false
	}
	b := nd.Bytes("four", 4)
	nd.Assume(b[0] >= 0xF1 && b[0] <= 0xF3 && b[1]&0xC0 == 0x80 && b[2]&0xC0 == 0x80 && b[3]&0xC0 == 0x80)
	return string(b), string(b), false
}

func H_C28_Pieces() {
	nd.NoMerge()
	nd.Bound("templates of up to 4 (thorough: 5) pieces, each {}, {{, }} or an arbitrary ASCII character; string arguments of two arbitrary bytes, one to as many as needed")
	n := nd.Choice("n", nd.Tier(5, 6))
	tpl, want := "", ""
	args := []any{}
	missing := false
	avail := nd.Choice("args", 4)
	for i := 0; i < avail; i++ {
		args = append(args, gost.String(nd.Str("arg", 2)))
	}
	used := 0
	for i := 0; i < n; i++ {
		t, o, arg := tplPiece(4)
		tpl += t
		if arg {
			if used < avail {
				o = string(args[used].(gost.String))
			} else {
				missing = true
			}
			used++
		}
		want += o
	}
	nd.Assume(missing || used == avail)
	var got gost.String
	p := nd.Catch(func() { got = gost.Format(gost.String(tpl), args...) })
	nd.Assert(p == missing, "Format: panics exactly when an argument is missing")
	nd.Assert(p || string(got) == want, "Format: literal text, braces and arguments in order")
}

func H_C28_Unicode() {
	nd.NoMerge()
	nd.Bound("templates of 2 (thorough: 3) pieces, among them arbitrary characters of 1 to 4 bytes")
	n := nd.Tier(2, 3)
	tpl, want := "", ""
	args := []any{}
	for i := 0; i < n; i++ {
		t, o, arg := tplPiece(7)
		tpl += t
		if arg {
			a := gost.String(nd.Str("arg", 1))
			args = append(args, a)
			o = string(a)
		}
		want += o
	}
	got := gost.Format(gost.String(tpl), args...)
	nd.Assert(string(got) == want, "Format: literal text, braces and arguments in order")
}

// every template of arbitrary ASCII bytes that is well formed
func H_C28_Bytes() {
	nd.NoMerge()
	n := nd.Choice("n", nd.Tier(6, 8))
	nd.Bound("every well-formed ASCII template of up to 5 (thorough: 7) bytes, with as many arguments as it has placeholders")
	b := nd.Bytes("t", n)
	want := ""
	args := []any{}
	for i := 0; i < n; i++ {
		c := b[i]
		nd.Assume(c < 0x80)
		switch {
		case c == '{':
			nd.Assume(i+1 < n)
			if b[i+1] == '{' {
				want += "{"
			} else {
				nd.Assume(b[i+1] == '}')
				s := []string{"<a>", "{}", "}}"}[len(args)%3]
				args = append(args, gost.String(s))
				want += s
			}
			i++
		case c == '}':
			nd.Assume(i+1 < n && b[i+1] == '}')
			want += "}"
			i++
		default:
			want += string(b[i : i+1])
		}
	}
	got := gost.Format(gost.String(b), args...)
	nd.Assert(string(got) == want, "Format: literal text, braces and arguments in order")
}

type noText struct{ x int }

// arguments of every kind
func H_C28_Arguments() {
	nd.NoMerge()
	nd.Bound("one template with two placeholders; arguments of every scalar and collection kind, and values that cannot be displayed")
	x, bad := any(nil), false
	want := ""
	switch nd.Choice("kind", 12) {
	case 0:
		v := gost.I8(nd.I8("v"))
		x, want = v, string(v.Display())
	case 1:
		x, want = gost.U64(18446744073709551615), "18446744073709551615"
	case 2:
		b := nd.Bool("b")
		x, want = gost.Bool(b), "false"
		if b {
			want = "true"
		}
	case 3:
		x, want = gost.Byte(65), "65"
	case 4:
		s := nd.Str("s", 2)
		x, want = gost.String(s), s
	case 5:
		x, want = gost.ISize(-5), "-5"
	case 6:
		v := gost.VecNew[opaque]()
		v.Push(1)
		x, want = v, string(v.Display())
	case 7:
		x, want = opaque(nd.I32("o")), "<opaque>"
	case 8:
		x, bad = noText{1}, true
	case 9:
		x, bad = 5, true
	case 10:
		x, bad = "raw", true
	case 11:
		o := gost.Some(gost.I32(12))
		x, want = o, string(o.Display())
	}
	first := nd.Choice("first", 2) == 1
	var got gost.String
	p := nd.Catch(func() {
		if first {
			got = gost.Format("a{}b{}c", x, gost.String("{}"))
		} else {
			got = gost.Format("a{}b{}c", gost.String("{}"), x)
		}
	})
	nd.Assert(p == bad, "Format: panics exactly when an argument cannot be displayed")
	w := "a{}b" + want + "c"
	if first {
		w = "a" + want + "b{}c"
	}
	nd.Assert(p || string(got) == w, "Format: each argument's display form, in order")
}

// what reaches the standard output
func H_C28_Print() {
	fsStart()
	nd.NoMerge()
	nd.Bound("up to 2 (thorough: 3) calls of Print or Println, each of a template of 2 pieces with string arguments of one arbitrary byte")
	want := ""
	for i, n := 0, nd.Tier(2, 3); i < n; i++ {
		tpl := ""
		args := []any{}
		for k := 0; k < 2; k++ {
			t, o, arg := tplPiece(5)
			tpl += t
			if arg {
				a := gost.String(nd.Str("arg", 1))
				args = append(args, a)
				o = string(a)
			}
			want += o
		}
		if nd.Choice("line", 2) == 1 {
			gost.Println(gost.String(tpl), args...)
			want += "\n"
		} else {
			gost.Print(gost.String(tpl), args...)
		}
		nd.Assert(fakeos.Output() == want, "Print writes what Format gives, Println adds one newline")
	}
}
