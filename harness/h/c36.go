package h

import (
	"runtime"

	"github.com/myyrakle/gost"
	"gostverif/fakeos"
	"gostverif/nd"
)

// a byte of a line: anything but what ends a line
func lineBytes(name string, n int) []byte {
	r := make([]byte, n)
	for i := range r {
		r[i] = nd.U8(name)
		nd.Assume(r[i] != '\n' && (r[i] != '\r' || i < n-1))
	}
	return r
}

// pieces splits b in every way.
func pieces(b []byte) [][]byte {
	var r [][]byte
	for len(b) > 0 {
		k := 1 + nd.Choice("piece", len(b))
		r = append(r, b[:k])
		b = b[k:]
	}
	return r
}

func readLines(lines [][]byte, tail bool, pre int) {
	var all []byte
	for i, l := range lines {
		all = append(all, l...)
		if i < len(lines)-1 || !tail {
			all = append(all, '\n')
		}
	}
	fakeos.SetStdin(pieces(all))
	var in gost.Stdin
	buf := gost.String(nd.Str("pre", pre))
	want := append([]byte{}, buf...)
	left := len(all)
	for i, l := range lines {
		if nd.Choice("fresh", 2) == 1 {
			buf, want = "", nil
		}
		in.ReadLine(&buf)
		want = append(want, l...)
		nd.Assert(fsSameS(want, buf), "ReadLine appends the line without its end")
		left -= len(l)
		if i < len(lines)-1 || !tail {
			left--
		}
		nd.Assert(fakeos.StdinLeft() == left, "the following lines are left for later calls")
	}
	in.ReadLine(&buf)
	nd.Assert(fsSameS(want, buf), "at the end of the input nothing is appended")
	p := in.Lock()
	nd.Assert(p.TryLock(), "the handle is not left locked")
}

// One line.
func H_C36_One() {
	fsStart()
	nd.Bound("a line of up to 5 (thorough: 8) bytes, ended by a newline or by the end of the input, arriving in every split, appended to 0..2 bytes")
	readLines([][]byte{lineBytes("line", nd.Choice("n", nd.Tier(6, 9)))}, nd.Choice("tail", 2) == 1, nd.Choice("pre", 3))
}

// Several lines.
func H_C36_Lines() {
	fsStart()
	nd.Bound("2..3 lines of up to 2 bytes (thorough: 3 of up to 3), the last ended by a newline or by the end of the input, arriving in every split")
	n := 2 + nd.Choice("lines", 2)
	var ls [][]byte
	for i := 0; i < n; i++ {
		ls = append(ls, lineBytes("line", nd.Choice("n", nd.Tier(3, 4))))
	}
	readLines(ls, nd.Choice("tail", 2) == 1, 1)
}

// Lines ended by a carriage return and a newline.
func H_C36_CarriageReturn() {
	fsStart()
	nd.Bound("a line of up to 3 (thorough: 5) bytes, carriage returns among them, ended by a carriage return and a newline, arriving in every split, then another line")
	l := fsBytes("line", nd.Choice("n", nd.Tier(4, 6)))
	for _, b := range l {
		nd.Assume(b != '\n')
	}
	end := []string{"z\n", "\r\n", "z"}[nd.Choice("end", 3)]
	all := append(append([]byte{}, l...), "\r\n"...)
	fakeos.SetStdin(append(pieces(all), []byte(end)))
	var in gost.Stdin
	a, b := gost.String("-"), gost.String("-")
	in.ReadLine(&a)
	nd.Assert(len(a) > 0 && a[0] == '-' && fsSameS(l, a[1:]), "ReadLine appends the line without its carriage return and newline")
	in.ReadLine(&b)
	want := "-z"
	if end == "\r\n" {
		want = "-"
	}
	nd.Assert(string(b) == want, "and the next one is intact")
}

// A long line, and input arriving at once.
func H_C36_Long() {
	fsStart()
	nd.Bound("lines of 600 and 5000 bytes followed by a short one, arriving at once or in two halves")
	n := []int{600, 5000}[nd.Choice("n", 2)]
	l, m := lineBytes("line", n), lineBytes("line", 2)
	all := append(append(append(append([]byte{}, l...), '\n'), m...), '\n')
	if nd.Choice("halves", 2) == 0 {
		fakeos.SetStdin([][]byte{all})
	} else {
		fakeos.SetStdin([][]byte{all[:n/2], all[n/2:]})
	}
	var in gost.Stdin
	var a, b gost.String
	in.ReadLine(&a)
	nd.Assert(fsSameS(l, a), "a long line is read whole")
	in.ReadLine(&b)
	nd.Assert(fsSameS(m, b), "and the next one is intact")
}

// Two handles share the standard input.
func H_C36_Handles() {
	fsStart()
	nd.Bound("two handles reading one of two lines each, arriving in every split")
	l, m := lineBytes("line", 2), lineBytes("line", 1)
	all := append(append(append(append([]byte{}, l...), '\n'), m...), '\n')
	fakeos.SetStdin(pieces(all))
	var in, in2 gost.Stdin
	var a, b gost.String
	in.ReadLine(&a)
	in2.ReadLine(&b)
	nd.Assert(fsSameS(l, a), "the first line")
	nd.Assert(fsSameS(m, b), "the second line")
}

// Two threads read lines through one handle.
func H_C36_Threads() {
	fsStart()
	nd.NoMerge()
	nd.PreemptAll()
	nd.Preempt(nd.Tier(2, 3))
	nd.Bound("two threads reading a line each through one handle, the input arriving at once; at most 2 (thorough: 3) preemptions anywhere in gost")
	l, m := lineBytes("line", 2), lineBytes("line", 1)
	fakeos.SetStdin([][]byte{append(append(append(append([]byte{}, l...), '\n'), m...), '\n')})
	var in gost.Stdin
	var a, b gost.String
	done := make(chan bool, 1)
	go func() {
		in.ReadLine(&b)
		done <- true
	}()
	in.ReadLine(&a)
	<-done
	nd.Assert(fakeos.StdinLeft() == 0, "every line is read")
	nd.Assert(fsSameS(l, a) && fsSameS(m, b) || fsSameS(l, b) && fsSameS(m, a), "two readers get a whole line each")
}

// While the handle is locked, nobody else reads through it.
func H_C36_Locked() {
	fsStart()
	nd.NoMerge()
	nd.PreemptAll()
	nd.Preempt(nd.Tier(2, 3))
	nd.Bound("a thread reading a line while another holds the lock of the handle; at most 2 (thorough: 3) preemptions anywhere in gost")
	l := lineBytes("line", 1)
	fakeos.SetStdin([][]byte{append(append([]byte{}, l...), '\n')})
	var in gost.Stdin
	var a gost.String
	done := make(chan bool, 1)
	p := in.Lock()
	p.Lock()
	go func() {
		in.ReadLine(&a)
		done <- true
	}()
	for i := 0; i < 3; i++ {
		runtime.Gosched()
		nd.Assert(fakeos.StdinLeft() == 2, "while the handle is locked, nobody reads through it")
	}
	p.Unlock()
	<-done
	nd.Assert(fsSameS(l, a), "the line is read once the handle is free")
	nd.Assert(in.Lock().TryLock(), "the handle is not left locked")
}

// A line longer than the buffers systems and libraries use.
func H_C36_Huge() {
	fsStart()
	nd.NoMerge()
	nd.Steps(60000000)
	nd.Bound("lines of 4096, 8191, 65535, 65536 and 70000 (thorough: and 140000) bytes, four of them arbitrary, followed by a short one, arriving at once or in two halves")
	n := []int{4096, 8191, 65535, 65536, 70000, 140000}[nd.Choice("n", nd.Tier(5, 6))]
	l := make([]byte, n)
	for i := range l {
		l[i] = byte('a' + i%23)
	}
	for _, i := range []int{0, 4095, n / 2, n - 1} {
		l[i] = nd.U8("c")
		nd.Assume(l[i] >= ' ')
	}
	all := append(append([]byte{}, l...), "\nzz\n"...)
	if nd.Choice("halves", 2) == 0 {
		fakeos.SetStdin([][]byte{all})
	} else {
		fakeos.SetStdin([][]byte{all[:n/2], all[n/2:]})
	}
	var in gost.Stdin
	a, b := gost.String("-"), gost.String("")
	in.ReadLine(&a)
	nd.Assert(a[0] == '-' && fsSameS(l, a[1:]), "a huge line is read whole")
	in.ReadLine(&b)
	nd.Assert(string(b) == "zz", "and the next one is intact")
}
