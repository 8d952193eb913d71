// Package fakefmt stands in for fmt when gost is analysed: printing goes to
// the stand-in of the standard output. Formatting is fmt's own.
package fakefmt

import (
	"fmt"
	"io"

	"gostverif/fakeos"
)

type (
	Stringer   = fmt.Stringer
	GoStringer = fmt.GoStringer
	Formatter  = fmt.Formatter
	State      = fmt.State
	Scanner    = fmt.Scanner
	ScanState  = fmt.ScanState
)

func Sprint(a ...any) string                              { return fmt.Sprint(a...) }
func Sprintln(a ...any) string                            { return fmt.Sprintln(a...) }
func Sprintf(format string, a ...any) string              { return fmt.Sprintf(format, a...) }
func Errorf(format string, a ...any) error                { return fmt.Errorf(format, a...) }
func Append(b []byte, a ...any) []byte                    { return append(b, fmt.Sprint(a...)...) }
func Appendln(b []byte, a ...any) []byte                  { return append(b, fmt.Sprintln(a...)...) }
func Appendf(b []byte, f string, a ...any) []byte         { return append(b, fmt.Sprintf(f, a...)...) }
func Sscan(s string, a ...any) (int, error)               { return fmt.Sscan(s, a...) }
func Sscanln(s string, a ...any) (int, error)             { return fmt.Sscanln(s, a...) }
func Sscanf(s, f string, a ...any) (int, error)           { return fmt.Sscanf(s, f, a...) }
func Fscan(r io.Reader, a ...any) (int, error)            { return fmt.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)          { return fmt.Fscanln(r, a...) }
func Fscanf(r io.Reader, f string, a ...any) (int, error) { return fmt.Fscanf(r, f, a...) }
func Scan(a ...any) (int, error)                          { return fmt.Fscan(fakeos.Stdin, a...) }
func Scanln(a ...any) (int, error)                        { return fmt.Fscanln(fakeos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)               { return fmt.Fscanf(fakeos.Stdin, f, a...) }

func Fprint(w io.Writer, a ...any) (int, error)   { return w.Write([]byte(fmt.Sprint(a...))) }
func Fprintln(w io.Writer, a ...any) (int, error) { return w.Write([]byte(fmt.Sprintln(a...))) }
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return w.Write([]byte(fmt.Sprintf(f, a...)))
}
func Print(a ...any) (int, error)            { return Fprint(fakeos.Stdout, a...) }
func Println(a ...any) (int, error)          { return Fprintln(fakeos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return Fprintf(fakeos.Stdout, f, a...) }
