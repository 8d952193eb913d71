id='f64_text_exponent'; prop='C39'
needs='a float of at least 1e21 or below 1e-4'
breaks='its text has an exponent'
edits=[('to_string.go', "FormatFloat(float64(self), 'f', -1, 64)", "FormatFloat(float64(self), 'g', -1, 64)")]
demo='''

import "github.com/myyrakle/gost"

func main() {
	if gost.F64(1e-5).ToString() != "0.00001" {
		panic(gost.F64(1e-5).ToString())
	}
}
'''
