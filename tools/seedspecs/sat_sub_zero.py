id='sat_sub_zero'; prop='C02'
needs='a receiver of zero and an argument equal to the minimum'
breaks='I16.SaturatingSub saturates 0 - MIN to MIN instead of MAX'
edits=[('ops.go','''func (self I16) SaturatingSub(rhs I16) I16 {
	result := self - rhs

	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
		// Overflow occurred, saturate
		if self < 0 {''','''func (self I16) SaturatingSub(rhs I16) I16 {
	result := self - rhs

	if self._HasOverflow_Sub(rhs) || self._HasUnderflow_Sub(rhs) {
		// Overflow occurred, saturate
		if self <= 0 {''')]
demo='''
import "github.com/myyrakle/gost"

func main() {
	if gost.I16(0).SaturatingSub(-32768) != 32767 {
		panic("wrong bound")
	}
}
'''
