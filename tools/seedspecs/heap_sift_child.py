id='heap_sift_child'; prop='C17'
needs='a heap in which the hole reaches a node with a single child during Pop'
breaks='BinaryHeap.Pop does not move the hole below a lone last child, so a later Pop returns elements out of order'
edits=[('binary_heap.go','''	if child == end-1 {
''','''	if child+1 < end {
''')]
demo='''
import "github.com/myyrakle/gost"

func rec(p []gost.I32, k int) {
	if k == len(p) {
		h := gost.BinaryHeapNew[gost.I32]()
		for _, v := range p {
			h.Push(v)
		}
		for i := len(p); i > 0; i-- {
			if h.Pop().Unwrap() != gost.I32(i) {
				panic("out of order")
			}
		}
		return
	}
	for i := k; i < len(p); i++ {
		p[k], p[i] = p[i], p[k]
		rec(p, k+1)
		p[k], p[i] = p[i], p[k]
	}
}

func main() {
	for n := 1; n <= 7; n++ {
		p := []gost.I32{}
		for i := 1; i <= n; i++ {
			p = append(p, gost.I32(i))
		}
		rec(p, 0)
	}
}
'''
