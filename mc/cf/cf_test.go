package cf

import (
	"reflect"
	"testing"
	"verifmc/gram"
)

func TestLong(t *testing.T) {
	n := 0
	gram.Enumerate(gram.Bound{NTs: 2, Ts: 2, MaxAlts: 3, MaxBody: 4, Size: 5, NeedProd: true}, func(g *gram.G) {
		if n++; n%7 != 0 {
			return
		}
		Strings(len(g.Ts), 5, func(w []int) {
			a := New(g, w)
			b := &M{G: g, W: w, long: newLong(g, w)}
			if a.Accepts() != b.Accepts() || a.Viable() != b.Viable() || !reflect.DeepEqual(a.Forest(), b.Forest()) || a.Items() != b.Items() {
				t.Fatal(g.Key(), w)
			}
		})
	})
	t.Log(n)
}
