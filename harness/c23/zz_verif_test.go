//go:build go1.21

package c23

import (
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vsched"
)

var c *vlib.Ctx

func explore(w int, sc vsched.Scenario) {
	c.Set(w, sc.Name)
	st, fail := vsched.Explore(sc, c.Expired, func(s string) {
		c.Distinct(sc.Name + s)
		c.Sample(sc.Name + ": " + s)
	})
	if fail != "" {
		c.Fail(sc.Name, "%s", fail)
	}
	if !st.Complete {
		c.Cap("schedules of " + sc.Name)
	}
	c.Eval(st.Schedules)
	c.Transition(st.Steps)
	c.Trace(st.Schedules)
}

type place struct {
	h      *chainm.History
	offers []*chainm.Offer
	adds   []chainm.Call
	reads  []chainm.Call
}

func newPlace(top uint32) *place {
	h := chainm.NewHistory(top, int(top), chainm.Patterns[0])
	p := &place{h: h}
	m := h.Model
	da := m.NewDraft(m.Top)
	a, ma := da.Make("a")
	db := m.NewDraft(m.Top)
	db.B.Nonce = 1000
	b, mb := db.Make("b")
	dc := ma.NewDraft(ma.Top)
	dc.B.Nonce = 1001
	ac, _ := dc.Make("child of a")
	de := mb.NewDraft(mb.Top)
	de.B.Nonce = 1003
	bc, _ := de.Make("child of b")
	dd := m.NewDraft(m.Top)
	dd.Delta = 1
	bad, _ := dd.Make("bad")
	if a.Bad || b.Bad || ac.Bad || bc.Bad || !bad.Bad {
		panic("c23: offers")
	}
	p.offers = []*chainm.Offer{a, b, ac, bc, bad}
	for _, o := range p.offers {
		p.adds = append(p.adds, chainm.AddCall(o))
	}
	p.reads = []chainm.Call{chainm.TopCall, chainm.HeightCall, chainm.HaveCall(a), chainm.HaveCall(ac), chainm.HaveCall(b)}
	return p
}

func TestVerif(t *testing.T) {
	c = vlib.New("C23")
	places := []*place{newPlace(0), newPlace(3)}
	if c.Thorough {
		places = append(places, newPlace(12))
	}
	for _, p := range places {
		p := p
		at := fmt.Sprintf(" on top %d", p.h.Model.Top.Index)
		na, nr := len(p.adds), len(p.reads)
		all := append(append([]chainm.Call{}, p.adds...), p.reads...)
		// one thread: calls that never return are found at once
		c.Each("one thread"+at, len(all)*len(all), func(w, i int) {
			explore(w, p.h.Scenario([][]chainm.Call{{all[i/len(all)], all[i%len(all)]}}, p.offers))
		})
		// two writers of two
		c.Each("two writers"+at, na*na*na*na, func(w, i int) {
			x := vlib.Unrank(i, []int{na, na, na, na})
			if x[0]*na+x[1] > x[2]*na+x[3] {
				return
			}
			explore(w, p.h.Scenario([][]chainm.Call{{p.adds[x[0]], p.adds[x[1]]}, {p.adds[x[2]], p.adds[x[3]]}}, p.offers))
		})
		// three and four writers
		c.Each("three writers"+at, na*na*na, func(w, i int) {
			x := vlib.Unrank(i, []int{na, na, na})
			if x[0] > x[1] || x[1] > x[2] {
				return
			}
			explore(w, p.h.Scenario([][]chainm.Call{{p.adds[x[0]]}, {p.adds[x[1]]}, {p.adds[x[2]]}}, p.offers))
			if c.Thorough {
				for k := range p.adds {
					explore(w, p.h.Scenario([][]chainm.Call{{p.adds[x[0]]}, {p.adds[x[1]]}, {p.adds[x[2]]}, {p.adds[k]}}, p.offers))
				}
			}
		})
		// a writer of two and a reader of three
		c.Each("writer and reader"+at, na*na*nr*nr, func(w, i int) {
			x := vlib.Unrank(i, []int{na, na, nr, nr})
			explore(w, p.h.Scenario([][]chainm.Call{{p.adds[x[0]], p.adds[x[1]]}, {p.reads[x[2]], p.reads[x[3]]}}, p.offers))
			if c.Thorough {
				for _, r := range p.reads {
					explore(w, p.h.Scenario([][]chainm.Call{{p.adds[x[0]], p.adds[x[1]]}, {p.reads[x[2]], p.reads[x[3]], r}}, p.offers))
				}
			}
		})
		// two writers and a reader
		c.Each("two writers and a reader"+at, na*na*nr*nr, func(w, i int) {
			x := vlib.Unrank(i, []int{na, na, nr, nr})
			if x[0] > x[1] || !c.Thorough && i%3 != 0 {
				return
			}
			explore(w, p.h.Scenario([][]chainm.Call{{p.adds[x[0]]}, {p.adds[x[1]]}, {p.reads[x[2]], p.reads[x[3]]}}, p.offers))
		})
		// a writer and two readers
		c.Each("writer and two readers"+at, na*nr*nr, func(w, i int) {
			x := vlib.Unrank(i, []int{na, nr, nr})
			explore(w, p.h.Scenario([][]chainm.Call{{p.adds[x[0]], p.adds[(x[0]+2)%na]}, {p.reads[x[1]]}, {p.reads[x[2]]}}, p.offers))
		})
		// a reader that builds the locator, too
		c.Each("locator"+at, na*na, func(w, i int) {
			explore(w, p.h.Scenario([][]chainm.Call{{p.adds[i/na]}, {p.adds[i%na]}, {chainm.SparseCall}}, p.offers))
		})
	}
	c.Cov("race detector", vsched.Race)
	c.Done()
}
