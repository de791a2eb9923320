//go:build go1.21

package c22

import (
	"fmt"
	"testing"

	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	"github.com/r3volut1oner/go-karbo/zz_verif/vsched"
)

var c *vlib.Ctx

func explore(w int, sc vsched.Scenario) {
	c.Set(w, sc.Name)
	st, fail := vsched.Explore(sc, c.Expired, func(s string) {
		c.Distinct(sc.Name + s)
		c.Sample(sc.Name + ": " + s)
	})
	if fail != "" {
		c.Fail(sc.Name, "%s", fail)
	}
	if !st.Complete {
		c.Cap("schedules of " + sc.Name)
	}
	c.Eval(st.Schedules)
	c.Transition(st.Steps)
	c.Trace(st.Schedules)
}

func concurrent() {
	tops := []uint32{0, 1, 2, 3, 4, 5, 7, 8, 9}
	if c.Thorough {
		tops = append(tops, 6, 15, 16, 17, 33)
	}
	for _, top := range tops {
		h := chainm.NewHistory(top, int(top), chainm.Patterns[0])
		var adds []chainm.Call
		var offers []*chainm.Offer
		m := h.Model
		for k := 0; k < 3; k++ {
			d := m.NewDraft(m.Top)
			o, n := d.Make(fmt.Sprintf("next %d", k+1))
			if o.Bad {
				panic("c22: offer")
			}
			offers = append(offers, o)
			adds = append(adds, chainm.AddCall(o))
			m = n
		}
		d := h.Model.NewDraft(h.Model.Top)
		d.B.Nonce = 5555
		o, _ := d.Make("competing")
		offers = append(offers, o)
		comp := chainm.AddCall(o)
		s := chainm.SparseCall
		lists := [][][]chainm.Call{
			{{s, s}},
			{{adds[0], s, adds[1], s, adds[2], s}},
			{{adds[0]}, {s}},
			{{adds[0], adds[1]}, {s}},
			{{adds[0], adds[1], adds[2]}, {s}},
			{{adds[0]}, {comp}, {s}},
			{{adds[0]}, {s}, {s}},
			{{adds[0], s}, {s}},
			{{adds[0], adds[1]}, {s, chainm.HeightCall}},
			{{adds[0], adds[1]}, {chainm.TopCall, s}},
		}
		if c.Thorough || top < 4 {
			lists = append(lists, [][][]chainm.Call{
				{{adds[0], adds[1]}, {s, s}},
				{{adds[0], adds[1]}, {s}, {s}},
				{{adds[0], adds[1]}, {comp}, {s}},
				{{adds[0]}, {adds[1]}, {s}},
			}...)
		}
		c.Each(fmt.Sprintf("schedules on top %d", top), len(lists), func(w, i int) { explore(w, h.Scenario(lists[i], offers)) })
	}
}

func compare(desc string, got interface{}, ch chainm.Chain) {
	_, want := chainm.SparseCall.Step(ch)
	if got != want {
		c.Fail(desc, "the locator is %.300s, must be %.300s", got, want)
	}
	// each once
	seen := map[chainm.Hash]bool{}
	for _, h := range ch.Sparse() {
		if seen[h] {
			c.Fail(desc, "a block is listed twice")
		}
		seen[h] = true
	}
	c.Eval(1)
	c.Trace(1)
	c.Distinct(desc)
}

func lengths() {
	// 1. a chain growing block by block through the front door
	n := 2200
	if c.Thorough {
		n = 9000
	}
	c.Each("growing", 2, func(w, i int) {
		h := chainm.NewHistory(0, 0, chainm.Patterns[0])
		wd := h.World(nil)
		ch := h.ChainOf()
		if i == 1 && !c.Thorough {
			return
		}
		for k := 0; k < n && !c.Expired(); k++ {
			desc := fmt.Sprintf("chain of %d blocks", len(ch))
			c.Set(w, desc)
			compare(desc, chainm.SparseCall.Do(wd.BC), ch)
			if k%20 == 3 {
				compare(desc+", asked again", chainm.SparseCall.Do(wd.BC), ch)
			}
			d := wd.M.NewDraft(wd.M.Top)
			d.B.Nonce = uint32(i)
			b, raw := d.Finish()
			why, info, _ := wd.M.Judge(b, raw)
			if why != "" {
				panic("c22: " + why)
			}
			if err := wd.BC.AddBlock(txm.Block(b), raw); err != nil {
				c.Fail(desc, "a valid block is refused: %v", err)
			}
			wd.M.Push(info)
			ch = append(ch, info.Hash)
			c.Transition(1)
			// an offer that is refused changes nothing
			if k%50 == 7 {
				x := wd.M.NewDraft(wd.M.Top)
				x.Delta = 5
				b, raw := x.Finish()
				_ = wd.BC.AddBlock(txm.Block(b), raw)
				compare(desc+" and a refused one", chainm.SparseCall.Do(wd.BC), ch)
			}
		}
		c.Sample(fmt.Sprintf("grown to %d", len(ch)))
	})
	// 2. every length up to a bound, and lengths around powers of two, put in the storage directly
	max := uint32(1<<14 + 3)
	if c.Thorough {
		max = 1<<17 + 3
	}
	h := chainm.NewHistory(max, int(max), chainm.Patterns[1])
	ch := h.ChainOf()
	var tops []uint32
	for i := uint32(0); i < 700; i++ {
		tops = append(tops, i)
	}
	for p := uint32(1024); p < max; p *= 2 {
		for _, x := range []uint32{p - 2, p - 1, p, p + 1, p + 2, p + p/2} {
			if x <= max {
				tops = append(tops, x)
			}
		}
	}
	c.Each("lengths", len(tops), func(w, i int) {
		desc := fmt.Sprintf("chain of %d stored blocks", tops[i]+1)
		c.Set(w, desc)
		bc, _ := h.Prefix(int(tops[i])).NewChain()
		compare(desc, chainm.SparseCall.Do(bc), ch[:tops[i]+1])
		compare(desc+", asked again", chainm.SparseCall.Do(bc), ch[:tops[i]+1])
		c.Transition(1)
	})
}

func TestVerif(t *testing.T) {
	c = vlib.New("C22")
	if vsched.Race {
		concurrent()
		c.Cov("race detector", true)
	} else {
		lengths()
	}
	c.Done()
}
