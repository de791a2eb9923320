//go:build go1.21

package chainm

import (
	"errors"
	"fmt"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/ref"
	"github.com/r3volut1oner/go-karbo/zz_verif/txm"
	"github.com/r3volut1oner/go-karbo/zz_verif/vsched"
)

// Offer is a prepared block.
type Offer struct {
	Name  string
	B     *ref.Block
	Raw   [][]byte
	ID    Hash
	Index uint32
	Bad   bool // never acceptable
}

// Chain is the state of the sequential model: the blocks' hashes from genesis on.
type Chain []Hash

func (c Chain) Has(h Hash) bool {
	for _, x := range c {
		if x == h {
			return true
		}
	}
	return false
}

func (c Chain) Top() Hash { return c[len(c)-1] }

// Add says if an offer is accepted.
func (c Chain) Add(o *Offer) (Chain, bool) {
	if o.Bad || c.Has(o.ID) || o.B.Prev != c.Top() {
		return c, false
	}
	return append(append(Chain{}, c...), o.ID), true
}

// Sparse is the locator.
func (c Chain) Sparse() (out []Hash) {
	top := len(c) - 1
	out = append(out, c[top])
	for d := 1; d < top; d *= 2 {
		out = append(out, c[top-d])
	}
	if top > 0 {
		out = append(out, c[0])
	}
	return
}

// ChainOf lists a full history.
func (h *History) ChainOf() (c Chain) {
	for i := uint32(0); i <= h.Model.Top.Index; i++ {
		c = append(c, h.Model.ByIndex[i].Hash)
	}
	return
}

// Make finishes a draft; if it is acceptable, the model after it is returned too.
func (d *Draft) Make(name string) (*Offer, *Model) {
	b, raw := d.Finish()
	why, info, _ := d.M.Judge(b, raw)
	o := &Offer{Name: name, B: b, Raw: raw, ID: b.ID(), Index: d.Index, Bad: why != ""}
	if why != "" {
		return o, nil
	}
	m := d.M.Clone()
	m.Push(info)
	return o, m
}

// Call on a chain and its meaning in the sequential model.
type Call struct {
	Name string
	Do   func(bc *cryptonote.BlockChain) interface{}
	Step func(c Chain) (Chain, interface{})
}

func short(h Hash) string { return fmt.Sprintf("%x", h[:4]) }

func AddCall(o *Offer) Call {
	// a block that is there already has an outcome of its own: synchronization goes on after it
	return Call{"add " + o.Name, func(bc *cryptonote.BlockChain) interface{} {
		err := bc.AddBlock(txm.Block(o.B), o.Raw)
		switch {
		case err == nil:
			return "added"
		case errors.Is(err, cryptonote.ErrAddBlockAlreadyExists):
			return "is there"
		}
		return "refused"
	}, func(c Chain) (Chain, interface{}) {
		if c.Has(o.ID) {
			return c, "is there"
		}
		n, ok := c.Add(o)
		if ok {
			return n, "added"
		}
		return n, "refused"
	}}
}

func HaveCall(o *Offer) Call {
	return Call{"have " + o.Name, func(bc *cryptonote.BlockChain) interface{} {
		h := crypto.Hash(o.ID)
		return bc.HaveBlock(&h)
	}, func(c Chain) (Chain, interface{}) { return c, c.Has(o.ID) }}
}

var TopCall = Call{"top", func(bc *cryptonote.BlockChain) interface{} { return short(Hash(*bc.TopBlock().Hash())) }, func(c Chain) (Chain, interface{}) { return c, short(c.Top()) }}

var HeightCall = Call{"height", func(bc *cryptonote.BlockChain) interface{} { return int(bc.Height()) }, func(c Chain) (Chain, interface{}) { return c, len(c) }}

func list(l []Hash) string {
	s := ""
	for _, h := range l {
		s += short(h) + " "
	}
	return s
}

var SparseCall = Call{"sparse", func(bc *cryptonote.BlockChain) interface{} {
	l, err := bc.BuildSparseChain()
	if err != nil {
		return err.Error()
	}
	var x []Hash
	for _, h := range l {
		x = append(x, Hash(h))
	}
	// the list is the caller's, who may do with it what it wants
	for i := range l {
		l[i] = crypto.Hash{0x5a}
	}
	return list(x)
}, func(c Chain) (Chain, interface{}) { return c, list(c.Sparse()) }}

// Scenario of threads on a chain; a single thread's calls are checked in the same way.
func (h *History) Scenario(lists [][]Call, offers []*Offer) vsched.Scenario {
	desc := fmt.Sprintf("top %d ", h.Model.Top.Index)
	byName := map[string]Call{}
	for _, l := range lists {
		desc += "| "
		for _, x := range l {
			desc += x.Name + ", "
			byName[x.Name] = x
		}
	}
	start := h.ChainOf()
	return vsched.Scenario{Name: desc, Setup: func() ([]func(t *vsched.T), func(hist []vsched.Call) string) {
		bc, st := h.NewChain()
		var bodies []func(t *vsched.T)
		for _, l := range lists {
			l := l
			bodies = append(bodies, func(t *vsched.T) {
				for _, x := range l {
					t.Do(x.Name, func() interface{} { return x.Do(bc) })
				}
			})
		}
		return bodies, func(hist []vsched.Call) string {
			ok := vsched.Linear(start, hist, func(s Chain, k vsched.Call) (Chain, bool) {
				n, want := byName[k.Name].Step(s)
				return n, k.Out == want
			}, func(s Chain) bool {
				// what is there in the end
				if Hash(*bc.TopBlock().Hash()) != s.Top() || int(bc.Height()) != len(s) {
					return false
				}
				for i, want := range s {
					if x, _ := st.HashAtIndex(uint32(i)); x == nil || Hash(*x) != want {
						return false
					}
				}
				if x, _ := st.HashAtIndex(uint32(len(s))); x != nil {
					return false
				}
				for _, o := range offers {
					x := crypto.Hash(o.ID)
					if bc.HaveBlock(&x) != s.Has(o.ID) {
						return false
					}
				}
				return true
			})
			if !ok {
				return "no sequential order of the calls explains their results"
			}
			return ""
		}
	}}
}
