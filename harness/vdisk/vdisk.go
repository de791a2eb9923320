//go:build go1.21

// Package vdisk is a storage that outlives the chain on it and fails when told.
package vdisk

import (
	"errors"

	"github.com/r3volut1oner/go-karbo/crypto"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/chainm"
)

// Crash ends a process in the middle of a storage call.
type Crash struct{}

// Err is what a failing call returns.
var Err = errors.New("the disk is broken")

// Disk is a storage that keeps its blocks when the chain object is gone and that fails when told.
type Disk struct {
	cryptonote.Storage
	Genesis chainm.Hash
	Inited  bool

	Calls   int // since arm
	Pushes  int
	hashes  int
	crashAt int // call at which the process ends, -1 never
	plan    Fault
	prev    chainm.Hash // predecessor of the block offered
	Fired   bool
}

type Fault struct {
	Name                                 string
	Push, Before, After, Prev, Init, Top bool
	HashAt                               int // HashAtIndex call that fails, from 1
}

func (d *Disk) Arm(f Fault, prev chainm.Hash, crashAt int) {
	d.Calls, d.Pushes, d.hashes, d.Fired = 0, 0, 0, false
	d.plan, d.prev, d.crashAt = f, prev, crashAt
}

func (d *Disk) Rest() { d.Arm(Fault{}, chainm.Hash{}, -1) }

func (d *Disk) step() {
	if d.crashAt == d.Calls {
		d.crashAt = -1
		d.Fired = true
		panic(Crash{})
	}
	d.Calls++
}

func (d *Disk) Init(g *cryptonote.Block) error {
	d.step()
	if d.plan.Init {
		d.Fired = true
		return Err
	}
	h := chainm.Hash(*g.Hash())
	if d.Inited {
		if h != d.Genesis {
			return cryptonote.ErrStorageNetworkMismatch
		}
		return nil
	}
	if err := d.Storage.Init(g); err != nil {
		return err
	}
	d.Inited, d.Genesis = true, h
	return nil
}

func (d *Disk) TopIndex() (uint32, error) {
	d.step()
	if d.plan.Top {
		d.Fired = true
		return 0, Err
	}
	return d.Storage.TopIndex()
}

func (d *Disk) TopBlock() (*cryptonote.Block, error) {
	d.step()
	if d.plan.Top {
		d.Fired = true
		return nil, Err
	}
	return d.Storage.TopBlock()
}

func (d *Disk) HaveBlock(h *crypto.Hash) bool {
	d.step()
	return d.Storage.HaveBlock(h)
}

func (d *Disk) GetBlock(h *crypto.Hash) *cryptonote.Block {
	d.step()
	if d.plan.Prev && !d.Fired && chainm.Hash(*h) == d.prev {
		d.Fired = true
		return nil
	}
	return d.Storage.GetBlock(h)
}

func (d *Disk) HashAtIndex(i uint32) (*crypto.Hash, error) {
	d.step()
	d.hashes++
	if d.hashes == d.plan.HashAt {
		d.Fired = true
		return nil, Err
	}
	return d.Storage.HashAtIndex(i)
}

func (d *Disk) PushBlock(b *cryptonote.Block, i *cryptonote.VerifBlockInfo, t cryptonote.TransactionsDetails) error {
	d.step()
	d.Pushes++
	if d.plan.Push {
		d.Fired = true
		return Err
	}
	if d.plan.Before {
		d.Fired = true
		panic(Crash{})
	}
	err := d.Storage.PushBlock(b, i, t)
	if d.plan.After {
		d.Fired = true
		panic(Crash{})
	}
	return err
}

// New takes a storage; it is empty if not started.
func New(st cryptonote.Storage, started bool) *Disk {
	d := &Disk{Storage: st, Inited: started, Genesis: chainm.Hash(*chainm.Genesis().Hash())}
	d.Rest()
	return d
}

// Protect runs f; the result says if the process ended.
func Protect(f func()) (dead bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(Crash); !ok {
				panic(x)
			}
			dead = true
		}
	}()
	f()
	return
}
