//go:build go1.21

package c30

import (
	"fmt"
	"io"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/r3volut1oner/go-karbo/config"
	"github.com/r3volut1oner/go-karbo/cryptonote"
	"github.com/r3volut1oner/go-karbo/zz_verif/vlib"
	log "github.com/sirupsen/logrus"
)

const (
	limit  = 500000000 // from here on an unlock time is a time of day
	blocks = 1         // a transaction may come that many blocks early
	secs   = 240       // or seconds
)

func unlocked(unlock uint64, height uint32, now uint64) bool {
	if unlock < limit {
		return uint64(height)+blocks >= unlock
	}
	return now+secs >= unlock
}

func set(vs ...[]uint64) []uint64 {
	m := map[uint64]bool{}
	for _, l := range vs {
		for _, v := range l {
			m[v] = true
		}
	}
	var out []uint64
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func around(d int64, vs ...uint64) (out []uint64) {
	for _, v := range vs {
		for k := -d; k <= d; k++ {
			out = append(out, v+uint64(k))
		}
	}
	return
}

func TestVerif(t *testing.T) {
	c := vlib.New("C30")
	logger := log.New()
	logger.Out = io.Discard
	var bits []uint64
	for k := uint(0); k < 64; k++ {
		bits = append(bits, 1<<k)
	}
	special := []uint64{0, limit, limit - secs, limit + secs, 1<<32 + limit, 2 * limit, 1 << 31, 1 << 32, ^uint64(0), 1<<63 + limit, 700000, 266000, 60000, 216000}
	unlocks := set(around(3, special...), around(2, bits...))
	heights := set(around(3, 0, limit, limit-1, 1<<31, 1<<32-1, 60000, 216000, 266000, 700000, 1<<16, 1<<24))
	dense := 400
	steps := []time.Duration{0, 1, time.Second - 1, time.Second, 239 * time.Second, time.Second, time.Second, 60 * time.Second, 24 * time.Hour,
		20 * 365 * 24 * time.Hour, 18 * 365 * 24 * time.Hour, 30 * 365 * 24 * time.Hour, 40 * 365 * 24 * time.Hour}
	if c.Thorough {
		dense = 4000
		unlocks = set(unlocks, around(300, special...))
	}
	for _, nt := range []*config.Network{config.MainNet(), config.TestNet()} {
		bc := cryptonote.NewBlockChain(nt, cryptonote.NewMemoryStorage(), logger)
		check := func(u uint64, h uint32, now uint64) {
			c.Eval(1)
			want := unlocked(u, h, now)
			if got := bc.IsTransactionSpendTimeUnlocked(u, h); got != want {
				c.Fail(fmt.Sprintf("unlock time %d, height %d, at %d", u, h, now), "unlocked: %v, must be %v", got, want)
			}
			c.Outcome(fmt.Sprintf("by height %v: %v", u < limit, want))
		}
		// by height: all small pairs, and pairs at the limits
		now := uint64(vlib.Now().Unix())
		for u := 0; u < dense; u++ {
			for h := 0; h < dense; h++ {
				check(uint64(u), uint32(h), now)
				c.Distinct(fmt.Sprint(u, h))
			}
		}
		for _, h := range heights {
			if h>>32 != 0 {
				continue
			}
			for _, u := range set(unlocks, around(3, h)) {
				if u < limit {
					check(u, uint32(h), now)
					c.Distinct(fmt.Sprint(u, h))
				}
			}
		}
		// by time: a history of moments in virtual time, at each of them every unlock time
		synctest.Test(t, func(*testing.T) {
			for _, d := range steps {
				time.Sleep(d)
				now := uint64(time.Now().Unix())
				for _, u := range set(unlocks, around(5, now, now+secs, now-secs, now+2*secs, now+1<<32, now-now%secs)) {
					for _, h := range []uint32{0, 1, 500000, uint32(now), 1<<32 - 1} {
						check(u, h, now)
						c.Distinct(fmt.Sprint(u, h, now))
					}
				}
				c.Transition(1)
			}
		})
	}
	c.Sample(fmt.Sprint(len(unlocks), " unlock times, ", len(heights), " heights, ", len(steps), " moments"))
	c.Done()
}
