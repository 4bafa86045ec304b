package lib

import (
	"verifsim/core"
	"verifsim/simrt"

	"github.com/ikawaha/kagome/v2/tokenizer/lattice/mem"
)

func init() { core.Register("C16", c16).Stalls() }

const made = 0x5eed

// thing is what is kept in the pools under test.
type thing struct {
	made   int
	pool   int
	holder int
	val    int // changed by each holder
	put    int // val when it was last put back
	uses   int
	data   []int
	whole  any // the object this is part of
}

type bigThing struct {
	pad [300]int
	thing
}

// pool hides the type parameter.
type pool struct {
	id  int
	get func() *thing
	put func(*thing)
}

func poolOf[T any](id int, inner func() *T, base func(*T) *thing) *pool {
	mp := mem.NewPool(func() *T {
		simrt.Point("constructor")
		x := inner()
		t := base(x)
		t.made, t.pool = made, id
		t.data = make([]int, 3)
		t.whole = x
		simrt.Point("constructed")
		return x
	})
	copyOf := mp // pools are passed by value
	n := 0
	return &pool{id: id,
		get: func() *thing {
			n++
			var x *T
			if n%2 == 0 {
				x = copyOf.Get()
			} else {
				x = mp.Get()
			}
			if x == nil {
				return nil
			}
			return base(x)
		},
		put: func(t *thing) {
			mp.Put(t.whole.(*T))
		},
	}
}

func c16(c *core.Ctx) {
	w := c.W
	var pools []*pool
	for n := w.Between(1, 3); n > 0; n-- {
		id := len(pools) + 1
		switch {
		case w.Chance(1, 4):
			pools = append(pools, poolOf(id, func() *bigThing { return new(bigThing) }, func(b *bigThing) *thing { return &b.thing }))
		case len(pools) > 0 && w.Chance(1, 3):
			other := pools[0] // a constructor that uses another pool
			pools = append(pools, poolOf(id, func() *thing {
				if t := other.get(); t != nil {
					t.val++
					t.put = t.val
					other.put(t)
				}
				return new(thing)
			}, func(t *thing) *thing { return t }))
		default:
			pools = append(pools, poolOf(id, func() *thing { return new(thing) }, func(t *thing) *thing { return t }))
		}
	}
	n := w.Between(2, 5)
	plans := make([][]int, n)
	total := 0
	big := w.Chance(1, 2000) // many objects in use at the same time
	waves := w.Between(1, 4)
	places := 16
	if big {
		places = 4000
		c.S.MaxSteps = 2000000000
		simrt.Probe("scale.many_objects")
	}
	for i := range plans {
		k := w.Between(2, 14)
		if big {
			k = w.Between(100, 2500)
		}
		for ; k > 0; k-- {
			plans[i] = append(plans[i], w.N(100))
			total++
		}
	}
	c.Shape = simrt.Sprintf("%d tasks, %d pools, %d operations", n, len(pools), total)
	done := make([]int, n)
	bad := make([]string, n)
	var tasks []*simrt.Task
	for i := range plans {
		me := i + 1
		list := plans[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("task%d", i), func() {
			type mine struct {
				t    *thing
				p    *pool
				val  int
				uses int
			}
			held := make([]mine, places)
			n := 0
			check := func(m *mine) bool {
				switch {
				case m.t.holder != me:
					bad[me-1] = simrt.Sprintf("task%d holds an object that task%d got too", me-1, m.t.holder-1)
				case m.t.val != m.val || m.t.uses != m.uses:
					bad[me-1] = simrt.Sprintf("task%d: object changed while it was held (value %d, was %d)", me-1, m.t.val, m.val)
				case m.t.made != made || m.t.pool != m.p.id || len(m.t.data) != 3:
					bad[me-1] = simrt.Sprintf("task%d: object was reset while it was held", me-1)
				default:
					return true
				}
				return false
			}
			for i, o := range list {
				if big { // waves: mostly take, then mostly give back
					if up := i*2*waves/len(list)%2 == 0; up != (o%2 == 0) && o/2%8 != 0 {
						o ^= 1
					}
				}
				if o%2 == 0 && n < len(held) || n == 0 {
					p := pools[(o/2)%len(pools)]
					t := p.get()
					done[me-1]++
					switch {
					case t == nil:
						bad[me-1] = simrt.Sprintf("task%d: Get returned nil", me-1)
						return
					case t.made != made || len(t.data) != 3:
						bad[me-1] = simrt.Sprintf("task%d: Get returned an object the constructor did not make", me-1)
						return
					case t.pool != p.id:
						bad[me-1] = simrt.Sprintf("task%d: Get of pool %d returned an object of pool %d", me-1, p.id, t.pool)
						return
					case t.holder != 0:
						bad[me-1] = simrt.Sprintf("task%d got an object task%d is still holding", me-1, t.holder-1)
						return
					case t.val != t.put:
						bad[me-1] = simrt.Sprintf("task%d got an object with value %d that was put back with value %d", me-1, t.val, t.put)
						return
					}
					if t.uses > 0 {
						simrt.Probe("pool.reused_by_task")
					}
					t.holder = me
					t.val = me*1000 + o
					t.uses++
					held[n] = mine{t, p, t.val, t.uses}
					n++
				} else {
					k := (o / 2) % n
					m := held[k]
					if !check(&m) {
						return
					}
					n--
					held[k] = held[n]
					m.t.val++
					m.t.put = m.t.val
					m.t.holder = 0
					m.p.put(m.t)
				}
				simrt.Point("between")
				for k, step := 0, 1+n/16; k < n; k += step {
					if !check(&held[k]) {
						return
					}
				}
			}
		}))
	}
	if !c.Finish(tasks...) {
		return
	}
	for i := range bad {
		c.Work += done[i]
		if bad[i] != "" {
			c.Fail("shared-object", "%s", bad[i])
			return
		}
	}
}
