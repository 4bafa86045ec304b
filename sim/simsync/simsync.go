// Package simsync mirrors package sync with primitives that block in the
// simulator, announce the same happens-before edges as the real ones and
// let the simulator decide what a pool hands out.
package simsync

import (
	"sync"
	"unsafe"

	"verifsim/simrt"
)

// Unchanged parts of package sync.
type (
	Locker = sync.Locker
)

func p[T any](x *T) unsafe.Pointer { return unsafe.Pointer(x) }

// Mutex is a simulated sync.Mutex.
type Mutex struct {
	locked bool
	epoch  int
}

func (m *Mutex) fresh() {
	if m.epoch != simrt.Epoch() {
		m.epoch, m.locked = simrt.Epoch(), false
	}
}

func (m *Mutex) Lock() {
	simrt.Point("Mutex.Lock")
	m.fresh()
	for m.locked {
		if !simrt.Wait("Mutex.Lock", func() bool { return !m.locked }, nil) {
			return
		}
	}
	m.locked = true
	simrt.RaceAcquire(p(m))
}

func (m *Mutex) TryLock() bool {
	simrt.Point("Mutex.TryLock")
	m.fresh()
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(p(m))
	return true
}

func (m *Mutex) Unlock() {
	m.fresh()
	if !m.locked {
		if s := simrt.Active(); s != nil && s.Over() {
			return
		}
		panic("sync: unlock of unlocked mutex")
	}
	simrt.RaceRelease(p(m))
	m.locked = false
	simrt.Point("Mutex.Unlock")
}

// RWMutex is a simulated sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	writer  bool
	waiting int
	readers int
	epoch   int
	wsync   byte
	rsync   byte
}

func (m *RWMutex) fresh() {
	if m.epoch != simrt.Epoch() {
		*m = RWMutex{epoch: simrt.Epoch()}
	}
}

func (m *RWMutex) Lock() {
	simrt.Point("RWMutex.Lock")
	m.fresh()
	m.waiting++
	for m.writer || m.readers > 0 {
		if !simrt.Wait("RWMutex.Lock", func() bool { return !m.writer && m.readers == 0 }, nil) {
			return
		}
	}
	m.waiting--
	m.writer = true
	simrt.RaceAcquire(p(&m.wsync))
	simrt.RaceAcquire(p(&m.rsync))
}

func (m *RWMutex) TryLock() bool {
	simrt.Point("RWMutex.TryLock")
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	simrt.RaceAcquire(p(&m.wsync))
	simrt.RaceAcquire(p(&m.rsync))
	return true
}

func (m *RWMutex) Unlock() {
	m.fresh()
	if !m.writer {
		if s := simrt.Active(); s != nil && s.Over() {
			return
		}
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.RaceRelease(p(&m.wsync))
	m.writer = false
	simrt.Point("RWMutex.Unlock")
}

func (m *RWMutex) RLock() {
	simrt.Point("RWMutex.RLock")
	m.fresh()
	for m.writer || m.waiting > 0 {
		if !simrt.Wait("RWMutex.RLock", func() bool { return !m.writer && m.waiting == 0 }, nil) {
			return
		}
	}
	m.readers++
	simrt.RaceAcquire(p(&m.wsync))
}

func (m *RWMutex) TryRLock() bool {
	simrt.Point("RWMutex.TryRLock")
	m.fresh()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(p(&m.wsync))
	return true
}

func (m *RWMutex) RUnlock() {
	m.fresh()
	if m.readers == 0 {
		if s := simrt.Active(); s != nil && s.Over() {
			return
		}
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.RaceRelease(p(&m.rsync))
	m.readers--
	simrt.Point("RWMutex.RUnlock")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a simulated sync.Once.
type Once struct {
	done    bool
	running bool
	epoch   int
}

func (o *Once) Do(f func()) {
	simrt.Point("Once.Do")
	if o.epoch != simrt.Epoch() {
		o.epoch, o.running = simrt.Epoch(), false
	}
	for o.running && !o.done {
		if !simrt.Wait("Once.Do", func() bool { return !o.running || o.done }, nil) {
			return
		}
	}
	if o.done {
		simrt.RaceAcquire(p(o))
		return
	}
	o.running = true
	defer func() {
		if s := simrt.Active(); s != nil && s.Over() {
			return
		}
		simrt.RaceRelease(p(o))
		o.done, o.running = true, false
	}()
	f()
}

// OnceFunc mirrors sync.OnceFunc.
func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		pv    any
	)
	return func() {
		once.Do(func() {
			defer func() {
				pv = recover()
				if !valid {
					panic(pv)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(pv)
		}
	}
}

// OnceValue mirrors sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var ret T
	o := OnceFunc(func() { ret = f() })
	return func() T {
		o()
		return ret
	}
}

// OnceValues mirrors sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var (
		r1 T1
		r2 T2
	)
	o := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) {
		o()
		return r1, r2
	}
}

// WaitGroup is a simulated sync.WaitGroup.
type WaitGroup struct {
	n     int
	epoch int
}

func (w *WaitGroup) fresh() {
	if w.epoch != simrt.Epoch() {
		w.epoch, w.n = simrt.Epoch(), 0
	}
}

func (w *WaitGroup) Add(d int) {
	w.fresh()
	if d < 0 {
		simrt.RaceRelease(p(w))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Point("WaitGroup.Add")
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	simrt.Point("WaitGroup.Wait")
	w.fresh()
	for w.n > 0 {
		if !simrt.Wait("WaitGroup.Wait", func() bool { return w.n == 0 }, nil) {
			return
		}
	}
	simrt.RaceAcquire(p(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		simrt.Point("WaitGroup.Go")
		f()
	}()
}

// Cond is a simulated sync.Cond.
type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	woken := new(bool)
	c.waiters = append(c.waiters, woken)
	c.L.Unlock()
	simrt.Wait("Cond.Wait", func() bool { return *woken }, nil)
	simrt.RaceAcquire(p(c))
	c.L.Lock()
}

func (c *Cond) Signal() {
	simrt.RaceRelease(p(c))
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	simrt.Point("Cond.Signal")
}

func (c *Cond) Broadcast() {
	simrt.RaceRelease(p(c))
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	simrt.Point("Cond.Broadcast")
}

// Pool is a sync.Pool whose recycling the simulator decides: a Get may
// return any object put back before or a new one, and the pool may be emptied at any time.
type Pool struct {
	New   func() any
	epoch int
	top   *poolItem // latest first
	end   *poolItem // the oldest
	n     int
	next  *Pool
}

// poolItem is an element of the list of free objects. (A list, because the race
// detector looks into appending to and copying of slices even in code it does not instrument.)
type poolItem struct {
	v    any
	next *poolItem
	prev *poolItem
	sync byte
}

func (pl *Pool) fresh() {
	if pl.epoch != simrt.Epoch() {
		pl.epoch = simrt.Epoch()
		pl.clear()
		if poolsOf != pl.epoch {
			poolsOf, pools = pl.epoch, nil
		}
		pl.next, pools = pools, pl
	}
}

// pools are the pools used in the run.
var (
	pools   *Pool
	poolsOf int
)

// Purge empties all pools, as the garbage collector may at any time.
func Purge() {
	if poolsOf != simrt.Epoch() {
		return
	}
	for pl := pools; pl != nil; pl = pl.next {
		pl.clear()
	}
}

// take removes the k-th latest item.
func (pl *Pool) take(k int) *poolItem {
	var it *poolItem
	if k < pl.n/2 {
		for it = pl.top; k > 0; k-- {
			it = it.next
		}
	} else {
		for it = pl.end; k < pl.n-1; k++ {
			it = it.prev
		}
	}
	if it.prev == nil {
		pl.top = it.next
	} else {
		it.prev.next = it.next
	}
	if it.next == nil {
		pl.end = it.prev
	} else {
		it.next.prev = it.prev
	}
	pl.n--
	return it
}

func (pl *Pool) clear() { pl.top, pl.end, pl.n = nil, nil, 0 }

// reach is how far into a big pool an object that is neither one of the latest nor one of the oldest is taken from.
const reach = 1000

// poolPolicy is fixed per run: 0 always recycle the latest, 1 always fresh,
// 2 oldest first, 3 anything, 4 anything and purges.
func policy(s *simrt.Sim) (*simrt.Stream, int) {
	st := s.C.Stream("pool")
	if s.PoolPolicy == 0 {
		s.PoolPolicy = 1 + st.Pick(3, 1, 2, 3, 3)
	}
	return st, s.PoolPolicy - 1
}

func (pl *Pool) Get() any {
	simrt.Point("Pool.Get")
	pl.fresh()
	s := simrt.Active()
	if s != nil && !s.Over() && pl.n > 0 && simrt.Inside() {
		st, pol := policy(s)
		k := 0
		switch pol {
		case 1:
			k = -1
		case 2:
			k = pl.n - 1
		case 3, 4:
			if pol == 4 && st.Chance(1, 200) {
				pl.clear()
				simrt.Probe("pool.purge")
				k = -1
				break
			}
			switch v := st.Pick(6, 2, 4); v {
			case 1:
				k = -1
			case 2:
				if k = st.N(pl.n); k >= reach && k < pl.n-reach {
					k %= reach
				}
			}
		}
		if k >= 0 {
			it := pl.take(k)
			simrt.RaceAcquire(unsafe.Pointer(&it.sync))
			simrt.Probe("pool.recycled")
			return it.v
		}
	}
	simrt.Probe("pool.fresh")
	if pl.New == nil {
		return nil
	}
	return pl.New()
}

func (pl *Pool) Put(x any) {
	simrt.Point("Pool.Put")
	if x == nil {
		return
	}
	pl.fresh()
	s := simrt.Active()
	if s == nil || s.Over() || !simrt.Inside() {
		return
	}
	if pl.n < 1<<16 {
		it := &poolItem{v: x, next: pl.top}
		simrt.RaceRelease(unsafe.Pointer(&it.sync))
		if pl.top == nil {
			pl.end = it
		} else {
			pl.top.prev = it
		}
		pl.top = it
		pl.n++
	}
}
