package h

import (
	"math"

	"github.com/myyrakle/gost"
	"github.com/myyrakle/gost/gokio"
	"gostverif/faketime"
	"gostverif/nd"
)

// Updates under the lock.
func H_C33_Counter() {
	nd.Bound("2 threads of 2 updates with at most 3 preemptions, or 3 of 1 with at most 2 (thorough: 2 of 3 with 3, 3 of 1 with 3), anywhere in gost or between lock operations")
	nd.PreemptAll()
	threads, rounds := 2, nd.Tier(2, 3)
	if nd.Choice("shape", 2) == 1 {
		threads, rounds = 3, 1
		nd.Preempt(nd.Tier(2, 3))
	} else {
		nd.Preempt(3)
	}
	x0 := nd.I32("x")
	m := gost.MutexNew[gost.I32](gost.I32(x0))
	inside := 0
	done := make(chan int, threads)
	for i := 0; i < threads; i++ {
		d := nd.I32("d")
		go func() {
			for k := 0; k < rounds; k++ {
				p := m.Lock()
				inside++
				nd.Assert(inside == 1, "at most one thread is inside the lock")
				v := *p
				nd.Point()
				*p = v + gost.I32(d)
				nd.Assert(inside == 1, "at most one thread is inside the lock")
				inside--
				m.Unlock()
			}
			done <- int(d) * rounds
		}()
	}
	sum := int32(0)
	for i := 0; i < threads; i++ {
		sum += int32(<-done)
	}
	nd.Assert(int32(*m.Lock()) == x0+sum, "no update is lost")
	m.Unlock()
	r := m.TryLock()
	nd.Assert(bool(r.IsOk()), "the lock is free at the end")
}

// Lock and TryLock together.
func H_C33_TryLock() {
	nd.Bound("one thread locking, one trying 2 times, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	m := gost.MutexNew[gost.I32](5)
	inside := 0
	changes := 0 // lock operations that took effect
	done := make(chan int, 2)
	go func() {
		p := m.Lock()
		changes++
		inside++
		nd.Assert(inside == 1, "at most one thread is inside the lock")
		nd.Point()
		*p = 6
		nd.Assert(inside == 1, "at most one thread is inside the lock")
		inside--
		changes++
		m.Unlock()
		changes++
		done <- 1
	}()
	go func() {
		for k := 0; k < 2; k++ {
			before, quiet := changes, changes == 0 || changes == 3
			r := m.TryLock()
			if r.IsOk() {
				inside++
				nd.Assert(inside == 1, "a successful TryLock excludes the others")
				v := *r.Unwrap()
				nd.Point()
				nd.Assert(*r.Unwrap() == v, "nobody else writes while the lock is held")
				nd.Assert(inside == 1, "a successful TryLock excludes the others")
				inside--
				m.Unlock()
			} else {
				nd.Assert(bool(r.IsErr()), "TryLock is Ok or Err")
				// nobody held it from before the call to after it
				nd.Assert(!(quiet && changes == before && before == 3), "TryLock fails only when the lock is held")
			}
		}
		done <- 1
	}()
	<-done
	<-done
	nd.Assert(*m.Lock() == 6, "the update is there")
}

// TryLock's answer, one thread.
func H_C33_Held() {
	nd.Bound("sequences of 4 (thorough: 6) TryLock/Lock/Unlock operations of one thread that do not block")
	v := nd.I32("v")
	m := gost.MutexNew[gost.I32](gost.I32(v))
	held := false
	cur := gost.I32(v)
	n := nd.Tier(4, 6)
	for i := 0; i < n; i++ {
		if held {
			if nd.Choice("op", 2) == 0 {
				m.Unlock()
				held = false
			} else {
				r := m.TryLock()
				nd.Assert(bool(r.IsErr()) && !bool(r.IsOk()), "TryLock of a held lock is Err")
			}
			continue
		}
		var p *gost.I32
		if nd.Choice("op", 2) == 0 {
			p = m.Lock()
		} else {
			r := m.TryLock()
			nd.Assert(bool(r.IsOk()), "TryLock of a free lock is Ok")
			p = r.Unwrap()
		}
		held = true
		nd.Assert(*p == cur, "the value is the one left behind")
		cur = el("w")
		*p = cur
	}
}

// A blocked Lock proceeds.
func H_C33_Blocked() {
	nd.Bound("1..2 threads blocked in Lock, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	m := gost.MutexNew[gost.I32](0)
	n := nd.Choice("n", 2) + 1
	m.Lock()
	got := 0
	done := make(chan int, 2)
	for i := 0; i < n; i++ {
		go func() {
			p := m.Lock()
			*p++
			got++
			m.Unlock()
			done <- 1
		}()
	}
	nd.Quiesce()
	nd.Assert(got == 0, "Lock waits while the lock is held")
	nd.Assert(bool(m.TryLock().IsErr()), "TryLock of a held lock is Err")
	m.Unlock()
	for i := 0; i < n; i++ {
		<-done
	}
	nd.Assert(got == n && int(*m.Lock()) == n, "every blocked Lock proceeds")
}

// Two mutexes do not interfere.
func H_C33_Two() {
	nd.Bound("two mutexes")
	a, b := gost.MutexNew[gost.I32](1), gost.MutexNew[gost.I32](2)
	p := a.Lock()
	r := b.TryLock()
	nd.Assert(bool(r.IsOk()), "another mutex is free")
	*p = 7
	nd.Assert(*r.Unwrap() == 2, "another mutex has its own value")
	a.Unlock()
	nd.Assert(bool(b.TryLock().IsErr()), "unlocking one leaves the other locked")
	nd.Assert(bool(a.TryLock().IsOk()), "and frees its own")
}

// Spawn, Join and IsFinished under every schedule.
func H_C34_Join() {
	nd.Bound("sequences of 3 (thorough: 4) Join or IsFinished calls on one thread, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	ran, ended := 0, false
	h := gost.Spawn(func() {
		ran++
		nd.Point()
		nd.Point()
		ended = true
	})
	n := nd.Tier(3, 4)
	for i := 0; i < n; i++ {
		was := ended
		if nd.Choice("op", 2) == 0 {
			r := h.Join()
			nd.Assert(ended, "Join returns only after the function has ended")
			nd.Assert(bool(r.IsOk()), "Join returns Ok")
		} else {
			f := h.IsFinished()
			nd.Assert(!f || ended, "IsFinished is true only after the end")
			_ = was
		}
	}
	nd.Quiesce()
	nd.Assert(ended && ran == 1, "the function runs exactly once")
	nd.Assert(h.IsFinished(), "IsFinished becomes true")
	nd.Assert(bool(h.Join().IsOk()), "Join returns once the function has ended")
	nd.Assert(h.IsFinished(), "IsFinished stays true")
}

// Two spawned threads, joined in either order.
func H_C34_Two() {
	nd.Bound("two threads joined in either order, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	var ran, ended [2]int
	var hs [2]gost.JoinHandle
	for i := 0; i < 2; i++ {
		i := i
		hs[i] = gost.Spawn(func() {
			ran[i]++
			nd.Point()
			ended[i]++
		})
	}
	a := nd.Choice("first", 2)
	f := hs[1-a].IsFinished()
	nd.Assert(!f || ended[1-a] == 1, "IsFinished speaks of its own thread")
	nd.Assert(bool(hs[a].Join().IsOk()), "Join returns Ok")
	nd.Assert(ended[a] == 1, "Join waits for its own thread")
	nd.Assert(bool(hs[1-a].Join().IsOk()), "Join returns Ok")
	nd.Assert(ended[1-a] == 1, "Join waits for its own thread")
	nd.Assert(ran[0] == 1 && ran[1] == 1, "each function runs exactly once")
}

// Several joiners of one thread.
func H_C34_Joiners() {
	nd.Bound("two threads joining a third, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	ended := false
	h := gost.Spawn(func() {
		nd.Point()
		ended = true
	})
	done := make(chan int, 2)
	go func() {
		h.Join()
		nd.Assert(ended, "Join returns only after the function has ended")
		done <- 1
	}()
	if nd.Choice("second", 2) == 0 {
		h.Join()
	} else {
		nd.Assert(!h.IsFinished() || ended, "IsFinished is true only after the end")
	}
	<-done
	nd.Assert(bool(h.Join().IsOk()), "Join always returns once the function has ended")
}

// A future delivers its value, however often it is awaited.
func H_C35_Await() {
	nd.Bound("1..3 awaits by one thread, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	v := nd.I64("v")
	ran := 0
	f := gokio.Spawn(func() gost.I64 {
		ran++
		nd.Point()
		return gost.I64(v)
	})
	n := nd.Choice("n", 3) + 1
	for i := 0; i < n; i++ {
		nd.Assert(int64(f.Await()) == v, "Await returns the value computed")
		nd.Assert(ran == 1, "the function runs exactly once")
	}
	nd.Quiesce()
	nd.Assert(int64(f.Await()) == v, "a later Await returns the same value")
	nd.Assert(ran == 1, "the function runs exactly once")
}

// Two threads awaiting one future.
func H_C35_Shared() {
	nd.Bound("two threads awaiting one future, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	v := nd.I64("v")
	ran := 0
	f := gokio.Spawn(func() gost.I64 {
		ran++
		return gost.I64(v)
	})
	done := make(chan int64, 1)
	go func() { done <- int64(f.Await()) }()
	a := int64(f.Await())
	b := <-done
	nd.Assert(a == v && b == v, "both threads get the value")
	nd.Assert(ran == 1, "the function runs exactly once")
}

// Two futures at a time, awaited in either order.
func H_C35_Two() {
	nd.Bound("two futures awaited in either order, at most 3 (thorough: 4) preemptions")
	nd.PreemptAll()
	nd.Preempt(nd.Tier(3, 4))
	v := [2]int64{nd.I64("v"), nd.I64("v")}
	var ran [2]int
	var fs [2]gost.Future[gost.I64]
	for i := 0; i < 2; i++ {
		i := i
		fs[i] = gokio.Spawn(func() gost.I64 {
			ran[i]++
			return gost.I64(v[i])
		})
	}
	a := nd.Choice("first", 2)
	nd.Assert(int64(fs[a].Await()) == v[a], "each future delivers its own value")
	nd.Assert(int64(fs[1-a].Await()) == v[1-a], "each future delivers its own value")
	nd.Assert(int64(fs[a].Await()) == v[a], "awaiting again returns the same value")
	nd.Assert(ran[0] == 1 && ran[1] == 1, "each function runs exactly once")
}

// A future never awaited still runs.
func H_C35_Unawaited() {
	nd.Bound("a task that is not awaited for long; zero and non-zero values")
	nd.Preempt(2)
	v := nd.I64("v")
	ran := 0
	f := gokio.Spawn(func() gost.I64 {
		ran++
		return gost.I64(v)
	})
	nd.Quiesce()
	nd.Assert(ran == 1, "the function runs without being awaited")
	nd.Assert(int64(f.Await()) == v, "and its value is kept")
}

// Sleep waits at least as long as asked.
func H_C37_Sleep() {
	nd.NeedFakes()
	nd.Bound("every Duration, from DurationNew")
	secs, nanos := nd.U64("secs"), nd.U32("nanos")
	nd.Assume(secs <= math.MaxUint64-4)
	sleepOf(gost.DurationNew(gost.U64(secs), gost.U32(nanos)))
}

// Durations built from smaller units.
func H_C37_Units() {
	nd.NeedFakes()
	nd.Bound("every Duration, from milli-, micro- and nanoseconds")
	n := gost.U64(nd.U64("n"))
	switch nd.Choice("unit", 3) {
	case 0:
		sleepOf(gost.DurationFromMillis(n))
	case 1:
		sleepOf(gost.DurationFromMicros(n))
	case 2:
		sleepOf(gost.DurationFromNanos(n))
	}
}

func sleepOf(d gost.Duration) {
	faketime.Reset()
	want := uint64(math.MaxInt64)
	s, n := uint64(d.AsSecs()), uint64(d.SubsecNanos())
	nd.Assert(n < 1_000_000_000, "nanoseconds below a second")
	if s < 9223372036 || s == 9223372036 && n <= 854775807 {
		want = s*1_000_000_000 + n
	}
	gost.Sleep(d)
	total := uint64(0)
	for _, t := range faketime.Slept {
		// each is positive, and the sum of two of them fits
		total += uint64(t)
		if total > math.MaxInt64 {
			total = math.MaxInt64
		}
	}
	nd.Assert(total >= want, "Sleep waits for the whole duration")
	nd.Assert(total <= want+1_000_000_000, "Sleep does not wait for long beyond the duration")
}
