package sim

import (
	"time"
	"unsafe"
)

type simTimer struct {
	at     int64
	period int64
	live   bool
	f      func()
	ch     chan time.Time
	seq    int
}

// Timer and Ticker stand in for their namesakes in package time.
type Timer struct {
	C <-chan time.Time
	t *simTimer
}

type Ticker struct {
	C <-chan time.Time
	t *simTimer
}

func (r *Run) wall() int64 { return r.O.Clock + r.now }

func (r *Run) addTimer(t *simTimer, d time.Duration) {
	if d < 0 {
		d = 0
	}
	t.at = r.now + int64(d)
	t.live = true
	for _, x := range r.timers {
		if x == t {
			return
		}
	}
	t.seq = len(r.timers)
	r.timers = append(r.timers, t)
}

// fireTimers fires the timers and wakes the sleepers that are due.
func (r *Run) fireTimers() {
	for _, g := range r.gs {
		if g.timed && g.until <= r.now {
			g.timed = false
			r.wakeG(g)
		}
	}
	for _, t := range r.timers {
		if t.live && t.at <= r.now {
			if t.period > 0 {
				t.at = r.now + t.period
			} else {
				t.live = false
			}
			if t.f != nil {
				r.spawn(t.f)
			} else {
				c := r.chanOf(*(*unsafe.Pointer)(unsafe.Pointer(&t.ch)), 1, t.ch)
				if len(c.buf) == 0 || c.hasRecv() {
					c.trySend(r, time.Unix(0, r.wall()))
				}
			}
		}
	}
}

// advanceClock moves time to the next timer when nothing can run; false if there is none.
func (r *Run) advanceClock() bool {
	best := int64(-1)
	for _, g := range r.gs {
		if g.timed && g.state == gBlocked && (best < 0 || g.until < best) {
			best = g.until
		}
	}
	for _, t := range r.timers {
		if t.live && (best < 0 || t.at < best) {
			best = t.at
		}
	}
	if best < 0 {
		return false
	}
	if best > r.now {
		r.now = best
	}
	r.timerJumps++
	if r.timerJumps > 100000 {
		return false
	}
	r.fireTimers()
	return true
}

func TimeNow() time.Time {
	r := R
	if r == nil {
		return time.Unix(0, 0)
	}
	if r.cur != nil {
		r.account(r.cur)
	}
	r.now += 1000
	if r.O.ClockJump > 0 && !r.aborted && r.clk.Float() < r.O.ClockJump {
		j := int64(r.clk.Intn(7200)) - 3600
		r.O.Clock += j * int64(time.Second)
		r.fire("clock-jump")
	}
	return time.Unix(0, r.wall())
}

func TimeSince(t time.Time) time.Duration { return TimeNow().Sub(t) }
func TimeUntil(t time.Time) time.Duration { return t.Sub(TimeNow()) }

func TimeSleep(d time.Duration) {
	r := R
	if r == nil || r.aborted || r.atomic > 0 {
		return
	}
	g := r.cur
	r.account(g)
	g.until = r.now + int64(d)
	g.timed = true
	for g.timed {
		r.block(unsafe.Pointer(g), "time.Sleep")
	}
}

func TimeNewTimer(d time.Duration) *Timer {
	ch := make(chan time.Time, 1)
	t := &simTimer{ch: ch}
	if R != nil {
		R.addTimer(t, d)
	}
	return &Timer{C: ch, t: t}
}

func TimeAfterFunc(d time.Duration, f func()) *Timer {
	t := &simTimer{f: f}
	if R != nil {
		R.addTimer(t, d)
	}
	return &Timer{t: t}
}

func TimeAfter(d time.Duration) <-chan time.Time { return TimeNewTimer(d).C }

func TimeNewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	ch := make(chan time.Time, 1)
	t := &simTimer{ch: ch, period: int64(d)}
	if R != nil {
		R.addTimer(t, d)
	}
	return &Ticker{C: ch, t: t}
}

func TimeTick(d time.Duration) <-chan time.Time { return TimeNewTicker(d).C }

func (t *Timer) Stop() bool {
	l := t.t.live
	t.t.live = false
	return l
}

func (t *Timer) Reset(d time.Duration) bool {
	l := t.t.live
	if R != nil {
		R.addTimer(t.t, d)
	}
	return l
}

func (t *Ticker) Stop() { t.t.live = false }

func (t *Ticker) Reset(d time.Duration) {
	t.t.period = int64(d)
	if R != nil {
		R.addTimer(t.t, d)
	}
}
