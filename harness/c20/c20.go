package c20

import (
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/pool"
	strat "uniswap-simulator/lib/strategy"
	"uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
	"uniswap-simulator/zzverif/sym"
)

var _ strat.Strategy = &stub{}

// mark is what the pool looked like when something happened.
type mark struct{ g0, g1, l, sq sym.Z }

func at(p *pool.Pool) mark {
	return mark{sym.Of(p.FeeGrowthGlobal0X128), sym.Of(p.FeeGrowthGlobal1X128), sym.Of(p.Liquidity), sym.Of(p.SqrtRatioX96)}
}

func (m mark) same(o mark) bool {
	return sym.And(m.g0.Eq(o.g0), m.g1.Eq(o.g1), m.l.Eq(o.l), m.sq.Eq(o.sq))
}

// event is one call into the strategy.
type event struct {
	m  mark
	ts int // due time where the harness knows it
	a  [2]sym.Z
}

// stub is a strategy that only notes when it is called.
type stub struct {
	p                           *pool.Pool
	init, reb, burn, val, price []event
	order                       string
	early                       bool
}

func (s *stub) note(list *[]event) (*ui.Int, *ui.Int) {
	n := sym.I(1)
	hi := sym.P2(100)
	a, b := sym.U256R("held0", n, hi), sym.U256R("held1", n, hi)
	*list = append(*list, event{m: at(s.p), a: [2]sym.Z{sym.Of(a), sym.Of(b)}})
	return a, b
}

func (s *stub) began() {
	if len(s.init) == 0 {
		s.early = true
	}
}

func (s *stub) Init() (*ui.Int, *ui.Int) { return s.note(&s.init) }
func (s *stub) Rebalance() (*ui.Int, *ui.Int) {
	s.began()
	s.reb = append(s.reb, event{m: at(s.p)})
	return nil, nil
}
func (s *stub) BurnAll() (*ui.Int, *ui.Int)    { return s.note(&s.burn) }
func (s *stub) GetAmounts() (*ui.Int, *ui.Int) { s.began(); return s.note(&s.val) }
func (s *stub) GetPool() *pool.Pool            { return s.p }
func (s *stub) MakeSnapshot()                  { s.price = append(s.price, event{m: at(s.p)}) }

// call is one operation on a pool.
type call struct {
	op       string
	lo, up   int
	a, b, li sym.Z
	token0   bool
}

func (c call) same(o call) bool {
	return sym.And(c.op == o.op, c.lo == o.lo, c.up == o.up, c.a.Eq(o.a), c.b.Eq(o.b), c.li.Eq(o.li), c.token0 == o.token0)
}

var none = sym.I(0)

// book stands in for the pool operations under the checker: it notes each call
// and moves the pool's price and counters the same way for every pool.
type book struct {
	calls map[*pool.Pool][]call
	price []sym.Z
}

func (b *book) add(p *pool.Pool, c call) {
	b.calls[p] = append(b.calls[p], c)
	k := len(b.calls[p])
	for len(b.price) < k {
		b.price = append(b.price, sym.Of(sym.U256R("next", sym.P2(80), sym.P2(112))))
	}
	p.SqrtRatioX96 = sym.ToU256(b.price[k-1])
	p.FeeGrowthGlobal0X128 = sym.ToU256(sym.OfInt(k))
}

func (b *book) install() {
	sym.Replace("Mint", func(p *pool.Pool, lo, up int, a *ui.Int) {
		b.add(p, call{"mint", lo, up, sym.Of(a), none, none, false})
	})
	sym.Replace("Burn", func(p *pool.Pool, lo, up int, a *ui.Int) {
		b.add(p, call{"burn", lo, up, sym.Of(a), none, none, false})
	})
	sym.Replace("Flash", func(p *pool.Pool, x, y *ui.Int) { b.add(p, call{"flash", 0, 0, sym.Of(x), sym.Of(y), none, false}) })
	sym.Replace("ExactInputSwap", func(p *pool.Pool, a *ui.Int, tok string, l *ui.Int) (*ui.Int, *ui.Int) {
		b.add(p, call{"in", 0, 0, sym.Of(a), none, sym.Of(l), tok == p.Token0})
		return ui.NewInt(0), ui.NewInt(0)
	})
	sym.Replace("ExactOutputSwap", func(p *pool.Pool, a *ui.Int, tok string, l *ui.Int) (*ui.Int, *ui.Int) {
		b.add(p, call{"out", 0, 0, sym.Of(a), none, sym.Of(l), tok == p.Token0})
		return ui.NewInt(0), ui.NewInt(0)
	})
}

var kinds = []string{"Mint", "Swap", "Burn", "Flash", "Other"}

func run(n, first int) {
	sym.Contracts("uint256 fullmath tick")
	p := pool.NewPool("A", "B", 3000, sym.U256R("price", sym.P2(80), sym.P2(112)))
	q := p.Clone()
	q.Mint(-887220, 887220, sym.ToU256(sym.P2(110)))
	p.Mint(-887220, 887220, sym.ToU256(sym.P2(110)))
	b := &book{calls: map[*pool.Pool][]call{}}
	b.install()
	small := sym.P2(100)
	var ts []transaction.Transaction
	for i := 0; i < n; i++ {
		t := transaction.Transaction{Type: kinds[(first+i)%len(kinds)], Timestamp: sym.Int("time", 1, 1<<32)}
		if i > 0 {
			sym.Assume(ts[i-1].Timestamp <= t.Timestamp)
		}
		switch t.Type {
		case "Mint", "Burn":
			t.TickLower, t.TickUpper = sym.Int("lower", -1000, 0)*60, sym.Int("upper", 1, 1000)*60
			t.Amount = sym.U256R("amount", sym.I(1), small)
			if t.Type == "Burn" {
				// what an earlier transaction minted
				t.TickLower, t.TickUpper = -887220, 887220
			}
		case "Swap":
			a, c := sym.ZR("swap0", small.Neg(), small), sym.ZR("swap1", small.Neg(), small)
			sym.Assume(sym.Or(a.Ne(none), c.Ne(none)))
			t.Amount0, t.Amount1 = sym.ToU256(a), sym.ToU256(c)
		default:
			t.Amount0, t.Amount1 = sym.U256R("flash0", none, small), sym.U256R("flash1", none, small)
		}
		ts = append(ts, t)
	}
	start, end := sym.Int("start", 0, 1<<32), sym.Int("end", 0, 1<<32)
	up, sn, pr := sym.Int("update", 1, 1<<24), sym.Int("snapshot", 1, 1<<24), sym.Int("prices", 1, 1<<24)
	s := &stub{p: p}
	sym.Assume(start <= ts[n-1].Timestamp)
	e := executor.CreateExecution(s, start, end, up, sn, pr, ts)
	keep := sym.Snap(ts)
	e.Run()
	sym.Assert(sym.Same(keep, sym.Snap(ts)), "transactions-untouched")

	// the same history, straight from the statement
	x := &stub{p: q}
	started := false
	var due, dueVal, last int
	var vals []sym.Z
	value := func(a [2]sym.Z) {
		sq := sym.Of(q.SqrtRatioX96)
		vals = append(vals, a[1].Mul(sym.P2(192)).Div(sq.Mul(sq)).Add(a[0]))
	}
	nv := 0
	for i := range ts {
		t := ts[i]
		if t.Timestamp > end {
			break
		}
		if !started && t.Timestamp >= start {
			x.init = append(x.init, event{m: at(q)})
			if len(s.init) > 0 {
				value(s.init[0].a)
			}
			started = true
			due, dueVal = t.Timestamp+up, t.Timestamp+sn
		}
		if started && t.Timestamp >= dueVal {
			x.val = append(x.val, event{m: at(q)})
			if nv < len(s.val) {
				value(s.val[nv].a)
			}
			nv++
			dueVal += sn
		}
		if started && t.Timestamp >= due {
			x.reb = append(x.reb, event{m: at(q)})
			due += up
		}
		// a price is due at the first transaction and then once more than
		// the interval has passed
		if len(x.price) == 0 || t.Timestamp > last+pr {
			x.price = append(x.price, event{m: at(q)})
			last = t.Timestamp
		}
		switch t.Type {
		case "Mint":
			q.Mint(t.TickLower, t.TickUpper, t.Amount)
		case "Burn":
			q.Burn(t.TickLower, t.TickUpper, t.Amount)
		case "Swap":
			if sym.OfS(t.Amount0).Gt(none) {
				q.ExactInputSwap(t.Amount0, "A", ui.NewInt(0))
			} else if sym.OfS(t.Amount1).Gt(none) {
				q.ExactInputSwap(t.Amount1, "B", ui.NewInt(0))
			}
		case "Flash":
			q.Flash(t.Amount0, t.Amount1)
		}
	}
	x.burn = append(x.burn, event{m: at(q)})
	if len(s.burn) > 0 {
		value(s.burn[0].a)
	}
	same("price", s.price, x.price)
	same("init", s.init, x.init)
	same("value", s.val, x.val)
	same("rebalance", s.reb, x.reb)
	same("close", s.burn, x.burn)
	sym.Assert(!s.early, "not-before-init")
	sym.Assert(at(p).same(at(q)), "pool")
	c, d := b.calls[p], b.calls[q]
	sym.Assert(len(c) == len(d), "applied-once")
	if len(c) == len(d) {
		for i := range c {
			sym.Assert(c[i].same(d[i]), "applied")
		}
	}
	got := e.AmountUSDSnapshots
	sym.Assert(len(got) == len(vals), "series-length")
	if len(got) == len(vals) {
		for i := range got {
			sym.Assert(sym.Of(got[i]).Eq(vals[i]), "series")
		}
	}
	sym.Reach("done")
}

func same(label string, a, b []event) {
	sym.Assert(len(a) == len(b), label+"-count")
	if len(a) != len(b) {
		return
	}
	for i := range a {
		sym.Assert(a[i].m.same(b[i].m), label+"-when")
	}
}

// H_run: three transactions.
func H_run() { run(3, sym.Shard(5)) }

// T_run: four transactions.
func T_run() { run(4, sym.Shard(5)) }
