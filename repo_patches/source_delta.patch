From c5c47834bd3d1d881440a8792f0b060d81bf9e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:24 +0000
Subject: [PATCH 01/14] fix: long division of a dividend shorter than the
 divisor

Udivrem indexed past the shifted dividend when it had at least two words
fewer than the divisor (or was zero), so MulDiv and MulDivRoundingUp
panicked on such operands. Such a dividend is its own remainder.
---
 uint256/uint256.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..fac793f 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,12 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	// A dividend with fewer words than the divisor is its own remainder.
+	if uLen < dLen {
+		copy(rem[:], u)
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From 7b1055344c7686a3faf347a57c8362e959062883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 02/14] fix: price after a token1 input above 2^160 wrapped
 modulo 2^256

---
 lib/sqrtprice_math/sqrtprice_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index abce49d..fa44c4f 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -98,7 +98,7 @@ func getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount *ui.Int
 		if amount.Cmp(MaxUint160) <= 0 {
 			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
 		} else {
-			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
+			quotient = fm.MulDiv(amount, cons.Q96, liquidity)
 		}
 		return new(ui.Int).Add(sqrtPX96, quotient)
 	}
-- 
2.43.0


From d27486de37562744cac56e4ea767ff3e9f755819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:41 +0000
Subject: [PATCH 03/14] fix: position keys of different ranges collided

---
 lib/pool/pool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..9ae58b1 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -97,7 +98,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -167,7 +168,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From a43fa7feb8975fff28dd93dcb635abda77ad95ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 04/14] fix: cloned position took the owed amount of token1 for
 token0

---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From 2f4841edab39d3cd5d9a4c5501363f2cddfe02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:44 +0000
Subject: [PATCH 05/14] fix: cloned tick table shared its numbers with the
 original

---
 lib/tickdata/tickdata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..fbe7489 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -25,7 +25,15 @@ func (t *TickData) Clone() *TickData {
 		ticks:       make([]Tick, len(t.ticks)),
 		tickSpacing: t.tickSpacing,
 	}
-	copy(newTickData.ticks, t.ticks)
+	for i, tick := range t.ticks {
+		newTickData.ticks[i] = Tick{
+			Index:                 tick.Index,
+			LiquidityNet:          tick.LiquidityNet.Clone(),
+			LiquidityGross:        tick.LiquidityGross.Clone(),
+			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
+			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
+		}
+	}
 	return newTickData
 }
 
-- 
2.43.0


From 22c4bbe5d989e289ee9815460405b52f2fe21bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:25 +0000
Subject: [PATCH 06/14] fix: word of a negative tick between two usable ticks
 was off by one

---
 lib/tickdata/tickdata.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index fbe7489..a5f15c8 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -174,6 +174,10 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		// round towards negative infinity
+		compressed--
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From 72068e6776415b97d2ca021b07745193d3639cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 07/14] fix: exact output swaps were run as exact input swaps

---
 lib/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index 9ae58b1..11d58b7 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -199,7 +199,7 @@ func (p *Pool) ExactInputSwap(inputAmount *ui.Int, token string, sqrtPriceLimitX
 
 func (p *Pool) ExactOutputSwap(outputAmount *ui.Int, token string, sqrtPriceLimitX96 *ui.Int) (*ui.Int, *ui.Int) {
 	zeroForOne := token == p.Token1
-	return p.swap(zeroForOne, outputAmount, sqrtPriceLimitX96)
+	return p.swap(zeroForOne, new(ui.Int).Neg(outputAmount), sqrtPriceLimitX96)
 }
 
 func (p *Pool) modifyPosition(lower int, upper int, amount *ui.Int) {
-- 
2.43.0


From 35573a544f53869532f888de905c9ae1569ea762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:13 +0000
Subject: [PATCH 08/14] fix: price snapshots were taken at every transaction

---
 lib/executor/executor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e2999f5..be1e55c 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -85,7 +85,7 @@ func (e *Execution) Run() {
 		//Price Snapshot
 		if trans.Timestamp > nextPriceSnapshot {
 			e.Strategy.MakeSnapshot()
-			nextPriceSnapshot += e.PricesSnapshotsInterval
+			nextPriceSnapshot = trans.Timestamp + e.PricesSnapshotsInterval
 		}
 
 		// Snapshot
-- 
2.43.0


From 7b2a8f85f1d2043deebdeb8f139ed9ca70bf1462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:51 +0000
Subject: [PATCH 09/14] fix: a price whose square exceeds 256 bits was recorded
 wrapped

---
 lib/prices/prices.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prices/prices.go b/lib/prices/prices.go
index 5c4b512..8055466 100644
--- a/lib/prices/prices.go
+++ b/lib/prices/prices.go
@@ -24,10 +24,10 @@ func (p *Prices) Add(price *ui.Int) {
 	//Square the price
 	// For USDC - ETH Pool this never overflows. Absolutely not guaranteed otherwise.
 	// Todo Fix this so it never overflows
-	priceSquareX192 := new(ui.Int).Mul(price, price)
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(price, price)
 
 	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
-	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
+	invariant.Invariant(!overflow && shifted.IsZero(), "Price square should not overflow")
 
 	p.prices[p.index] = priceSquareX192
 	p.index = (p.index + 1) % p.length
-- 
2.43.0


From 48922561909e2492198447459fdf25998b691637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 10/14] fix: strategies aborted when the holdings are too small
 for any liquidity

Minting zero liquidity violates the pool's invariant. The other strategies
already skip the position in that case.
---
 lib/strategy/constant_intervall_strategy.go               | 3 +++
 lib/strategy/interval_around_current_price.go             | 3 +++
 lib/strategy/swap_half_constant_interval_current_price.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..3587f63 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -73,6 +73,9 @@ func (s *ConstantIntervalStrategy) Init() (currAmount0, currAmount1 *ui.Int) {
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..286abb1 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -74,6 +74,9 @@ func (s *IntervalAroundPriceStrategy) Init() (currAmount0, currAmount1 *ui.Int)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
diff --git a/lib/strategy/swap_half_constant_interval_current_price.go b/lib/strategy/swap_half_constant_interval_current_price.go
index bd2b717..c223bbe 100644
--- a/lib/strategy/swap_half_constant_interval_current_price.go
+++ b/lib/strategy/swap_half_constant_interval_current_price.go
@@ -94,6 +94,9 @@ func (s *IntervalAroundPriceAndSwapStrategy) mintPosition(tickLower, tickUpper i
 		}
 	}
 	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, s.Amount0, s.Amount1)
+	if amount.IsZero() {
+		return
+	}
 	s.Positions = append(s.Positions, Position{
 		amount:    amount,
 		tickLower: tickLower,
-- 
2.43.0


From a147dbf2d1cea94412f251968ceddd302a1bf62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:47 +0000
Subject: [PATCH 11/14] fix: volatility sized strategies aborted when the price
 did not move enough

Without any spread both bounds fall on the same tick, and sizing liquidity for
that empty range divides by zero.
---
 lib/strategy/bollinger_bands.go            | 3 +++
 lib/strategy/bollinger_fill_up.go          | 3 +++
 lib/strategy/volatility_sized_intervals.go | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lib/strategy/bollinger_bands.go b/lib/strategy/bollinger_bands.go
index efb4516..02fa79e 100644
--- a/lib/strategy/bollinger_bands.go
+++ b/lib/strategy/bollinger_bands.go
@@ -98,6 +98,9 @@ func (s *BollingerBandsStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/bollinger_fill_up.go b/lib/strategy/bollinger_fill_up.go
index 434172d..1e08e2f 100644
--- a/lib/strategy/bollinger_fill_up.go
+++ b/lib/strategy/bollinger_fill_up.go
@@ -99,6 +99,9 @@ func (s *BollingerBandsFillUpStrategy) getTicks() (tickLower, tickUpper int) {
 }
 
 func (s *BollingerBandsFillUpStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
diff --git a/lib/strategy/volatility_sized_intervals.go b/lib/strategy/volatility_sized_intervals.go
index 288a35a..32cfa1d 100644
--- a/lib/strategy/volatility_sized_intervals.go
+++ b/lib/strategy/volatility_sized_intervals.go
@@ -96,6 +96,9 @@ func (s *VolatilitySizedIntervalStrategy) getTicks() (tickLower, tickUpper int)
 }
 
 func (s *VolatilitySizedIntervalStrategy) mintPosition(tickLower, tickUpper int) {
+	if tickLower >= tickUpper {
+		return
+	}
 	sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(tickLower)
 	sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(tickUpper)
 
-- 
2.43.0


From 4d15687f8a09c9937ec37c1372f48c4160376fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:30 +0000
Subject: [PATCH 12/14] fix: closed positions stayed open in three strategies

BurnAll withdrew the positions but kept their records, so valuing the strategy
afterwards counted them again and closing it again burnt liquidity it did not
have.
---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index 3587f63..352900b 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 286abb1..12b1fea 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From fdd464f272cb04b5c11d728747ba872f5d42964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:58 +0000
Subject: [PATCH 13/14] fix: standard deviation was not a number for equal
 returns

---
 main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index de5b2ab..8848b49 100644
--- a/main.go
+++ b/main.go
@@ -175,7 +175,8 @@ func calculateStd(prices []*ui.Int) float64 {
 	quotient := n * (n - 1)
 	sum2 = sum2 / float64(quotient)
 
-	variance := sum1 - sum2
+	// Rounding can leave a difference just below zero when all returns are equal
+	variance := math.Max(sum1-sum2, 0)
 	standardDeviation := math.Sqrt(variance)
 
 	return standardDeviation
-- 
2.43.0


From 1b94404f650f9c5f428c82257d418c01a776f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:45 +0000
Subject: [PATCH 14/14] fix: exact input of 2^236 or more lost its fee share
 modulo 2^256 in a swap step

---
 lib/swapmath/swapmath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/swapmath/swapmath.go b/lib/swapmath/swapmath.go
index d2c177c..828e83b 100644
--- a/lib/swapmath/swapmath.go
+++ b/lib/swapmath/swapmath.go
@@ -15,7 +15,7 @@ func ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountR
 	amountRemainingINeg := new(ui.Int).Neg(amountRemainingI)
 
 	if exactIn {
-		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
+		amountRemainingLessFee := fm.MulDiv(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))), MaxFee)
 		if zeroForOne {
 			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioTargetX96, sqrtRatioCurrentX96, liquidity, true)
 		} else {
-- 
2.43.0

