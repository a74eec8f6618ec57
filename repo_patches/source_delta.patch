From 4a4f7f3e53894447b4d47a98310a9fdfc3a25ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:32 +0000
Subject: [PATCH 01/22] fix: offer easings in a fixed order, so that a seed
 always yields the same chromosomes

---
 juno/src/easing.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/juno/src/easing.rs b/juno/src/easing.rs
index ea73c10..ea9ccf7 100644
--- a/juno/src/easing.rs
+++ b/juno/src/easing.rs
@@ -87,7 +87,13 @@ static EASINGS: Lazy<EasingMap> = Lazy::new(|| {
     .collect()
 });
 
-static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| EASINGS.keys().copied().collect());
+// Iteration order of a hash map differs between processes. We sort the choices so that a seed always
+// yields the same easings.
+static EASING_CHOICES: Lazy<Vec<Easing>> = Lazy::new(|| {
+    let mut choices: Vec<Easing> = EASINGS.keys().copied().collect();
+    choices.sort_unstable_by_key(|easing| *easing as u8);
+    choices
+});
 
 pub trait EasingExt {
     fn gen_easing(&mut self) -> Easing;
-- 
2.43.0


From a57d2582fbfd80a766094d4ba0ec63bc2d437fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:44 +0000
Subject: [PATCH 02/22] fix: run exactly the requested number of generations

The capacity of the list was taken for the number of generations; with none requested, storing the
initial population grew it, and four generations ran.
---
 juno/src/genetics/algorithm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 5898ad2..be195cc 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -67,7 +67,9 @@ where
 
         let mut rng = StdRng::seed_from_u64(seed);
 
-        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::with_capacity(generations);
+        let num_generations = generations;
+        let mut generations: Vec<Generation<TE::Chromosome>> =
+            Vec::with_capacity(num_generations + 1);
 
         let mut timings = Timings::default();
 
@@ -84,7 +86,7 @@ where
 
         let mut offsprings = Vec::with_capacity(population_size);
 
-        for gen in 1..=generations.capacity() {
+        for gen in 1..=num_generations {
             let mut timings = Timings::default();
 
             self.run_generation(
-- 
2.43.0


From 624fce02f53d28cd10294a1e44aea3c486d3d95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:52 +0000
Subject: [PATCH 03/22] fix: report generations under their own numbers

They were numbered after the ones without improvement had been left out.
---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 9d75a2c..24003bf 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -157,7 +157,8 @@ fn par_optimize(
     let gen_stats = evolution
         .generations
         .into_iter()
-        .filter(|gen| {
+        .enumerate()
+        .filter(|(_, gen)| {
             let mut pass = false;
             for (best_ind, best_fitness) in gen.hall_of_fame.iter().zip(best_fitnesses.iter_mut()) {
                 if best_fitness.is_nan() || best_ind.fitness > *best_fitness {
@@ -167,7 +168,6 @@ fn par_optimize(
             }
             pass
         })
-        .enumerate()
         .map(|(nr, gen)| {
             let hall_of_fame: Vec<_> = gen
                 .hall_of_fame
-- 
2.43.0


From b57d3083fbcb4c83006ff6c5a8d4d6e56f0903cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 04/22] fix: evolve populations of two

Only one offspring is selected from two parents, and pairing it panicked.
---
 juno/src/genetics/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index be195cc..2932b53 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -135,6 +135,11 @@ where
         // crossover & mutation
         let start = time::Instant::now();
         for i in (0..offsprings.len()).step_by(2) {
+            // A sole offspring has no other to pair with.
+            if offsprings.len() == 1 {
+                self.mutation.mutate(rng, &mut offsprings[0].chromosome, ctx);
+                break;
+            }
             // TODO: Ugly.
             // If is last, we wrap around and take the first offspring to pair.
             let is_last = i == offsprings.len() - 1;
-- 
2.43.0


From 042780ed4c863e4f1eb18618e3d9303a3559ef6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:40 +0000
Subject: [PATCH 05/22] fix: evaluate individuals generated during reinsertion

They were listed in the hall of fame with the lowest fitness there is when it is large enough to
reach them, and could never be selected.
---
 juno/src/genetics/algorithm.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index 2932b53..f97fe05 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -170,7 +170,15 @@ where
         self.evaluate_and_sort_by_fitness_desc(offsprings, timings);
         // reinsert
         self.reinsertion
-            .reinsert(rng, parents, offsprings, population_size, ctx)
+            .reinsert(rng, parents, offsprings, population_size, ctx);
+        // evaluate individuals generated during reinsertion; they come last because they carry the
+        // lowest fitness until evaluated
+        let generated = offsprings
+            .iter()
+            .position(|ind| ind.fitness <= f64::MIN)
+            .unwrap_or(offsprings.len());
+        self.evaluate_and_sort_by_fitness_desc(&mut offsprings[generated..], timings);
+        offsprings.sort_by(Individual::fitness_desc);
     }
 
     fn evaluate_and_sort_by_fitness_desc(
@@ -180,10 +188,10 @@ where
     ) {
         let start = time::Instant::now();
         self.evaluation.evaluate(population);
-        timings.evaluation = start.elapsed();
+        timings.evaluation += start.elapsed();
 
         let start = time::Instant::now();
         population.sort_by(Individual::fitness_desc);
-        timings.sorting = start.elapsed();
+        timings.sorting += start.elapsed();
     }
 }
-- 
2.43.0


From 90eac25625611071294f0a89d00be72290b5166b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 06/22] fix: report ratios and returns that are not finite as
 zero

Constant returns gave an infinite Sharpe ratio and the lack of negative ones an undefined Sortino
ratio, which dropped the request; periods without a day gave an undefined annualized return.
---
 juno/src/statistics/extended.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 0964c04..664d4fe 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -160,6 +160,16 @@ fn get_asset_performances_from_holdings(
     asset_performances
 }
 
+// There is no return when there are no periods or when everything is lost, and no ratio to a risk
+// which is zero (constant returns) or unknown (no negative returns). We consider them to be 0.0.
+fn finite_or_zero(value: f64) -> f64 {
+    if value.is_finite() {
+        value
+    } else {
+        0.0
+    }
+}
+
 fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
     let mut a_returns = Vec::with_capacity(performance.len() - 1);
     for i in 0..a_returns.capacity() {
@@ -199,16 +209,13 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
         }
     };
 
-    assert!(sharpe_ratio.is_finite());
-    assert!(sortino_ratio.is_finite());
-
     ExtendedStatistics {
         // a_returns,
         // g_returns,
         // neg_g_returns,
-        annualized_return,
-        sharpe_ratio,
-        sortino_ratio,
+        annualized_return: finite_or_zero(annualized_return),
+        sharpe_ratio: finite_or_zero(sharpe_ratio),
+        sortino_ratio: finite_or_zero(sortino_ratio),
     }
 }
 
@@ -298,8 +305,7 @@ pub fn get_sharpe_ratio(
         annualized_return / annualized_volatility
     };
 
-    debug_assert!(sharpe_ratio.is_finite());
-    sharpe_ratio
+    finite_or_zero(sharpe_ratio)
 }
 
 pub fn get_sortino_ratio(
@@ -380,8 +386,7 @@ pub fn get_sortino_ratio(
         }
     };
 
-    debug_assert!(sortino_ratio.is_finite());
-    sortino_ratio
+    finite_or_zero(sortino_ratio)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 7b6fbdf371de006e84e8e0b86e8ae2039dc8babe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:57 +0000
Subject: [PATCH 07/22] fix: keep stochastics and directional index defined
 while prices do not move

Zero divided by zero poisoned the averages of them for good.
---
 juno/src/indicators/dx.rs    | 6 +++++-
 juno/src/indicators/stoch.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/dx.rs b/juno/src/indicators/dx.rs
index 90d2080..227631c 100644
--- a/juno/src/indicators/dx.rs
+++ b/juno/src/indicators/dx.rs
@@ -32,7 +32,11 @@ impl DX {
         self.dm.update(high, low);
 
         if self.t >= self.t1 {
-            self.value = self.dm.diff() / self.dm.sum() * 100.0;
+            self.value = if self.dm.sum() == 0.0 {
+                0.0
+            } else {
+                self.dm.diff() / self.dm.sum() * 100.0
+            };
         }
     }
 }
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 874f630..8406b3b 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -58,7 +58,11 @@ impl Stoch {
         if self.t >= self.t1 {
             let max_high = self.k_high_window.iter().cloned().fold(f64::MIN, f64::max);
             let min_low = self.k_low_window.iter().cloned().fold(f64::MAX, f64::min);
-            let fast_k = 100.0 * (close - min_low) / (max_high - min_low);
+            let fast_k = if max_high == min_low {
+                0.0
+            } else {
+                100.0 * (close - min_low) / (max_high - min_low)
+            };
 
             self.k_sma.update(fast_k);
 
-- 
2.43.0


From 11c57eb25d2bb324bf727610fd17e34e992eea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:31 +0000
Subject: [PATCH 08/22] fix: keep coarse candles to their periods after gaps
 and in weeks and months

After a gap the pending candle started at the time of the feed candle, so that it took candles of
the next period; weeks and months were taken to end at multiples of their length.
---
 juno/src/utils/buffered_candle.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/juno/src/utils/buffered_candle.rs b/juno/src/utils/buffered_candle.rs
index b50ef9a..d653617 100644
--- a/juno/src/utils/buffered_candle.rs
+++ b/juno/src/utils/buffered_candle.rs
@@ -38,6 +38,8 @@ impl BufferedCandle {
             return Some(Cow::Borrowed(candle));
         }
 
+        // Start of the period the candle belongs to. Weeks and months start at calendar boundaries.
+        let time = candle.time.floor(self.buffer_interval);
         let ret = match self.buffer_candle {
             None => {
                 self.buffer_candle = Some(Candle {
@@ -51,7 +53,7 @@ impl BufferedCandle {
                 None
             }
             Some(ref mut buffer_candle) => {
-                if candle.time >= buffer_candle.time + self.buffer_interval {
+                if time > buffer_candle.time {
                     Some(*buffer_candle)
                 } else {
                     *buffer_candle += candle;
@@ -60,13 +62,13 @@ impl BufferedCandle {
             }
         };
 
-        let is_last = (candle.time + self.interval) % self.buffer_interval == 0;
+        let is_last = (candle.time + self.interval).floor(self.buffer_interval) > time;
 
         if let Some(ret) = ret {
             if is_last {
                 panic!("too many missing candles");
             }
-            self.buffer_candle = Some(*candle);
+            self.buffer_candle = Some(Candle { time, ..*candle });
             Some(Cow::Owned(ret))
         } else if is_last {
             Some(Cow::Owned(self.buffer_candle.take().unwrap()))
-- 
2.43.0


From 395d0ac3eb517a00b3cfb24bb3216789c46ed6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 09/22] fix: log generations rather than print them

Printing panics when standard output cannot be written, which dropped the request.
---
 juno_axum/src/routes/optimize.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 24003bf..c5cbf1c 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -213,6 +213,6 @@ fn par_optimize(
 }
 
 fn on_generation<T: Chromosome>(nr: usize, gen: &juno::genetics::Generation<T>) {
-    println!("gen {} best fitness {}", nr, gen.hall_of_fame[0].fitness);
-    println!("{:?}", gen.timings);
+    info!("gen {} best fitness {}", nr, gen.hall_of_fame[0].fitness);
+    info!("{:?}", gen.timings);
 }
-- 
2.43.0


From cc45489a1ca235c4b4781757cc8b93ff3427f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:50 +0000
Subject: [PATCH 10/22] fix: round to ten and more digits

The factor overflowed.
---
 juno/src/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/math.rs b/juno/src/math.rs
index ff83f03..e691793 100644
--- a/juno/src/math.rs
+++ b/juno/src/math.rs
@@ -45,12 +45,12 @@ pub fn std_deviation(data: &[f64]) -> f64 {
 }
 
 pub fn round_down(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).floor() / factor
 }
 
 pub fn round_half_up(value: f64, precision: u32) -> f64 {
-    let factor = 10_u32.pow(precision) as f64;
+    let factor = 10_f64.powi(precision as i32);
     (value * factor).round() / factor
 }
 
-- 
2.43.0


From d1389b8d3a84e8407ea0dded2ca34c9915c4ef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 11/22] fix: give the second exponential average its value when
 it matures

It matured one update before its first value, as which zero was taken.
---
 juno/src/indicators/ema2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/juno/src/indicators/ema2.rs b/juno/src/indicators/ema2.rs
index d834e41..1fa6a1c 100644
--- a/juno/src/indicators/ema2.rs
+++ b/juno/src/indicators/ema2.rs
@@ -47,6 +47,8 @@ impl MA for Ema2 {
     }
 
     fn update(&mut self, price: f64) {
+        self.t = min(self.t + 1, self.t2);
+
         if self.t <= self.t1 {
             self.sma.update(price);
         }
@@ -56,8 +58,6 @@ impl MA for Ema2 {
         } else if self.t >= self.t2 {
             self.value = (price - self.value) * self.a + self.value;
         }
-
-        self.t = min(self.t + 1, self.t2)
     }
 
     fn value(&self) -> f64 {
-- 
2.43.0


From ad7dbcc1bd4cb1ce944184121dc786a54896f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 12/22] fix: let the four week rule wait for its moving average

It advised to liquidate by an average which had no value yet when that takes longer than the rule.
---
 juno/src/strategies/four_week_rule.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index ba83253..d9735a9 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -10,7 +10,7 @@ use indicators::EmaParams;
 use juno_derive::*;
 use rand::prelude::*;
 use serde::{Deserialize, Serialize};
-use std::cmp::min;
+use std::cmp::{max, min};
 
 #[derive(Chromosome, Clone, Copy, Debug, Deserialize, Serialize)]
 pub struct FourWeekRuleParams {
@@ -51,12 +51,14 @@ pub struct FourWeekRule {
 
 impl FourWeekRule {
     pub fn new(params: &FourWeekRuleParams, _meta: &StrategyMeta) -> Self {
+        let ma = params.ma.construct();
+        let t1 = max(params.period + 1, ma.maturity());
         Self {
             prices: BoundedVecDeque::new(params.period as usize),
-            ma: params.ma.construct(),
+            ma,
             advice: Advice::None,
             t: 0,
-            t1: params.period + 1,
+            t1,
         }
     }
 }
-- 
2.43.0


From bf4ba90a1fcf4e7769a39936a6ee86de50f68f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:56 +0000
Subject: [PATCH 13/22] fix: let a lack of candles span no time

It spanned one interval from the epoch on, and valuing a week of it panicked for want of prices.
---
 juno/src/trading/traders.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/juno/src/trading/traders.rs b/juno/src/trading/traders.rs
index 238a7a7..5f8bf75 100644
--- a/juno/src/trading/traders.rs
+++ b/juno/src/trading/traders.rs
@@ -57,7 +57,7 @@ pub fn trade(params: &TradingParams, input: &TradeInput) -> TradingSummary {
 
     let candles_len = input.candles.len();
     let (start, end) = if candles_len == 0 {
-        (0.into(), Timestamp(interval.0))
+        (Timestamp(0), Timestamp(0))
     } else {
         (
             input.candles[0].time,
-- 
2.43.0


From 18ab95f40e71397f0f11c5d03b6cbb5282b51f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 14/22] fix: value holdings at the prices of the day when the
 first candles are missing

The price table starts at the requested time, but its first price was taken for that of the first
candle.
---
 juno/src/statistics/extended.rs  | 25 ++++++++++++++++++++++++-
 juno/src/trading/evaluation.rs   | 15 +++++++++++++--
 juno_axum/src/routes/backtest.rs |  5 ++++-
 juno_axum/src/routes/optimize.rs | 11 +++++++++--
 4 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/juno/src/statistics/extended.rs b/juno/src/statistics/extended.rs
index 664d4fe..2c3a014 100644
--- a/juno/src/statistics/extended.rs
+++ b/juno/src/statistics/extended.rs
@@ -7,7 +7,7 @@ use crate::{
 // use ndarray::prelude::*;
 // use ndarray_stats::CorrelationExt;
 use serde::Serialize;
-use std::collections::HashMap;
+use std::{borrow::Cow, collections::HashMap};
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
 pub(crate) enum Asset {
@@ -238,6 +238,29 @@ fn calculate_statistics(performance: &[f64]) -> ExtendedStatistics {
 //     (alpha, beta)
 // }
 
+// Leaves out prices of periods before the start of trading, which begins late if the first candles are
+// missing.
+pub fn skip_prices<'a>(
+    prices: &'a HashMap<String, Vec<f64>>,
+    symbol: &str,
+    prices_start: Timestamp,
+    trading_start: Timestamp,
+    interval: Interval,
+) -> Cow<'a, HashMap<String, Vec<f64>>> {
+    let (prices_start, trading_start) =
+        (prices_start.floor(interval), trading_start.floor(interval));
+    if trading_start <= prices_start {
+        return Cow::Borrowed(prices);
+    }
+    let offset = ((trading_start - prices_start).0 / interval.0) as usize;
+    Cow::Owned(
+        [symbol.base_asset(), symbol.quote_asset()]
+            .iter()
+            .map(|asset| (asset.to_string(), prices[*asset][offset..].to_vec()))
+            .collect(),
+    )
+}
+
 // Prices have one extra price in the beginning which is the opening price of the first candle.
 
 pub fn get_sharpe_ratio(
diff --git a/juno/src/trading/evaluation.rs b/juno/src/trading/evaluation.rs
index 31140d7..e0bfef5 100644
--- a/juno/src/trading/evaluation.rs
+++ b/juno/src/trading/evaluation.rs
@@ -60,6 +60,7 @@ struct SymbolCtx {
 pub struct BasicEvaluation {
     symbol_ctxs: Vec<SymbolCtx>,
     prices: HashMap<String, Vec<f64>>,
+    prices_start: Timestamp,
     quote: f64,
     stats_interval: Interval,
     evaluation_statistic: EvaluationStatistic,
@@ -111,6 +112,7 @@ impl BasicEvaluation {
                 EvaluationAggregation::Log10Factored => sum_log10_factored,
             },
             prices: input.prices.clone(),
+            prices_start: input.start,
         }
     }
 
@@ -128,6 +130,15 @@ impl BasicEvaluation {
                 short: true,
             },
         );
+        let prices = || {
+            statistics::skip_prices(
+                &self.prices,
+                &symbol_ctx.symbol,
+                self.prices_start,
+                summary.start,
+                self.stats_interval,
+            )
+        };
         match self.evaluation_statistic {
             EvaluationStatistic::Profit => statistics::get_profit(&summary),
             EvaluationStatistic::ReturnOverMaxDrawdown => {
@@ -136,13 +147,13 @@ impl BasicEvaluation {
             EvaluationStatistic::SharpeRatio => statistics::get_sharpe_ratio(
                 &summary,
                 &symbol_ctx.symbol,
-                &self.prices,
+                &prices(),
                 self.stats_interval,
             ),
             EvaluationStatistic::SortinoRatio => statistics::get_sortino_ratio(
                 &summary,
                 &symbol_ctx.symbol,
-                &self.prices,
+                &prices(),
                 self.stats_interval,
             ),
         }
diff --git a/juno_axum/src/routes/backtest.rs b/juno_axum/src/routes/backtest.rs
index 3bac6dc..fe6c53a 100644
--- a/juno_axum/src/routes/backtest.rs
+++ b/juno_axum/src/routes/backtest.rs
@@ -6,7 +6,7 @@ use axum::{
 };
 use itertools::Itertools;
 use juno::{
-    statistics::Statistics,
+    statistics::{skip_prices, Statistics},
     trading::{trade, TradeInput, TradingParams},
     Candle, ExchangeInfo, Interval, SymbolExt, Timestamp,
 };
@@ -63,6 +63,7 @@ async fn post(
             prices,
             symbols,
             args.trading,
+            args.start,
             args.quote,
         )
     })
@@ -77,6 +78,7 @@ fn par_backtest(
     prices: HashMap<String, Vec<f64>>,
     symbols: Vec<String>,
     trading: TradingParams,
+    start: Timestamp,
     quote: f64,
 ) -> BacktestResult {
     let stats_interval = Interval::DAY_MS;
@@ -96,6 +98,7 @@ fn par_backtest(
                     short: true,
                 },
             );
+            let prices = skip_prices(&prices, symbol, start, summary.start, stats_interval);
             let stats = Statistics::compose(&summary, symbol, &prices, stats_interval);
             (symbol.clone(), stats)
         })
diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index c5cbf1c..08720bd 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -5,7 +5,7 @@ use juno::{
     genetics::{
         crossover, mutation, reinsertion, selection, Chromosome, GeneticAlgorithm, Individual,
     },
-    statistics::Statistics,
+    statistics::{skip_prices, Statistics},
     trading::{
         trade, BasicEvaluation, BasicEvaluationInput, EvaluationAggregation, EvaluationStatistic,
         TradeInput, TradingParams, TradingParamsContext,
@@ -191,8 +191,15 @@ fn par_optimize(
                                     short: true,
                                 },
                             );
+                            let prices = skip_prices(
+                                prices,
+                                symbol,
+                                args.start,
+                                summary.start,
+                                stats_interval,
+                            );
                             let stats =
-                                Statistics::compose(&summary, symbol, prices, stats_interval);
+                                Statistics::compose(&summary, symbol, &prices, stats_interval);
                             (symbol.clone(), stats)
                         })
                         .collect();
-- 
2.43.0


From f37d27a2fc7ea2152962ee43779384710a6f322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:51 +0000
Subject: [PATCH 15/22] fix: keep serving when neither output stream can be
 written

The log subscriber reported a record it could not write to stdout on stderr, which panics if stderr is
not writable either, and so dropped the request.
---
 juno_axum/src/main.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/juno_axum/src/main.rs b/juno_axum/src/main.rs
index 29d9a42..65b42a8 100644
--- a/juno_axum/src/main.rs
+++ b/juno_axum/src/main.rs
@@ -8,6 +8,10 @@ use juno::clients::juno_core;
 use serde::Serialize;
 use std::{env, net::SocketAddr, sync::Arc};
 use tower_http::cors::CorsLayer;
+use tracing_subscriber::{
+    filter::{LevelFilter, Targets},
+    prelude::*,
+};
 
 #[derive(Serialize)]
 struct ErrorResponse {
@@ -21,7 +25,19 @@ async fn main() -> Result<()> {
         env::set_var("RUST_LOG", "info")
     }
     // Install global collector configured based on RUST_LOG env var.
-    tracing_subscriber::fmt::init();
+    // A record which cannot be written must not be reported on stderr, because that panics if stderr
+    // is not writable either.
+    let targets = env::var("RUST_LOG")
+        .unwrap_or_default()
+        .parse::<Targets>()
+        .map_err(|e| eprintln!("ignoring RUST_LOG: {}", e))
+        .unwrap_or_default();
+    tracing_subscriber::fmt()
+        .with_max_level(LevelFilter::TRACE)
+        .log_internal_errors(false)
+        .finish()
+        .with(targets)
+        .init();
 
     let juno_core_client = Arc::new(juno_core::Client::new("http://localhost:3030"));
 
-- 
2.43.0


From 66a78d8d545971fe6f0e511a54368eebd0d417d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:41 +0000
Subject: [PATCH 16/22] fix: report market data left out by the data service

Missing exchange information or prices made the computation panic, and the caller got no reply.
---
 juno_axum/src/exchange.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/juno_axum/src/exchange.rs b/juno_axum/src/exchange.rs
index 8c000e8..c169da5 100644
--- a/juno_axum/src/exchange.rs
+++ b/juno_axum/src/exchange.rs
@@ -1,8 +1,9 @@
 use std::{collections::HashMap, hash::Hash};
 
+use anyhow::bail;
 use futures::future::{try_join3, try_join_all};
 use itertools::Itertools;
-use juno::{clients::juno_core, symbol, Candle, CandleType, ExchangeInfo, Interval, Timestamp};
+use juno::{clients::juno_core, symbol, Candle, CandleType, ExchangeInfo, Interval, SymbolExt, Timestamp};
 
 pub async fn gather_exchange_info_candles_prices(
     client: &juno_core::Client,
@@ -48,6 +49,23 @@ pub async fn gather_exchange_info_candles_prices(
     let (exchange_info, candles, prices) =
         try_join3(exchange_info_task, candle_tasks, prices_task).await?;
 
+    for symbol in symbols {
+        let known = exchange_info.fees.contains_key(symbol)
+            && exchange_info.filters.contains_key(symbol)
+            && exchange_info
+                .borrow_info
+                .get(symbol)
+                .map_or(false, |infos| infos.contains_key(symbol.base_asset()));
+        if !known {
+            bail!("exchange info for {} {} is missing", exchange, symbol);
+        }
+    }
+    for asset in symbol::iter_assets(symbols.iter().map(String::as_str)) {
+        if !prices.contains_key(asset) {
+            bail!("prices for {} {} are missing", exchange, asset);
+        }
+    }
+
     Ok((
         exchange_info,
         map_of_maps(symbols, intervals, candles),
-- 
2.43.0


From b432e6c036968e8235ec599e39f4a4c0ef6cde45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:54 +0000
Subject: [PATCH 17/22] fix: reject malformed interval texts

---
 juno/src/primitives/interval.rs | 34 +++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/juno/src/primitives/interval.rs b/juno/src/primitives/interval.rs
index 733750a..81dcea6 100644
--- a/juno/src/primitives/interval.rs
+++ b/juno/src/primitives/interval.rs
@@ -35,13 +35,12 @@ static INTERVAL_FACTOR_MAP: Lazy<HashMap<&'static str, u64>> =
 
 static INTERVAL_GROUP_RE: Lazy<Regex> = Lazy::new(|| Regex::new(r"(\d+[a-zA-Z]+)").unwrap());
 
-fn calc_interval_group(group: &str) -> u64 {
-    for (i, c) in group.chars().enumerate() {
-        if c.is_alphabetic() {
-            return group[0..i].parse::<u64>().unwrap() * INTERVAL_FACTOR_MAP[&group[i..]];
-        }
-    }
-    panic!("Invalid interval group: {group}");
+fn calc_interval_group(group: &str) -> Option<u64> {
+    let (quantity, unit) = group.split_at(group.find(char::is_alphabetic)?);
+    quantity
+        .parse::<u64>()
+        .ok()?
+        .checked_mul(*INTERVAL_FACTOR_MAP.get(unit)?)
 }
 
 #[derive(Debug, Default, Clone, Copy, Hash, PartialEq, Eq, PartialOrd, Ord, Serialize)]
@@ -87,11 +86,22 @@ impl FromStr for Interval {
     type Err = super::ParseError;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Self(
-            INTERVAL_GROUP_RE
-                .find_iter(s)
-                .fold(0, |acc, group| acc + calc_interval_group(group.as_str())),
-        ))
+        let mut result = 0;
+        let mut end = None;
+        for group in INTERVAL_GROUP_RE.find_iter(s) {
+            // Nothing but whitespace may come between groups.
+            if !s[end.unwrap_or(0)..group.start()].trim().is_empty() {
+                return Err(Self::Err {});
+            }
+            result = calc_interval_group(group.as_str())
+                .and_then(|value| value.checked_add(result))
+                .ok_or(Self::Err {})?;
+            end = Some(group.end());
+        }
+        match end {
+            Some(end) if s[end..].trim().is_empty() => Ok(Self(result)),
+            _ => Err(Self::Err {}),
+        }
     }
 }
 
-- 
2.43.0


From a4ddea55b329815fcfc5b0e8da9e34cda66bc1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:07 +0000
Subject: [PATCH 18/22] fix: reject dates before the epoch rather than wrap
 them

---
 juno/src/primitives/timestamp.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/juno/src/primitives/timestamp.rs b/juno/src/primitives/timestamp.rs
index c57e649..244486a 100644
--- a/juno/src/primitives/timestamp.rs
+++ b/juno/src/primitives/timestamp.rs
@@ -105,19 +105,21 @@ impl FromStr for Timestamp {
         Err(())
             .or_else(|_| {
                 OffsetDateTime::parse(s, &Rfc3339)
-                    .map(|x| (x.unix_timestamp_nanos() / 1_000_000) as u64)
+                    .map(|x| x.unix_timestamp_nanos().div_euclid(1_000_000))
             })
             .or_else(|_| {
                 Date::parse(s, &DATE_FORMAT).map(|x| {
-                    (x.with_hms(0, 0, 0)
+                    x.with_hms(0, 0, 0)
                         .unwrap()
                         .assume_offset(UtcOffset::UTC)
                         .unix_timestamp_nanos()
-                        / 1_000_000) as u64
+                        / 1_000_000
                 })
             })
-            .map(Self)
             .map_err(|_| Self::Err {})
+            // There are no timestamps before the epoch.
+            .and_then(|x| u64::try_from(x).map_err(|_| Self::Err {}))
+            .map(Self)
     }
 }
 
-- 
2.43.0


From 6082c5c3a7c10081b47b8072f781b1dbbc671965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:40 +0000
Subject: [PATCH 19/22] fix: report price series which are too short

---
 juno_axum/src/exchange.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/juno_axum/src/exchange.rs b/juno_axum/src/exchange.rs
index c169da5..88e444c 100644
--- a/juno_axum/src/exchange.rs
+++ b/juno_axum/src/exchange.rs
@@ -65,6 +65,24 @@ pub async fn gather_exchange_info_candles_prices(
             bail!("prices for {} {} are missing", exchange, asset);
         }
     }
+    let prices_start = start.floor(stats_interval);
+    for (i, candles) in candles.iter().enumerate() {
+        let symbol = &symbols[i / intervals.len()];
+        let interval = intervals[i % intervals.len()];
+        // There is one extra price in the beginning.
+        let num_prices = 1 + match candles.last() {
+            Some(last) if last.time >= prices_start => {
+                (((last.time + interval).floor(stats_interval) - prices_start).0
+                    / stats_interval.0) as usize
+            }
+            _ => 0,
+        };
+        for asset in [symbol.base_asset(), symbol.quote_asset()] {
+            if prices[asset].len() < num_prices {
+                bail!("prices for {} {} are incomplete", exchange, asset);
+            }
+        }
+    }
 
     Ok((
         exchange_info,
-- 
2.43.0


From 910396a8a27e54f49d37f2fd1a11afdc26c27235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:53 +0000
Subject: [PATCH 20/22] fix: fetch candle series a few at a time

Every series takes a connection, so a request for more than about a thousand series ran out of
file descriptors and failed.
---
 juno_axum/src/exchange.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/juno_axum/src/exchange.rs b/juno_axum/src/exchange.rs
index 88e444c..0727a45 100644
--- a/juno_axum/src/exchange.rs
+++ b/juno_axum/src/exchange.rs
@@ -1,10 +1,16 @@
 use std::{collections::HashMap, hash::Hash};
 
 use anyhow::bail;
-use futures::future::{try_join3, try_join_all};
+use futures::{
+    future::try_join3,
+    stream::{self, StreamExt, TryStreamExt},
+};
 use itertools::Itertools;
 use juno::{clients::juno_core, symbol, Candle, CandleType, ExchangeInfo, Interval, SymbolExt, Timestamp};
 
+// Number of candle series of a request which are fetched at a time. Each takes a connection.
+const MAX_CANDLE_TASKS: usize = 64;
+
 pub async fn gather_exchange_info_candles_prices(
     client: &juno_core::Client,
     exchange: &str,
@@ -19,7 +25,7 @@ pub async fn gather_exchange_info_candles_prices(
 )> {
     let exchange_info_task = client.get_exchange_info(juno_core::GetExchangeInfo { exchange });
 
-    let candle_tasks = try_join_all(symbols.iter().flat_map(|symbol| {
+    let candle_tasks = symbols.iter().flat_map(|symbol| {
         intervals.iter().map(|interval| {
             client.list_candles(juno_core::ListCandles {
                 exchange,
@@ -30,7 +36,10 @@ pub async fn gather_exchange_info_candles_prices(
                 type_: CandleType::Regular,
             })
         })
-    }));
+    });
+    let candle_tasks = stream::iter(candle_tasks.collect::<Vec<_>>())
+        .buffered(MAX_CANDLE_TASKS)
+        .try_collect::<Vec<_>>();
 
     let assets: Vec<_> = symbol::iter_assets(symbols.iter().map(String::as_str))
         .chain(["btc"])
-- 
2.43.0


From 3956aaf05cba028578051495b262fdc9b892e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 21/22] fix: fail the request, not the process, when a search
 does not fit into memory

A failing allocation aborts the process. Sizes come from the request; the list of best fitnesses
needs no more entries than there are individuals.
---
 juno/src/genetics/algorithm.rs   | 20 ++++++++++++++------
 juno_axum/src/routes/optimize.rs |  2 +-
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/juno/src/genetics/algorithm.rs b/juno/src/genetics/algorithm.rs
index f97fe05..c1b0091 100644
--- a/juno/src/genetics/algorithm.rs
+++ b/juno/src/genetics/algorithm.rs
@@ -22,6 +22,13 @@ where
     pub reinsertion: TR,
 }
 
+// Panics if there is not enough memory, where a failing allocation would abort the process.
+fn reserve<T>(items: &mut Vec<T>, len: usize) {
+    items
+        .try_reserve_exact(len)
+        .expect("population and generations fit into memory");
+}
+
 impl<TE, TS, TC, TM, TR> GeneticAlgorithm<TE, TS, TC, TM, TR>
 where
     TE: Evaluation,
@@ -68,14 +75,14 @@ where
         let mut rng = StdRng::seed_from_u64(seed);
 
         let num_generations = generations;
-        let mut generations: Vec<Generation<TE::Chromosome>> =
-            Vec::with_capacity(num_generations + 1);
+        let mut generations: Vec<Generation<TE::Chromosome>> = Vec::new();
+        reserve(&mut generations, num_generations.saturating_add(1));
 
         let mut timings = Timings::default();
 
-        let mut parents = (0..population_size)
-            .map(|_| Individual::generate(&mut rng, ctx))
-            .collect::<Vec<_>>();
+        let mut parents = Vec::new();
+        reserve(&mut parents, population_size);
+        parents.extend((0..population_size).map(|_| Individual::generate(&mut rng, ctx)));
         self.evaluate_and_sort_by_fitness_desc(&mut parents, &mut timings);
         let generation = Generation {
             hall_of_fame: parents.iter().take(hall_of_fame_size).cloned().collect(),
@@ -84,7 +91,8 @@ where
         on_generation(0, &generation);
         generations.push(generation);
 
-        let mut offsprings = Vec::with_capacity(population_size);
+        let mut offsprings = Vec::new();
+        reserve(&mut offsprings, population_size);
 
         for gen in 1..=num_generations {
             let mut timings = Timings::default();
diff --git a/juno_axum/src/routes/optimize.rs b/juno_axum/src/routes/optimize.rs
index 08720bd..1711662 100644
--- a/juno_axum/src/routes/optimize.rs
+++ b/juno_axum/src/routes/optimize.rs
@@ -153,7 +153,7 @@ fn par_optimize(
 
     // Evaluate hall of fame.
     let stats_interval = Interval::DAY_MS;
-    let mut best_fitnesses = vec![f64::NAN; args.hall_of_fame_size];
+    let mut best_fitnesses = vec![f64::NAN; args.hall_of_fame_size.min(args.population_size)];
     let gen_stats = evolution
         .generations
         .into_iter()
-- 
2.43.0


From c30b45b77f48421dae4cf28dcd25b94dc8f9ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:14 +0000
Subject: [PATCH 22/22] fix: let indicators grow up to their period

Room for the whole period was allocated up front, which aborts the process if the period of a
request is out of proportion.
---
 juno/src/indicators/alma.rs           | 25 ++++++++++++++++++-------
 juno/src/indicators/kama.rs           |  4 ++--
 juno/src/indicators/sma.rs            | 16 +++++++++++-----
 juno/src/indicators/stoch.rs          |  4 ++--
 juno/src/strategies/four_week_rule.rs |  2 +-
 5 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/juno/src/indicators/alma.rs b/juno/src/indicators/alma.rs
index b545bc3..0d16bc7 100644
--- a/juno/src/indicators/alma.rs
+++ b/juno/src/indicators/alma.rs
@@ -13,7 +13,9 @@ pub struct AlmaParams {
 pub struct Alma {
     pub value: f64,
 
-    weights: Vec<f64>,
+    m: f64,
+    s: f64,
+    weights: Vec<f64>, // Calculated when mature.
     prices: BoundedVecDeque<f64>,
 
     t: u32,
@@ -35,15 +37,13 @@ impl Alma {
 
         let m = (params.offset * (params.period - 1) as f64).floor();
         let s = params.period as f64 * 1.0 / sigma as f64;
-        let tmp = (0..params.period)
-            .map(|i| (-(i as f64 - m) * (i as f64 - m) / (2.0 * s * s)).exp())
-            .collect::<Vec<f64>>();
-        let sw: f64 = tmp.iter().sum();
         Self {
             value: 0.0,
 
-            weights: tmp.iter().map(|v| v / sw).collect::<Vec<f64>>(),
-            prices: BoundedVecDeque::new(params.period as usize),
+            m,
+            s,
+            weights: Vec::new(),
+            prices: BoundedVecDeque::with_capacity(0, params.period as usize),
 
             t: 0,
             t1: params.period,
@@ -51,6 +51,14 @@ impl Alma {
     }
 }
 
+fn weights(period: u32, m: f64, s: f64) -> Vec<f64> {
+    let tmp = (0..period)
+        .map(|i| (-(i as f64 - m) * (i as f64 - m) / (2.0 * s * s)).exp())
+        .collect::<Vec<f64>>();
+    let sw: f64 = tmp.iter().sum();
+    tmp.iter().map(|v| v / sw).collect::<Vec<f64>>()
+}
+
 impl MA for Alma {
     fn maturity(&self) -> u32 {
         self.t1
@@ -66,6 +74,9 @@ impl MA for Alma {
         self.prices.push_back(price);
 
         if self.mature() {
+            if self.weights.is_empty() {
+                self.weights = weights(self.t1, self.m, self.s);
+            }
             self.value = self
                 .prices
                 .iter()
diff --git a/juno/src/indicators/kama.rs b/juno/src/indicators/kama.rs
index 6939a60..f10879f 100644
--- a/juno/src/indicators/kama.rs
+++ b/juno/src/indicators/kama.rs
@@ -31,8 +31,8 @@ impl Kama {
             short_alpha: 2.0 / (2.0 + 1.0),
             long_alpha: 2.0 / (30.0 + 1.0),
 
-            prices: BoundedVecDeque::new(params.period as usize),
-            diffs: BoundedVecDeque::new(params.period as usize),
+            prices: BoundedVecDeque::with_capacity(0, params.period as usize),
+            diffs: BoundedVecDeque::with_capacity(0, params.period as usize),
 
             t: 0,
             t1: params.period,
diff --git a/juno/src/indicators/sma.rs b/juno/src/indicators/sma.rs
index 018db7c..cb665b0 100644
--- a/juno/src/indicators/sma.rs
+++ b/juno/src/indicators/sma.rs
@@ -21,7 +21,7 @@ impl Sma {
         assert!(params.period > 0);
         Self {
             value: 0.0,
-            prices: vec![0.0; params.period as usize],
+            prices: Vec::new(), // Grows up to the period.
             i: 0,
             sum: 0.0,
             t: 0,
@@ -42,11 +42,17 @@ impl MA for Sma {
     fn update(&mut self, price: f64) {
         self.t = min(self.t + 1, self.t1);
 
-        let last = self.prices[self.i];
-        self.prices[self.i] = price;
-        self.i = (self.i + 1) % self.prices.len();
+        let last = if self.prices.len() < self.t1 as usize {
+            self.prices.push(price);
+            0.0
+        } else {
+            let last = self.prices[self.i];
+            self.prices[self.i] = price;
+            self.i = (self.i + 1) % self.prices.len();
+            last
+        };
         self.sum = self.sum - last + price;
-        self.value = self.sum / self.prices.len() as f64;
+        self.value = self.sum / self.t1 as f64;
     }
 
     fn value(&self) -> f64 {
diff --git a/juno/src/indicators/stoch.rs b/juno/src/indicators/stoch.rs
index 8406b3b..c54cde3 100644
--- a/juno/src/indicators/stoch.rs
+++ b/juno/src/indicators/stoch.rs
@@ -26,8 +26,8 @@ impl Stoch {
         Self {
             k: 0.0,
             d: 0.0,
-            k_high_window: BoundedVecDeque::new(k_period as usize),
-            k_low_window: BoundedVecDeque::new(k_period as usize),
+            k_high_window: BoundedVecDeque::with_capacity(0, k_period as usize),
+            k_low_window: BoundedVecDeque::with_capacity(0, k_period as usize),
             k_sma: Sma::new(&SmaParams {
                 period: k_sma_period,
             }),
diff --git a/juno/src/strategies/four_week_rule.rs b/juno/src/strategies/four_week_rule.rs
index d9735a9..f8325ea 100644
--- a/juno/src/strategies/four_week_rule.rs
+++ b/juno/src/strategies/four_week_rule.rs
@@ -54,7 +54,7 @@ impl FourWeekRule {
         let ma = params.ma.construct();
         let t1 = max(params.period + 1, ma.maturity());
         Self {
-            prices: BoundedVecDeque::new(params.period as usize),
+            prices: BoundedVecDeque::with_capacity(0, params.period as usize),
             ma,
             advice: Advice::None,
             t: 0,
-- 
2.43.0

