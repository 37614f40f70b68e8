From 9ad6c3e3dca4711902c957b8a84f2de44f81fa54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 01/95] fix: readln() looped forever at the end of the input
 stream

The state of the stream was never checked, so that reading a column without
the terminator (or a failing stream) never returned.
---
 src/utility.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utility.h b/src/utility.h
index c561ed4..d147766 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -94,9 +94,8 @@ namespace theoretica {
 		std::string line;
 		Type value;
 
-		while(true) {
-
-			std::getline(in, line);
+		// Stop reading at the end of the stream or if it fails.
+		while(std::getline(in, line)) {
 
 			// Stop reading when the terminator is reached.
 			if(line == terminator)
-- 
2.43.0


From dd60b72f3c516608557196d54f251f134f93ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 02/95] fix: histogram minimum was stuck at minus infinity

An empty histogram must start from +inf for the running minimum.
---
 src/statistics/histogram.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9b0944e..e9d27d2 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -63,7 +63,7 @@ namespace theoretica {
 			/// @param range_min The lower bound of the range
 			/// @param range_max The upper bound of the range
 			histogram(unsigned int bin_count, real range_min, real range_max)
-				: N(0), value_max(-inf()), value_min(-inf()), run_average(0), run_tss(0) {
+				: N(0), value_max(-inf()), value_min(inf()), run_average(0), run_tss(0) {
 
 				bin_counts.resize(bin_count);
 				this->range_max = range_max;
-- 
2.43.0


From 1e3e5f30090645be0409dddf5c7a0857a239644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 03/95] fix: histogram accepted NaN and indexed its bins with
 it

---
 src/statistics/histogram.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index e9d27d2..4bd5b77 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -108,7 +108,7 @@ namespace theoretica {
 			/// @param x The value to insert
 			inline void insert(real x) {
 
-				if(x < range_min || x > range_max)
+				if(!(x >= range_min && x <= range_max))
 					return;
 
 				// Update average and TSS using Welford's method
@@ -210,7 +210,7 @@ namespace theoretica {
 			/// @return The value of the histogram function at x
 			inline real operator()(real x) {
 
-				if (x < range_min || x > range_max)
+				if (!(x >= range_min && x <= range_max))
 					return 0.0;
 
 				return bin_counts[index(x)];
-- 
2.43.0


From f24c3a15a3cd0527bdb3bf40d6951a4591c015be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 04/95] fix: histogram::index() could return an index past the
 last bin

A value just below range_max may round to the upper extreme of the range
(for example 1 - 2^-52 in [-1000, 1]), and with ranges shorter than
MACH_EPSILON every value was put into the last bin.
---
 src/statistics/histogram.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 4bd5b77..9c4f5a7 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -134,13 +134,16 @@ namespace theoretica {
 			/// so care should be taken to use only valid inputs.
 			inline unsigned int index(real x) const {
 
-				if(abs(x - range_max) < MACH_EPSILON)
+				if(x >= range_max)
 					return bin_counts.size() - 1;
 
-				return floor(
+				const unsigned int i = floor(
 					(x - range_min) / (range_max - range_min)
 					* bin_counts.size()
 				);
+
+				// Rounding may push values close to range_max over the last bin
+				return i < bin_counts.size() ? i : bin_counts.size() - 1;
 			}
 
 
-- 
2.43.0


From 034d77c961d693b47f9e0fd825fd2779620b59fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 05/95] fix: Gaussian samplers leaked samples between
 generators and threads

The spare value of the polar and Box-Muller methods was kept in a function
static variable: a sample drawn with one generator was returned to a caller
using another one, and concurrent callers raced on it.
---
 src/pseudorandom/sampling.h | 30 ------------------------------
 1 file changed, 30 deletions(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 8240aab..ddc45d9 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -193,19 +193,8 @@ namespace theoretica {
 
 	/// Generate a random number following a Gaussian distribution
 	/// using Marsaglia's polar method.
-	///
-	/// @note This function may not be thread-safe as it uses
-	/// static variables to keep track of spare generated values.
 	inline real rand_gaussian_polar(real mean, real sigma, PRNG& g) {
 
-		static real spare;
-		static bool has_spare = false;
-
-		if(has_spare) {
-			has_spare = false;
-			return mean + spare * sigma;
-		}
-
 		real x, y, s;
 
 		// Generate a random point inside the unit circle
@@ -220,29 +209,14 @@ namespace theoretica {
 		// Project the point
 		s = sqrt(-2 * ln(s) / s);
 
-		// Keep the second generated value for future calls
-		spare = y * s;
-		has_spare = true;
-
 		return mean + sigma * x * s;
 	}
 
 
 	/// Generate a random number following a Gaussian distribution
 	/// using the Box-Muller method.
-	///
-	/// @note This function may not be thread-safe as it uses
-	/// static variables to keep track of spare generated values.
 	inline real rand_gaussian_boxmuller(real mean, real sigma, PRNG& g) {
 
-		static real spare;
-		static bool has_spare = false;
-
-		if(has_spare) {
-			has_spare = false;
-			return mean + spare * sigma;
-		}
-
 		// Generate a random point inside the unit circle
 		
 		const real x = rand_uniform(0, 1, g);
@@ -251,10 +225,6 @@ namespace theoretica {
 		const real x_transf = sqrt(-2 * ln(x));
 
 		const real u = x_transf * cos(TAU * y);
-		const real v = x_transf * sin(TAU * y);
-
-		spare = v;
-		has_spare = true;
 
 		return mean + sigma * u;
 	}
-- 
2.43.0


From 03f07188140ce249b217b74b76bfa15208cff4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 06/95] fix: rand_gaussian_polar() never returned with a stuck
 generator

A generator which keeps returning the same word (for example
PRNG::linear_congruential(2147483647), which is stuck at zero) made the
rejection loop endless.
---
 src/pseudorandom/sampling.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index ddc45d9..d860c41 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -196,13 +196,20 @@ namespace theoretica {
 	inline real rand_gaussian_polar(real mean, real sigma, PRNG& g) {
 
 		real x, y, s;
+		unsigned int iter = 0;
 
 		// Generate a random point inside the unit circle
 		do {
 
+			if(iter >= STATISTICS_TRYANDCATCH_ITER) {
+				TH_MATH_ERROR("rand_gaussian_polar", iter, NO_ALGO_CONVERGENCE);
+				return nan();
+			}
+
 			x = rand_uniform(-1, 1, g);
 			y = rand_uniform(-1, 1, g);
 			s = square(x) + square(y);
+			iter++;
 
 		} while(s >= 1 || s <= MACH_EPSILON);
 
-- 
2.43.0


From df97cfa386a0d76e67d266d68667956ec7bd99aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 07/95] fix: rand_gaussian_boxmuller() took the logarithm of
 zero

The uniform sample is in [0, 1), so that a zero gave a non-finite sample.
---
 src/pseudorandom/sampling.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index d860c41..a479c9c 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -226,7 +226,8 @@ namespace theoretica {
 
 		// Generate a random point inside the unit circle
 		
-		const real x = rand_uniform(0, 1, g);
+		// x must be in (0, 1] as its logarithm is computed
+		const real x = 1 - rand_uniform(0, 1, g);
 		const real y = rand_uniform(0, 1, g);
 
 		const real x_transf = sqrt(-2 * ln(x));
-- 
2.43.0


From 42dc95b06535a67a33a9a3a43701a72f6cdebcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 08/95] fix: rand_trycatch() accepted points where the pdf is
 NaN

Also, max_iter + 1 points were generated and the last one was thrown away
even when accepted.
---
 src/pseudorandom/sampling.h | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index a479c9c..17fc2fe 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -136,23 +136,17 @@ namespace theoretica {
 		real y1, real y2, PRNG& g,
 		unsigned int max_iter = STATISTICS_TRYANDCATCH_ITER) {
 
-		real x;
-		real y;
+		for (unsigned int iter = 0; iter < max_iter; ++iter) {
 
-		unsigned int iter = 0;
-
-		do {
-			x = rand_uniform(x1, x2, g);
-			y = rand_uniform(y1, y2, g);
-			iter++;
-		} while(y > f(x, theta) && iter <= max_iter);
+			const real x = rand_uniform(x1, x2, g);
+			const real y = rand_uniform(y1, y2, g);
 
-		if(iter > max_iter) {
-			TH_MATH_ERROR("rand_dist_tac", iter, NO_ALGO_CONVERGENCE);
-			return nan();
+			if(y <= f(x, theta))
+				return x;
 		}
 
-		return x;
+		TH_MATH_ERROR("rand_dist_tac", max_iter, NO_ALGO_CONVERGENCE);
+		return nan();
 	}
 
 
-- 
2.43.0


From 3e057ed3e6086afd23ce571898568a1851046b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 09/95] fix: metropolis() could step out of the support of the
 pdf

A null uniform sample accepted any point, even with null density.
---
 src/pseudorandom/sampling.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pseudorandom/sampling.h b/src/pseudorandom/sampling.h
index 17fc2fe..4b24892 100644
--- a/src/pseudorandom/sampling.h
+++ b/src/pseudorandom/sampling.h
@@ -554,8 +554,9 @@ namespace theoretica {
 			// Computes the next step
 			next = current + g();
 
-			// Checks acceptance rate
-			if(rand_uniform(0, 1, rnd) * pdf(current) <= pdf(next))
+			// Checks acceptance rate, using a uniform sample in (0, 1]
+			// so that points with null density are never accepted
+			if((1 - rand_uniform(0, 1, rnd)) * pdf(current) <= pdf(next))
 				current = next;
 		}
 
-- 
2.43.0


From 02a1ab70a759a5f1c4c77332c8cf413256005223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 10/95] fix: shuffle() divided by zero on an empty set

---
 src/pseudorandom/prng.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 156ae6e..fc306b7 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -210,8 +210,10 @@ namespace theoretica {
 	template<typename Vector>
 	inline void shuffle(Vector& v, PRNG& g, unsigned int rounds = 0) {
 
-		if(v.size() == 0)
+		if(v.size() == 0) {
 			TH_MATH_ERROR("shuffle", v.size(), INVALID_ARGUMENT);
+			return;
+		}
 
 		// The number of rounds defaults to (N - 1)^2
 		if(rounds == 0)
-- 
2.43.0


From be574a45630eb0b18f4cd369eb456d6355aa1efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 11/95] fix: PRNG::seed() had no effect on Xoshiro and Wyrand
 generators

Their state is stored in the parameters and not in the last number.
---
 src/pseudorandom/prng.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index fc306b7..6705c2d 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -52,6 +52,14 @@ namespace theoretica {
 
 			/// Seed the PRNG.
 			inline void seed(uint64_t seed) {
+
+				// The state of these generators is in the parameters
+				if(f == static_cast<pseudorandom_function>(randgen_xoshiro))
+					param = PRNG::xoshiro(seed).param;
+				else if(f == static_cast<pseudorandom_function>(randgen_wyrand)
+					&& !param.empty())
+					param[0] = seed ? seed : 1;
+
 				x = seed;
 			}
 
-- 
2.43.0


From c4854f861cea51c6b835128b39d5424f49a801ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 12/95] fix: cubic_splines() wrote past the end of its
 coefficients

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index cc91e90..8c30e74 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -271,7 +271,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
@@ -345,7 +345,7 @@ namespace theoretica {
 		gamma[0] = 0;
 
 		std::vector<real> b(n);
-		std::vector<real> c(n);
+		std::vector<real> c(n + 1);
 		std::vector<real> d(n);
 
 		for (unsigned int i = 0; i < n; ++i)
-- 
2.43.0


From cce8be7e96ea38c0430d0a65a96803da3f9cce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 13/95] fix: root_bisect() reported roots not supported by the
 function

NaN values were taken as a change of sign, both at the extremes and inside
of the interval, and zero was returned if the given interval was already
shorter than the tolerance.
---
 src/optimization/roots.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 4d07d06..d9ca570 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -65,12 +65,12 @@ namespace theoretica {
 			return nan();
 		}
 
-		if(f(a) * f(b) >= 0) {
+		if(!(f(a) * f(b) < 0)) {
 			TH_MATH_ERROR("root_bisect", f(a) * f(b), INVALID_ARGUMENT);
 			return nan();
 		}
 
-		real x_avg = 0.0;
+		real x_avg = (a + b) / 2.0;
 		real x_min = a;
 		real x_max = b;
 
@@ -80,7 +80,14 @@ namespace theoretica {
 
 			x_avg = (x_max + x_min) / 2.0;
 
-			if(f(x_avg) * f(x_min) > 0)
+			const real y = f(x_avg) * f(x_min);
+
+			if(is_nan(y)) {
+				TH_MATH_ERROR("root_bisect", x_avg, NO_ALGO_CONVERGENCE);
+				return nan();
+			}
+
+			if(y > 0)
 				x_min = x_avg;
 			else
 				x_max = x_avg;
-- 
2.43.0


From e0cf7142098fd101571a0558f30178852f61a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 14/95] fix: root_itp() reported a root where the function is
 NaN

---
 src/optimization/roots.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index d9ca570..5ece4a1 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -140,7 +140,7 @@ namespace theoretica {
 		real y_a = f(a);
 		real y_b = f(b);
 
-		if(y_a * y_b >= 0) {
+		if(!(y_a * y_b < 0)) {
 			TH_MATH_ERROR("root_itp", y_a * y_b, INVALID_ARGUMENT);
 			return nan();
 		}
@@ -192,8 +192,11 @@ namespace theoretica {
 			} else if (monotone * y_new < 0) {
 				a = x_new;
 				y_a = y_new;
-			} else {
+			} else if (y_new == 0) {
 				return x_new;
+			} else {
+				TH_MATH_ERROR("root_itp", x_new, NO_ALGO_CONVERGENCE);
+				return nan();
 			}
 
 			eps *= 0.5;
-- 
2.43.0


From 4d3de0542d1e1e191de52e04c88d0d367a8628ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 15/95] fix: root_steffensen() never converged

The value of the function checked by the loop was shadowed inside of it.
---
 src/optimization/roots.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 5ece4a1..911834c 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -436,7 +436,12 @@ namespace theoretica {
 
 		while(abs(f_x) > tol && iter <= max_iter) {
 
-			const real f_x = f(x);
+			f_x = f(x);
+
+			// Exact root, the following step is not defined
+			if(f_x == 0)
+				break;
+
 			const real g_x = (f(x + f_x) / f_x) - 1;
 
 			x = x - (f_x / g_x);
-- 
2.43.0


From 3b88922e0df7a70a6ef9878de07b138175cd2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 16/95] fix: minimize_bisection() returned a maximum along with
 its error

---
 src/optimization/extrema.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 07f17c3..9f1b3a2 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -194,7 +194,7 @@ namespace theoretica {
 
 		if(deriv_central(Df, z) < 0) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
-			return z;
+			return nan();
 		}
 
 		return z;
-- 
2.43.0


From 4c1231b68aa9964e9389a6404df1824c43c0de82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 17/95] fix: hit-or-miss integration counted points on the
 wrong side of the x axis

For example integral_hom of f(x) = 1 in [0, 1] x [-1, 1] gave 2.
---
 src/pseudorandom/montecarlo.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pseudorandom/montecarlo.h b/src/pseudorandom/montecarlo.h
index cc6905a..244a10f 100644
--- a/src/pseudorandom/montecarlo.h
+++ b/src/pseudorandom/montecarlo.h
@@ -173,11 +173,12 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
+			// Count only the points between the function and the x axis
 			if(f_x >= 0) {
-				if(f_x >= y_n)
+				if(y_n >= 0 && f_x >= y_n)
 					N_inside++;
 			} else {
-				if(f_x < y_n)
+				if(y_n < 0 && f_x < y_n)
 					N_inside--;
 			}
 		}
@@ -241,11 +242,12 @@ namespace theoretica {
 
 			const real f_x = f(x_n);
 
+			// Count only the points between the function and the x axis
 			if(f_x >= 0) {
-				if(f_x >= y_n)
+				if(y_n >= 0 && f_x >= y_n)
 					N_inside++;
 			} else {
-				if(f_x < y_n)
+				if(y_n < 0 && f_x < y_n)
 					N_inside--;
 			}
 		}
-- 
2.43.0


From 4ef9becb37f4021878ac2e72ae3889a76ea7a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 18/95] fix: step_k38() used the wrong coefficients for its
 last stage

Kutta's 3/8 rule evaluates k4 at x + h * (k1 - k2 + k3).
---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 5b599b2..6816966 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -238,7 +238,7 @@ namespace theoretica {
 			const Vector k1 = f(t, x);
 			const Vector k2 = f(t + (h / 3.0), x + k1 * (h / 3.0));
 			const Vector k3 = f(t + (h * 2.0 / 3.0), x + h * (-k1 / 3.0 + k2));
-			const Vector k4 = f(t + h, x + h * (k1 - k2 + k1));
+			const Vector k4 = f(t + h, x + h * (k1 - k2 + k3));
 
 			return x + (k1 + 3.0 * k2 + 3.0 * k3 + k4) * (h / 8.0);
 		}
-- 
2.43.0


From 60b3d3408f9c4994f10f9db12515de0bebe4c05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:48 +0000
Subject: [PATCH 19/95] fix: step_adams3() used the wrong coefficient for the
 oldest value

The coefficients of the third order Adams-Bashforth method are 23/12, -4/3
and 5/12 and must sum to one.
---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 6816966..3c07f9d 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -279,7 +279,7 @@ namespace theoretica {
 			const Vector& x2, real t2, real h = 0.001) {
 
 			return x2 + h *	(
-				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (3. / 8.) * f(t0, x0)
+				(23. / 12.) * f(t2, x2) - (4. / 3.) * f(t1, x1) + (5. / 12.) * f(t0, x0)
 			);
 		}
 
-- 
2.43.0


From 89b3bf167ab9661c8cde506ff98040aca6c34000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:02 +0000
Subject: [PATCH 20/95] fix: elements of non-square dynamic matrices aliased or
 were out of bounds

The stride of the storage of mat<Type, 0, 0> was the wrong dimension.
---
 src/algebra/mat.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 1cf48af..64f86ae 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1066,9 +1066,9 @@ namespace theoretica {
 		inline Type& at(unsigned int i, unsigned int j) {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
@@ -1082,9 +1082,9 @@ namespace theoretica {
 		inline const Type& at(unsigned int i, unsigned int j) const {
 
 #ifdef THEORETICA_ROW_FIRST
-			return data[j + i * row_sz];
+			return data[j + i * col_sz];
 #else
-			return data[i + j * col_sz];
+			return data[i + j * row_sz];
 #endif
 		}
 
-- 
2.43.0


From 63085c3f2759b79d51c52f58835cffee3885bab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:02 +0000
Subject: [PATCH 21/95] fix: ODE solutions ended before, or stepped back to,
 the final time

The time values accumulated rounding errors over the steps, so that the last
one differed from tf, and the additional last step could be negative.
---
 src/calculus/ode.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 3c07f9d..17ab605 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -323,7 +323,8 @@ namespace theoretica {
 			unsigned int total_steps = steps;
 			unsigned int i;
 
-			if (abs(t0 + steps * stepsize - tf) > MACH_EPSILON)
+			// Do not add a step only because of rounding
+			if (tf - (t0 + steps * stepsize) > 1E-08 * stepsize)
 				total_steps++;
 
 			// Initialize solution structure
@@ -333,7 +334,7 @@ namespace theoretica {
 			// Iterate over each step of the numerical method
 			for (i = 1; i <= steps; ++i) {
 				solution.x[i] = step(f, solution.x[i - 1], solution.t[i - 1], stepsize);
-				solution.t[i] = solution.t[i - 1] + stepsize;
+				solution.t[i] = t0 + i * stepsize;
 			}
 
 
@@ -342,9 +343,10 @@ namespace theoretica {
 			if (steps != total_steps) {
 				solution.x[i] = step(
 					f, solution.x[i - 1], solution.t[i - 1], tf - solution.t[i - 1]);
-				solution.t[i] = tf;
 			}
 
+			solution.t[total_steps] = tf;
+
 			return solution;
 		}
 
-- 
2.43.0


From d9c01768c87722dee3e4e74db2fe8f812926636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:25 +0000
Subject: [PATCH 22/95] fix: readln() dropped lines when it ran out of memory

Any exception thrown while parsing a line was taken for a conversion error,
including std::bad_alloc, so that valid lines were silently lost when the
line could not be copied.
---
 src/utility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utility.h b/src/utility.h
index d147766..08ee116 100644
--- a/src/utility.h
+++ b/src/utility.h
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <string>
 #include <algorithm>
+#include <new>
 #include "./algebra/vec.h"
 
 
@@ -108,6 +109,8 @@ namespace theoretica {
 			// Try to parse the line and add it to the vector.
 			try {
 				value = parse(line);
+			} catch(const std::bad_alloc&) {
+				throw;
 			} catch(...) {
 				std::cout << "Input conversion error" << std::endl;
 				continue;
-- 
2.43.0


From db518811e02dd53b1598bfff9879783e6761d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:36 +0000
Subject: [PATCH 23/95] fix: a linear_model without a successful fit had
 uninitialised members

Printing it, or reading its error and degrees of freedom, gave whatever was in memory.
---
 src/statistics/regression.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67d42e6..648c0aa 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -289,30 +289,30 @@ namespace theoretica {
 			real A;
 
 			/// Estimated error on A
-			real sigma_A;
+			real sigma_A {nan()};
 
 			/// Slope
 			real B;
 
 			/// Estimated error on B
-			real sigma_B;
+			real sigma_B {nan()};
 
 			/// Covariance matrix of the coefficients A and B
 			mat2 covar_mat;
 
 			/// Total error on linearization
-			real err;
+			real err {nan()};
 
 			/// Chi-squared on linearization
-			real chi_squared;
+			real chi_squared {nan()};
 
 			/// Number of degrees of freedom
 			/// of the linear regression
-			unsigned int ndf;
+			unsigned int ndf {0};
 
 			/// The p-value associated to the
 			/// computed Chi-squared
-			real p_value;
+			real p_value {nan()};
 
 
 			/// Default constructor
-- 
2.43.0


From 5f691e8d79627653247b8f1f299e95c7e2fefa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:06 +0000
Subject: [PATCH 24/95] fix: exp() of NaN or infinity recursed until the stack
 overflowed

The integer part of such arguments is not representable, and the power of a
huge argument was computed in a loop of that many steps.
---
 src/core/real_analysis.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index 5d98a0f..e11a3a7 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -737,6 +737,13 @@ namespace theoretica {
 	/// is approximated using Taylor series on [0, 0.25]
 	inline real exp(real x) {
 
+		if(is_nan(x))
+			return x;
+
+		// The result is not representable for any real type
+		if(x > 12000)
+			return inf();
+
 		// Domain reduction to [0, +inf]
 		if(x < 0)
 			return 1.0 / exp(-x);
-- 
2.43.0


From a972b14bec083819b5d5314705339a3464e5bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:36 +0000
Subject: [PATCH 25/95] fix: shuffle() lost elements of collections whose []
 returns a proxy

The value kept while exchanging two elements of a std::vector<bool> was a
reference to the element being overwritten.
---
 src/pseudorandom/prng.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pseudorandom/prng.h b/src/pseudorandom/prng.h
index 6705c2d..751e411 100644
--- a/src/pseudorandom/prng.h
+++ b/src/pseudorandom/prng.h
@@ -7,6 +7,7 @@
 #define THEORETICA_PRNG_H
 
 #include <vector>
+#include <utility>
 #include "./pseudorandom.h"
 #include "../core/error.h"
 
@@ -234,9 +235,8 @@ namespace theoretica {
 			const size_t index2 = g() % v.size();
 
 			// Exchange the two values at the random indices
-			const auto x1 = v[index1];
-			v[index1] = v[index2];
-			v[index2] = x1;
+			using std::swap;
+			swap(v[index1], v[index2]);
 		}
 	}
 
-- 
2.43.0


From 3941579b7ff67c26828ef579f0d442ae7fc72ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:05 +0000
Subject: [PATCH 26/95] fix: ODE solvers converted NaN to a vector size when
 reporting an error

The times of a failed solution were constructed from the type of the variables,
which for dynamic vectors takes the size and for real variables does not compile.
---
 src/calculus/ode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 17ab605..18bca8a 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -315,7 +315,7 @@ namespace theoretica {
 
 			if (tf < t0) {
 				TH_MATH_ERROR("ode::solve_fixstep", tf, INVALID_ARGUMENT);
-				ode_solution_t<Vector> err; err.t = Vector(nan());
+				ode_solution_t<Vector> err; err.t = vec<real>(1, nan());
 				return err;
 			}
 
-- 
2.43.0


From 8f2d9fc118d9a0e6df835882c1929d39b8508c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:05 +0000
Subject: [PATCH 27/95] fix: ODE solvers accepted a null or negative step size

The number of steps was then the conversion of an infinite or negative value to an integer.
---
 src/calculus/ode.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index 18bca8a..fae69ca 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -319,6 +319,12 @@ namespace theoretica {
 				return err;
 			}
 
+			if (!(stepsize > 0)) {
+				TH_MATH_ERROR("ode::solve_fixstep", stepsize, INVALID_ARGUMENT);
+				ode_solution_t<Vector> err; err.t = vec<real>(1, nan());
+				return err;
+			}
+
 			const unsigned int steps = floor((tf - t0) / stepsize);
 			unsigned int total_steps = steps;
 			unsigned int i;
-- 
2.43.0


From a6a4c521d461473059bf85de7adec72d07889d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:58 +0000
Subject: [PATCH 28/95] fix: Newton type root finders reported success with a
 NaN or infinite root

---
 src/optimization/multi_roots.h |  2 +-
 src/optimization/roots.h       | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/optimization/multi_roots.h b/src/optimization/multi_roots.h
index 20e55ee..ba5140b 100644
--- a/src/optimization/multi_roots.h
+++ b/src/optimization/multi_roots.h
@@ -56,7 +56,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(f_x.sqr_norm()) || is_nan(x.sqr_norm())) {
 			TH_MATH_ERROR("multi_root_newton", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index 911834c..e460f4a 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -239,7 +239,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_newton", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -279,7 +279,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_newton", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -360,7 +360,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_halley", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -405,7 +405,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_halley", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -448,7 +448,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_steffensen", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -496,7 +496,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_chebyshev", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -544,7 +544,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_chebyshev", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -591,7 +591,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_ostrowski", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -638,7 +638,7 @@ namespace theoretica {
 			iter++;
 		}
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(x) || is_inf(x)) {
 			TH_MATH_ERROR("root_jarrat", x, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 9731aee19825b2de19037ab5462ee33912249513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:40 +0000
Subject: [PATCH 29/95] fix: multi_minimize_grad() and multi_maximize_lingrad()
 did not compile

---
 src/optimization/multi_extrema.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 4550e80..b9031cc 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -47,7 +47,7 @@ namespace theoretica {
 
 		do {
 
-			grad = gradient(f, x);
+			grad = autodiff::gradient(f, x);
 			x += gamma * grad;
 			iter++;
 
@@ -161,7 +161,7 @@ namespace theoretica {
 
 		do {
 
-			grad = -gradient(f, x);
+			grad = -autodiff::gradient(f, x);
 
 			// Maximize f(x + gamma * gradient) in [-1, 0]
 			// using Golden Section extrema search
-- 
2.43.0


From 73d5d0a32b3f49958f8c02056ebe2a72bc9ee16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:23 +0000
Subject: [PATCH 30/95] fix: backward substitution reads past the end of the
 last row

---
 src/algebra/algebra.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 187d0c5..a7d93d3 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1627,9 +1627,9 @@ namespace theoretica {
 			// Solve using backward substitution
 			for (int i = U.rows() - 1; i >= 0; --i) {
 				
-				Type sum = U(i, i + 1) * x[i + 1];
+				Type sum = Type(0.0);
 
-				for (unsigned int j = i + 2; j < U.cols(); ++j)
+				for (unsigned int j = i + 1; j < U.cols(); ++j)
 					sum += U(i, j) * x[j];
 
 				if (abs(U(i, i)) < MACH_EPSILON) {
-- 
2.43.0


From 16f9a07399487132c5f82068bda715d91c688a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:23 +0000
Subject: [PATCH 31/95] fix: polynomial subtraction reads past the end of the
 shorter minuend

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 1582771..2c18558 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -151,7 +151,7 @@ namespace theoretica {
 
 				unsigned int i = 0;
 
-				for (; i < min(r.size(), p.size()); ++i)
+				for (; i < min(coeff.size(), p.size()); ++i)
 					r[i] = coeff[i] - p.get(i);
 
 				if (coeff.size() > p.size())
-- 
2.43.0


From f4cafaa457565f64d378c096f19a3d737412ca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:23 +0000
Subject: [PATCH 32/95] fix: axis rotations write outside 3x3 matrices

---
 src/algebra/transform.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index e984556..fe41d29 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -286,7 +286,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = 1;
 			m(2, 2) = c;
-			m(3, 3) = 1;
 
 			m(0, 2) = s;
 			m(2, 0) = -s;
@@ -329,7 +328,6 @@ namespace theoretica {
 			m(0, 0) = c;
 			m(1, 1) = c;
 			m(2, 2) = 1;
-			m(3, 3) = 1;
 
 			m(0, 1) = -s;
 			m(1, 0) = s;
-- 
2.43.0


From f3e164203103333e17b92fc57c42f480aff265a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:23 +0000
Subject: [PATCH 33/95] fix: look_at reads outside the basis vectors

---
 src/algebra/transform.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index fe41d29..340eba8 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -487,19 +487,19 @@ namespace theoretica {
 			Matrix m;
 			m.resize(4, 4);
 
-			m(0, 0) = x_axis[1];
-			m(0, 1) = x_axis[2];
-			m(0, 2) = x_axis[3];
+			m(0, 0) = x_axis[0];
+			m(0, 1) = x_axis[1];
+			m(0, 2) = x_axis[2];
 			m(0, 3) = dot(camera, vec_scalmul(-1.0, x_axis));
 
-			m(1, 0) = y_axis[1];
-			m(1, 1) = y_axis[2];
-			m(1, 2) = y_axis[3];
+			m(1, 0) = y_axis[0];
+			m(1, 1) = y_axis[1];
+			m(1, 2) = y_axis[2];
 			m(1, 3) = dot(camera, vec_scalmul(-1.0, y_axis));
 
-			m(2, 0) = z_axis[1];
-			m(2, 1) = z_axis[2];
-			m(2, 2) = z_axis[3];
+			m(2, 0) = z_axis[0];
+			m(2, 1) = z_axis[1];
+			m(2, 2) = z_axis[2];
 			m(2, 3) = dot(camera, vec_scalmul(-1.0, z_axis));
 
 			m(3, 0) = 0;
-- 
2.43.0


From 38f65b8e04121ee82bdf858e2dac2e4625154fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:43 +0000
Subject: [PATCH 34/95] fix: matrix-vector products of non-square matrices
 write outside the result

---
 src/algebra/algebra.h | 19 ++++++++++++++++---
 src/algebra/mat.h     |  5 +++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index a7d93d3..12e9d53 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -681,7 +681,14 @@ namespace theoretica {
 			}
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
+
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::apply_transform", res.size(), INVALID_ARGUMENT);
+				vec_error(v);
+				return v;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
@@ -702,7 +709,7 @@ namespace theoretica {
 		inline Vector transform(const Matrix& A, const Vector& v) {
 
 			Vector res;
-			res.resize(v.size());
+			res.resize(A.rows());
 
 			if(v.size() != A.cols()) {
 				TH_MATH_ERROR("algebra::transform", v.size(), INVALID_ARGUMENT);
@@ -710,6 +717,12 @@ namespace theoretica {
 				return res;
 			}
 
+			if(res.size() != A.rows()) {
+				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
+				vec_error(res);
+				return res;
+			}
+
 			vec_zeroes(res);
 
 			for (unsigned int i = 0; i < A.rows(); ++i)
@@ -736,7 +749,7 @@ namespace theoretica {
 				return res;
 			}
 
-			if(res.size() != v.size()) {
+			if(res.size() != A.rows()) {
 				TH_MATH_ERROR("algebra::transform", res.size(), INVALID_ARGUMENT);
 				vec_error(res);
 				return res;
diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 64f86ae..89e04c7 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -332,7 +332,8 @@ namespace theoretica {
 		/// @param v The vector to transform.
 		/// @return The transformed vector as a new `vec<Type, N>`.
 		inline vec<Type, N> transform(const vec<Type, K>& v) const {
-			return algebra::transform(*this, v);
+			vec<Type, N> res;
+			return algebra::transform(res, *this, v);
 		}
 
 
@@ -877,7 +878,7 @@ namespace theoretica {
 		template<typename Vector>
 		inline Vector transform(const Vector& v) const {
 
-			if(v.size() != rows()) {
+			if(v.size() != cols()) {
 				TH_MATH_ERROR("mat::transform", v.size(), INVALID_ARGUMENT);
 				Vector res;
 				res.resize(rows());
-- 
2.43.0


From 045e2c8ec6d9d7b55c3474371a73a07111ab2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:01 +0000
Subject: [PATCH 35/95] fix: text conversions silently truncate the text when
 memory runs out

---
 src/algebra/mat.h           | 2 ++
 src/algebra/vec.h           | 2 ++
 src/autodiff/dual.h         | 1 +
 src/autodiff/dual2.h        | 1 +
 src/autodiff/multidual.h    | 1 +
 src/calculus/ode.h          | 1 +
 src/complex/complex.h       | 1 +
 src/complex/phasor.h        | 1 +
 src/complex/quat.h          | 1 +
 src/core/error.h            | 1 +
 src/core/ratio.h            | 1 +
 src/polynomial/polynomial.h | 1 +
 src/statistics/histogram.h  | 1 +
 src/statistics/regression.h | 1 +
 14 files changed, 16 insertions(+)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index 89e04c7..e9f6d0d 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -639,6 +639,7 @@ namespace theoretica {
 				std::string separator = ", ", bool parenthesis = true) const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 
 				for (unsigned int i = 0; i < rows(); ++i) {
 						
@@ -1264,6 +1265,7 @@ namespace theoretica {
 				std::string separator = ", ", bool parenthesis = true) const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 
 				for (unsigned int i = 0; i < rows(); ++i) {
 						
diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index 0f5edb3..cfa0d00 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -454,6 +454,7 @@ namespace theoretica {
 			bool parenthesis = true) const {
 
 			std::stringstream res;
+			res.exceptions(std::ios_base::badbit);
 
 			if(parenthesis)
 				res << "(";
@@ -868,6 +869,7 @@ namespace theoretica {
 			bool parenthesis = true) const {
 
 			std::stringstream res;
+			res.exceptions(std::ios_base::badbit);
 
 			if(parenthesis)
 				res << "(";
diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index d6f337d..b92260b 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -314,6 +314,7 @@ namespace theoretica {
 			inline std::string to_string(const std::string& epsilon = "e") const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 
 				res << a;
 				res << (b >= 0 ? " + " : " - ");
diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 21ebe43..0caf4b8 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -299,6 +299,7 @@ namespace theoretica {
 				const std::string& epsilon2 = "e2") const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 
 				res << a;
 				res << (b >= 0 ? " + " : " - ");
diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index f185adf..464d0d0 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -359,6 +359,7 @@ namespace theoretica {
 			inline std::string to_string(const std::string& epsilon = "e") const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 				res << a << " + " << v << epsilon;
 
 				return res.str();
diff --git a/src/calculus/ode.h b/src/calculus/ode.h
index fae69ca..f8151ca 100644
--- a/src/calculus/ode.h
+++ b/src/calculus/ode.h
@@ -57,6 +57,7 @@ namespace theoretica {
 				}
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 
 				for (unsigned int i = 0; i < t.size(); ++i) {
 					
diff --git a/src/complex/complex.h b/src/complex/complex.h
index 0c26a7f..df30433 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -376,6 +376,7 @@ namespace theoretica {
 			inline std::string to_string() const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 
 				// TO-DO Check whether Type has comparison
 				// operators (bicomplex with Type=complex !)
diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 9c1b57d..660d0d0 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -351,6 +351,7 @@ namespace theoretica {
 			inline std::string to_string(const std::string& separator = ", ") const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 				res << modulus << "/" << phase;
 				return res.str();
 			}
diff --git a/src/complex/quat.h b/src/complex/quat.h
index 7594254..307ea1f 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -397,6 +397,7 @@ namespace theoretica {
 			inline std::string to_string() const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 
 				res << a;
 				res << (b >= 0 ? " + " : " - ") << abs(b) << "i";
diff --git a/src/core/error.h b/src/core/error.h
index d2104ee..455fd39 100644
--- a/src/core/error.h
+++ b/src/core/error.h
@@ -157,6 +157,7 @@ namespace theoretica {
 		inline std::string to_string() const {
 
 			std::stringstream err_str;
+			err_str.exceptions(std::ios_base::badbit);
 
 			err_str << file_name << "(" << code_line << "):";
 			err_str << func_name << "(" << val << "): ";
diff --git a/src/core/ratio.h b/src/core/ratio.h
index d51ddbf..3e5aaad 100644
--- a/src/core/ratio.h
+++ b/src/core/ratio.h
@@ -108,6 +108,7 @@ namespace theoretica {
 			inline std::string to_string() const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 				res << num << "/" << den;
 				return res.str();
 			}
diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 2c18558..40e0331 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -480,6 +480,7 @@ namespace theoretica {
 				const std::string& exponentiation = "^") const {
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 				bool flag = false;
 				const int sz = coeff.size();
 
diff --git a/src/statistics/histogram.h b/src/statistics/histogram.h
index 9c4f5a7..d7c665e 100644
--- a/src/statistics/histogram.h
+++ b/src/statistics/histogram.h
@@ -251,6 +251,7 @@ namespace theoretica {
 					return "";
 
 				std::stringstream res;
+				res.exceptions(std::ios_base::badbit);
 				const real width = abs(range_max - range_min) / bin_counts.size();
 				real mult = 0.5;
 
diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 648c0aa..67304d3 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -526,6 +526,7 @@ namespace theoretica {
 		inline std::string to_string() const {
 
 			std::stringstream res;
+			res.exceptions(std::ios_base::badbit);
 
 			res << "Model: y = A + B * x" << std::endl;
 
-- 
2.43.0


From 78ca6e123edd7bf7208fb08e2e7d3ab706a33334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 36/95] fix: mat_swap_cols iterates over the rows of the
 columns it swaps

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 12e9d53..488c8b0 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -211,7 +211,7 @@ namespace theoretica {
 			if (col1 == col2)
 				return A;
 
-			for (unsigned int i = 0; i < A.cols(); ++i) {
+			for (unsigned int i = 0; i < A.rows(); ++i) {
 
 				const Type tmp = A(i, col1);
 
-- 
2.43.0


From 48897cbc3dc967a5d297df4887874d8e1f549ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 37/95] fix: multidual division checks the divisor and fills
 the error vector with NaN

---
 src/autodiff/multidual.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index 464d0d0..e22bc80 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -156,9 +156,9 @@ namespace theoretica {
 			/// Dual division
 			inline multidual operator/(const multidual& other) const {
 
-				if(a == 0) {
+				if(other.a == 0) {
 					TH_MATH_ERROR("multidual::operator/", 0, DIV_BY_ZERO);
-					return multidual(nan(), vec<real, N>(nan(), N));
+					return multidual(nan(), vec<real, N>(N, nan()));
 				}
 
 				return multidual(a / other.a,
@@ -232,7 +232,7 @@ namespace theoretica {
 				if(r == 0) {
 					TH_MATH_ERROR("multidual::operator/=", 0, DIV_BY_ZERO);
 					a = nan();
-					v = vec<real, N>(nan(), N);
+					v = vec<real, N>(N, nan());
 					return *this;
 				}
 
-- 
2.43.0


From d1f08beb639bc627e7885b835235b203c7156a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 38/95] fix: autodiff::curl returns a NaN vector of the size of
 its argument on error

---
 src/autodiff/autodiff.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index 88d1a7b..f243d1a 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -288,7 +288,7 @@ namespace theoretica {
 
 			if(x.size() != 3) {
 				TH_MATH_ERROR("th::curl", x.size(), INVALID_ARGUMENT);
-				return vec<real, N>(nan(), x.size());
+				return vec<real, N>(x.size(), nan());
 			}
 
 			mat<real, N, N> J = jacobian<N, N>(f, x);
-- 
2.43.0


From 573e902f6281446a32285fda51b42bf3dffba259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 39/95] fix: th::map overwrites the output with NaN when the
 sizes differ

---
 src/core/dataset.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/dataset.h b/src/core/dataset.h
index 4d48119..869dab4 100644
--- a/src/core/dataset.h
+++ b/src/core/dataset.h
@@ -267,7 +267,10 @@ namespace theoretica {
 
 		if(src.size() != dest.size()) {
 			TH_MATH_ERROR("th::map", dest.size(), INVALID_ARGUMENT);
-			dest = Vector2(nan());
+
+			for (unsigned int i = 0; i < dest.size(); i++)
+				dest[i] = vector_element_t<Vector2>(nan());
+
 			return dest;
 		}
 
-- 
2.43.0


From 42dc89a2597fcda8a936f11b1edabe4bb6d9aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 40/95] fix: polynomial::find_order returns the index of the
 highest non-null coefficient

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 40e0331..5d463a2 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -95,7 +95,7 @@ namespace theoretica {
 			inline unsigned int find_order() const {
 
 				for (int i = coeff.size() - 1; i >= 0; --i) {
-					if(abs(coeff[i]) < MACH_EPSILON)
+					if(abs(coeff[i]) >= MACH_EPSILON)
 						return i;
 				}
 
-- 
2.43.0


From dd8c12d25c665d89e0bf14e43a072b21169256c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 41/95] fix: polynomial::trim stops after removing all
 coefficients

---
 src/polynomial/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 5d463a2..6367e1d 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -106,7 +106,7 @@ namespace theoretica {
 			/// Remove trailing zero coefficients
 			inline void trim() {
 
-				for (unsigned int i = coeff.size() - 1; i >= 0; --i) {
+				for (int i = coeff.size() - 1; i >= 0; --i) {
 					if(abs(coeff[i]) > MACH_EPSILON)
 						break;
 
-- 
2.43.0


From e5d00343b76c1692f04945b9ed955c0e3005fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 42/95] fix: assoc_legendre_polynomial_even returns NaN for odd
 m

---
 src/polynomial/orthogonal.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index dbcc2f4..1a6790f 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -114,8 +114,10 @@ namespace theoretica {
 	// Associated Legendre polynomial
 	inline polynomial<real> assoc_legendre_polynomial_even(unsigned int l, int m) {
 
-		if(m % 2 != 0)
+		if(m % 2 != 0) {
 			TH_MATH_ERROR("assoc_legendre_polynomial_even", m, IMPOSSIBLE_OPERATION);
+			return polynomial<real>({nan()});
+		}
 
 		real K = 1;
 
-- 
2.43.0


From ce0a7a3ba60f62a02c7e090f4f532ce462243ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:52 +0000
Subject: [PATCH 43/95] fix: lagrange_polynomial checks all pairs of nodes

---
 src/interpolation/polynomial.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index e358fc2..a890f3c 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -31,9 +31,11 @@ namespace theoretica {
 		// Check that all x_i are different to prevent
 		// division by zero
 		for (unsigned int i = 0; i < points.size() - 1; ++i) {
-			if(points[i].get(0) == points[i + 1].get(0)) {
-				TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
-				return polynomial<T>({T(nan())});
+			for (unsigned int j = i + 1; j < points.size(); ++j) {
+				if(points[i].get(0) == points[j].get(0)) {
+					TH_MATH_ERROR("lagrange_polynomial", points[i].get(0), INVALID_ARGUMENT);
+					return polynomial<T>({T(nan())});
+				}
 			}
 		}
 
-- 
2.43.0


From 0a086974f6faef6bb17b6956eff187b3fbb3863e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:31 +0000
Subject: [PATCH 44/95] fix: polynomial division does not stop before the last
 coefficients of the quotient

---
 src/polynomial/polynomial.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 6367e1d..4bceff7 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -199,7 +199,11 @@ namespace theoretica {
 				polynomial q = polynomial();
 				unsigned int i = 0;
 
-				while(i < this_order) {
+				// Each degree of the dividend needs a step, or a second
+				// one if rounding left a residue of its coefficient
+				const unsigned int max_steps = 2 * (this_order + 1);
+
+				while(i < max_steps) {
 
 					// Compute only once the degree of the polynomial
 					const unsigned int r_order = r.find_order();
@@ -224,7 +228,7 @@ namespace theoretica {
 
 				// The algorithm has stopped iterating after a number
 				// of the dividend's degree counts
-				if(i == this_order) {
+				if(i == max_steps) {
 					TH_MATH_ERROR("polynomial::operator/", i, NO_ALGO_CONVERGENCE);
 					return polynomial(nan());
 				}
-- 
2.43.0


From 782a79e4a8e8ec3d5c59068b060839da63341b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 45/95] fix: vec::operator/= of a fixed size vector finds
 vec_error

---
 src/algebra/vec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/vec.h b/src/algebra/vec.h
index cfa0d00..8777d08 100644
--- a/src/algebra/vec.h
+++ b/src/algebra/vec.h
@@ -281,7 +281,7 @@ namespace theoretica {
 
 			if(abs(scalar) < MACH_EPSILON) {
 				TH_MATH_ERROR("vec::operator/=", scalar, DIV_BY_ZERO);
-				vec_error(*this);
+				algebra::vec_error(*this);
 				return *this;
 			}
 
-- 
2.43.0


From 6cf089aa4c3b5e67677484e289d2484461f806b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 46/95] fix: complex::operator/= by a null number returns the
 object, not a temporary

---
 src/complex/complex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex.h b/src/complex/complex.h
index df30433..333f0ab 100644
--- a/src/complex/complex.h
+++ b/src/complex/complex.h
@@ -306,7 +306,7 @@ namespace theoretica {
 
 				if(abs(k) < MACH_EPSILON) {
 					TH_MATH_ERROR("complex::operator/=", k, DIV_BY_ZERO);
-					return complex(nan(), nan());
+					return (*this = complex(nan(), nan()));
 				}
 
 				return (*this = complex(a / k, b / k));
-- 
2.43.0


From 20538d14a22673e2848b902d6bd917bf406e29fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 47/95] fix: compound products and quotients of dual numbers
 use the original real part

---
 src/autodiff/dual.h      | 8 ++------
 src/autodiff/dual2.h     | 5 +----
 src/autodiff/multidual.h | 8 ++------
 3 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/autodiff/dual.h b/src/autodiff/dual.h
index b92260b..2a5ad92 100644
--- a/src/autodiff/dual.h
+++ b/src/autodiff/dual.h
@@ -215,9 +215,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual& operator*=(const dual& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this dual number by a real number
@@ -231,9 +229,7 @@ namespace theoretica {
 			/// Divide this dual number by another one
 			inline dual& operator/=(const dual& other) {
 
-				a = (a / other.a);
-				b = (b * other.a - a * other.b) / square(other.a);
-				return *this;
+				return (*this = *this / other);
 			}
 
 			/// Divide a dual number by a real number
diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 0caf4b8..0b38e6e 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -207,10 +207,7 @@ namespace theoretica {
 			/// Multiply this dual number by another one
 			inline dual2& operator*=(const dual2& other) {
 
-				a = (a * other.a);
-				b = (a * other.b) + (b * other.a);
-				c = (a * other.c) + (2 * b * other.b) + (c * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this dual number by a real number
diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index e22bc80..b4cdf91 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -205,9 +205,7 @@ namespace theoretica {
 			/// Multiply this multidual number by another one
 			inline multidual& operator*=(const multidual& other) {
 
-				a = (a * other.a);
-				v = (other.v * a) + (v * other.a);
-				return *this;
+				return (*this = *this * other);
 			}
 
 			/// Multiply this multidual number by a real number
@@ -221,9 +219,7 @@ namespace theoretica {
 			/// Divide this multidual number by another one
 			inline multidual& operator/=(const multidual& other) {
 
-				a = (a / other.a);
-				v = (v * other.a - other.v * a) / (other.a * other.a);
-				return *this;
+				return (*this = *this / other);
 			}
 
 			/// Divide a multidual number by a real number
-- 
2.43.0


From 69afeb1f6de842ff2dfab80a213e10cf90b6ded1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 48/95] fix: second derivative of the inverse of a dual2 number

---
 src/autodiff/dual2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2.h b/src/autodiff/dual2.h
index 0b38e6e..47b06f9 100644
--- a/src/autodiff/dual2.h
+++ b/src/autodiff/dual2.h
@@ -109,7 +109,7 @@ namespace theoretica {
 					return dual2(nan(), nan(), nan());
 				}
 
-				return dual2(1.0 / a, -b / square(a), 2 * b / cube(a));
+				return dual2(1.0 / a, -b / square(a), 2 * square(b) / cube(a) - c / square(a));
 			}
 
 			/// Identity (for consistency)
-- 
2.43.0


From 95af16c21c433357a78b591cde89cba488219ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 49/95] fix: a polynomial compares equal to itself

---
 src/polynomial/polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 4bceff7..0389ecf 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -349,12 +349,12 @@ namespace theoretica {
 				}
 
 				if(size() > other.size()) {
-					for (unsigned int i = 0; i < size(); ++i) {
+					for (unsigned int i = n; i < size(); ++i) {
 						if(abs(coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
 				} else {
-					for (unsigned int i = 0; i < other.size(); ++i) {
+					for (unsigned int i = n; i < other.size(); ++i) {
 						if(abs(other.coeff[i]) >= MACH_EPSILON)
 							return false;
 					}
-- 
2.43.0


From 5c4da8519c81c7c3393855eda513539f7c9816b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 50/95] fix: products and quotients of empty polynomials

---
 src/polynomial/polynomial.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/polynomial/polynomial.h b/src/polynomial/polynomial.h
index 0389ecf..7ae768c 100644
--- a/src/polynomial/polynomial.h
+++ b/src/polynomial/polynomial.h
@@ -169,6 +169,11 @@ namespace theoretica {
 			inline polynomial operator*(const polynomial& p) const {
 
 				polynomial r = polynomial();
+
+				// The product by an empty polynomial is empty
+				if(!size() || !p.size())
+					return r;
+
 				r.coeff.resize(this->size() + p.size() - 1);
 
 				for (unsigned int i = 0; i < size(); ++i) {
@@ -187,8 +192,8 @@ namespace theoretica {
 				const unsigned int d_order = d.find_order();
 				const unsigned int this_order = find_order();
 
-				if(d_order == 0 && d.get(0) == 0) {
-					TH_MATH_ERROR("polynomial::operator/", d.get(0), DIV_BY_ZERO);
+				if(!d.size() || (d_order == 0 && d.get(0) == 0)) {
+					TH_MATH_ERROR("polynomial::operator/", 0, DIV_BY_ZERO);
 					return polynomial(nan());
 				}
 
@@ -210,7 +215,7 @@ namespace theoretica {
 
 					// Stop execution if the division is complete
 					// (when the remainder is 0 or has lower degree)
-					if((r_order == 0 && (abs(r.get(0)) < MACH_EPSILON)) || r_order < d_order)
+					if(!r.size() || (r_order == 0 && (abs(r.get(0)) < MACH_EPSILON)) || r_order < d_order)
 						break;
 
 					// Simple division between highest degree terms
@@ -296,15 +301,7 @@ namespace theoretica {
 			/// Multiply two polynomials
 			inline polynomial& operator*=(const polynomial& p) {
 
-				polynomial r = polynomial();
-				r.coeff.resize(this->size() + p.size() - 1, Type(0));
-
-				for (unsigned int i = 0; i < coeff.size(); ++i)
-					for (unsigned int j = 0; j < p.size(); ++j)
-						r[i + j] += coeff[i] * p.get(j);
-
-				*this = r;
-				return *this;
+				return (*this = *this * p);
 			}
 
 
-- 
2.43.0


From cafa75b60648a8ce52d7895bf80ea2df9a4afee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:11 +0000
Subject: [PATCH 51/95] fix: mat::resize keeps the elements at their position

---
 src/algebra/mat.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index e9f6d0d..c614c32 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -1243,11 +1243,16 @@ namespace theoretica {
 
 			if (data.size()) {
 
-				size_t min_elements = min(rows, row_sz) * min(cols, col_sz);
-
-				// Copy the overlapping elements
-				for (unsigned int i = 0; i < min_elements; ++i)
-					new_data[i] = data[i];
+				// Copy the overlapping elements, keeping their position
+				for (unsigned int i = 0; i < min(rows, row_sz); ++i) {
+					for (unsigned int j = 0; j < min(cols, col_sz); ++j) {
+#ifdef THEORETICA_ROW_FIRST
+						new_data[j + i * cols] = data[j + i * col_sz];
+#else
+						new_data[i + j * rows] = data[i + j * row_sz];
+#endif
+					}
+				}
 			}
 
 			data = new_data;
-- 
2.43.0


From a03ccc9255f3269cc7a46ae573ead9733f3f1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:31 +0000
Subject: [PATCH 52/95] fix: atan2 finds the angle in all quadrants

---
 src/core/real_analysis.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/core/real_analysis.h b/src/core/real_analysis.h
index e11a3a7..6f45aad 100644
--- a/src/core/real_analysis.h
+++ b/src/core/real_analysis.h
@@ -1114,11 +1114,10 @@ namespace theoretica {
 			return sgn(y) * PI2;
 		}
 
-		if(x > 0) {
-			return sgn(y) * atan(y / x);
-		} else {
-			return sgn(y) * atan(y / -x) + PI2;
-		}
+		if(x > 0)
+			return atan(y / x);
+
+		return (y >= 0) ? atan(y / x) + PI : atan(y / x) - PI;
 	}
 
 
-- 
2.43.0


From 02055570d119740012642986dffda63c35cefc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:54 +0000
Subject: [PATCH 53/95] fix: phasor::inverse and quat::invert return the right
 type

---
 src/complex/phasor.h | 4 ++--
 src/complex/quat.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 660d0d0..0c199ac 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -126,11 +126,11 @@ namespace theoretica {
 
 
 			/// Compute the inverse of the complex number
-			inline Type inverse() const {
+			inline phasor inverse() const {
 
 				if(modulus < MACH_EPSILON) {
 					TH_MATH_ERROR("phasor::inverse", modulus, DIV_BY_ZERO);
-					return (Type) nan();
+					return phasor((Type) nan(), (Type) nan());
 				}
 
 				return phasor(
diff --git a/src/complex/quat.h b/src/complex/quat.h
index 307ea1f..eaaf8a0 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -155,7 +155,7 @@ namespace theoretica {
 
 				if(n < MACH_EPSILON) {
 					TH_MATH_ERROR("quat::invert", n, DIV_BY_ZERO);
-					return quat((Type) nan());
+					return (*this = quat((Type) nan()));
 				}
 
 				return (*this = quat(
-- 
2.43.0


From bb8a96ab6fc4a2a2ec307539651ee633ceaa04eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:54 +0000
Subject: [PATCH 54/95] fix: complex square root of negative real numbers

---
 src/complex/complex_analysis.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/complex/complex_analysis.h b/src/complex/complex_analysis.h
index 590f6b7..91c7af9 100644
--- a/src/complex/complex_analysis.h
+++ b/src/complex/complex_analysis.h
@@ -113,7 +113,7 @@ namespace theoretica {
 
 		return complex<T>(
 			INVSQR2 * sqrt((z.norm() + z.Re())),
-			INVSQR2 * sqrt((z.norm() - z.Re()))  * sgn(z.b));
+			INVSQR2 * sqrt((z.norm() - z.Re())) * (z.b < 0 ? -1 : 1));
 	}
 
 
-- 
2.43.0


From 59d97a5b944db2f7f86f32abb13b4dacc15fbaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:54 +0000
Subject: [PATCH 55/95] fix: roots of a polynomial does not modify its argument

---
 src/optimization/roots.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/optimization/roots.h b/src/optimization/roots.h
index e460f4a..147dee0 100644
--- a/src/optimization/roots.h
+++ b/src/optimization/roots.h
@@ -717,15 +717,21 @@ namespace theoretica {
 
 		// Effective order of the polynomial
 		const unsigned int n = p.find_order();
-		p /= p.coeff[n];
+
+		if(n == 0) {
+			TH_MATH_ERROR("roots", n, INVALID_ARGUMENT);
+			return {Field(nan())};
+		}
+
+		const polynomial<Field> q = p / p.coeff[n];
 
 		// Absolute value of the highest coefficient
-		Field a_hi = abs(p.coeff[n]);
+		Field a_hi = abs(q.coeff[n]);
 		Field a_sum = 0;
 
 		// Sum the absolute values of the lesser coefficients
 		for (unsigned int i = 0; i < n; ++i)
-			a_sum += abs(p.coeff[i]);
+			a_sum += abs(q.coeff[i]);
 
 		// The roots are bounded in absolute value by the maximum
 		const Field M = max(a_hi, a_sum);
@@ -733,7 +739,7 @@ namespace theoretica {
 		// Back track from the bounds to the first sign inversion ?
 		
 		return roots(
-			[p](real x) { return p(x); },
+			[q](real x) { return q(x); },
 			-M, M, tolerance, steps ? steps : (2 * n));
 	}
 
-- 
2.43.0


From fa26964dab7724f0237006a171b302249598e93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 56/95] fix: the difference of two phasors has no negative
 modulus

---
 src/complex/phasor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/complex/phasor.h b/src/complex/phasor.h
index 0c199ac..e2fc002 100644
--- a/src/complex/phasor.h
+++ b/src/complex/phasor.h
@@ -181,7 +181,7 @@ namespace theoretica {
 			/// in algebraic form.
 			inline phasor operator-(const phasor& other) const {
 
-				if(abs(phase - other.phase) < MACH_EPSILON)
+				if(abs(phase - other.phase) < MACH_EPSILON && modulus >= other.modulus)
 					return phasor(modulus - other.modulus, phase);
 
 				return phasor(to_complex() - other.to_complex());
@@ -248,7 +248,7 @@ namespace theoretica {
 			/// Subtract a phasor from this one
 			inline phasor& operator-=(const phasor& other) {
 
-				if(phase == other.phase)
+				if(phase == other.phase && modulus >= other.modulus)
 					modulus -= other.modulus;
 				else
 					*this = phasor(to_complex() - other.to_complex());
-- 
2.43.0


From 0663239a6d30a6518e5ddad997d91a3e6ffd81c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 57/95] fix: mat_lincomb into a result matrix returns the
 result

---
 src/algebra/algebra.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 488c8b0..19992ba 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -950,14 +950,14 @@ namespace theoretica {
 
 			if(A.rows() != B.rows()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.rows(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(A.cols() != B.cols()) {
 				TH_MATH_ERROR("algebra::mat_lincomb", A.cols(), INVALID_ARGUMENT);
-				mat_error(A);
-				return A;
+				mat_error(res);
+				return res;
 			}
 
 			if(res.rows() != A.rows()) {
@@ -976,7 +976,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res(i, j) = A(i, j) * alpha + B(i, j) * beta;
 
-			return A;
+			return res;
 		}
 
 
-- 
2.43.0


From 473ad11f2a58f941ec9d1f2b314b5eff00f94101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 58/95] fix: apply_transform stores the transformed vector

---
 src/algebra/algebra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 19992ba..cf4be35 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -695,7 +695,7 @@ namespace theoretica {
 				for (unsigned int j = 0; j < A.cols(); ++j)
 					res[i] += A(i, j) * v[j];
 
-			vec_copy(res, v);
+			vec_copy(v, res);
 			return v;
 		}
 
-- 
2.43.0


From 114f0ee05c7a92a4a168c85a6f4fd0b45cb85dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 59/95] fix: LU decomposition of complex matrices does not
 conjugate

---
 src/algebra/algebra.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index cf4be35..f4fb7d0 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1417,7 +1417,7 @@ namespace theoretica {
 					U(i, j) = A(i, j);
 				
 					for(unsigned int k = 0; k < i; ++k)
-						U(i, j) -= pair_inner_product(L(i, k), U(k, j));
+						U(i, j) -= L(i, k) * U(k, j);
 				}
 
 				for(unsigned int j = i + 1; j < A.rows(); ++j) {
@@ -1425,7 +1425,7 @@ namespace theoretica {
 					L(j, i) = A(j, i);
 
 					for(unsigned int k = 0; k < i; ++k)
-						L(j, i) -= pair_inner_product(L(j, k), U(k, i));
+						L(j, i) -= L(j, k) * U(k, i);
 
 					L(j, i) /= U(i, i);
 				}
@@ -1457,7 +1457,7 @@ namespace theoretica {
 					A(i, j) /= A(j, j);
 
 					for(unsigned int k = j + 1; k < A.rows(); ++k)
-						A(i, k) -= pair_inner_product(A(i, j), A(j, k));
+						A(i, k) -= A(i, j) * A(j, k);
 				}
 			}
 		
-- 
2.43.0


From 8807c9fa90b32b912db0bd15001e6fd84d46df82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 60/95] fix: decompose_lu overwrites the upper part of L

---
 src/algebra/algebra.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index f4fb7d0..4a72e21 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1405,6 +1405,8 @@ namespace theoretica {
 
 			using Type = matrix_element_t<Matrix1>;
 
+			mat_zeroes(L);
+
 			// Set the diagonal of L to 1.0
 			for (unsigned int i = 0; i < A.rows(); ++i)
 				L(i, i) = (Type) 1.0;
-- 
2.43.0


From d5e1d1e9cba98daaf6d4ec9110253a8bc2bbb888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 61/95] fix: norm and dot product of empty vectors

---
 src/algebra/algebra.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index 4a72e21..eb95f9b 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -274,10 +274,10 @@ namespace theoretica {
 		template<typename Vector>
 		inline auto sqr_norm(const Vector& v) {
 
-			auto sum = pair_inner_product(v[0], v[0]);
+			vector_element_t<Vector> sum = 0;
 
 			// Use conjugation for complex numbers
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				sum += pair_inner_product(v[i], v[i]);
 
 			return sum;
@@ -355,10 +355,10 @@ namespace theoretica {
 				return vector_element_t<Vector1>(nan());
 			}
 
-			auto sum = pair_inner_product(v[0], w[0]);
+			vector_element_t<Vector1> sum = 0;
 
 			// Use conjugation for complex numbers
-			for (unsigned int i = 1; i < v.size(); ++i)
+			for (unsigned int i = 0; i < v.size(); ++i)
 				sum += pair_inner_product(v[i], w[i]);
 
 			return sum;
-- 
2.43.0


From a4ed638dc5882f33bd9fe3ea8c2205aaa08681da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:02 +0000
Subject: [PATCH 62/95] fix: solve_triangular reports matrices which are not
 triangular

---
 src/algebra/algebra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/algebra/algebra.h b/src/algebra/algebra.h
index eb95f9b..4cf1930 100644
--- a/src/algebra/algebra.h
+++ b/src/algebra/algebra.h
@@ -1675,6 +1675,7 @@ namespace theoretica {
 			else if(is_upper_triangular(T))
 				return solve_triangular_upper(T, b);
 			else {
+				TH_MATH_ERROR("algebra::solve_triangular", false, INVALID_ARGUMENT);
 				Vector err;
 				err.resize(b.size());
 				return vec_error(err);
-- 
2.43.0


From 7363df4ab1ce828eb4b608c46c807bc1cd1014c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 63/95] fix: an extremum is not reported where the second
 derivative is not a number

---
 src/optimization/extrema.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optimization/extrema.h b/src/optimization/extrema.h
index 9f1b3a2..3fed47b 100644
--- a/src/optimization/extrema.h
+++ b/src/optimization/extrema.h
@@ -119,7 +119,7 @@ namespace theoretica {
 
 		real z = root_newton(Df, D2f, guess);
 
-		if(D2f(z) > 0) {
+		if(!(D2f(z) <= 0)) {
 			TH_MATH_ERROR("maximize_newton", z, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -144,7 +144,7 @@ namespace theoretica {
 
 		real z = root_newton(Df, D2f, guess);
 
-		if(D2f(z) < 0) {
+		if(!(D2f(z) >= 0)) {
 			TH_MATH_ERROR("minimize_newton", z, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -169,7 +169,7 @@ namespace theoretica {
 
 		real z = root_bisect(Df, a, b);
 
-		if(deriv_central(Df, z) > 0) {
+		if(!(deriv_central(Df, z) <= 0)) {
 			TH_MATH_ERROR("maximize_bisection", z, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
@@ -192,7 +192,7 @@ namespace theoretica {
 
 		real z = root_bisect(Df, a, b);
 
-		if(deriv_central(Df, z) < 0) {
+		if(!(deriv_central(Df, z) >= 0)) {
 			TH_MATH_ERROR("minimize_bisection", z, NO_ALGO_CONVERGENCE);
 			return nan();
 		}
-- 
2.43.0


From 87a5a3e07e5501fa94dccdee7a1d057f124f84d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 64/95] fix: gradient descent honours the requested tolerance

---
 src/optimization/multi_extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index b9031cc..86e75c7 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -51,7 +51,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
@@ -126,7 +126,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
@@ -177,7 +177,7 @@ namespace theoretica {
 			x += gamma * grad;
 			iter++;
 
-		} while(grad.norm() > OPTIMIZATION_MINGRAD_TOLERANCE && iter <= max_iter);
+		} while(grad.norm() > tolerance && iter <= max_iter);
 
 		if(iter > max_iter) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
-- 
2.43.0


From 742155f8d543de00ded4736fd0b1cba8d54e589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 65/95] fix: gradient descent reports a gradient which is not a
 number

---
 src/optimization/multi_extrema.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 86e75c7..6bb1805 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -53,7 +53,7 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(grad.norm())) {
 			TH_MATH_ERROR("multi_minimize_grad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
@@ -128,7 +128,7 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(grad.norm())) {
 			TH_MATH_ERROR("multi_minimize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
@@ -179,7 +179,7 @@ namespace theoretica {
 
 		} while(grad.norm() > tolerance && iter <= max_iter);
 
-		if(iter > max_iter) {
+		if(iter > max_iter || is_nan(grad.norm())) {
 			TH_MATH_ERROR("multi_maximize_lingrad", iter, NO_ALGO_CONVERGENCE);
 			return vec<real, N>(nan());
 		}
-- 
2.43.0


From 768152804f1ff6a3d85e0af7b2bc28be67681bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:09 +0000
Subject: [PATCH 66/95] fix: multi_maximize_grad climbs and accepts its default
 step size

---
 src/optimization/multi_extrema.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/optimization/multi_extrema.h b/src/optimization/multi_extrema.h
index 6bb1805..9e4e862 100644
--- a/src/optimization/multi_extrema.h
+++ b/src/optimization/multi_extrema.h
@@ -82,7 +82,29 @@ namespace theoretica {
 		real tolerance = OPTIMIZATION_MINGRAD_TOLERANCE,
 		unsigned int max_iter = OPTIMIZATION_MINGRAD_ITER) {
 
-		return multi_minimize_grad(f, guess, -gamma, tolerance, max_iter);
+		if(gamma >= 0) {
+			TH_MATH_ERROR("multi_maximize_grad", gamma, INVALID_ARGUMENT);
+			return vec<real, N>(nan());
+		}
+
+		vec<real, N> x = guess;
+		vec<real, N> grad;
+		unsigned int iter = 0;
+
+		do {
+
+			grad = autodiff::gradient(f, x);
+			x -= gamma * grad;
+			iter++;
+
+		} while(grad.norm() > tolerance && iter <= max_iter);
+
+		if(iter > max_iter || is_nan(grad.norm())) {
+			TH_MATH_ERROR("multi_maximize_grad", iter, NO_ALGO_CONVERGENCE);
+			return vec<real, N>(nan());
+		}
+
+		return x;
 	}
 
 
-- 
2.43.0


From 530b7bf4822c99c54bd5750c73d822bcfa8e9969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 67/95] fix: integral_simpson with an odd number of steps

---
 src/calculus/integral.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index a74fd4c..1f383a3 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -130,6 +130,10 @@ namespace theoretica {
 			TH_MATH_ERROR("integral_simpson", steps, DIV_BY_ZERO);
 			return nan();
 		}
+
+		// The rule needs an even number of steps
+		if(steps % 2 != 0)
+			steps++;
 		
 		const real dx = (b - a) / (real) steps;
 		real res = 0;
-- 
2.43.0


From ace5edcc0438575e2aaafce8d71ada4a2f9c163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 68/95] fix: legendre_roots finds each root once

---
 src/polynomial/orthogonal.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 1a6790f..e58d46e 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -260,9 +260,10 @@ namespace theoretica {
 		std::vector<real> roots;
 		roots.reserve(n);
 
+		// Start close to each root, so that no root is found twice
 		for (unsigned int i = 1; i <= n; ++i) {
 			roots.push_back(
-				root_newton(P, deriv(P), (2.0 / (n + 1)) * i - 1.0)
+				root_newton(P, deriv(P), -cos(PI * (i - 0.25) / (n + 0.5)))
 			);
 		}
 
-- 
2.43.0


From e1c5c49d81f34ee9a13be260e6a8ac6491aef138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 69/95] fix: Romberg and Ridders extrapolation of order zero

---
 src/calculus/deriv.h    | 5 +++++
 src/calculus/integral.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/calculus/deriv.h b/src/calculus/deriv.h
index c0d0983..563d002 100644
--- a/src/calculus/deriv.h
+++ b/src/calculus/deriv.h
@@ -137,6 +137,11 @@ namespace theoretica {
 	>
 	inline real deriv_ridders(RealFunction f, real x, real h = 0.01, unsigned int degree = 3) {
 
+		if(degree == 0) {
+			TH_MATH_ERROR("deriv_ridders", degree, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real A[degree][degree];
 
 		for (unsigned int i = 0; i < degree; ++i) {
diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index 1f383a3..c8cff68 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -168,6 +168,11 @@ namespace theoretica {
 		real a, real b,
 		unsigned int iter = 8) {
 
+		if(iter == 0) {
+			TH_MATH_ERROR("integral_romberg", iter, INVALID_ARGUMENT);
+			return nan();
+		}
+
 		real T[iter][iter];
 
 		T[0][0] = (f(a) + f(b)) * (b - a) / 2.0;
-- 
2.43.0


From 8517bfc7c0c60e00de94bd6d315ce4f4982ee3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:53 +0000
Subject: [PATCH 70/95] fix: integral_legendre checks the number of weights

---
 src/calculus/integral.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/calculus/integral.h b/src/calculus/integral.h
index c8cff68..65d61ab 100644
--- a/src/calculus/integral.h
+++ b/src/calculus/integral.h
@@ -336,6 +336,11 @@ namespace theoretica {
 		RealFunction f, real a, real b,
 		const std::vector<real>& x, const std::vector<real>& w) {
 
+		if(x.size() != w.size()) {
+			TH_MATH_ERROR("integral_legendre", x.size(), INVALID_ARGUMENT);
+			return nan();
+		}
+
 		const real mean = (b + a) / 2.0;
 		const real halfdiff = (b - a) / 2.0;
 
-- 
2.43.0


From 2645e532e1445f1fada34ec6fd6574b3356ca520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:00 +0000
Subject: [PATCH 71/95] fix: hermite_weights of an empty set of roots

---
 src/polynomial/orthogonal.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index e58d46e..374ccb5 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -319,6 +319,10 @@ namespace theoretica {
 	inline std::vector<real> hermite_weights(const std::vector<real>& roots) {
 
 		const unsigned int n = roots.size();
+
+		if(n == 0)
+			return {};
+
 		const polynomial<real> H = hermite_polynomial(n - 1);
 
 		std::vector<real> weights;
-- 
2.43.0


From 477729a80778710fe2afd14a935d7bb62188ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:00 +0000
Subject: [PATCH 72/95] fix: integer overflow in the normalization of Hermite
 polynomials

---
 src/polynomial/orthogonal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/polynomial/orthogonal.h b/src/polynomial/orthogonal.h
index 374ccb5..1f196d5 100644
--- a/src/polynomial/orthogonal.h
+++ b/src/polynomial/orthogonal.h
@@ -207,7 +207,7 @@ namespace theoretica {
 	/// Normalization constant for the nth Hermite polynomial
 	inline real hermite_polyn_normalization(unsigned int n) {
 
-		return 1.0 / sqrt((1 << n) * fact(n) * SQRTPI);
+		return 1.0 / sqrt(real(1 << n) * fact(n) * SQRTPI);
 	}
 
 
@@ -330,7 +330,7 @@ namespace theoretica {
 
 		for (unsigned int i = 0; i < n; ++i) {
 			weights.push_back(
-				((1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
+				(real(1 << (n - 1)) * fact(n) * SQRTPI) / square(n * H(roots[i]))
 			);
 		}
 
-- 
2.43.0


From 28d3f7c5eec274e829a722582178de7b5f4cdb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 73/95] fix: cubic splines over nodes which are not equally
 spaced

---
 src/interpolation/splines.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 8c30e74..4ca552c 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -285,7 +285,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (p[i + 1][0] - p[i - 1][0]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
@@ -359,7 +359,7 @@ namespace theoretica {
 		for (unsigned int i = 1; i < n; ++i) {
 			alpha[i] = 2 * (x[i + 1] - x[i - 1]) - dx[i - 1] * beta[i - 1];
 			beta[i] = dx[i] / alpha[i];
-			gamma[i] = (delta[i] - dx[i] * gamma[i - 1]) / alpha[i];
+			gamma[i] = (delta[i] - dx[i - 1] * gamma[i - 1]) / alpha[i];
 		}
 
 		// Apply boundary conditions
-- 
2.43.0


From c8d7a771fdc268f4f8183f53b4c4dd9bef069e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 74/95] fix: bezier modified its constant argument and did not
 compile

---
 src/interpolation/splines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/splines.h b/src/interpolation/splines.h
index 4ca552c..48a8d1b 100644
--- a/src/interpolation/splines.h
+++ b/src/interpolation/splines.h
@@ -187,7 +187,7 @@ namespace theoretica {
 	/// \see quadratic_bezier
 	/// \see cubic_bezier
 	template<unsigned int N>
-	inline vec<real, N> bezier(const std::vector<vec<real, N>>& points, real t) {
+	inline vec<real, N> bezier(std::vector<vec<real, N>> points, real t) {
 		
 		if(points.size() < 2) {
 			TH_MATH_ERROR("bezier", points.size(), INVALID_ARGUMENT);
-- 
2.43.0


From 379dd94547f319f1c3b66437a5a13db169ea59c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 75/95] fix: weighted fit of linear_model did not compile

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 67304d3..2b6180c 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -457,9 +457,9 @@ namespace theoretica {
 
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
-				apply(W, [](real x) {
+				apply([](real x) {
 					return 1.0 / (x * x);
-				});
+				}, W);
 
 				wls_linear(X, Y, W, A, B, covar_mat);
 
-- 
2.43.0


From a410cd63b94caad14ca01a538e65222b1e9d1a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 76/95] fix: a failed fit of linear_model kept results of the
 previous one

---
 src/statistics/regression.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 2b6180c..c4c2979 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -363,6 +363,9 @@ namespace theoretica {
 			template<typename Dataset1, typename Dataset2>
 			inline void fit(const Dataset1& X, const Dataset2& Y) {
 
+				// Forget the results of any previous fit
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
@@ -400,6 +403,9 @@ namespace theoretica {
 			inline void fit(
 				const Dataset1& X, const Dataset2& Y, real sigma_Y) {
 
+				// Forget the results of any previous fit
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
@@ -443,6 +449,9 @@ namespace theoretica {
 			inline void fit(
 				const Dataset1& X, const Dataset2& Y, const Dataset3& sigma) {
 
+				// Forget the results of any previous fit
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
@@ -486,6 +495,9 @@ namespace theoretica {
 			inline void fit(
 				const Dataset1& X, const Dataset2& Y, real sigma_X, real sigma_Y) {
 
+				// Forget the results of any previous fit
+				*this = linear_model();
+
 				if(X.size() != Y.size()) {
 					TH_MATH_ERROR("linear_model::fit", X.size(), INVALID_ARGUMENT);
 					A = nan(); B = nan();
-- 
2.43.0


From da476bc05a10e88eba0859fc3121cb94544e0393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 77/95] fix: chi-squared of linear_model with constant
 uncertainties

---
 src/statistics/regression.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index c4c2979..44ba98d 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -433,8 +433,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / sigma_Y;
 				ndf = Y.size() - 2;
+				chi_squared = ndf * square(err / sigma_Y);
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
@@ -519,8 +519,8 @@ namespace theoretica {
 				sigma_B = sqrt(this->covar_mat(1, 1));
 
 				err = ols_linear_error(X, Y, A, B);
-				chi_squared = err / (square(sigma_Y) + square(B * sigma_X));
 				ndf = Y.size() - 2;
+				chi_squared = ndf * square(err) / (square(sigma_Y) + square(B * sigma_X));
 				p_value = stats::pvalue_chi_squared(chi_squared, ndf);
 			}
 
-- 
2.43.0


From 68ef76d6ce41d63f8bbc24e6b9a80707fd4f0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 78/95] fix: slope of the least squares lines through the
 origin

---
 src/statistics/regression.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 44ba98d..19f4a45 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -218,17 +218,16 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_x = sum(X);
-			const real sum_y = sum(Y);
+			const real sum_sqr_x = sum_squares(X);
 
-			if(abs(sum_y) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_y, DIV_BY_ZERO);
+			if(abs(sum_sqr_x) < MACH_EPSILON) {
+				TH_MATH_ERROR("ols_linear_orig", sum_sqr_x, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_x / sum_y;
-			sigma_B = sqrt(X.size() * square(sigma_Y / sum_x));
+			B = product_sum(X, Y) / sum_sqr_x;
+			sigma_B = sqrt(square(sigma_Y) / sum_sqr_x);
 		}
 
 		/// Compute the Weight Least Squares regression
@@ -244,17 +243,16 @@ namespace theoretica {
 				return;
 			}
 
-			const real sum_xw = product_sum(X, W);
-			const real sum_yw = product_sum(Y, W);
+			const real sum_xxw = product_sum(X, X, W);
 
-			if(abs(sum_yw) < MACH_EPSILON) {
-				TH_MATH_ERROR("ols_linear_orig", sum_yw, DIV_BY_ZERO);
+			if(abs(sum_xxw) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear_orig", sum_xxw, DIV_BY_ZERO);
 				B = nan();
 				return;
 			}
 
-			B = sum_xw / sum_yw;
-			sigma_B = sqrt(sum(W) / sum_xw);
+			B = product_sum(X, Y, W) / sum_xxw;
+			sigma_B = sqrt(1.0 / sum_xxw);
 		}
 
 
-- 
2.43.0


From cbb8b424a6031052f6984856d3f3064a2c57829c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:04 +0000
Subject: [PATCH 79/95] fix: interpolate_grid of order zero divided by zero

---
 src/interpolation/polynomial.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation/polynomial.h b/src/interpolation/polynomial.h
index a890f3c..4fa0f09 100644
--- a/src/interpolation/polynomial.h
+++ b/src/interpolation/polynomial.h
@@ -100,7 +100,7 @@ namespace theoretica {
 
 		// Sample <order + 1> equidistant points
 		for (unsigned int i = 0; i < order + 1; ++i) {
-			real x = (b - a) / real(order) * real(i) + a;
+			real x = order ? (b - a) / real(order) * real(i) + a : a;
 			points[i] = {x, f(x)};
 		}
 
-- 
2.43.0


From 5c2fc3eef4f90cfb5744a4cf66e9cab148315f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:15 +0000
Subject: [PATCH 80/95] fix: fixed size matrices ignored the diagonal they were
 constructed with

---
 src/algebra/mat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index c614c32..f96676e 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -212,7 +212,7 @@ namespace theoretica {
 				resize(n, k);
 
 			algebra::mat_zeroes(*this);
-			const unsigned int m = min(n, k);
+			const unsigned int m = (n || k) ? min(n, k) : min(rows(), cols());
 
 			for (unsigned int i = 0; i < m; ++i)
 				at(i, i) = diagonal;
-- 
2.43.0


From c24143a79fed7b75800c21e109f787bbdf166078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:56 +0000
Subject: [PATCH 81/95] fix: quat::rotation did not compile

---
 src/complex/quat.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/complex/quat.h b/src/complex/quat.h
index eaaf8a0..179c6b1 100644
--- a/src/complex/quat.h
+++ b/src/complex/quat.h
@@ -323,10 +323,8 @@ namespace theoretica {
 			/// of <rad> radians around the <axis> arbitrary axis
 			template<typename Vector>
 			inline static quat rotation(Type rad, const Vector& axis) {
-				return quat(
-					cos(rad / 2.0),
-					algebra::normalize(axis) * sin(rad / 2.0)
-				);
+				const Vector v = algebra::normalize(axis) * sin(rad / 2.0);
+				return quat(cos(rad / 2.0), v.get(0), v.get(1), v.get(2));
 			}
 
 
-- 
2.43.0


From 6452fc5841125b763b8760f37559b1915b3e538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:47 +0000
Subject: [PATCH 82/95] fix: rotation_3d had the wrong sign in an off-diagonal
 entry

---
 src/algebra/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index 340eba8..a219fe8 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -196,7 +196,7 @@ namespace theoretica {
 
 			m(0, 0) = c + Rx * Rx * cm1;
 			m(0, 1) = Rx * Ry * cm1 - Rz * s;
-			m(0, 2) = Rx * Rz * cm1 - Ry * s;
+			m(0, 2) = Rx * Rz * cm1 + Ry * s;
 
 			m(1, 0) = Ry * Rx * cm1 + Rz * s;
 			m(1, 1) = c + Ry * Ry * cm1;
-- 
2.43.0


From c0720ad98ae468bd6ef5cc4287ada2a2448bae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:09 +0000
Subject: [PATCH 83/95] fix: fit with both uncertainties of uncorrelated data

---
 src/statistics/regression.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 19f4a45..25153be 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -195,9 +195,24 @@ namespace theoretica {
 			const real delta_xy = (product_sum(X, Y) / X.size()) - mean_x * mean_y;
 			const real Delta = square(sigma_X) * delta_y - square(sigma_Y) * delta_x;
 
-			slope = (Delta + sqrt(
-					square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy)
-				)) / (2 * square(sigma_X) * delta_xy);
+			const real root = sqrt(
+				square(Delta) + 4 * square(sigma_X * sigma_Y * delta_xy));
+
+			// Use the form of the solution which does not cancel,
+			// also defined when the data is not correlated
+			const real num = (Delta > 0)
+				? (Delta + root) : (2 * square(sigma_Y) * delta_xy);
+
+			const real den = (Delta > 0)
+				? (2 * square(sigma_X) * delta_xy) : (root - Delta);
+
+			if(abs(delta_x) < MACH_EPSILON || abs(den) < MACH_EPSILON) {
+				TH_MATH_ERROR("wls_linear", den, DIV_BY_ZERO);
+				intercept = nan(); slope = nan();
+				return;
+			}
+
+			slope = num / den;
 
 			intercept = mean_y - slope * mean_x;
 
-- 
2.43.0


From c114882cb4845ab94205bf33a8ac0bd0eb136544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:09 +0000
Subject: [PATCH 84/95] fix: weighted fit of linear_model with a null
 uncertainty

---
 src/statistics/regression.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/statistics/regression.h b/src/statistics/regression.h
index 25153be..ebd4ee2 100644
--- a/src/statistics/regression.h
+++ b/src/statistics/regression.h
@@ -477,6 +477,13 @@ namespace theoretica {
 					return;
 				}
 
+				for (unsigned int i = 0; i < sigma.size(); ++i) {
+					if(abs(sigma[i]) <= MACH_EPSILON) {
+						TH_MATH_ERROR("linear_model::fit", sigma[i], DIV_BY_ZERO);
+						return;
+					}
+				}
+
 				// The weights are given by the squared inverse of the sigma
 				auto W = sigma;
 				apply([](real x) {
-- 
2.43.0


From 01b46c185c8aadd09f6eece20bbf0f55703becfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:03 +0000
Subject: [PATCH 85/95] fix: perspective_fov failed for matrices of variable
 size

---
 src/algebra/transform.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algebra/transform.h b/src/algebra/transform.h
index a219fe8..c9d46f6 100644
--- a/src/algebra/transform.h
+++ b/src/algebra/transform.h
@@ -415,7 +415,8 @@ namespace theoretica {
 			const real height = near * tan(radians(fov / 2.f));
 			const real width = height * aspect;
 
-			return perspective<Matrix>(-width, width, -height, height, near, far);
+			return perspective<Matrix>(
+				-width, width, -height, height, near, far, rows, cols);
 		}
 
 
-- 
2.43.0


From 3a86f4cb2b08c6cec5580a5a7727d19a0ee16092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:05 +0000
Subject: [PATCH 86/95] fix: multiroot_newton of a system of variable size
 returned the guess

The functions extracting the real part and the Jacobian of a vector of
multidual numbers went through N elements, none when the size is dynamic,
so that any guess was taken for a root.
---
 src/autodiff/multidual.h       | 22 +++++++++++-----------
 src/optimization/multi_roots.h |  3 ++-
 2 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/autodiff/multidual.h b/src/autodiff/multidual.h
index b4cdf91..4612e04 100644
--- a/src/autodiff/multidual.h
+++ b/src/autodiff/multidual.h
@@ -272,7 +272,7 @@ namespace theoretica {
 				vec<real, N> x;
 				x.resize(v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
+				for (unsigned int i = 0; i < v.size(); ++i)
 					x[i] = v.get(i).Re();
 
 				return x;
@@ -288,9 +288,14 @@ namespace theoretica {
 				mat<real, N, N> J;
 				J.resize(v.size(), v.size());
 
-				for (unsigned int i = 0; i < N; ++i)
-					for (unsigned int j = 0; j < N; ++j)
-						J.at(j, i) = v.get(j).Dual().get(i);
+				for (unsigned int j = 0; j < v.size(); ++j) {
+
+					// The dual part of a constant may be empty
+					const vec<real, N> d = v.get(j).Dual();
+
+					for (unsigned int i = 0; i < v.size(); ++i)
+						J.at(j, i) = i < d.size() ? d.get(i) : 0;
+				}
 				
 				return J;
 			}
@@ -304,13 +309,8 @@ namespace theoretica {
 				vec<real, N>& x,
 				mat<real, N, N>& J) {
 
-				for (unsigned int i = 0; i < N; ++i) {
-					
-					for (unsigned int j = 0; j < N; ++j)
-						J.at(j, i) = v.get(j).Dual().get(i);
-					
-					x[i] = v.get(i).Re();
-				}
+				x = extract_real(v);
+				J = extract_dual(v);
 			}
 
 
diff --git a/src/optimization/multi_roots.h b/src/optimization/multi_roots.h
index ba5140b..6b49c18 100644
--- a/src/optimization/multi_roots.h
+++ b/src/optimization/multi_roots.h
@@ -58,7 +58,8 @@ namespace theoretica {
 
 		if(iter > max_iter || is_nan(f_x.sqr_norm()) || is_nan(x.sqr_norm())) {
 			TH_MATH_ERROR("multi_root_newton", iter, NO_ALGO_CONVERGENCE);
-			return vec<real, N>(nan());
+			algebra::vec_error(x);
+			return x;
 		}
 
 		return x;
-- 
2.43.0


From c6d9f38491167193be9c64c42eea88fcd0f450db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:25 +0000
Subject: [PATCH 87/95] fix: product of rectangular matrices of fixed size

The operator took the type of the second matrix for its result, so that
mat<T, 2, 3> * mat<T, 3, 2> failed; mul() returns the right type.
---
 src/algebra/mat.h | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/algebra/mat.h b/src/algebra/mat.h
index f96676e..5c322c0 100644
--- a/src/algebra/mat.h
+++ b/src/algebra/mat.h
@@ -385,17 +385,7 @@ namespace theoretica {
    		/// @return The resulting matrix.
 		template<typename Matrix>
 		inline auto operator*(const Matrix& B) const {
-
-			Matrix res;
-			res.resize(N, B.cols());
-
-			if(B.rows() != K) {
-				TH_MATH_ERROR("mat::transform", B.rows(), INVALID_ARGUMENT);
-				algebra::mat_error(res);
-				return res;
-			}
-
-			return algebra::mat_mul(res, *this, B);
+			return mul(B);
 		}
 
 
-- 
2.43.0


From 7e25290fb111f88f21d2a103312e573150f3336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:01 +0000
Subject: [PATCH 88/95] fix: pow() and abs() of a multidual number did not
 compile

---
 src/autodiff/multidual_functions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index d9cb67a..5e80178 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -39,7 +39,7 @@ namespace theoretica {
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
 		real pow_n_1_x = pow(x.Re(), n - 1);
-		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * pow_n_1_x * n);
+		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * (pow_n_1_x * n));
 	}
 
 
@@ -152,7 +152,7 @@ namespace theoretica {
 	/// Compute the absolute value of a multidual number
 	template<unsigned int N>
 	multidual<N> abs(multidual<N> x) {
-		return multidual<N>(abs(x.Re()), x.Dual() * sgn(x.Re()));
+		return multidual<N>(abs(x.Re()), x.Dual() * (real) sgn(x.Re()));
 	}
 
 
-- 
2.43.0


From efce1191ac47d8632b558fcf3202bcaab53c3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:17 +0000
Subject: [PATCH 89/95] fix: derivative of tanh() of dual and multidual numbers

---
 src/autodiff/dual_functions.h      | 2 +-
 src/autodiff/multidual_functions.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index c247a5e..f63506d 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -218,7 +218,7 @@ namespace theoretica {
 		const real exp_x = exp(x.Re());
 		return dual(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x)
+			4.0 * x.Dual() / square(exp_x + 1.0 / exp_x)
 		);
 	}
 
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 5e80178..89e1af7 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -213,7 +213,7 @@ namespace theoretica {
 		real exp_x = exp(x.Re());
 		return multidual<N>(
 			(exp_x - 1.0 / exp_x) / (exp_x + 1.0 / exp_x),
-			x.Dual() / square(exp_x + 1.0 / exp_x));
+			x.Dual() * (4.0 / square(exp_x + 1.0 / exp_x)));
 	}
 
 }
-- 
2.43.0


From a336ec3b7f6503ef3138ecb0b12694989c9545fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:17 +0000
Subject: [PATCH 90/95] fix: second derivative of pow() of a dual2 number

---
 src/autodiff/dual2_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 00211a5..67a8842 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -44,7 +44,8 @@ namespace theoretica {
 
 		real f = pow_n_2_x * square(x.Re());
 		real df = pow_n_2_x * x.Re() * n * x.Dual1();
-		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1()) + df * x.Dual2();
+		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1())
+			+ pow_n_2_x * x.Re() * n * x.Dual2();
 
 		return dual2(f, df, d2f);
 	}
-- 
2.43.0


From fd26cd9e081787d43575f42e90f95267eaa83e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:17 +0000
Subject: [PATCH 91/95] fix: second derivative of abs() of a dual2 number

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 67a8842..70f9d77 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -197,7 +197,7 @@ namespace theoretica {
 
 	/// Compute the absolute value of a second order dual number
 	inline dual2 abs(dual2 x) {
-		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), 0);
+		return dual2(abs(x.Re()), x.Dual1() * sgn(x.Re()), x.Dual2() * sgn(x.Re()));
 	}
 
 
-- 
2.43.0


From 6382ae288ae9d342d0e454675f7d307ce275a9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:17 +0000
Subject: [PATCH 92/95] fix: second derivative of cot() of a dual2 number

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 70f9d77..7c45d4e 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -130,7 +130,7 @@ namespace theoretica {
 		return dual2(
 			cot(x.Re()),
 			-x.Dual1() / square(sin_x),
-			-2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
+			2.0 * cos_x / cube(sin_x) * square(x.Dual1()) - x.Dual2() / square(sin_x)
 		);
 	}
 
-- 
2.43.0


From 5c8e247422c3431af0a5ca03fcd489e7a2c9f60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:17 +0000
Subject: [PATCH 93/95] fix: second derivative of atan() of a dual2 number

---
 src/autodiff/dual2_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index 7c45d4e..db6adac 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -245,7 +245,7 @@ namespace theoretica {
 		return dual2(
 			atan(x.Re()),
 			x.Dual1() / (1 + square(x.Re())),
-			square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
+			-square(x.Dual1()) * 2 * x.Re() / square(1 + square(x.Re()))
 				+ x.Dual2() / (1 + square(x.Re()))
 		);
 	}
-- 
2.43.0


From e628d686c7b8e084618f4428f4370314b1c46c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:35 +0000
Subject: [PATCH 94/95] fix: pow() of dual numbers at zero with exponent 0 or 1

The derivatives that are identically zero were computed as zero times a
division by zero.
---
 src/autodiff/dual2_functions.h     | 11 ++++++-----
 src/autodiff/dual_functions.h      |  3 +++
 src/autodiff/multidual_functions.h |  4 ++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/autodiff/dual2_functions.h b/src/autodiff/dual2_functions.h
index db6adac..ce707fe 100644
--- a/src/autodiff/dual2_functions.h
+++ b/src/autodiff/dual2_functions.h
@@ -40,12 +40,13 @@ namespace theoretica {
 	/// Compute the n-th power of a second order dual number
 	inline dual2 pow(dual2 x, int n) {
 
-		const real pow_n_2_x = pow(x.Re(), n - 2);
+		// Avoid dividing by zero for derivatives which are identically zero
+		const real d1 = (n == 0) ? 0 : n * pow(x.Re(), n - 1);
+		const real d2 = (n == 0 || n == 1) ? 0 : n * (n - 1) * pow(x.Re(), n - 2);
 
-		real f = pow_n_2_x * square(x.Re());
-		real df = pow_n_2_x * x.Re() * n * x.Dual1();
-		real d2f = (pow_n_2_x * n * (n - 1)) * square(x.Dual1())
-			+ pow_n_2_x * x.Re() * n * x.Dual2();
+		real f = pow(x.Re(), n);
+		real df = d1 * x.Dual1();
+		real d2f = d2 * square(x.Dual1()) + d1 * x.Dual2();
 
 		return dual2(f, df, d2f);
 	}
diff --git a/src/autodiff/dual_functions.h b/src/autodiff/dual_functions.h
index f63506d..7a36261 100644
--- a/src/autodiff/dual_functions.h
+++ b/src/autodiff/dual_functions.h
@@ -45,6 +45,9 @@ namespace theoretica {
 	/// Compute the n-th power of a dual number
 	inline dual pow(dual x, int n) {
 
+		if (n == 0)
+			return dual(1, 0);
+
 		const real pow_n_1_x = pow(x.Re(), n - 1);
 		return dual(pow_n_1_x * x.Re(), pow_n_1_x * n * x.Dual());
 	}
diff --git a/src/autodiff/multidual_functions.h b/src/autodiff/multidual_functions.h
index 89e1af7..03cb7a4 100644
--- a/src/autodiff/multidual_functions.h
+++ b/src/autodiff/multidual_functions.h
@@ -38,6 +38,10 @@ namespace theoretica {
 	/// Compute the n-th power of a multidual number
 	template<unsigned int N>
 	multidual<N> pow(multidual<N> x, int n) {
+
+		if (n == 0)
+			return multidual<N>(1, x.Dual() * 0.0);
+
 		real pow_n_1_x = pow(x.Re(), n - 1);
 		return multidual<N>(pow_n_1_x * x.Re(), x.Dual() * (pow_n_1_x * n));
 	}
-- 
2.43.0


From 5ea5dcfbb1dbd5426aa0e58214b1f3e1345f7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:19:51 +0000
Subject: [PATCH 95/95] fix: directional_derivative() and sturm_liouville() did
 not compile

---
 src/autodiff/autodiff.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/autodiff/autodiff.h b/src/autodiff/autodiff.h
index f243d1a..c816417 100644
--- a/src/autodiff/autodiff.h
+++ b/src/autodiff/autodiff.h
@@ -341,7 +341,7 @@ namespace theoretica {
 		inline vec<real, N> directional_derivative(multidual<N>(*f)(vec<multidual<N>, N>),
 			const vec<real, N>& x, const vec<real, N>& v) {
 
-			return v * dot(v, gradient(f, x));
+			return v * algebra::dot(v, gradient(f, x));
 		}
 
 
@@ -436,9 +436,9 @@ namespace theoretica {
 			multidual<N>(*H)(vec<multidual<N>, N>),
 			vec<real, N> eta) {
 
-			return gradient(f, eta)
-				 * mat<real, N, N>::symplectic(eta.size(), eta.size())
-				 * gradient(H, eta);
+			const auto J = algebra::symplectic<mat<real, N, N>>(eta.size(), eta.size());
+
+			return algebra::dot(gradient(f, eta), J * gradient(H, eta));
 		}
 
 	}
-- 
2.43.0

