From 82941827e15c3ad037dc7e6b52833aa1f294f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:21 +0000
Subject: [PATCH 01/82] fix: refuse to split off more individuals than the
 population holds

eoTruncateSplit, eoRandomSplit, eoLinearRandomSplit and the tournament
splits compared an unsigned difference with zero, so an over-large
request was never refused and read past the population.
---
 eo/src/eoReduceSplit.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index b310087..0df28ea 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -64,7 +64,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoTruncateSplit: Cannot truncate to a larger size!\n");
 
@@ -141,7 +141,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoRandomSplit: Cannot truncate to a larger size!\n");
 
@@ -180,7 +180,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoLinearRandomSplit: Cannot truncate to a larger size!\n");
 
@@ -232,7 +232,7 @@ public:
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
@@ -299,7 +299,7 @@ end of old version    */
     unsigned eliminated = howMany(popSize);
     if (!eliminated)   // nothing to do
       return ;
-    unsigned newsize = popSize - eliminated;
+    long newsize = static_cast<long>(popSize) - static_cast<long>(eliminated);
     if (newsize < 0)
       throw eoException("eoDetTournamentTruncateSplit: Cannot truncate to a larger size!\n");
 
-- 
2.43.0


From c5431bfe8284260c779a0ca16006b0f2bd82edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:21 +0000
Subject: [PATCH 02/82] fix: make eoLinearRandomSplit and
 eoStochTournamentTruncateSplit usable

eoLinearRandomSplit called an unqualified random() that does not compile.
eoStochTournamentTruncateSplit derived from eoReduce, which left it
abstract, and counted its removals on the receiving population.
---
 eo/src/eoReduceSplit.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoReduceSplit.h b/eo/src/eoReduceSplit.h
index 0df28ea..a541686 100644
--- a/eo/src/eoReduceSplit.h
+++ b/eo/src/eoReduceSplit.h
@@ -187,7 +187,7 @@ public:
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
     for (unsigned i=0; i<eliminated; i++)
       {
-        unsigned loser=random(_newgen.size());
+        unsigned loser=eo::rng.random(_newgen.size());
         typename eoPop<EOT>::iterator it = _newgen.begin()+loser;
         if (returnEliminated)
           _eliminated.push_back(*it);
@@ -257,7 +257,7 @@ private:
 To be used in SSGA-like replacements (e.g. see eoSSGAStochTournamentReplacement)
 */
 template <class EOT>
-class eoStochTournamentTruncateSplit : public eoReduce<EOT>
+class eoStochTournamentTruncateSplit : public eoReduceSplit<EOT>
 {
 public:
   /** Ctor: must provide amount of reduction,
@@ -306,7 +306,7 @@ end of old version    */
 
 
     _eliminated.reserve(_eliminated.size()+eliminated); //in case not empty?
-    for (unsigned i=0; i<_eliminated.size(); i++)
+    for (unsigned i=0; i<eliminated; i++)
       {
         typename eoPop<EOT>::iterator it = inverse_stochastic_tournament(_newgen.begin(), _newgen.end(), t_rate);
         if (returnEliminated)
-- 
2.43.0


From f1f92f3d757960b9d879df7c694298ac66b27b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:21 +0000
Subject: [PATCH 03/82] fix: inverse deterministic tournament ends on a single
 individual

The competitor has to differ from the current worst, so drawing from a
population of one individual never ended.
---
 eo/src/utils/selectors.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index fda0633..c4e8e02 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -305,6 +305,9 @@ It inverse_deterministic_tournament(It _begin, It _end, unsigned _t_size, eoRng&
 {
     It worst = _begin + _gen.random(_end - _begin);
 
+    if (_end - _begin < 2)
+        return worst; // no other competitor to draw
+
     for (unsigned i = 1; i < _t_size; ++i)
     {
         It competitor = _begin + _gen.random(_end - _begin);
-- 
2.43.0


From 112328b8a1af10311ca7ec3a2b84da65f4c32fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:19 +0000
Subject: [PATCH 04/82] fix: eoElitism merges only the elite

The whole parent population was copied into the offspring instead of the
requested number of best individuals.
---
 eo/src/eoMerge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoMerge.h b/eo/src/eoMerge.h
index 1564f39..1696727 100644
--- a/eo/src/eoMerge.h
+++ b/eo/src/eoMerge.h
@@ -96,7 +96,7 @@ public :
     std::vector<const EOT*> result;
     _pop.nth_element(combienLocal, result);
 
-    for (size_t i = 0; i < result.size(); ++i)
+    for (size_t i = 0; i < combienLocal; ++i)
       {
         _offspring.push_back(*result[i]);
       }
-- 
2.43.0


From 08cd6ff52ea71da1397b1f11c6c00266bdd31245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:40 +0000
Subject: [PATCH 05/82] fix: weak elitism keeps the best parent in
 eoReduceMergeReduce

The saved elite was walked in the arbitrary order left by nth_element and
its last member was never counted, so with one elite nothing was put back
and with more the champion could be lost.
---
 eo/src/eoReduceMergeReduce.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoReduceMergeReduce.h b/eo/src/eoReduceMergeReduce.h
index d12a2b6..f61b9b1 100644
--- a/eo/src/eoReduceMergeReduce.h
+++ b/eo/src/eoReduceMergeReduce.h
@@ -118,9 +118,9 @@ public:
             {
               unsigned toSave = 0;
               _parents.sort();
+              temp.sort();
               EOT & eoLimit = _parents[elite-1];
-              unsigned index=0;
-              while ( (temp[index++] > eoLimit) && (index < temp.size()) )
+              while ( (toSave < temp.size()) && (temp[toSave] > eoLimit) )
                 toSave++;
               if (toSave)
                 for (unsigned i=0; i<toSave; i++)
-- 
2.43.0


From 109e6c58e5ff94bfff236220ac2114159df38d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:51:15 +0000
Subject: [PATCH 06/82] fix: eoNthElementFitnessStat refuses the position just
 past the population

The bound test let the index equal to the population size through, which
read one element past the end.
---
 eo/src/utils/eoStat.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/utils/eoStat.h b/eo/src/utils/eoStat.h
index 9803f66..54d9516 100644
--- a/eo/src/utils/eoStat.h
+++ b/eo/src/utils/eoStat.h
@@ -250,7 +250,7 @@ public :
 
     virtual void operator()(const std::vector<const EOT*>& _pop)
     {
-        if (whichElement > _pop.size())
+        if (whichElement >= _pop.size())
             throw eoException("fitness requested of element outside of pop");
 
         doit(_pop, Fitness());
-- 
2.43.0


From 554adf26fd7c1e646f89a330fe80d74b74fbf4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:10 +0000
Subject: [PATCH 07/82] fix: eoHowMany::value replaces the former rate or count

---
 eo/src/utils/eoHowMany.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eo/src/utils/eoHowMany.h b/eo/src/utils/eoHowMany.h
index 7804398..a497bc1 100644
--- a/eo/src/utils/eoHowMany.h
+++ b/eo/src/utils/eoHowMany.h
@@ -184,6 +184,8 @@ public:
   {
     if (_interpret_as_rate)
       {
+        rate = _rate;
+        count = 0;
         if (_rate<0)
           {
             rate = 1.0+_rate;
-- 
2.43.0


From 7f1d070cca118b5cd45cc042fb27b0b0cd500751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:11 +0000
Subject: [PATCH 08/82] fix: worth-based tournament selections compile without
 NDEBUG

check_sync lives in a dependent base class and was not found by lookup.
---
 eo/src/eoSelectFromWorth.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoSelectFromWorth.h b/eo/src/eoSelectFromWorth.h
index bbd0380..fc1c9d9 100644
--- a/eo/src/eoSelectFromWorth.h
+++ b/eo/src/eoSelectFromWorth.h
@@ -114,7 +114,7 @@ public:
         unsigned index = it - perf2Worth.value().begin();
 #ifndef NDEBUG
         // check whether the stuff is still in sync
-        check_sync(index, pop[index]);
+        this->check_sync(index, pop[index]);
 #endif
         return pop[index];
     }
@@ -156,7 +156,7 @@ public:
 
 #ifndef NDEBUG
   // check whether the stuff is still in sync
-  check_sync(index, _pop[index]);
+  this->check_sync(index, _pop[index]);
 #endif
 
     return _pop[index];
-- 
2.43.0


From 0ce76d052a417d338c4207e967576761f761717d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:11 +0000
Subject: [PATCH 09/82] fix: eoEliteSelect returns the best individual

The population itself is not sorted, so pop[0] was whichever came first.
---
 eo/src/eoSequentialSelect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSequentialSelect.h b/eo/src/eoSequentialSelect.h
index 002aca7..310382c 100644
--- a/eo/src/eoSequentialSelect.h
+++ b/eo/src/eoSequentialSelect.h
@@ -104,7 +104,7 @@ class eoEliteSelect: public eoSequentialSelect<EOT>
         virtual const EOT& operator()(const eoPop<EOT>& pop)
         {
             this->setup(pop);
-            return pop[0]; // the best one
+            return eoSequentialSelect<EOT>::operator()(pop); // the best one
         }
 };
 
-- 
2.43.0


From da8ee57e4d51c6a8a79a0a070cf04d555a42aea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:11 +0000
Subject: [PATCH 10/82] fix: stochastic universal sampling on boundaries and
 zero fitness

A pointer falling exactly on a boundary selected the individual before it,
and a population whose fitnesses are all zero was read past its end.
---
 eo/src/eoStochasticUniversalSelect.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoStochasticUniversalSelect.h b/eo/src/eoStochasticUniversalSelect.h
index e6ddfe7..31031d9 100644
--- a/eo/src/eoStochasticUniversalSelect.h
+++ b/eo/src/eoStochasticUniversalSelect.h
@@ -65,6 +65,11 @@ public:
       indices.reserve(_pop.size());
       indices.resize(0);
 
+      if (static_cast<double>(cumulative.back()) == 0.0) { // no preference: each one once
+          for (unsigned i = 0; i < _pop.size(); ++i)
+              indices.push_back(i);
+      }
+
       double fortune = rng.uniform() * cumulative.back();
       double step = cumulative.back() / double(_pop.size());
 
@@ -72,7 +77,7 @@ public:
 
       while (indices.size() < _pop.size()) {
 
-          while (cumulative[i] < fortune) {i++;} // linear search is good enough as we average one step each time
+          while (static_cast<double>(cumulative[i]) <= fortune) {i++;} // linear search is good enough as we average one step each time
 
           indices.push_back(i);
           fortune += step;
-- 
2.43.0


From b560f9009b259b9b95b226e492bc48a97b68e31f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:11 +0000
Subject: [PATCH 11/82] fix: linear fitness scaling of a uniform population

The scaling divided by zero and gave NaN worths.
---
 eo/src/eoLinearFitScaling.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eo/src/eoLinearFitScaling.h b/eo/src/eoLinearFitScaling.h
index 269518f..63a41a4 100644
--- a/eo/src/eoLinearFitScaling.h
+++ b/eo/src/eoLinearFitScaling.h
@@ -68,6 +68,12 @@ public:
         double bestFitness = static_cast<double> (_pop.best_element().fitness());
         //    double worstFitness = static_cast<double> (_pop.worse_element().fitness());
 
+        if (_pop.best_element().fitness() == _pop.worse_element().fitness()) {
+            // no difference to scale
+            std::fill(value().begin(), value().end(), 1.0/pSize);
+            return;
+        }
+
         // average fitness
         double sum=0.0;
         unsigned i;
-- 
2.43.0


From f2914fbceec1b154ce56ffefbf153c2662a26b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:11 +0000
Subject: [PATCH 12/82] fix: roulette wheel never returns a null share

A draw of exactly zero chose uniformly even when some shares are positive,
and the non-const population version rounded its draw to a float, which
could exceed the total and run past the end.
---
 eo/src/utils/selectors.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/eo/src/utils/selectors.h b/eo/src/utils/selectors.h
index c4e8e02..cb6a415 100644
--- a/eo/src/utils/selectors.h
+++ b/eo/src/utils/selectors.h
@@ -221,12 +221,12 @@ It roulette_wheel(It _begin, It _end, double total, eoRng& _gen = rng)
 
     double roulette = _gen.uniform(total);
 
-    if (roulette == 0.0)           // covers the case where total==0.0
+    if (total == 0.0)
       return _begin + _gen.random(_end - _begin); // uniform choice
 
     It i = _begin;
 
-    while (roulette > 0.0)
+    while (roulette >= 0.0)
     {
             roulette -= static_cast<double>(*(i++));
     }
@@ -239,12 +239,12 @@ const EOT& roulette_wheel(const eoPop<EOT>& _pop, double total, eoRng& _gen = rn
 {
     double roulette = _gen.uniform(total);
 
-    if (roulette == 0.0)           // covers the case where total==0.0
+    if (total == 0.0)
       return _pop[_gen.random(_pop.size())]; // uniform choice
 
     typename eoPop<EOT>::const_iterator i = _pop.begin();
 
-    while (roulette > 0.0)
+    while (roulette >= 0.0)
     {
             roulette -= static_cast<double>((i++)->fitness());
     }
@@ -255,14 +255,14 @@ const EOT& roulette_wheel(const eoPop<EOT>& _pop, double total, eoRng& _gen = rn
 template <class EOT>
 EOT& roulette_wheel(eoPop<EOT>& _pop, double total, eoRng& _gen = rng)
 {
-    float roulette = _gen.uniform(total);
+    double roulette = _gen.uniform(total);
 
-    if (roulette == 0.0)           // covers the case where total==0.0
+    if (total == 0.0)
       return _pop[_gen.random(_pop.size())]; // uniform choice
 
     typename eoPop<EOT>::iterator i = _pop.begin();
 
-    while (roulette > 0.0)
+    while (roulette >= 0.0)
     {
             roulette -= static_cast<double>((i++)->fitness());
     }
-- 
2.43.0


From a644dfa7fb9925b2924abbddadf3994be31893b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:11 +0000
Subject: [PATCH 13/82] fix: eoRng::roulette_wheel sums the shares in double
 precision

Summed in the type of the shares (e.g. float) the total could exceed the
exact sum and the wheel ran past the last share.
---
 eo/src/utils/eoRNG.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eo/src/utils/eoRNG.h b/eo/src/utils/eoRNG.h
index e91c6af..7ee57fb 100644
--- a/eo/src/utils/eoRNG.h
+++ b/eo/src/utils/eoRNG.h
@@ -313,12 +313,13 @@ public :
     template <typename TYPE>
     int roulette_wheel(const std::vector<TYPE>& vec, TYPE total = 0)
         {
+            double sum = total;
             if (total == 0)
             { // count
                 for (unsigned    i = 0; i < vec.size(); ++i)
-                    total += vec[i];
+                    sum += vec[i];
             }
-            double fortune = uniform() * total;
+            double fortune = uniform() * sum;
             int i = 0;
             while (fortune >= 0)
             {
-- 
2.43.0


From a6b29c03a1e8fec8f67d3aadd54b9485e6db765e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:54 +0000
Subject: [PATCH 14/82] fix: n-point and gene crossover on chromosomes too
 short for a cut

With a single gene (or fewer bits than one gene) there is no cut point to
draw, but the drawing loop ran at least once: the counter wrapped around and
the loop never ended, or an empty vector was indexed.
---
 eo/src/ga/eoBitOp.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/ga/eoBitOp.h b/eo/src/ga/eoBitOp.h
index 50e2320..1da5f8e 100644
--- a/eo/src/ga/eoBitOp.h
+++ b/eo/src/ga/eoBitOp.h
@@ -404,7 +404,7 @@ public:
         std::vector<bool> points(max_size, false);
 
         // select ranges of bits to swap
-        do {
+        while(max_points) {
             unsigned bit(eo::rng.random(max_size));
             if(points[bit])
                 continue;
@@ -412,7 +412,7 @@ public:
                 points[bit] = true;
                 --max_points;
             }
-        } while(max_points);
+        }
 
         // swap bits between chromosomes
         bool change(false);
@@ -472,7 +472,7 @@ template<class Chrom> class eoBitGxOver: public eoQuadOp<Chrom>
       std::vector<bool> points(max_genes, false);
 
       // selects genes to swap
-      do {
+      while (cut_genes) {
         unsigned bit = eo::rng.random(max_genes);
         if (points[bit])
           continue;
@@ -481,7 +481,7 @@ template<class Chrom> class eoBitGxOver: public eoQuadOp<Chrom>
             points[bit] = true;
             cut_genes--;
           }
-      } while (cut_genes);
+      }
 
       // swaps genes
       for (unsigned i = 0; i < points.size(); i++)
-- 
2.43.0


From 8e66e500f8be577369d714419024cc4e3fc6a69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:17 +0000
Subject: [PATCH 15/82] fix: moBitsNeighbor::move left the old fitness on the
 moved solution

Like every other neighbor, applying the move now invalidates the solution.
---
 mo/src/problems/bitString/moBitsNeighbor.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/problems/bitString/moBitsNeighbor.h b/mo/src/problems/bitString/moBitsNeighbor.h
index e0f1363..353c91f 100644
--- a/mo/src/problems/bitString/moBitsNeighbor.h
+++ b/mo/src/problems/bitString/moBitsNeighbor.h
@@ -104,6 +104,7 @@ public:
   virtual void move(EOT& _solution) {
     for(unsigned i = 0; i < nBits; i++)
       _solution[ this->bits[i] ] = !_solution[ this->bits[i] ];
+    _solution.invalidate();
   }
 
   /**
-- 
2.43.0


From 1ca380b47e86a74ec264b28715eb070835528c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:17 +0000
Subject: [PATCH 16/82] fix: copying a moIndexedSwapNeighbor lost its fitness

moNeighbor is a virtual base, so the copy constructor has to initialise it
itself; the one called through moIndexNeighbor is ignored.
---
 mo/src/problems/permutation/moIndexedSwapNeighbor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/permutation/moIndexedSwapNeighbor.h b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
index 4706305..d22da57 100644
--- a/mo/src/problems/permutation/moIndexedSwapNeighbor.h
+++ b/mo/src/problems/permutation/moIndexedSwapNeighbor.h
@@ -55,7 +55,7 @@ public:
    * Copy Constructor
    * @param _n the neighbor to copy
    */
-  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moIndexNeighbor<EOT, Fitness>(_n)
+  moIndexedSwapNeighbor(const moIndexedSwapNeighbor<EOT, Fitness> & _n) : moNeighbor<EOT, Fitness>(_n), moIndexNeighbor<EOT, Fitness>(_n)
   {
     indices.first = _n.first();
     indices.second = _n.second();
-- 
2.43.0


From cbc5ba1f13a4fffd94131433e887e4fda54bca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:17 +0000
Subject: [PATCH 17/82] fix: random multi-bit neighbor at a distance beyond the
 table

The search for the distance class of the drawn number ran while the number was
below the cumulated size, i.e. past the end of the table.
---
 mo/src/problems/bitString/moBitsWithReplNeighborhood.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
index 34d2a96..bb390ed 100644
--- a/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
+++ b/mo/src/problems/bitString/moBitsWithReplNeighborhood.h
@@ -131,7 +131,7 @@ public:
       unsigned n = rng.random(neighborhoodSize);
 
       unsigned d = 1;
-      while (n < nSize[d - 1]) d++;
+      while (n >= nSize[d - 1]) d++;
 
       randomNeighbor(_solution, _neighbor, d);
     }
-- 
2.43.0


From e2caefcb2ad3fe9615bfdd138d930480974310fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:20:17 +0000
Subject: [PATCH 18/82] fix: resizing a random neighborhood without replacement

setNeighborhoodSize() did not resize the vector of indices, so that the next
pass read past its end or presented indices beyond the new size.
---
 mo/src/neighborhood/moRndWithoutReplNeighborhood.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
index dfa057a..83281e4 100644
--- a/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
+++ b/mo/src/neighborhood/moRndWithoutReplNeighborhood.h
@@ -80,6 +80,12 @@ public:
      */
     virtual void init(EOT & _solution, Neighbor & _neighbor) {
         unsigned int i, tmp;
+        // the size may have been changed since the last pass
+        if (indexVector.size() != neighborhoodSize) {
+            indexVector.resize(neighborhoodSize);
+            for (unsigned int k=0; k < neighborhoodSize; k++)
+                indexVector[k] = k;
+        }
         maxIndex = neighborhoodSize ;
         i = rng.random(maxIndex);
         _neighbor.index(_solution, indexVector[i]);
-- 
2.43.0


From 7866825b4f47afbc09e576cdb709894eba865a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:18 +0000
Subject: [PATCH 19/82] fix: incremental OneMax of a multi-bit neighbor counted
 unused positions

Only the first nBits entries of the bits vector are flipped by the move.
---
 mo/src/problems/eval/moOneMaxBitsIncrEval.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/problems/eval/moOneMaxBitsIncrEval.h b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
index 5758d3c..f74509e 100644
--- a/mo/src/problems/eval/moOneMaxBitsIncrEval.h
+++ b/mo/src/problems/eval/moOneMaxBitsIncrEval.h
@@ -50,7 +50,7 @@ public:
     virtual void operator()(EOT & _solution, Neighbor & _neighbor) {
       int delta = 0;
 
-      for(unsigned i = 0; i < _neighbor.bits.size(); i++) 	
+      for(unsigned i = 0; i < _neighbor.nBits; i++) 	
         if (_solution[_neighbor.bits[i]] == 0)
 	  delta++;
         else
-- 
2.43.0


From 19414dc361d284cd9b8127bd39590f61326e7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:18 +0000
Subject: [PATCH 20/82] fix: incremental royal road on an incomplete last block

When the length is not a multiple of the block size the bits of the last,
incomplete block do not contribute, and reading the whole block went past the
end of the solution.
---
 mo/src/problems/eval/moRoyalRoadIncrEval.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mo/src/problems/eval/moRoyalRoadIncrEval.h b/mo/src/problems/eval/moRoyalRoadIncrEval.h
index 3296ab2..4c6ce77 100644
--- a/mo/src/problems/eval/moRoyalRoadIncrEval.h
+++ b/mo/src/problems/eval/moRoyalRoadIncrEval.h
@@ -60,6 +60,12 @@ public:
         // complete block?
         unsigned int offset = n * k;
 
+        // the bits of an incomplete last block do not contribute
+        if (offset + k > _solution.size()) {
+            _neighbor.fitness(_solution.fitness());
+            return;
+        }
+
         unsigned int j = 0;
         while (j < k && _solution[offset + j]) j++;
 
-- 
2.43.0


From 2ba7e31993950f38e4b70e404a6d85e3b6553bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:18 +0000
Subject: [PATCH 21/82] fix: incremental MaxSAT with negated literals

The sign of the clause number tells whether the literal is negated, which is
lost for clause 0 (and never set for instances read from a file). The clause is
now evaluated before and after the flip.
---
 mo/src/problems/eval/moMaxSATincrEval.h | 37 +++++++++++--------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/mo/src/problems/eval/moMaxSATincrEval.h b/mo/src/problems/eval/moMaxSATincrEval.h
index 69dfbdb..5484494 100644
--- a/mo/src/problems/eval/moMaxSATincrEval.h
+++ b/mo/src/problems/eval/moMaxSATincrEval.h
@@ -66,34 +66,29 @@ public :
         unsigned int size = modifiedClauses.size();
 
         int nc;
-        bool litt;
+        bool before, after;
 
         for (unsigned int k = 0; k < size; k++) {
             // number of the clause
             nc = modifiedClauses[k];
 
             // negative means that the not(variable) is in the clause
-            if (nc < 0) {
+            // (the sign says nothing for the clause number 0)
+            if (nc < 0)
                 nc = - nc;
-                litt = !_solution[bit];
-            } else
-                litt = _solution[bit];
-
-            if (litt) {
-                // the litteral was true and becomes false
-                _solution[bit] = !_solution[bit];
-
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was true and becomes false
-                    delta--;
-
-                _solution[bit] = !_solution[bit];
-            } else {
-                // the litteral was false and becomes true
-                if (!fulleval.clauseEval(nc, _solution))
-                    // the clause was false and becomes true
-                    delta++;
-            }
+
+            before = fulleval.clauseEval(nc, _solution);
+
+            _solution[bit] = !_solution[bit];
+            after = fulleval.clauseEval(nc, _solution);
+            _solution[bit] = !_solution[bit];
+
+            if (before && !after)
+                // the clause was true and becomes false
+                delta--;
+            else if (!before && after)
+                // the clause was false and becomes true
+                delta++;
         }
 
         _neighbor.fitness(_solution.fitness() + delta);
-- 
2.43.0


From 02f9727a5d661bbb64cc35462adce41627645f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:08 +0000
Subject: [PATCH 22/82] fix: moIndexedVectorTabuList::check must not read
 beyond the list

add() ignores moves whose index is outside the list, check() read the
vector out of range for them. Such moves are never forbidden.
---
 mo/src/memory/moIndexedVectorTabuList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/memory/moIndexedVectorTabuList.h b/mo/src/memory/moIndexedVectorTabuList.h
index b567426..82da038 100644
--- a/mo/src/memory/moIndexedVectorTabuList.h
+++ b/mo/src/memory/moIndexedVectorTabuList.h
@@ -111,7 +111,7 @@ public:
      * @return true if tabuList contains _sol
      */
     virtual bool check(EOT & /*_sol*/, Neighbor & _neighbor) {
-      return (tabuList[_neighbor.index()] > 0);
+      return (_neighbor.index() < maxSize) && (tabuList[_neighbor.index()] > 0);
     }
 
     /**
-- 
2.43.0


From 5511e0ccd20021a2e363665517b1d644d2fe13b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:39:08 +0000
Subject: [PATCH 23/82] fix: invalidate the solution before evaluating it in
 moMonOpDiversification

An evaluator that skips already evaluated solutions (eoEvalFuncCounter)
left the fitness of the solution before the diversification.
---
 mo/src/memory/moMonOpDiversification.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mo/src/memory/moMonOpDiversification.h b/mo/src/memory/moMonOpDiversification.h
index 46fa854..1c335f1 100644
--- a/mo/src/memory/moMonOpDiversification.h
+++ b/mo/src/memory/moMonOpDiversification.h
@@ -59,6 +59,7 @@ public:
      */
     bool operator()(EOT& _solution) {
         bool res = monOp(_solution);
+        _solution.invalidate();
         fullEval(_solution);
         return res;
     }
-- 
2.43.0


From 1682a6ffe51e9a065b1ebff61f8dc62b11fd087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:57 +0000
Subject: [PATCH 24/82] fix: keep the default cooling schedule when moSA is
 given a continuator only

This constructor built its own schedule with all parameters zero, so the
search started at temperature 0 and ended after one neighbour whatever the
continuator. Use the default values of the first constructor.
---
 mo/src/algo/moSA.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/algo/moSA.h b/mo/src/algo/moSA.h
index 5748f02..1d81b09 100644
--- a/mo/src/algo/moSA.h
+++ b/mo/src/algo/moSA.h
@@ -89,7 +89,7 @@ public:
      */
     moSA(Neighborhood& _neighborhood, eoEvalFunc<EOT>& _fullEval, moEval<Neighbor>& _eval, moContinuator<Neighbor>& _cont):
             moLocalSearch<Neighbor>(explorer, _cont, _fullEval),
-            defaultCool(0, 0, 0, 0),
+            defaultCool(10, 0.9, 100, 0.01),
             explorer(_neighborhood, _eval, defaultSolNeighborComp, defaultCool)
     {}
 
-- 
2.43.0


From d2ee1de196dfff908f8b160a22aa86c6075cc677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:57 +0000
Subject: [PATCH 25/82] fix: variable neighbourhood selections with a single
 neighbourhood must end

The size minus two wrapped around for one neighbourhood, so cont() was
always true even without cycling.
---
 mo/src/neighborhood/moForwardVectorVNSelection.h | 2 +-
 mo/src/neighborhood/moRndVectorVNSelection.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moForwardVectorVNSelection.h b/mo/src/neighborhood/moForwardVectorVNSelection.h
index d469cf6..879de80 100644
--- a/mo/src/neighborhood/moForwardVectorVNSelection.h
+++ b/mo/src/neighborhood/moForwardVectorVNSelection.h
@@ -70,7 +70,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return (cycle || (current <= (LSvector.size() - 2)));
+    return (cycle || (current + 1 < LSvector.size()));
   }
 
   /**
diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 86a9d00..2fda92e 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -73,7 +73,7 @@ public:
    * @return true if there is some heuristics
    */
   virtual bool cont(EOT& /*_solution*/){
-    return ( cycle || (currentOrder <= (order.size() - 2)) );
+    return ( cycle || (currentOrder + 1 < order.size()) );
   }
 
   /**
-- 
2.43.0


From 6768d68750081345d69ff64bbaaa42105f1a0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:57 +0000
Subject: [PATCH 26/82] fix: moRndVectorVNSelection must use neighbourhoods
 added after its first init

---
 mo/src/neighborhood/moRndVectorVNSelection.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mo/src/neighborhood/moRndVectorVNSelection.h b/mo/src/neighborhood/moRndVectorVNSelection.h
index 2fda92e..82cdc8d 100644
--- a/mo/src/neighborhood/moRndVectorVNSelection.h
+++ b/mo/src/neighborhood/moRndVectorVNSelection.h
@@ -82,8 +82,8 @@ public:
    * @param _solution the current solution
    */
   virtual void init(EOT& /*_solution*/) {
-    if(order.size() == 0)
-      for(unsigned int i = 0; i < LSvector.size(); i++) {
+    if(order.size() != LSvector.size())
+      for(unsigned int i = order.size(); i < LSvector.size(); i++) {
           order.push_back(i); }
 
 #if __cplusplus >= 201103L
-- 
2.43.0


From 19ab0a5234a4e9fe5e13c78440a5b88026692675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:57 +0000
Subject: [PATCH 27/82] fix: moVNSexplorer must return to the first
 neighbourhood after a move

The flag of the first iteration was only reset in the branch it guards, so
the search never returned to the first neighbourhood. The stop flag is also
reset now when a new search begins, a second run ended after one iteration.
---
 mo/src/explorer/moVNSexplorer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index b7633c2..274e646 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -78,6 +78,7 @@ public:
     selection.init(_solution);
     // for the first ls, the solution will be improved, so the next ls must be applied
     first = true;
+    stop = false;
   }
 
   /**
@@ -86,13 +87,13 @@ public:
    */
   virtual void updateParam(EOT & _solution) {
     if (!first && (*this).moveApplied()) {
-      first = false;
       selection.init(_solution);
     } else 
       if (selection.cont(currentSol)) {
 	selection.next(_solution);
       } else
 	stop = true;
+    first = false;
   }
 
   /**
-- 
2.43.0


From 55e499818be12836b3e549ea4d78767cd7286c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:57 +0000
Subject: [PATCH 28/82] fix: evaluate the shaken solution in moVNS

The shake is an ordinary eoMonOp which reports a change and does not touch
the fitness, so the local search started from the new content with the old
fitness and could return it.
---
 mo/src/algo/moVNS.h             |  2 +-
 mo/src/explorer/moVNSexplorer.h | 23 +++++++++++++++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/mo/src/algo/moVNS.h b/mo/src/algo/moVNS.h
index 050e295..3601c24 100644
--- a/mo/src/algo/moVNS.h
+++ b/mo/src/algo/moVNS.h
@@ -63,7 +63,7 @@ public:
 	eoEvalFunc<EOT>& _fullEval,
 	moContinuator<Neighbor>& _cont) :
     moLocalSearch<Neighbor>(explorer, _cont, _fullEval),
-    explorer(_selection, _acceptCrit)
+    explorer(_selection, _acceptCrit, _fullEval)
   {}
 
 private:
diff --git a/mo/src/explorer/moVNSexplorer.h b/mo/src/explorer/moVNSexplorer.h
index 274e646..7cc0064 100644
--- a/mo/src/explorer/moVNSexplorer.h
+++ b/mo/src/explorer/moVNSexplorer.h
@@ -33,6 +33,7 @@
 #include <explorer/moNeighborhoodExplorer.h>
 #include <neighborhood/moVariableNeighborhoodSelection.h>
 #include <eoOp.h>
+#include <eoEvalFunc.h>
 #include <acceptCrit/moAcceptanceCriterion.h>
 
 /**
@@ -58,7 +59,19 @@ public:
    */
   moVNSexplorer(moVariableNeighborhoodSelection<EOT> & _selection,
 		moAcceptanceCriterion<Neighbor>& _acceptCrit):
-    moNeighborhoodExplorer<Neighbor>(), selection(_selection), acceptCrit(_acceptCrit), stop(false), first(true)
+    moNeighborhoodExplorer<Neighbor>(), selection(_selection), acceptCrit(_acceptCrit), fullEval(NULL), stop(false), first(true)
+  {}
+
+  /**
+   * Constructor
+   * @param _selection selection the "neighborhood" search heuristics during the search
+   * @param _acceptCrit acceptance criteria which compare and accept or not the two solutions
+   * @param _fullEval evaluation of the solution changed by the shake operator
+   */
+  moVNSexplorer(moVariableNeighborhoodSelection<EOT> & _selection,
+		moAcceptanceCriterion<Neighbor>& _acceptCrit,
+		eoEvalFunc<EOT>& _fullEval):
+    moNeighborhoodExplorer<Neighbor>(), selection(_selection), acceptCrit(_acceptCrit), fullEval(&_fullEval), stop(false), first(true)
   {}
 
   /**
@@ -112,7 +125,11 @@ public:
     eoMonOp<EOT> & ls    = selection.getLocalSearch();
 
     currentSol = _solution;
-    shake(currentSol);
+    if (shake(currentSol)) {
+      currentSol.invalidate();
+      if (fullEval != NULL)
+	(*fullEval)(currentSol);
+    }
     ls(currentSol);
 
     // update the best solution found
@@ -159,6 +176,8 @@ private:
   moVariableNeighborhoodSelection<EOT>& selection;
   /** Acceptance criterium between two LS */
   moAcceptanceCriterion<Neighbor>& acceptCrit;
+  /** full evaluation of the shaken solution (NULL: left to the local search) */
+  eoEvalFunc<EOT>* fullEval;
   /** stopping criterium flag */
   bool stop;
   /** the current solution */
-- 
2.43.0


From c82408d38d14f607f14b53092e8272f7405a0a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:55 +0000
Subject: [PATCH 29/82] fix: best statistics without re-initialisation must
 consider the new start

With reInitSol false the start of a second run was ignored, so a best
solution that is a start and is left at the first step was missed.
---
 mo/src/continuator/moBestFitnessStat.h | 2 ++
 mo/src/continuator/moBestSoFarStat.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mo/src/continuator/moBestFitnessStat.h b/mo/src/continuator/moBestFitnessStat.h
index 192919c..e2ddd4a 100644
--- a/mo/src/continuator/moBestFitnessStat.h
+++ b/mo/src/continuator/moBestFitnessStat.h
@@ -66,6 +66,8 @@ public :
     			value() = _sol.fitness();
     			firstTime = false;
     		}
+    	else
+    		(*this)(_sol);
     }
 
     /**
diff --git a/mo/src/continuator/moBestSoFarStat.h b/mo/src/continuator/moBestSoFarStat.h
index fa57971..238c833 100644
--- a/mo/src/continuator/moBestSoFarStat.h
+++ b/mo/src/continuator/moBestSoFarStat.h
@@ -65,6 +65,8 @@ public :
     			value() = _sol;
     			firstTime = false;
     		}
+    	else
+    		(*this)(_sol);
     }
 
     /**
-- 
2.43.0


From e63a17ad87c1fe41bfa2b8ae21fa2801209c361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:17 +0000
Subject: [PATCH 30/82] fix: eoInvertedContinue initialises a member it does
 not have

The wrapped continuator is stored as cont; the class could not be
instantiated nor even parsed.
---
 eo/src/eoInvertedContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoInvertedContinue.h b/eo/src/eoInvertedContinue.h
index 9b723a5..9d1ff05 100644
--- a/eo/src/eoInvertedContinue.h
+++ b/eo/src/eoInvertedContinue.h
@@ -55,7 +55,7 @@ public:
   virtual std::string className(void) const { return "eoInvertedContinue"; }
   
 private:
-  eoContinue<EOT> &eval;
+  eoContinue<EOT> &cont;
 
 };
 
-- 
2.43.0


From ea1497e161fd64dd110fbd4d6a8dfb4abed055c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:47 +0000
Subject: [PATCH 31/82] fix: eoSteadyFitContinue started beyond the minimum has
 no reference fitness

With an external generation counter already past the minimum, the
criterion compared against an uninitialised best fitness and an
uninitialised generation. The first call now sets both.
---
 eo/src/eoSteadyFitContinue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoSteadyFitContinue.h b/eo/src/eoSteadyFitContinue.h
index 0b63c5e..d8fc820 100644
--- a/eo/src/eoSteadyFitContinue.h
+++ b/eo/src/eoSteadyFitContinue.h
@@ -53,7 +53,7 @@ public:
   eoSteadyFitContinue( unsigned long _minGens, unsigned long _steadyGen,
                  unsigned long& _currentGen)
     : eoCountContinue<EOT>( _currentGen ), repMinGenerations( _minGens ), repSteadyGenerations( _steadyGen),
-      steadyState(_currentGen>_minGens)
+      steadyState(false)
     {};
 
   /** Returns false when a certain number of generations is
-- 
2.43.0


From f9f5e212f4d693bd6929f8a2b24b86ce213c15ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:47 +0000
Subject: [PATCH 32/82] fix: moCheckpoint counts calls, not statistics

The counter compared with the interval was incremented once per
statistic, so with two or more statistics an interval above one
computed some of them too often and others never.
---
 mo/src/continuator/moCheckpoint.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index 37b5cd6..b3631e6 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -138,8 +138,8 @@ public :
         for (i = 0; i < stats.size(); ++i) {
             if (counter % interval == 0)
                 (*stats[i])(_sol);
-            counter++;
         }
+        counter++;
 
         for (i = 0; i < updaters.size(); ++i)
             (*updaters[i])();
-- 
2.43.0


From 459584f7800849c71435313bbb307eb5a09c7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:47 +0000
Subject: [PATCH 33/82] fix: forward the last call to the continuators of a
 local search

moCombinedContinuator and moCheckpoint did not pass lastCall on to the
continuators they hold, so a checkpoint held by a combined continuator
never made its final call.
---
 mo/src/continuator/moCheckpoint.h          | 3 +++
 mo/src/continuator/moCombinedContinuator.h | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/mo/src/continuator/moCheckpoint.h b/mo/src/continuator/moCheckpoint.h
index b3631e6..33035dd 100644
--- a/mo/src/continuator/moCheckpoint.h
+++ b/mo/src/continuator/moCheckpoint.h
@@ -174,6 +174,9 @@ public :
 
         for (i = 0; i < monitors.size(); ++i)
             monitors[i]->lastCall();
+
+        for (i = 0; i < continuators.size(); ++i)
+            continuators[i]->lastCall(_sol);
     }
 
 private :
diff --git a/mo/src/continuator/moCombinedContinuator.h b/mo/src/continuator/moCombinedContinuator.h
index 7533bd4..a4b1720 100644
--- a/mo/src/continuator/moCombinedContinuator.h
+++ b/mo/src/continuator/moCombinedContinuator.h
@@ -85,6 +85,15 @@ public:
         return bContinue;
     }
 
+    /**
+     * Last call of all the continuators
+     * @param _solution a solution
+     */
+    virtual void lastCall(EOT & _solution) {
+        for (unsigned int i = 0; i < continuators.size(); ++i)
+            continuators[i]->lastCall(_solution);
+    }
+
 private:
     /** continuators vector */
     std::vector< moContinuator<Neighbor>* > continuators;
-- 
2.43.0


From e85d9efed6953498748f1946b3a9927941af5e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:21 +0000
Subject: [PATCH 34/82] fix: time contracts on evaluations count the
 evaluations

eoEvalTimeThrowException and eoEvalUserTimeThrowException are evaluation
counters, but called the wrapped function without counting. The first
one did not even compile once instantiated.
---
 eo/src/eoEvalTimeThrowException.h     | 2 +-
 eo/src/eoEvalUserTimeThrowException.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoEvalTimeThrowException.h b/eo/src/eoEvalTimeThrowException.h
index 5b72de6..b968dec 100644
--- a/eo/src/eoEvalTimeThrowException.h
+++ b/eo/src/eoEvalTimeThrowException.h
@@ -47,7 +47,7 @@ public:
             if( elapsed >= _max ) {
                 throw eoMaxTimeException(elapsed);
             } else {
-                func(eo);
+                this->eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
diff --git a/eo/src/eoEvalUserTimeThrowException.h b/eo/src/eoEvalUserTimeThrowException.h
index a117484..08476dc 100644
--- a/eo/src/eoEvalUserTimeThrowException.h
+++ b/eo/src/eoEvalUserTimeThrowException.h
@@ -61,7 +61,7 @@ public:
             if( current >= _max ) {
                 throw eoMaxTimeException( current );
             } else {
-                this->func(eo);
+                this->eoEvalFuncCounter<EOT>::operator()(eo);
             }
         }
     }
-- 
2.43.0


From 5c3d9dbde026fda7a48cf2e277554d1451c81dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:58 +0000
Subject: [PATCH 35/82] fix: report the change when a uniform variable-length
 crossover returns the second parent

---
 eo/src/eoVariableLengthCrossover.h | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index c61f916..86ca8e0 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -296,16 +296,13 @@ public :
   {
     unsigned i;
     EOT tmp1;
-    bool tmpIsOne=true, tmpIsTwo=true;
+    bool tmpIsOne=true;
     unsigned index=0;
     do {
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
-            {
-              tmp1.push_back(_eo1[i]);
-              tmpIsTwo = false;
-            }
+            tmp1.push_back(_eo1[i]);
           else
             tmpIsOne=false;
         // we should look for _eo1[i] inside _eo2 and erase it there if found!
@@ -317,8 +314,6 @@ public :
               tmp1.push_back(_eo2[i]);
               tmpIsOne = false;
             }
-          else
-            tmpIsTwo = false;
         }
       index++;
     } while ( ( (tmp1.size()<Min) || (tmp1.size()>Max) )
@@ -331,13 +326,8 @@ public :
       }
 
     _eo1.swap(tmp1);
-    if (tmpIsTwo)
+    if (tmpIsOne)                  // same content: already has the right fitness
       {
-        //	_eo1.fitness(_eo2.fitness());     NO FITNESS EXISTS HERE!
-        return false;
-      }
-    if (tmpIsOne)                  // already has the right fitness
-      {                            // WRONG: NO FITNESS EXISTS HERE!
         return false;
       }
     return true;                   // there were some modifications...
-- 
2.43.0


From 629794e3311865f262f02f847398ed593d852c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:58 +0000
Subject: [PATCH 36/82] fix: start every attempt of the uniform variable-length
 crossovers from empty children

---
 eo/src/eoVariableLengthCrossover.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eo/src/eoVariableLengthCrossover.h b/eo/src/eoVariableLengthCrossover.h
index 86ca8e0..4d86c01 100644
--- a/eo/src/eoVariableLengthCrossover.h
+++ b/eo/src/eoVariableLengthCrossover.h
@@ -236,6 +236,8 @@ public :
     EOT tmp1, tmp2;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmp2.clear();
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
@@ -299,6 +301,8 @@ public :
     bool tmpIsOne=true;
     unsigned index=0;
     do {
+      tmp1.clear();
+      tmpIsOne = true;
       for (i=0; i<_eo1.size(); i++)
         {
           if (eo::rng.flip(rate))
-- 
2.43.0


From 6c288e1c4d119dd3f335c425a076c87616c91690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:58 +0000
Subject: [PATCH 37/82] fix: let proportional combinations catch the end of a
 sequential populator

---
 eo/src/eoPopulator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eo/src/eoPopulator.h b/eo/src/eoPopulator.h
index 9c8d28a..51f1708 100644
--- a/eo/src/eoPopulator.h
+++ b/eo/src/eoPopulator.h
@@ -167,7 +167,7 @@ public:
     /** the select method simply returns next individual in the src pop */
     const EOT& select(void) {
         if(current >= eoPopulator< EOT >::src.size()) {
-            throw OutOfIndividuals();
+            throw typename eoPopulator<EOT>::OutOfIndividuals();
         }
 
         const EOT& res = src[current++];
@@ -177,8 +177,6 @@ public:
 
 private:
 
-    struct OutOfIndividuals {};
-
     unsigned current;
 };
 
-- 
2.43.0


From 1c5b2d9fd0b20d9423e8e8ea7d33344b15db6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:58 +0000
Subject: [PATCH 38/82] fix: give eoPropCombinedBinOp the return type of the
 operator it overrides

---
 eo/src/eoProportionalCombinedOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoProportionalCombinedOp.h b/eo/src/eoProportionalCombinedOp.h
index 0dce5b0..b1d00cc 100644
--- a/eo/src/eoProportionalCombinedOp.h
+++ b/eo/src/eoProportionalCombinedOp.h
@@ -149,7 +149,7 @@ virtual void add(eoBinOp<EOT> & _op, const double _rate, bool _verbose=false)
       }
   }
 
-  virtual void operator()(EOT & _indi1, const EOT & _indi2)
+  virtual bool operator()(EOT & _indi1, const EOT & _indi2)
   {
     unsigned what = rng.roulette_wheel(rates); // choose one op index
     return (*ops[what])(_indi1, _indi2);                   // apply it
-- 
2.43.0


From 4f54c4cd96f2bc238754d5a08b0f9a97ee880c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:58 +0000
Subject: [PATCH 39/82] fix: update the ancestors after assigning a subtree of
 the same tree

---
 eo/src/gp/parse_tree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eo/src/gp/parse_tree.h b/eo/src/gp/parse_tree.h
index 6b9ab80..b3b5ead 100644
--- a/eo/src/gp/parse_tree.h
+++ b/eo/src/gp/parse_tree.h
@@ -243,7 +243,9 @@ public :
             if (s.get_root() == get_root())
         { // from the same tree, maybe a child. Don't take any chances
             subtree anotherS = s;
-            return copy(anotherS);
+            copy(anotherS);
+            updateAfterInsert();
+            return *this;
         }
 
                 copy(s);
-- 
2.43.0


From ebb525e1ab1f3610fd84f9cc1151afb588913b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:02:58 +0000
Subject: [PATCH 40/82] fix: include the standard map header in the typed tree
 operators

---
 eo/src/gp/eoStParseTreeOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/gp/eoStParseTreeOp.h b/eo/src/gp/eoStParseTreeOp.h
index d5b520b..64a9fdf 100644
--- a/eo/src/gp/eoStParseTreeOp.h
+++ b/eo/src/gp/eoStParseTreeOp.h
@@ -30,7 +30,7 @@
 
 #include "../EO.h"
 #include "../eoOp.h"
-#include <map.h>
+#include <map>
 #include <iostream>
 #include <set>
 
-- 
2.43.0


From b7d7ce8e709335bf5a822d7fe5d3a2610ba569aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 41/82] fix: give the unbounded normal vector mutation its
 standard deviation

The scalar was taken as the size of the vector of standard deviations,
which was then read out of range.
---
 eo/src/es/eoNormalMutation.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eo/src/es/eoNormalMutation.h b/eo/src/es/eoNormalMutation.h
index 266b101..87e56d8 100644
--- a/eo/src/es/eoNormalMutation.h
+++ b/eo/src/es/eoNormalMutation.h
@@ -58,7 +58,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
    * @param _p_change the probability to change a given coordinate
    */
   eoNormalVecMutation(double _sigma, const double& _p_change = 1.0):
-    sigma(_sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
+    homogeneous(true), sigma(1, _sigma), bounds(eoDummyVectorNoBounds), p_change(_p_change) {}
 
   /**
    * Constructor with bounds
@@ -70,7 +70,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
    */
   eoNormalVecMutation(eoRealVectorBounds & _bounds,
                     double _sigma, const double& _p_change = 1.0):
-    sigma(_bounds.size(), _sigma), bounds(_bounds), p_change(_p_change)
+    homogeneous(false), sigma(_bounds.size(), _sigma), bounds(_bounds), p_change(_p_change)
   {
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
@@ -92,7 +92,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
         {
           if (rng.flip(p_change))
             {
-              _eo[lieu] += sigma[lieu]*rng.normal();
+              _eo[lieu] += sigma[homogeneous ? 0 : lieu]*rng.normal();
               bounds.foldsInBounds(lieu, _eo[lieu]);
               hasChanged = true;
             }
@@ -101,6 +101,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
     }
 
 private:
+  bool homogeneous;   // == no bounds passed in the ctor
   std::vector<double> sigma;
   eoRealVectorBounds & bounds;
   double p_change;
-- 
2.43.0


From e014174f863b5791e5c2304b11c017ed498c81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 42/82] fix: scale the step of real mutations to the range only
 once

The step was multiplied by itself as well as by the range.
---
 eo/src/es/eoNormalMutation.h | 2 +-
 eo/src/es/eoRealOp.h         | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/eo/src/es/eoNormalMutation.h b/eo/src/es/eoNormalMutation.h
index 87e56d8..76db499 100644
--- a/eo/src/es/eoNormalMutation.h
+++ b/eo/src/es/eoNormalMutation.h
@@ -75,7 +75,7 @@ template<class EOT> class eoNormalVecMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          sigma[i] *= _sigma*bounds.range(i);
+          sigma[i] *= bounds.range(i);
   }
 
   /** The class name */
diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index 8c95741..d9a00c1 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -73,7 +73,7 @@ template<class EOT> class eoUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /**
@@ -173,7 +173,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /**
@@ -190,7 +190,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
     // scale to the range - if any
     for (unsigned i=0; i<bounds.size(); i++)
       if (bounds.isBounded(i))
-          epsilon[i] *= _epsilon[i]*bounds.range(i);
+          epsilon[i] *= bounds.range(i);
   }
 
   /// The class name.
-- 
2.43.0


From 396fa1ceed3f14598650726f6464bdf4f2c44c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 43/82] fix: move the gene around its value in the unbounded
 eoDetUniformMutation

---
 eo/src/es/eoRealOp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index d9a00c1..3d14536 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -207,7 +207,7 @@ template<class EOT> class eoDetUniformMutation: public eoMonOp<EOT>
           {
             unsigned lieu = rng.random(_eo.size());
             // actually, we should test that we don't re-modify same variable!
-            _eo[lieu] = 2*epsilon[0]*rng.uniform()-epsilon[0];
+            _eo[lieu] += 2*epsilon[0]*rng.uniform()-epsilon[0];
           }
       else
         {
-- 
2.43.0


From 129216154b943a9a09c25b40f81af05f06acfcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 44/82] fix: leave values that are inside their interval
 unchanged when folding

A value over 1e9 was replaced by a random one even inside the interval.
---
 eo/src/utils/eoIntBounds.h  | 3 +++
 eo/src/utils/eoRealBounds.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 73b1854..7616c0b 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -285,6 +285,9 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
+    if (isInBounds(_r))
+      return;
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index c760318..09af1f2 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -271,6 +271,9 @@ public :
     long iloc;
     double dlargloc = 2 * range() ;
 
+    if (isInBounds(_r))
+      return;
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
-- 
2.43.0


From cd4a44ad58a69060f48ffe6b7cd0f3ddeea5c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 45/82] fix: fold into the interval despite rounding

Folding -0.3 into [0,0.1] gave 0.10000000000000003.
---
 eo/src/utils/eoRealBounds.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index 09af1f2..62d6348 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -295,6 +295,7 @@ public :
         if (_r < minimum())
           _r = 2*minimum() - _r ;
       }
+    truncate(_r);  // the operations above may be rounded
   }
 
   // truncates to the bounds
-- 
2.43.0


From ed6222bd37a9ab5218ef90bab3b25801c7265968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 46/82] fix: fold into an interval of null range

The division by the null range gave an infinite number of folds.
---
 eo/src/utils/eoRealBounds.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index 62d6348..c631b71 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -274,6 +274,12 @@ public :
     if (isInBounds(_r))
       return;
 
+    if (range() == 0)
+      {
+        truncate(_r);
+        return;
+      }
+
     if (fabs(_r) > 1.0E9)		// iloc too large!
       {
         _r = uniform();
-- 
2.43.0


From 30265a8787c76de17a2af8ab2017dde9d8116996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 47/82] fix: keep the children of arithmetical crossovers
 inside the bounds despite rounding

---
 eo/src/es/eoRealOp.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eo/src/es/eoRealOp.h b/eo/src/es/eoRealOp.h
index 3d14536..397ba86 100644
--- a/eo/src/es/eoRealOp.h
+++ b/eo/src/es/eoRealOp.h
@@ -324,6 +324,8 @@ template<class EOT> class eoSegmentCrossover: public eoQuadOp<EOT>
           r2=_eo2[i];
           _eo1[i] = fact * r1 + (1-fact) * r2;
           _eo2[i] = (1-fact) * r1 + fact * r2;
+          bounds.truncate(i, _eo1[i]);
+          bounds.truncate(i, _eo2[i]);
         }
       return true;         // shoudl test if fact was 0 or 1 :-)))
     }
@@ -398,6 +400,8 @@ template<class EOT> class eoHypercubeCrossover: public eoQuadOp<EOT>
                 fact = rng.uniform(range);       // in [0,1)
                 _eo1[i] = fact * r1 + (1-fact) * r2;
                 _eo2[i] = (1-fact) * r1 + fact * r2;
+                bounds.truncate(i, _eo1[i]);
+                bounds.truncate(i, _eo2[i]);
                 hasChanged = true; // forget (im)possible alpha=0
               }
             }
-- 
2.43.0


From 16462e349e2790b288a16dc8494b9310a454a06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 48/82] fix: draw bounded values from the generator that is
 passed

---
 eo/src/utils/eoIntBounds.h        | 4 ++--
 eo/src/utils/eoRealBounds.h       | 2 +-
 eo/src/utils/eoRealVectorBounds.h | 4 +---
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/eo/src/utils/eoIntBounds.h b/eo/src/utils/eoIntBounds.h
index 7616c0b..c11d6a0 100644
--- a/eo/src/utils/eoIntBounds.h
+++ b/eo/src/utils/eoIntBounds.h
@@ -691,12 +691,12 @@ public:
   /** random generator of uniform doubles in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** random generator of uniform ints in bounds
    * std::exception if unbounded
    */
-  virtual long int random(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->random();}
+  virtual long int random(eoRng & _rng = eo::rng)  const {return repBound->random(_rng);}
 
   /** for memory managements - ugly */
   virtual eoIntBounds * dup() const  {return repBound->dup();}
diff --git a/eo/src/utils/eoRealBounds.h b/eo/src/utils/eoRealBounds.h
index c631b71..01fd95d 100644
--- a/eo/src/utils/eoRealBounds.h
+++ b/eo/src/utils/eoRealBounds.h
@@ -667,7 +667,7 @@ public:
   /** random generator of uniform numbers in bounds
    * std::exception if unbounded
    */
-  virtual double uniform(eoRng & _rng = eo::rng)  const {(void)_rng; return repBound->uniform();}
+  virtual double uniform(eoRng & _rng = eo::rng)  const {return repBound->uniform(_rng);}
 
   /** for memory managements - ugly */
   virtual eoRealBounds * dup() const  {return repBound->dup();}
diff --git a/eo/src/utils/eoRealVectorBounds.h b/eo/src/utils/eoRealVectorBounds.h
index d877853..e7e14b5 100644
--- a/eo/src/utils/eoRealVectorBounds.h
+++ b/eo/src/utils/eoRealVectorBounds.h
@@ -187,9 +187,7 @@ public:
    */
   virtual double uniform(unsigned _i, eoRng & _rng = eo::rng)
   {
-    (void)_rng;
-
-    double r= (*this)[_i]->uniform();
+    double r= (*this)[_i]->uniform(_rng);
     return r;
   }
 
-- 
2.43.0


From 3fb0ab19b3c5c0f1da7ec990485b914eaf52323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:13 +0000
Subject: [PATCH 49/82] fix: make copied vectors of bounds refer to their own
 bounds

The copy kept pointing at the bounds of the original, which are deleted
when the original is read again.
---
 eo/src/utils/eoRealBounds.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eo/src/utils/eoRealBounds.cpp b/eo/src/utils/eoRealBounds.cpp
index c80c655..0b21067 100644
--- a/eo/src/utils/eoRealBounds.cpp
+++ b/eo/src/utils/eoRealBounds.cpp
@@ -7,6 +7,7 @@
 #include <config.h>
 #endif
 
+#include <algorithm>
 #include <ctime>
 #include <sstream>
 
@@ -56,7 +57,11 @@ eoRealVectorBounds::eoRealVectorBounds(const eoRealVectorBounds & _b):
   // duplicate all pointers!
   if (ownedBounds.size()>0)
     for (unsigned i=0; i<ownedBounds.size(); i++)
-      ownedBounds[i] = ownedBounds[i]->dup();
+      {
+        eoRealBounds * ptBounds = ownedBounds[i]->dup();
+        std::replace(begin(), end(), ownedBounds[i], ptBounds);
+        ownedBounds[i] = ptBounds;
+      }
 }
 
 
-- 
2.43.0


From e416ff3bebfff2f6954fda22e32d55c933a605b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:59 +0000
Subject: [PATCH 50/82] fix: let the weighted particle velocities be
 instantiated

They did not implement getTopology(), which is pure virtual in eoVelocity.
---
 eo/src/eoConstrictedVariableWeightVelocity.h | 7 +++++++
 eo/src/eoFixedInertiaWeightedVelocity.h      | 7 +++++++
 eo/src/eoVariableInertiaWeightedVelocity.h   | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/eo/src/eoConstrictedVariableWeightVelocity.h b/eo/src/eoConstrictedVariableWeightVelocity.h
index cff14bc..ce1b8bf 100644
--- a/eo/src/eoConstrictedVariableWeightVelocity.h
+++ b/eo/src/eoConstrictedVariableWeightVelocity.h
@@ -185,6 +185,13 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    //! eoTopology<POT> getTopology
+    //! @return topology
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 
 
 protected:
diff --git a/eo/src/eoFixedInertiaWeightedVelocity.h b/eo/src/eoFixedInertiaWeightedVelocity.h
index 996845c..65345ed 100644
--- a/eo/src/eoFixedInertiaWeightedVelocity.h
+++ b/eo/src/eoFixedInertiaWeightedVelocity.h
@@ -171,6 +171,13 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    //! eoTopology<POT> getTopology
+    //! @return topology
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 
 
 protected:
diff --git a/eo/src/eoVariableInertiaWeightedVelocity.h b/eo/src/eoVariableInertiaWeightedVelocity.h
index 33bbe4f..7f73cb7 100644
--- a/eo/src/eoVariableInertiaWeightedVelocity.h
+++ b/eo/src/eoVariableInertiaWeightedVelocity.h
@@ -177,6 +177,13 @@ public:
         topology.updateNeighborhood(_po,_indice);
     }
 
+    //! eoTopology<POT> getTopology
+    //! @return topology
+    eoTopology<POT> & getTopology ()
+    {
+        return topology;
+    }
+
 
 
 protected:
-- 
2.43.0


From bed5fe5ed848800c99f1ae3670e0d59bab2ee7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:59 +0000
Subject: [PATCH 51/82] fix: let the star topology be instantiated

Its globalBest() had another signature than the pure virtual one.
---
 eo/src/eoStarTopology.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eo/src/eoStarTopology.h b/eo/src/eoStarTopology.h
index 6083dbb..73b9699 100644
--- a/eo/src/eoStarTopology.h
+++ b/eo/src/eoStarTopology.h
@@ -114,7 +114,7 @@ public:
          * Return the global best of the topology
          */
 
-    virtual POT & globalBest(const eoPop<POT>&)
+    virtual POT & globalBest()
     {
         return neighborhood.best();
     }
-- 
2.43.0


From c72bbe42fa3a4fa0edfb002868e68e3bfa031052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:59 +0000
Subject: [PATCH 52/82] fix: update the neighbourhoods of the ring topology

The loop started from a negative value held in an unsigned, so nothing was
updated, and the index was taken modulo the dimension of the particle.
---
 eo/src/eoRingTopology.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/eo/src/eoRingTopology.h b/eo/src/eoRingTopology.h
index a5526fe..1420640 100644
--- a/eo/src/eoRingTopology.h
+++ b/eo/src/eoRingTopology.h
@@ -118,11 +118,10 @@ public:
                         _po.bestPositions[i]=_po[i];
         }
         // update the global best if the given particle is "better"
-        for (unsigned i=-neighborhoodSize+1; i < neighborhoodSize; i++)
+        for (unsigned i=0; i < neighborhoods.size(); i++)
                 {
-                        unsigned indi = (_po.size()+_indice+i)%_po.size();
-                        if (_po.fitness() > neighborhoods[indi].best().fitness())
-                                neighborhoods[indi].best(_po);
+                        if (neighborhoods[i].contains(_indice) && _po.fitness() > neighborhoods[i].best().fitness())
+                                neighborhoods[i].best(_po);
                 }
      }
 
-- 
2.43.0


From 9a9b28b618c6c0cbc1f7a19fb5514bd6b8495c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:59 +0000
Subject: [PATCH 53/82] fix: report the best fitness of a particle as long as
 it is known

best() tested the validity of the current fitness, and the validity of the
best one was never initialised.
---
 eo/src/PO.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/PO.h b/eo/src/PO.h
index 477f165..33414b3 100644
--- a/eo/src/PO.h
+++ b/eo/src/PO.h
@@ -53,7 +53,7 @@ public:
         Fitness must have a ctor which takes 0 as a value. Best fitness mush also have the same constructor.
     */
     PO ():repFitness (Fitness ()), invalidFitness (true),
-            bestFitness (Fitness()){}
+            bestFitness (Fitness()), invalidBestFitness (true){}
 
 
     /// Return fitness value.
@@ -79,7 +79,7 @@ public:
     */
     Fitness best () const
     {
-        if (invalid ())
+        if (invalidBest ())
             throw eoInvalidFitnessError("invalid best fitness in PO.h");
         return bestFitness;
     }
-- 
2.43.0


From 2310b06caca8d31d3152f846df573b0e87afadd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:00 +0000
Subject: [PATCH 54/82] fix: compare dual objective vectors with vectors of the
 same type

dominates() took a real objective vector and could not be instantiated;
operator< only accepted the default scalar type.
---
 moeo/src/core/moeoDualRealObjectiveVector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moeo/src/core/moeoDualRealObjectiveVector.h b/moeo/src/core/moeoDualRealObjectiveVector.h
index 64bf65f..1d63180 100644
--- a/moeo/src/core/moeoDualRealObjectiveVector.h
+++ b/moeo/src/core/moeoDualRealObjectiveVector.h
@@ -78,14 +78,14 @@ class moeoDualRealObjectiveVector : public moeoScalarObjectiveVector<ObjectiveVe
         /**
          * Returns true if the current objective vector dominates _other according to the Pareto dominance relation
          */
-        bool dominates(const moeoRealObjectiveVector < ObjectiveVectorTraits > & other) const
+        bool dominates(const moeoDualRealObjectiveVector & other) const
         {
             moeoParetoDualObjectiveVectorComparator<moeoDualRealObjectiveVector> cmp;
             return cmp( other, *this );
         }
 
         //! True if this is smaller than other
-        bool operator<(const moeoDualRealObjectiveVector < ObjectiveVectorTraits > & other) const
+        bool operator<(const moeoDualRealObjectiveVector & other) const
         {
             // am I better than the other ?
 
@@ -99,7 +99,7 @@ class moeoDualRealObjectiveVector : public moeoScalarObjectiveVector<ObjectiveVe
                 return true;
 
             } else {
-                moeoObjectiveObjectiveVectorComparator < moeoDualRealObjectiveVector < ObjectiveVectorTraits > > cmp;
+                moeoObjectiveObjectiveVectorComparator < moeoDualRealObjectiveVector > cmp;
                 // Returns true if this is smaller than other
                 return cmp(*this, other);
             }
-- 
2.43.0


From c84a92044c1c6aa5a8b730147e027c6ed09d537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:27 +0000
Subject: [PATCH 55/82] fix: initialise the feasibility of a dual objective
 vector

The constructor gave the feasibility to the scalars only, the flag of the
vector itself was left uninitialised.
---
 moeo/src/core/moeoDualRealObjectiveVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/core/moeoDualRealObjectiveVector.h b/moeo/src/core/moeoDualRealObjectiveVector.h
index 1d63180..e10b141 100644
--- a/moeo/src/core/moeoDualRealObjectiveVector.h
+++ b/moeo/src/core/moeoDualRealObjectiveVector.h
@@ -50,7 +50,7 @@ class moeoDualRealObjectiveVector : public moeoScalarObjectiveVector<ObjectiveVe
 
         moeoDualRealObjectiveVector(double value=0.0, bool feasible = false)
             : moeoScalarObjectiveVector<ObjectiveVectorTraits,T>
-              ( T(value, feasible) ) {}
+              ( T(value, feasible) ), _is_feasible(feasible) {}
 
         bool is_feasible() const
         {
-- 
2.43.0


From b6be1f98df89e0cc53cd47fb3e134b830d407ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:27 +0000
Subject: [PATCH 56/82] fix: refuse an objective index equal to the number of
 objectives

The constructor accepted it and the comparison read past the vector.
---
 moeo/src/comparator/moeoOneObjectiveComparator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/comparator/moeoOneObjectiveComparator.h b/moeo/src/comparator/moeoOneObjectiveComparator.h
index f354385..4abca86 100644
--- a/moeo/src/comparator/moeoOneObjectiveComparator.h
+++ b/moeo/src/comparator/moeoOneObjectiveComparator.h
@@ -54,7 +54,7 @@ class moeoOneObjectiveComparator : public moeoComparator < MOEOT >
      */
     moeoOneObjectiveComparator(unsigned int _obj) : obj(_obj)
     {
-      if (obj > MOEOT::ObjectiveVector::nObjectives())
+      if (obj >= MOEOT::ObjectiveVector::nObjectives())
         {
           throw eoException("Problem with the index of objective in moeoOneObjectiveComparator");
         }
-- 
2.43.0


From 4673667ed99ac555ced925b43f7ab0c4d9c8614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:27 +0000
Subject: [PATCH 57/82] fix: take the direction of each objective into account
 in g-dominance

With objectives of both directions, the preferred region was not that of
the points that reach all the goals or none of them.
---
 moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h b/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
index ecdb540..043b1af 100644
--- a/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
+++ b/moeo/src/comparator/moeoGDominanceObjectiveVectorComparator.h
@@ -103,7 +103,7 @@ class moeoGDominanceObjectiveVectorComparator : public moeoObjectiveVectorCompar
       unsigned int result=1;
       for (unsigned int i=0; i<ref.nObjectives(); i++)
         {
-          if (_objectiveVector[i] > ref[i])
+          if (ObjectiveVector::minimizing(i) ? (_objectiveVector[i] > ref[i]) : (_objectiveVector[i] < ref[i]))
             {
               result=0;
             }
@@ -113,7 +113,7 @@ class moeoGDominanceObjectiveVectorComparator : public moeoObjectiveVectorCompar
           result=1;
           for (unsigned int i=0; i<ref.nObjectives(); i++)
             {
-              if (_objectiveVector[i] < ref[i])
+              if (ObjectiveVector::minimizing(i) ? (_objectiveVector[i] < ref[i]) : (_objectiveVector[i] > ref[i]))
                 {
                   result=0;
                 }
-- 
2.43.0


From 56455084c2364f8e54e8669e3159f75f5f242b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:18 +0000
Subject: [PATCH 58/82] fix: make the order of the 2D hypervolume archive
 callable on a constant

The archive could not be instantiated with C++17.
---
 moeo/src/archive/moeo2DMinHypervolumeArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeo2DMinHypervolumeArchive.h b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
index de022bb..e027d8d 100644
--- a/moeo/src/archive/moeo2DMinHypervolumeArchive.h
+++ b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
@@ -51,7 +51,7 @@ struct comp
 {
 	// returns a "before" b
 	// all objectives = min
-	bool operator() (const MOEOT & a, const MOEOT & b)
+	bool operator() (const MOEOT & a, const MOEOT & b) const
 	{
 		return  ((a.objectiveVector()[1] < b.objectiveVector()[1]) || ((a.objectiveVector()[1] == b.objectiveVector()[1]) && (a.objectiveVector()[0] < b.objectiveVector()[0])));
 	}
-- 
2.43.0


From ccf982dc7612d2b66d5bbcf7d3a5a579e91eb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:15 +0000
Subject: [PATCH 59/82] fix: keep the best solutions when truncating the
 fitness and diversity archive

The order used for sorting was reversed, so that the best solutions were
dropped.
---
 moeo/src/archive/moeoFitDivBoundedArchive.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeoFitDivBoundedArchive.h b/moeo/src/archive/moeoFitDivBoundedArchive.h
index 32e13ec..bd5e8f6 100644
--- a/moeo/src/archive/moeoFitDivBoundedArchive.h
+++ b/moeo/src/archive/moeoFitDivBoundedArchive.h
@@ -156,7 +156,7 @@ private:
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            return comp(_moeo1,_moeo2);
+            return comp(_moeo2,_moeo1);
         }
     private:
         /** the comparator */
-- 
2.43.0


From f96a3b32f3f481998712ea1bf9847b6042de1eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:15 +0000
Subject: [PATCH 60/82] fix: do not read past the candidates in the SPEA2
 archive

The index was checked after it had been used, or not at all.
---
 moeo/src/archive/moeoSPEA2Archive.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moeo/src/archive/moeoSPEA2Archive.h b/moeo/src/archive/moeoSPEA2Archive.h
index d2c64b8..6238a3f 100644
--- a/moeo/src/archive/moeoSPEA2Archive.h
+++ b/moeo/src/archive/moeoSPEA2Archive.h
@@ -178,7 +178,7 @@ public:
             i=0;
 
             //While we have a better element in pop than the worst <= -1 in the archive, replace the worst(of archive) by the best(of pop)
-            while ( (i<borne) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) && ( j < copy_pop.size() ) )
+            while ( (i<borne) && ( j < copy_pop.size() ) && ( (operator[](i).fitness()+operator[](i).diversity()) < (copy_pop[j].fitness + copy_pop[j].diversity) ) && (operator[](i).fitness()<=-1) )
             {
                 operator[](i)= back();
                 pop_back();
@@ -188,7 +188,7 @@ public:
             }
 
             //If their are others goods elements in pop (fitness=0) , keep only archive's size elements between the archive's elements and the good element in the pop (k ieme smallest distance is used)
-            if (copy_pop[j].fitness > -1)
+            if ( (j < copy_pop.size()) && (copy_pop[j].fitness > -1) )
             {
                 unsigned int inf=j;
                 unsigned int p;
-- 
2.43.0


From a59276d8debac9d679d5d471730a784b59bb44f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:15 +0000
Subject: [PATCH 61/82] fix: do not dereference the end of the 2D hypervolume
 archive

The contribution of the successor was computed from its own successor,
which does not exist when it is the last one.
---
 moeo/src/archive/moeo2DMinHypervolumeArchive.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/moeo/src/archive/moeo2DMinHypervolumeArchive.h b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
index e027d8d..426ac86 100644
--- a/moeo/src/archive/moeo2DMinHypervolumeArchive.h
+++ b/moeo/src/archive/moeo2DMinHypervolumeArchive.h
@@ -341,7 +341,10 @@ protected:
 				res= _objVec[0] - (*hint).objectiveVector()[0];
 				tmp=(*hint).objectiveVector()[1];
 				hint++;
-				res*= ((*hint).objectiveVector()[1] - tmp);
+				if (hint==end())
+					res=maxValue;
+				else
+					res*= ((*hint).objectiveVector()[1] - tmp);
 				hint--;
 			}
 		}
-- 
2.43.0


From 01f07dcd3262a9fd5e84ce91f8a2c911d08212de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:15 +0000
Subject: [PATCH 62/82] fix: normalise a constant objective without dividing by
 zero

As is already done when the scale comes from a population.
---
 moeo/src/utils/moeoObjectiveVectorNormalizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/utils/moeoObjectiveVectorNormalizer.h b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
index c6d1588..da13217 100644
--- a/moeo/src/utils/moeoObjectiveVectorNormalizer.h
+++ b/moeo/src/utils/moeoObjectiveVectorNormalizer.h
@@ -183,7 +183,7 @@ class moeoObjectiveVectorNormalizer
 			Scale res;
 			for (unsigned i=0;i<worst.nObjectives();i++){
 				std::vector<Type> coeff;
-				coeff.push_back(max/(worst[i]-best[i]));
+				coeff.push_back(worst[i]==best[i]?1:max/(worst[i]-best[i]));
 				coeff.push_back(best[i]);
 				res.push_back(coeff);
 			}
-- 
2.43.0


From 950e7e7f2eb1679f4800baec4651cf1e0667248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:39:45 +0000
Subject: [PATCH 63/82] fix: remove the dominated members of an indexed archive
 from the last one

Removing one of them moves the last member. When that was to be removed as
well, its position changed before its turn and the index was told about a
member that it no longer contains.
---
 .../scalarStuffs/archive/moeoIndexedArchive.h   | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h b/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
index a70eb33..37ccdfd 100644
--- a/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
+++ b/moeo/src/scalarStuffs/archive/moeoIndexedArchive.h
@@ -1,6 +1,7 @@
 #ifndef MOEOINDEXEDARCHIVE_H_
 #define MOEOINDEXEDARCHIVE_H_
 
+#include <algorithm>
 #include <eoPop.h>
 #include <archive/moeoArchive.h>
 #include <scalarStuffs/archive/moeoArchiveIndex.h>
@@ -42,6 +43,8 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 				return false;
 			}
 			else{
+				//from the last position to the first: the member moved in place of a removed one is never to be removed
+				std::sort(res.second.begin(),res.second.end(),byDecreasingIdx);
 				for (unsigned int i=0;i<res.second.size();i++){
 					apply_modif(res.second[i]);
 				}
@@ -73,10 +76,12 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 		void apply_modif(typename moeoArchiveIndex<MOEOT>::modif &_modif){
 			if (_modif.newIdx==-1){
 				int oldIdx=size()-1;
-				(*this)[_modif.oldIdx]=(*this)[size()-1];
-				ObjectiveVector obj=(*this)[_modif.oldIdx].objectiveVector();
-				typename moeoArchiveIndex<MOEOT>::modif upd(obj,oldIdx,_modif.oldIdx);
-				index.update(upd);
+				if (_modif.oldIdx!=oldIdx){
+					(*this)[_modif.oldIdx]=(*this)[size()-1];
+					ObjectiveVector obj=(*this)[_modif.oldIdx].objectiveVector();
+					typename moeoArchiveIndex<MOEOT>::modif upd(obj,oldIdx,_modif.oldIdx);
+					index.update(upd);
+				}
 				pop_back();
 			}
 		}
@@ -101,6 +106,10 @@ class moeoIndexedArchive : public moeoArchive < MOEOT >
 
 
 	private:
+		static bool byDecreasingIdx(const typename moeoArchiveIndex<MOEOT>::modif &_a, const typename moeoArchiveIndex<MOEOT>::modif &_b){
+			return _a.oldIdx>_b.oldIdx;
+		}
+
 		moeoArchiveIndex<MOEOT> &index;
 
 
-- 
2.43.0


From cd8c7ef6051c7742a0dabd37cc701860d4662a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:04 +0000
Subject: [PATCH 64/82] fix: keep the quad tree in step with the archive it
 indexes

A new node was given the position before the one where the archive puts
the solution, a node was searched for in the opposite subtree, and removing
a node lost its last subtree.
---
 moeo/src/scalarStuffs/archive/moeoQuadTree.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moeo/src/scalarStuffs/archive/moeoQuadTree.h b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
index b06a248..540ba6a 100644
--- a/moeo/src/scalarStuffs/archive/moeoQuadTree.h
+++ b/moeo/src/scalarStuffs/archive/moeoQuadTree.h
@@ -162,7 +162,7 @@ public:
 		//else try to insert the new node in the tree
 		else{
 			res.first = insert_aux(tmp, root, NULL, 0, res.second);
-			if(res.first) tmp->set_index(size()-1);
+			if(res.first) tmp->set_index(size()-res.second.size());
 		}
 	}
 
@@ -359,7 +359,7 @@ public:
 			_parent->setChild(_succ, tmp);
 		}
 		k++;
-		while(k < (bound -1)){
+		while(k < bound){
 			if(_node->getSubTree()[k]!=NULL){
 				reinsert(tmp ,_node->getSubTree()[k]);
 			}
@@ -497,7 +497,7 @@ private:
 	QuadTreeNode<ObjectiveVector>* find_node(ObjectiveVector &_obj, QuadTreeNode<ObjectiveVector>* current){
 		if (current->getVec()==_obj) return current;
 		else{
-			int succ=k_succ(current->getVec(),_obj);
+			int succ=k_succ(_obj,current->getVec());
 			if(current->getSubTree()[succ]!=NULL)
 				return find_node(_obj,current->getSubTree()[succ]);
 			else{
-- 
2.43.0


From 3c81f8cda34c7be7b4b222824ddb2c6542bf048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:49 +0000
Subject: [PATCH 65/82] fix: sort solutions on each objective in its own
 direction in dominance depth

---
 .../moeoDominanceDepthFitnessAssignment.h     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index 96f295b..e7ff159 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -149,20 +149,23 @@ private:
     {
     public:
         /**
-         * Returns true if _moeo1 > _moeo2 on the first objective, then on the second, and so on
+         * Returns true if _moeo1 is better than _moeo2 on the first objective, then on the second, and so on
          * @param _moeo1 the first solution
          * @param _moeo2 the second solution
          */
         bool operator()(const MOEOT & _moeo1, const MOEOT & _moeo2)
         {
-            if (MOEOT::ObjectiveVector::maximizing(0))
-                return cmp(_moeo2.objectiveVector(), _moeo1.objectiveVector());
-            else
-                return cmp(_moeo1.objectiveVector(), _moeo2.objectiveVector());
+            const ObjectiveVector & obj1 = _moeo1.objectiveVector();
+            const ObjectiveVector & obj2 = _moeo2.objectiveVector();
+            for (unsigned int i=0; i<ObjectiveVector::nObjectives(); i++)
+            {
+                if ( fabs(obj1[i] - obj2[i]) > ObjectiveVector::Traits::tolerance() )
+                {
+                    return ObjectiveVector::maximizing(i) ? (obj1[i] > obj2[i]) : (obj1[i] < obj2[i]);
+                }
+            }
+            return false;
         }
-    private:
-        /** the corresponding comparator for objective vectors */
-        moeoObjectiveObjectiveVectorComparator < ObjectiveVector > cmp;
     }
     objComparator;
     
-- 
2.43.0


From 80872af0c350e03fa6ab86f34a827947c80564d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:49 +0000
Subject: [PATCH 66/82] fix: keep equal solutions in the same front in
 two-objective dominance depth

---
 .../src/fitness/moeoDominanceDepthFitnessAssignment.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
index e7ff159..99b5223 100644
--- a/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
+++ b/moeo/src/fitness/moeoDominanceDepthFitnessAssignment.h
@@ -199,7 +199,7 @@ private:
     void twoObjectives (eoPop < MOEOT > & _pop)
     {
         double value_obj1;
-        unsigned int front;
+        unsigned int front = 0;
         unsigned int last_front = 0;
         bool equiv_flag;
         
@@ -240,13 +240,16 @@ private:
         for(unsigned int i=0; i<sortedptrpop.size(); i++)
         {
             equiv_flag = false;
-            // check for equivalent solutions and assign them to the worst front
+            // check for equivalent solutions and assign them to the worst front (or to the same front)
             if (i>0)
             {
-                if ( (rm_equiv_flag_in_2D) && (sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector()) )
+                if (sortedptrpop[i]->objectiveVector() == sortedptrpop[i-1]->objectiveVector())
                 {
                     equiv_flag = true;
-                    fronts.back().push_back(i);
+                    if (rm_equiv_flag_in_2D)
+                        fronts.back().push_back(i);
+                    else // same front as the previous solution
+                        fronts[front].push_back(i);
                 }
             }
             if (!equiv_flag)
-- 
2.43.0


From eda80701c0fce2b595506d35cafcd8f5daba1b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:11 +0000
Subject: [PATCH 67/82] fix: forget the copies of the previous populations in
 moeoDominanceMatrix

---
 moeo/src/utils/moeoDominanceMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeo/src/utils/moeoDominanceMatrix.h b/moeo/src/utils/moeoDominanceMatrix.h
index 474e492..2b878bf 100644
--- a/moeo/src/utils/moeoDominanceMatrix.h
+++ b/moeo/src/utils/moeoDominanceMatrix.h
@@ -96,6 +96,7 @@ public:
         resize(i+j);
         countVector.resize(i+j);
         rankVector.resize(i+j);
+        copySet.clear();
         for (unsigned int k=0; k < i+j; k++) {
             (*this)[k].resize(i+j);
             countVector[k]=0;
-- 
2.43.0


From fd3c56672049259e14d5412d0e270b515f2b68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:11 +0000
Subject: [PATCH 68/82] fix: same worth for equal fitnesses in one-objective
 eoNDSorting

---
 eo/src/eoNDSorting.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoNDSorting.h b/eo/src/eoNDSorting.h
index fee6d1c..2ba0325 100644
--- a/eo/src/eoNDSorting.h
+++ b/eo/src/eoNDSorting.h
@@ -113,7 +113,10 @@ private :
 
         for (i = 0; i < _pop.size(); ++i)
         {
-          value()[tmp_pop[i].index] = _pop.size() - i; // set rank
+          if (i > 0 && tmp_pop[i].fitness() == tmp_pop[i-1].fitness())
+            value()[tmp_pop[i].index] = value()[tmp_pop[i-1].index];
+          else
+            value()[tmp_pop[i].index] = _pop.size() - i; // set rank
         }
 
         // no point in calculcating niche penalty, as every distinct fitness value has a distinct rank
-- 
2.43.0


From 8e6f181e88f4001e126e9ab02738f6bafb775292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:33:11 +0000
Subject: [PATCH 69/82] fix: no negative niche penalty for a front of one in
 eoNDSorting_II

---
 eo/src/eoNDSorting.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eo/src/eoNDSorting.h b/eo/src/eoNDSorting.h
index 2ba0325..3aba588 100644
--- a/eo/src/eoNDSorting.h
+++ b/eo/src/eoNDSorting.h
@@ -484,7 +484,8 @@ class eoNDSorting_II : public eoNDSorting<EOT>
 
       // set boundary at max_dist + 1 (so it will get chosen over all the others
       nc[performance[0].second]     += max_dist + 1;
-      nc[performance.back().second] += max_dist + 1;
+      if (performance.size() > 1)
+        nc[performance.back().second] += max_dist + 1;
 
       for (i = 0; i < nc.size(); ++i)
       {
-- 
2.43.0


From 9e80d443c41086010edce4df3e2e789c6bf8a9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:53:26 +0000
Subject: [PATCH 70/82] fix: no division by zero in the crowding distance when
 an objective is constant

---
 moeo/src/diversity/moeoCrowdingDiversityAssignment.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
index 8f9b554..354bb2f 100644
--- a/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
+++ b/moeo/src/diversity/moeoCrowdingDiversityAssignment.h
@@ -131,6 +131,11 @@ class moeoCrowdingDiversityAssignment : public moeoDiversityAssignment < MOEOT >
           // min & max
           min = _pop[0].objectiveVector()[obj];
           max = _pop[_pop.size()-1].objectiveVector()[obj];
+          if (min == max)
+            {
+              min -= tiny();
+              max += tiny();
+            }
           // set the diversity value to infiny for min and max
           _pop[0].diversity(inf());
           _pop[_pop.size()-1].diversity(inf());
-- 
2.43.0


From d2c5406a9a4ac74ae91436fd81663f620b40c7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:53:26 +0000
Subject: [PATCH 71/82] fix: do not keep a reference to a destroyed normalizer
 in moeoEuclideanDistance

---
 moeo/src/distance/moeoEuclideanDistance.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/distance/moeoEuclideanDistance.h b/moeo/src/distance/moeoEuclideanDistance.h
index 5c43c75..4406e2f 100644
--- a/moeo/src/distance/moeoEuclideanDistance.h
+++ b/moeo/src/distance/moeoEuclideanDistance.h
@@ -61,7 +61,7 @@ class moeoEuclideanDistance : public moeoObjSpaceDistance < MOEOT >
       ctr with a normalizer
       @param _normalizer the normalizer used for every ObjectiveVector
       */
-    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> _normalizer):normalizer(_normalizer)
+    moeoEuclideanDistance (moeoObjectiveVectorNormalizer<MOEOT> & _normalizer):normalizer(_normalizer)
 	  {}
     /**
       default ctr
-- 
2.43.0


From d21c9cfff0a0f8828e8cef0d2bc2958fc556eaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:53:26 +0000
Subject: [PATCH 72/82] fix: normalise constant objectives without a division
 by zero in moeoHyperVolumeMetric

---
 moeo/src/metric/moeoHyperVolumeMetric.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoHyperVolumeMetric.h b/moeo/src/metric/moeoHyperVolumeMetric.h
index ce1ee0c..9ddbe23 100644
--- a/moeo/src/metric/moeoHyperVolumeMetric.h
+++ b/moeo/src/metric/moeoHyperVolumeMetric.h
@@ -162,7 +162,10 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 	                min = std::min(min, _set[j][i]);
 	                max = std::max(max, _set[j][i]);
 	            }
-	            bounds[i] = eoRealInterval(min, max);
+	            if( min == max )
+	                bounds[i] = eoRealInterval(min-tiny(), max+tiny());
+	            else
+	                bounds[i] = eoRealInterval(min, max);
 	        }
     	}
     }
@@ -342,6 +345,14 @@ class moeoHyperVolumeMetric : public moeoVectorUnaryMetric < ObjectiveVector , d
 
   private:
 
+	    /**
+	     * Returns a very small value that can be used to avoid extreme cases (where the min bound == the max bound)
+	     */
+	    static double tiny()
+	    {
+	        return 1e-6;
+	    }
+
 	    /*boolean indicates if data must be normalized or not*/
 	    bool normalize;
 
-- 
2.43.0


From de4feabf8cc9b85f684f0bdd5bdd8508952cb799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:53:26 +0000
Subject: [PATCH 73/82] fix: normalise constant objectives without a division
 by zero in moeoVecVsVecEpsilonBinaryMetric

---
 moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
index 570d3e5..3c89694 100644
--- a/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
+++ b/moeo/src/metric/moeoVecVsVecEpsilonBinaryMetric.h
@@ -123,13 +123,24 @@ public:
                 min = std::min(min, _set2[j][i]);
                 max = std::max(max, _set2[j][i]);
             }
-            bounds[i] = eoRealInterval(min, max);
+            if (min == max)
+                bounds[i] = eoRealInterval(min-tiny(), max+tiny());
+            else
+                bounds[i] = eoRealInterval(min, max);
         }
     }
 
 
 protected:
 
+    /**
+     * Returns a very small value that can be used to avoid extreme cases (where the min bound == the max bound)
+     */
+    static double tiny()
+    {
+        return 1e-6;
+    }
+
     /*vectors contains bounds for normalization*/
     std::vector < eoRealInterval > bounds;
 
-- 
2.43.0


From fa0bd7da80bf6e87fa9f66471018d1b686607c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:38 +0000
Subject: [PATCH 74/82] fix: never walk past the end of the population in
 mo_roulette_wheel

---
 moeo/src/selection/moeoSelectors.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/moeo/src/selection/moeoSelectors.h b/moeo/src/selection/moeoSelectors.h
index 1b61eaf..adfac71 100644
--- a/moeo/src/selection/moeoSelectors.h
+++ b/moeo/src/selection/moeoSelectors.h
@@ -123,7 +123,7 @@ It mo_roulette_wheel(It _begin, It _end, double total, eoRng& _gen = rng)
 
   It i = _begin;
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _end)
     {
       roulette -= static_cast<double>(*(i++));
     }
@@ -142,7 +142,7 @@ const MOEOT& mo_roulette_wheel(const eoPop<MOEOT>& _pop, double total, eoRng& _g
 
   typename eoPop<MOEOT>::const_iterator i = _pop.begin();
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _pop.end())
     {
       roulette -= static_cast<double>((i++)->fitness());
     }
@@ -161,7 +161,7 @@ MOEOT& mo_roulette_wheel(eoPop<MOEOT>& _pop, double total, eoRng& _gen = rng)
 
   typename eoPop<MOEOT>::iterator i = _pop.begin();
 
-  while (roulette > 0.0)
+  while (roulette > 0.0 && i != _pop.end())
     {
       // fitness only
       roulette -= static_cast<double>((i++)->fitness());
-- 
2.43.0


From 3e4996cc2f863c20e0a384942bbe7e1fc99ea83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:58:38 +0000
Subject: [PATCH 75/82] fix: no modulo by zero on an empty archive in
 moeoDetArchiveSelect

---
 moeo/src/selection/moeoDetArchiveSelect.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moeo/src/selection/moeoDetArchiveSelect.h b/moeo/src/selection/moeoDetArchiveSelect.h
index c3f94d0..88047c9 100644
--- a/moeo/src/selection/moeoDetArchiveSelect.h
+++ b/moeo/src/selection/moeoDetArchiveSelect.h
@@ -82,7 +82,7 @@ class moeoDetArchiveSelect : public eoSelect<MOEOT>
 					for (unsigned int i=0; i<max; i++)
 						_dest.push_back(archive[permutation[i]]);
 				}
-				else {
+				else if (archive_size > 0) {
 					for (unsigned int i=0; i<min; i++){
 						_dest.push_back(archive[i%archive_size]);
 					}
-- 
2.43.0


From 04df57f2c0be76726d432d77a472faa6099e6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:06 +0000
Subject: [PATCH 76/82] fix: reset the static assignment budget when no run is
 left to assign

---
 eo/src/mpi/eoMpiAssignmentAlgorithm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
index 39ce02f..1d0a061 100644
--- a/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
+++ b/eo/src/mpi/eoMpiAssignmentAlgorithm.cpp
@@ -147,14 +147,14 @@ namespace eo
             busy.resize( nbWorkers, false );
             realRank = workers;
 
+            attributions.clear();
+            attributions.resize( nbWorkers, 0 );
+
             if( runs <= 0 )
             {
                 return;
             }
 
-            attributions.clear();
-            attributions.reserve( nbWorkers );
-
             // Let be the euclidean division of runs by nbWorkers :
             // runs == q * nbWorkers + r, 0 <= r < nbWorkers
             // This one liner affects q requests to each worker
-- 
2.43.0


From 200d191f5b1719778a270455cb6793c32b91d8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:06 +0000
Subject: [PATCH 77/82] fix: bimap removals compile and additions keep the
 bijection

---
 smp/src/bimap.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/smp/src/bimap.cpp b/smp/src/bimap.cpp
index b20e96d..cab680e 100644
--- a/smp/src/bimap.cpp
+++ b/smp/src/bimap.cpp
@@ -30,6 +30,8 @@ Contact: paradiseo-help@lists.gforge.inria.fr
 template<class A, class B>
 void paradiseo::smp::Bimap<A,B>::add(A& a, B& b)
 {
+    removeFromRight(a);
+    removeFromLeft(b);
     rightAssociation[a] = b;
     leftAssociation[b] = a;
 }
@@ -49,21 +51,23 @@ std::map<B,A> paradiseo::smp::Bimap<A,B>::getLeft() const
 template<class A, class B>    
 void paradiseo::smp::Bimap<A,B>::removeFromRight(const A& a)
 {
-    leftAssociation.erase(remove(leftAssociation.begin(), leftAssociation.end(), 
-        [&](std::pair<B,A>& i) -> bool { return i->second == a; }), 
-        leftAssociation.end());
-        
-    rightAssociation.erase(a);
+    auto it = rightAssociation.find(a);
+    if (it != rightAssociation.end())
+    {
+        leftAssociation.erase(it->second);
+        rightAssociation.erase(it);
+    }
 }
 
 template<class A, class B>    
 void paradiseo::smp::Bimap<A,B>::removeFromLeft(const B& b) 
 {
-    rightAssociation.erase(remove(rightAssociation.begin(), rightAssociation.end(), 
-        [&](std::pair<A,B>& i) -> bool { return i->second == b; }), 
-        rightAssociation.end());
-       
-    leftAssociation.erase(b);
+    auto it = leftAssociation.find(b);
+    if (it != leftAssociation.end())
+    {
+        rightAssociation.erase(it->second);
+        leftAssociation.erase(it);
+    }
 }
 
 template<class A, class B>    
-- 
2.43.0


From e1337d0807022ecb4f6e6ad2c22d044a996c74c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:16 +0000
Subject: [PATCH 78/82] fix: the node of a one-node ring is not its own
 neighbour

---
 smp/src/topology/ring.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smp/src/topology/ring.cpp b/smp/src/topology/ring.cpp
index 4de953b..01c552d 100644
--- a/smp/src/topology/ring.cpp
+++ b/smp/src/topology/ring.cpp
@@ -42,6 +42,6 @@ void paradiseo::smp::Ring::operator()(unsigned nbNode, std::vector<std::vector<b
     line.assign(nbNode, false);
     matrix.assign(nbNode, line);
 	
-    for(unsigned i=0; i < nbNode; i++)
+    for(unsigned i=0; nbNode > 1 && i < nbNode; i++)
         matrix[i][(i+1)%nbNode]=true;
 }	
-- 
2.43.0


From 01cb52e253a82b24176202fdd3b44c53cc99e16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:06:16 +0000
Subject: [PATCH 79/82] fix: mesh ratio selection reads before the factor list
 and never picks the lower ratio

---
 smp/src/topology/mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/smp/src/topology/mesh.cpp b/smp/src/topology/mesh.cpp
index e4b25ec..ba95c75 100644
--- a/smp/src/topology/mesh.cpp
+++ b/smp/src/topology/mesh.cpp
@@ -44,10 +44,10 @@ void paradiseo::smp::Mesh::operator()(unsigned nbNode, std::vector<std::vector<b
     // ListFact[i] contains first factor which produces a ratio above the variable _ratio,
     // or the last element if there is no ratio that can go over the variable _ratio. 
 	double r1 = (double)listFact[i] * listFact[i] / nbNode;
-	double r2 = (double)listFact[i-1] * listFact[i-1] / nbNode;
+	double r2 = i > 0 ? (double)listFact[i-1] * listFact[i-1] / nbNode : r1;
 	
 	// Which ratio (r1,r2) matches _ratio best?
-    if (std::abs(r2 - _ratio) <= _ratio - r1)
+    if (i > 0 && std::abs(r2 - _ratio) <= std::abs(_ratio - r1))
         height = listFact[i-1];
     else
         height = listFact[i];
-- 
2.43.0


From 85b3f4fa617d1939079957e52c4c6d91b87dad1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:09:20 +0000
Subject: [PATCH 80/82] fix: centring a distribution changes it instead of a
 temporary copy

---
 edo/src/edoNormalMono.h   | 2 +-
 edo/src/edoVectorBounds.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edo/src/edoNormalMono.h b/edo/src/edoNormalMono.h
index 1260446..f96d3f7 100644
--- a/edo/src/edoNormalMono.h
+++ b/edo/src/edoNormalMono.h
@@ -64,7 +64,7 @@ public:
         return _mean.size();
     }
 
-    EOT mean(){return _mean;}
+    EOT& mean(){return _mean;}
     EOT variance(){return _variance;}
 
 private:
diff --git a/edo/src/edoVectorBounds.h b/edo/src/edoVectorBounds.h
index 7d01bad..2aae6ea 100644
--- a/edo/src/edoVectorBounds.h
+++ b/edo/src/edoVectorBounds.h
@@ -41,8 +41,8 @@ public:
         assert(_min.size() == _max.size());
     }
 
-    EOT min(){return _min;}
-    EOT max(){return _max;}
+    EOT& min(){return _min;}
+    EOT& max(){return _max;}
 
     unsigned int size()
     {
-- 
2.43.0


From a12a476cd4a35c333d7ad64178e9b75fcf341138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:51:18 +0000
Subject: [PATCH 81/82] fix: setting up a named forge again compiles and
 replaces the operator

---
 eo/src/eoForge.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index 3940715..e3ef702 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -479,7 +479,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
             delete this->at(name); // Silent on nullptr.
             auto pfo = new eoForgeOperator<Itf,Op,std::decay_t<Args>...>(
                     std::forward<Args>(args)...);
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         /** Specialization for empty constructors.
@@ -489,7 +489,7 @@ class eoForgeMap : public std::map<std::string,eoForgeInterface<Itf>*>
         {
             delete this->at(name);
             auto pfo = new eoForgeOperator<Itf,Op>;
-            this->emplace({name, pfo});
+            this->at(name) = pfo;
         }
 
         virtual ~eoForgeMap()
-- 
2.43.0


From bacc06f9db7f93efa5b39d860cabfd253cd6ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:51:33 +0000
Subject: [PATCH 82/82] fix: shared forge operators are built and cached

---
 eo/src/eoForge.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eo/src/eoForge.h b/eo/src/eoForge.h
index e3ef702..3983b77 100644
--- a/eo/src/eoForge.h
+++ b/eo/src/eoForge.h
@@ -139,7 +139,7 @@ class eoForgeOperator : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr(bool no_cache = true) override
         {
-            if(no_cache or _instantiated == nullptr) {
+            if(no_cache or _instantiated_ptr == nullptr) {
                 // if(_instantiated) {
                     // delete _instantiated;
                 // }
@@ -202,8 +202,8 @@ class eoForgeOperator<Itf,Op> : public eoForgeInterface<Itf>
 
         std::shared_ptr<Itf> instantiate_ptr( bool no_cache = true ) override
         {
-            if(no_cache or _instantiated == nullptr) {
-                _instantiated_ptr = std::shared_ptr<Op>();
+            if(no_cache or _instantiated_ptr == nullptr) {
+                _instantiated_ptr = std::make_shared<Op>();
             }
             return _instantiated_ptr;
         }
-- 
2.43.0

