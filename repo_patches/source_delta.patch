From 08921e38cb78c621df69ec750b62b8629a52c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 01/40] fix: upper robustness bound with no data is TOP, not
 BOTTOM

---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..76a3f7f 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From 8145529fa3ced72e634ce1a8ea105e52fcfe235b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 02/40] fix: interval bounds of ev/alw compare known data with
 the absolute window begin

---
 src/interval_transducer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 76a3f7f..5acf0e8 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -163,7 +163,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_lower_rob();
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time+a) {
             z_low.appendSample(start_time, BOTTOM); 
             return BOTTOM;
         }
@@ -197,7 +197,7 @@ namespace STLRom {
 
         child->compute_upper_rob();
 
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time+a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -234,7 +234,7 @@ namespace STLRom {
 
         child->compute_lower_rob();
 
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time+a) {
             z_low.appendSample(start_time,BOTTOM);        
             return BOTTOM;
         }
@@ -268,7 +268,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_upper_rob();
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time+a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
-- 
2.43.0


From 7c349f5e9ee3dddfcd1094e3d9effa8d55e0ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 03/40] fix: ev must not trim its operand after evaluation

---
 src/transducer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index dae6f67..b5abc76 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -174,8 +174,6 @@ namespace STLRom {
         
 
         double et = min(z.endTime,end_time);
-        (child->z).resize(et-b, (child->z).endTime, 0.);
-
         z.resize(start_time,max(start_time,et), 0.);
 
 #ifdef DEBUG__
-- 
2.43.0


From d4800b1ec0bc8d91072c5b970917ebc6e9c4af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 04/40] fix: Signal::resize keeps the slope of the sample it
 restarts from

---
 src/signal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..95e7636 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,7 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                push_front(Sample(s, first.valueAt(s), (endTime > s) ? first.derivative : 0.));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From 9d9c5538198ad71ded1626d961d0d0c2cc43163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 05/40] fix: Signal::simplify stops at the last sample even if
 several share the begin time

---
 src/signal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 95e7636..7326239 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,9 +124,11 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        // several samples may share the time beginTime, so count them instead of looking for it
+        size_type nb_left = size() - 1;
         push_back(front());
         pop_front();
-        while (front().time != beginTime) {
+        for (; nb_left > 0; nb_left--) {
             if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
                 push_back(front());
             }
-- 
2.43.0


From 716459764326b43625fc93be90d3bd29b9accc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 06/40] fix: arithmetic expressions are known as long as their
 operands

---
 src/signal_expr.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 1089e80..8beeeee 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -14,6 +14,18 @@ using namespace std;
 
 namespace STLRom {
 
+/* The operands may be known up to a time end_time later than their last sample: the result
+ * is then known up to end_time too, where its value is end_value.
+ */
+static void extend_last_sample(Signal &z, double end_time, double end_value) {
+	Sample &last = z.back();
+	if (end_time > last.time) {
+		if (Signal::interpol == Interpol::LINEAR)
+			last.derivative = (end_value - last.value) / (end_time - last.time);
+		z.endTime = end_time;
+	}
+}
+
 /* Unary operators on signals */
 
 double abs_transducer::compute_robustness() {
@@ -29,6 +41,8 @@ double abs_transducer::compute_robustness() {
 		double v = (*iter).value;
 		z.appendSample(t, fabs(v));
 	}
+	double et = child->z.endTime;
+	extend_last_sample(z, et, fabs(child->z.back().valueAt(et)));
 	return z.front().value;
 }
 
@@ -51,6 +65,8 @@ double plus_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL+vR);
 	}
+	double et = childL->z.endTime;
+	extend_last_sample(z, et, childL->z.back().valueAt(et) + childR->z.back().valueAt(et));
 	return z.front().value;
 }
 
@@ -69,6 +85,8 @@ double minus_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL-vR);
 	}
+	double et = childL->z.endTime;
+	extend_last_sample(z, et, childL->z.back().valueAt(et) - childR->z.back().valueAt(et));
 	return z.front().value;
 }
 
@@ -87,6 +105,8 @@ double mult_transducer::compute_robustness() {
 		double vR = (*iterR).value;
 		z.appendSample(t, vL*vR);
 	}
+	double et = childL->z.endTime;
+	extend_last_sample(z, et, childL->z.back().valueAt(et) * childR->z.back().valueAt(et));
 	return z.front().value;
 }
 
-- 
2.43.0


From 83c78a813c958a648c5f24c7b90154364c37e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 07/40] fix: clamp the crossing time of almost parallel
 segments in and/or

---
 src/robustness.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..90cdc5b 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -929,6 +929,15 @@ Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
  *                         CONJUNCTION SUBROUTINES                           *
  *---------------------------------------------------------------------------*/
 
+//time in [s,t] at which i and j cross, knowing that their order is not the same at s and at t.
+//When they are almost parallel, their intersection may be computed outside [s,t], or undefined.
+static double crossingTime(const Sample & i, const Sample & j, double s, double t) {
+	double c = i.timeIntersect(j);
+	if (!(c > s))
+		return s;
+	return fmin(c, t);
+}
+
 //PRECONDITIONS: j->time < t, i.time < t.
 //POSTCONDITIONS: j->time <= i.time.
 void computeSegmentAnd(Signal * z, const Sample & i, double t,
@@ -940,7 +949,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) < j->valueAt(t)) {
 			if (i.valueAt(s) > j->value) {
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -960,7 +969,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -983,7 +992,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) < j->valueAt(t)) {
 		if (i.value > j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1003,7 +1012,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -1051,7 +1060,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) > j->valueAt(t)) {
 			if (i.valueAt(s) < j->value) {
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -1071,7 +1080,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossingTime(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1094,7 +1103,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) > j->valueAt(t)) {
 		if (i.value < j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1114,7 +1123,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossingTime(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
-- 
2.43.0


From 0d2780d5464d5a45cc5e6278088faf99df3fdf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 08/40] fix: crossing time in computePartialEventually is
 relative to the sample

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 90cdc5b..56235cb 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1225,7 +1225,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From d77105a5ee7f260e096c793a99941cae704c5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 09/40] fix: timed until: relative window, equal or zero length
 windows, reads past the first sample, leak

---
 src/robustness.cpp | 44 +++++++++++++++++++++++++-------------------
 src/transducer.cpp |  3 ++-
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 56235cb..77838c2 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -204,9 +204,9 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
-	while (i->time >= endTime)
+	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
-	while (j->time >= endTime)
+	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
 	s = beginTime;
@@ -384,19 +384,24 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime))
+	// both x and y are known until et, a and b are relative to the beginning of x
+	double et = std::min(y1.endTime, y2.endTime);
+
+	if(y1.beginTime + b > et)
 	{
-		if (a==0)
-			yunt = computeUntil(&y1,&y2);
+		if (y1.beginTime + a > et) {
+			yunt = computeGlobally(&y1);
+		}
 		else
-			if (a > y1.endTime) {
-				yunt = computeGlobally(&y1);
-			}
+			if (a==0)
+				yunt = computeUntil(&y1,&y2);
 			else
 			{
-				Signal * yalw1 = computeBoundedGlobally(&y1, a);
+				Signal * yalw1 = new Signal();
+				yalw1->compute_timed_globally(y1, 0, a);
 				Signal * yuntmp = computeUntil(&y1,&y2);
 				yuntmp->shift(-a);
+				yuntmp->endTime = std::max(yuntmp->endTime, y1.beginTime); // shift may round
 				yunt = computeAnd(yalw1, yuntmp);
 				delete yalw1;
 				delete yuntmp;
@@ -679,9 +684,9 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
@@ -714,9 +719,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 
@@ -806,9 +811,9 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	s = z->beginTime;
@@ -903,9 +908,8 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	Signal *z, *z2, *z3, *z4;
 
-	z = new Signal();
-
-	z2 = computeBoundedEventually(y, b - a);
+	z2 = new Signal();
+	z2->compute_timed_eventually(*y, 0, b - a);
 
 	z3 = computeUntil(x, y);
 	z4 = computeAnd(z2, z3);
@@ -914,8 +918,10 @@ Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
 	delete z3;
 
 	if (a > 0) {
-		Signal * z1 = computeBoundedGlobally(x, a);
+		Signal * z1 = new Signal();
+		z1->compute_timed_globally(*x, 0, a);
 		z4->shift(-a);
+		z4->endTime = std::max(z4->endTime, x->beginTime); // shift may round
 		z = computeAnd(z1, z4);
 		delete z1;
 	} else
diff --git a/src/transducer.cpp b/src/transducer.cpp
index b5abc76..416021a 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -279,7 +279,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        z.resize(0.,z.endTime,0.);
+        double et = min(z.endTime,end_time);
+        z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
 
-- 
2.43.0


From d3212eb248104444d083ddcca2a2069a5bedee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 10/40] fix: until interval bounds require data over the right
 part of the window

---
 src/interval_transducer.cpp | 40 ++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 5acf0e8..4f1786e 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,19 +297,23 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        double lowL = childL->compute_lower_rob();
+        double lowR = childR->compute_lower_rob();
+
+        // the operands must be known at least at the beginning of the window
+        if (lowL==BOTTOM || lowR==BOTTOM ||
+            min(childL->z_low.endTime,childR->z_low.endTime) < start_time+a) {
+            z_low.appendSample(start_time,BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
         z_low.resize(start_time,max(start_time,et),0.);
-        
-        
-        if (z_low.empty())
-            return BOTTOM;
-        else
-            return z_low.front().value;
 
+        if (z_low.empty())
+            z_low.appendSample(start_time,BOTTOM);
+        return z_low.front().value;
     }
 
     double until_transducer::compute_upper_rob() {
@@ -318,17 +322,25 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        double upL = childL->compute_upper_rob();
+        double upR = childR->compute_upper_rob();
+
+        // the operands must be known over the whole window
+        double known = min(childL->z_up.endTime,childR->z_up.endTime);
+        if (upL==TOP || upR==TOP || known < start_time+b) {
+            z_up.appendSample(start_time,TOP);
+            return TOP;
+        }
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        double et =min(z_up.endTime-b,end_time);
+
+        // Here we remove values computed with partial data
+        double et =min(known-b,end_time);
         z_up.resize(start_time,max(start_time,et),0.);
 
         if (z_up.empty())
-            return TOP;
-        else
-            return z_up.front().value;
+            z_up.appendSample(start_time,TOP);
+        return z_up.front().value;
     }
 
 }
-- 
2.43.0


From 29518e868b086cadff18ab4aeec1aa876bea828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 11/40] fix: interval bounds converge in spite of rounded times

---
 src/interval_transducer.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 4f1786e..9961d36 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -6,6 +6,16 @@
 
 namespace STLRom {
 
+    // Restricts z to [s,et]. If complete is true, z is known up to e, even if rounding errors (times were shifted
+    // back and forth) make et slightly smaller.
+    static void restrict_to(Signal &z, double s, double et, double e, bool complete) {
+        if (complete)
+            et = max(s, min(z.endTime,e));
+        z.resize(s,et,0.);
+        if (complete)
+            z.endTime = e;
+    }
+
     /* Interval robustness */
 
     // default (static): interval robustness is the same as normal robustness, with TOPs and BOTTOMs at
@@ -170,7 +180,7 @@ namespace STLRom {
     
         z_low.compute_timed_eventually(child->z_low, a, b);
         double et =min(z_low.endTime,end_time);
-        z_low.resize(start_time,max(start_time,et), 0.);
+        restrict_to(z_low,start_time,max(start_time,et),end_time,child->z_low.endTime >= end_time+b);
 
         if (z_low.empty()) 
             z_low.appendSample(start_time, BOTTOM); 
@@ -206,7 +216,7 @@ namespace STLRom {
 
         // Here we remove values computed with partial data 
         double et =min(z_up.endTime-b+a,end_time);
-        z_up.resize(start_time,et, 0.);
+        restrict_to(z_up,start_time,et,end_time,child->z_up.endTime >= end_time+b);
 
         if (z_up.empty()) 
             z_up.appendSample(start_time, TOP); 
@@ -243,7 +253,7 @@ namespace STLRom {
 
         // Here we remove values computed with partial data 
         double et =min(z_low.endTime-b+a,end_time);
-        z_low.resize(start_time,et, 0.);
+        restrict_to(z_low,start_time,et,end_time,child->z_low.endTime >= end_time+b);
 	
         if (z_low.empty()) 
             z_low.appendSample(start_time,BOTTOM);        
@@ -276,7 +286,7 @@ namespace STLRom {
         //    cout << "child->z_up:" << child->z_up << endl;
         z_up.compute_timed_globally(child->z_up, a, b);
         double et =min(z_up.endTime,end_time);
-        z_up.resize(start_time,max(start_time,et), 0.);
+        restrict_to(z_up,start_time,max(start_time,et),end_time,child->z_up.endTime >= end_time+b);
 
         if (z_up.empty()) 
             z_up.appendSample(start_time, TOP); 
@@ -309,7 +319,8 @@ namespace STLRom {
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
-        z_low.resize(start_time,max(start_time,et),0.);
+        restrict_to(z_low,start_time,max(start_time,et),end_time,
+                    min(childL->z_low.endTime,childR->z_low.endTime) >= end_time+b);
 
         if (z_low.empty())
             z_low.appendSample(start_time,BOTTOM);
@@ -336,7 +347,7 @@ namespace STLRom {
 
         // Here we remove values computed with partial data
         double et =min(known-b,end_time);
-        z_up.resize(start_time,max(start_time,et),0.);
+        restrict_to(z_up,start_time,max(start_time,et),end_time,known >= end_time+b);
 
         if (z_up.empty())
             z_up.appendSample(start_time,TOP);
-- 
2.43.0


From 49413e59a68b50eb6567e086def4ee79ee9d6421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 12/40] fix: windows are closed: keep the value of a sample
 placed at their end

---
 src/robustness.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 77838c2..2224f70 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -15,6 +15,24 @@ using namespace std;
 
 namespace STLRom { 
 
+// value of x at time t, including that of a sample placed at t itself
+static double valueAtEnd(const Signal &x, double t) {
+	auto i = x.rbegin();
+	while (i->time > t && i != x.rend()-1)
+		i++;
+	return i->valueAt(t);
+}
+
+// operators compute values on [beginTime, endTime): this sets the value at endTime, where the signal may jump
+static void setEndValue(Signal &z, double v) {
+	if (z.back().time < z.endTime)
+		z.push_back(Sample(z.endTime, v, 0.));
+	else {
+		z.back().value = v;
+		z.back().derivative = 0.;
+	}
+}
+
 void Signal::compute_boolean(const Signal &y) {
 	clear();
 	beginTime = y.beginTime;
@@ -130,6 +148,7 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 
 	computePartialAnd(this, i, j, this->beginTime, this->endTime);
 	simplify();
+	setEndValue(*this, std::min(valueAtEnd(x, endTime), valueAtEnd(y, endTime)));
 
 }
 
@@ -149,6 +168,7 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 
 	computePartialOr(this, i, j, beginTime, endTime);
 	simplify();
+	setEndValue(*this, std::max(valueAtEnd(x, endTime), valueAtEnd(y, endTime)));
 
 }
 
@@ -691,6 +711,7 @@ Signal * computeAnd(Signal * x, Signal * y) {
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	setEndValue(*z, std::min(valueAtEnd(*x, z->endTime), valueAtEnd(*y, z->endTime)));
 
 	return z;
 }
@@ -732,6 +753,7 @@ Signal * computeOr(Signal * x, Signal * y) {
 
 	computePartialOr(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
+	setEndValue(*z, std::max(valueAtEnd(*x, z->endTime), valueAtEnd(*y, z->endTime)));
 
 #ifdef DEBUG__
 	cout << "<  computeOr:                                 OUT." << endl;
@@ -766,6 +788,8 @@ Signal * computeEventually(Signal * x) {
 
 	Signal::const_reverse_iterator i = x->rbegin();
 	computePartialEventually(z, i, z->beginTime, z->endTime);
+	if (z->endTime > z->beginTime)
+		setEndValue(*z, valueAtEnd(*x, z->endTime));
 
 #ifdef DEBUG__
 	cout << "IN: x:" << *x << endl; 
@@ -818,6 +842,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 
 	s = z->beginTime;
 	t = z->endTime;
+	z_max = std::min(valueAtEnd(*x, t), valueAtEnd(*y, t));
 
 	while (i->time > s) {
 
@@ -837,6 +862,7 @@ Signal * computeUntil(Signal * x, Signal * y) {
 				z_max);
 
 	z->simplify();
+	setEndValue(*z, std::min(valueAtEnd(*x, z->endTime), valueAtEnd(*y, z->endTime)));
 
 #ifdef DEBUG__
 	cout << "<  computeUntil:                              OUT." << endl;
@@ -863,6 +889,7 @@ Signal * computeBoundedEventually(Signal * x, double a) {
 	delete z2;
 
 	z = computeOr(x, z3);
+	setEndValue(*z, valueAtEnd(*x, z->endTime));
 
 	delete z3;
 	z->simplify();
@@ -898,6 +925,7 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 
 
 	z = computeAnd(x, z3);
+	setEndValue(*z, valueAtEnd(*x, z->endTime));
 	delete z3;
 	z->simplify();
 
-- 
2.43.0


From 69a35073c56be94b8fff56f2baea556a756ff718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 13/40] fix: time robustness of point windows and of the last
 boolean segment

---
 src/robustness.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 2224f70..717759a 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -48,7 +48,7 @@ void Signal::compute_boolean(const Signal &y) {
 		else 
 			next_time = next_i->time;
 		
-		if (v>0.) {
+		if (v>0. || (v==0. && d>0.)) {
 			push_back(Sample(i->time, 1. , 0.));
 			if (d<0.) {
 				double t_zero_cross = i->time-v/d;
@@ -66,7 +66,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	if (size() > 1 && back().time == endTime) {
 		pop_back();
 	}
 }
@@ -108,7 +108,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From d2ace3c4d01743fdc738ea9f116c5c7bf91b851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 14/40] fix: a read error while parsing makes parse_* return
 false instead of exiting the process

---
 include/stl_scanner.h | 12 ++++++++++++
 src/stl_driver.cpp    | 10 +++++++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/stl_scanner.h b/include/stl_scanner.h
index e16f52e..ba8a228 100644
--- a/include/stl_scanner.h
+++ b/include/stl_scanner.h
@@ -23,6 +23,7 @@
 #undef yyFlexLexer
 #endif
 
+#include <stdexcept>
 #include "stl_parser.h"
 
 namespace STLRom {
@@ -55,6 +56,17 @@ public:
 
     /** Enable debug output (via arg_yyout) if compiled into the scanner. */
     void set_debug(bool b);
+
+    /** Thrown when the input cannot be read. */
+    class error : public std::runtime_error
+    {
+    public:
+        explicit error(const char* msg) : std::runtime_error(msg) {}
+    };
+
+protected:
+    /** The default implementation exits the process. */
+    virtual void LexerError(const char* msg) { throw error(msg); }
 };
 
 } // namespace example
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..9f026f0 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -156,7 +156,15 @@ namespace STLRom
 		Parser parser(*this);
 		parser.set_debug_level(trace_parsing);
 
-		return (parser.parse() == 0);
+		try
+		{
+			return (parser.parse() == 0);
+		}
+		catch (const Scanner::error &e)
+		{
+			error(e.what());
+			return false;
+		}
 	}
 
 	bool STLDriver::parse_file(const std::string &filename)
-- 
2.43.0


From a3dd25204b316d723776ae47f19aa4f31d7a190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 15/40] fix: read_trace keeps the last line, ignores trailing
 blanks, and reports unreadable lines and read errors

---
 src/tools.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index c14223e..9787854 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -115,16 +115,29 @@ bool read_trace(const string &trace_file_name, vector< vector<double> > &data)
 	}
 
 	string line;
-	while (!std::getline(file, line, '\n').eof()) {
+	while (std::getline(file, line, '\n')) {
 		istringstream reader(line);
 		vector<double> lineData;
-		while (!reader.eof()) {
+		while (!(reader >> std::ws).eof()) {
 			double val;
-			reader >> val;
+			if (!(reader >> val)) {
+				cout << "trace file " << trace_file_name << ": cannot read line: " << line << endl;
+				return false;
+			}
 			lineData.push_back(val);
 		}
+		if (lineData.empty())
+			continue;
+		if (!data.empty() && lineData.size() != data.back().size()) {
+			cout << "trace file " << trace_file_name << ": incomplete line: " << line << endl;
+			return false;
+		}
 		data.push_back(lineData);
 	}
+	if (file.bad()) {
+		cout << "trace file " << trace_file_name << ": read error" << endl;
+		return false;
+	}
 	file.close();
 	return true;
 }
-- 
2.43.0


From 745c761fabe9d945fb3172fca4255e2d92e996ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 16/40] fix: dump_trace_file writes values that read back
 unchanged, and reports write errors

---
 src/stl_driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 9f026f0..6fd4a0b 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -576,6 +576,7 @@ namespace STLRom
 		ofs.open(filename.c_str(), std::ofstream::out);
 		if (ofs.is_open())
 		{
+			ofs << std::setprecision(std::numeric_limits<double>::max_digits10);
 			for (auto ii = data.begin(); ii != data.end(); ii++)
 			{
 				for (auto jj = (*ii).begin(); jj != (*ii).end(); jj++)
@@ -585,6 +586,8 @@ namespace STLRom
 				ofs << endl;
 			}
 			ofs.close();
+			if (ofs.fail())
+				cout << "Couldn't write trace to file " << filename.c_str() << endl;
 		}
 		else
 		{
-- 
2.43.0


From 25074c3f0306ea21b68d76dd7fd517ac441d4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 17/40] fix: dump_test_log_file returns false when the log
 cannot be written

---
 src/stl_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 6fd4a0b..f44cc19 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -605,7 +605,7 @@ namespace STLRom
 			ofs << test_log << endl;
 			ofs << "Number of positive STL tests: " << nb_test_pos << "/" << nb_test_total;
 			ofs.close();
-			return true;
+			return !ofs.fail();
 		}
 		else
 		{
-- 
2.43.0


From bab4cc024f9b6a9585b3e0c98d6307667e9f67d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:07 +0000
Subject: [PATCH 18/40] fix: Signal::dumpFile reports write errors

---
 include/signal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/signal.h b/include/signal.h
index bd2639d..fa8ed80 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -168,6 +168,8 @@ public:
 				ofs << *i << std::endl;
 			}
 			ofs.close();
+			if (ofs.fail())
+				cout << "Couldn't write signal to file " << filename.c_str() << endl;
 		}
 		else {
 			cout << "Couldn't open file " << filename.c_str() << " for writing signal" << endl; // TODO implement exception
-- 
2.43.0


From 98682ffc49843c59ce2529185a948db4775c3321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 19/40] fix: a failed copy assignment of STLMonitor left a
 dangling formula

---
 include/stl_monitor.h | 25 +++----------------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 9cd3de0..0ed88b7 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -54,28 +54,9 @@ namespace STLRom
         {
             if (this != &other)
             {
-                interpol = other.interpol;
-                semantics = other.semantics;
-                data = other.data;
-                param_map = other.param_map;
-                signal_map = other.signal_map;
-                rob = other.rob;
-                lower_rob = other.lower_rob;
-                upper_rob = other.upper_rob;
-                start_time = other.start_time;
-                end_time = other.end_time;
-                if (formula)
-                {
-                    delete formula;
-                }
-                if (other.formula)
-                {
-                    formula = other.formula->clone();
-                }
-                else
-                {
-                    formula = nullptr;
-                }
+                // copy first: *this is unchanged if the copy fails
+                STLMonitor copy(other);
+                *this = std::move(copy);
             }
             return *this;
         }
-- 
2.43.0


From 7ff751b9db18ccdc24a1d0df712bc9bfe474aee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 20/40] fix: a failed copy assignment of STLDriver left a null
 formula

---
 src/stl_driver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index f44cc19..14bb8e3 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -102,7 +102,8 @@ namespace STLRom
 
 			for (const auto &pair : other.formula_map)
 			{
-				formula_map[pair.first] = pair.second->clone();
+				transducer *copy = pair.second->clone();
+				formula_map[pair.first] = copy;
 			}
 		}
 		return *this;
-- 
2.43.0


From 85a3e868c901668e545fea3604011b1791dc9879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 21/40] fix: copies of stl_test shared and deleted the same
 formula

---
 include/stl_driver.h | 24 ++++++++++++++++++++++++
 src/stl_driver.cpp   | 17 +----------------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/stl_driver.h b/include/stl_driver.h
index 34df455..b857458 100644
--- a/include/stl_driver.h
+++ b/include/stl_driver.h
@@ -38,6 +38,30 @@ namespace STLRom
                                                             is_error(_is_err) {
                                                             };
 
+        // each stl_test owns its formula
+        stl_test(const stl_test &other) : test_id(other.test_id),
+                                          param_map(other.param_map),
+                                          formula(other.formula ? other.formula->clone() : nullptr),
+                                          report_positive(other.report_positive),
+                                          report_negative(other.report_negative),
+                                          is_error(other.is_error) {
+                                          };
+
+        stl_test &operator=(const stl_test &other)
+        {
+            if (this != &other)
+            {
+                stl_test copy(other);
+                test_id.swap(copy.test_id);
+                param_map.swap(copy.param_map);
+                std::swap(formula, copy.formula);
+                report_positive.swap(copy.report_positive);
+                report_negative.swap(copy.report_negative);
+                is_error = copy.is_error;
+            }
+            return *this;
+        }
+
         ~stl_test()
         {
             delete formula;
diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 14bb8e3..0dfe6fc 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -228,17 +228,7 @@ namespace STLRom
 		param_map.clear();
 		stl_test_map.clear();
 
-		while (!trace_test_queue.empty())
-		{
-			transducer *formula = get_next_formula();
-			while (formula != nullptr)
-			{
-				delete formula;
-				trace_test_queue.front().tests.pop_front();
-				formula = get_next_formula();
-			}
-			trace_test_queue.pop_front();
-		}
+		trace_test_queue.clear();
 		report.clear();
 		test_log.clear();
 		error_flag = false;
@@ -411,7 +401,6 @@ namespace STLRom
 			if ((elem = stl_test_map.find(test_id)) != stl_test_map.end())
 			{
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
@@ -437,7 +426,6 @@ namespace STLRom
 				//				cout << endl;
 
 				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().formula = (elem->second).formula->clone();
 				trace_test_queue.back().tests.back().param_map = local_param_map;
 			}
 		}
@@ -460,10 +448,7 @@ namespace STLRom
 			//			cout << endl;
 
 			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			stl_test_map[test_id].param_map = local_param_map;
-			stl_test_map[test_id].formula = formula->clone();
 			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
-			trace_test_queue.back().tests.back().formula = formula->clone();
 		}
 	}
 
-- 
2.43.0


From 56b0fa33f12b84f97844d5ac7d41022d6dc8140e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 22/40] fix: dump and run_tests evaluate formulas on the data
 and parameters of the driver

---
 src/stl_driver.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 0dfe6fc..3eaa96d 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -291,7 +291,11 @@ namespace STLRom
 
 		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
 		{
-			formula->second->trace_data_ptr = &data;
+			formula->second->set_trace_data_ptr(data);
+			formula->second->set_param_map_ptr(param_map);
+			Signal::semantics = semantics;
+			Signal::interpol = interpol;
+			formula->second->reset();
 			formula->second->init_horizon();
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
@@ -323,7 +327,11 @@ namespace STLRom
 				//	transducer->param_map[elem->first] = elem->second;
 				//}
 
-				formula->trace_data_ptr = &data;
+				formula->set_trace_data_ptr(data);
+				formula->set_param_map_ptr(param_map);
+				Signal::semantics = semantics;
+				Signal::interpol = interpol;
+				formula->reset();
 				formula->init_horizon();
 				double rob = formula->compute_robustness();
 
-- 
2.43.0


From 41040884efc49e12e39c10e4e6348c73b69edd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 23/40] fix: run_tests without a pending trace test popped an
 empty queue

---
 src/stl_driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 3eaa96d..db89fb3 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -359,9 +359,9 @@ namespace STLRom
 				formula = get_next_formula();
 				curr_test = get_next_stl_test();
 			}
+			report += "\n";
+			trace_test_queue.pop_front();
 		}
-		report += "\n";
-		trace_test_queue.pop_front();
 		return error_flag;
 	}
 
-- 
2.43.0


From 338d58e3575fdb13bf50545ca80278ecd5c138f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:02 +0000
Subject: [PATCH 24/40] fix: concurrent evaluations overwrote each other's
 semantics and interpolation

---
 include/signal.h | 5 +++--
 src/signal.cpp   | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/signal.h b/include/signal.h
index fa8ed80..5cadf56 100644
--- a/include/signal.h
+++ b/include/signal.h
@@ -81,8 +81,9 @@ public:
 	
 	// Guess that should be else where... 
 	
-	static Semantics semantics;
-	static Interpol interpol;
+	// Set before each evaluation, so they cannot be shared by threads evaluating different formulas
+	static thread_local Semantics semantics;
+	static thread_local Interpol interpol;
 
 
 	inline static void set_semantics(const std::string& sem) {
diff --git a/src/signal.cpp b/src/signal.cpp
index 7326239..abf1b7f 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -5,8 +5,8 @@
 namespace STLRom {
 
     // Default semantics and interpolation
-    Semantics Signal::semantics = Semantics::SPACE;
-    Interpol Signal::interpol = Interpol::LINEAR; 
+    thread_local Semantics Signal::semantics = Semantics::SPACE;
+    thread_local Interpol Signal::interpol = Interpol::LINEAR; 
 
     double Signal::BigM = 10000.;
 
-- 
2.43.0


From 5960621b1e91fe90e70dd097be54651c35af7cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 25/40] fix: every Scanner rewrote the reserved words shared by
 all drivers

---
 src/stl_driver.cpp  | 24 +++++++++++++++++++++++-
 src/stl_scanner.cpp | 27 +--------------------------
 src/stl_scanner.lpp | 27 +--------------------------
 3 files changed, 25 insertions(+), 53 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index db89fb3..b20ca2a 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -13,7 +13,29 @@
 namespace STLRom
 {
 
-	map<string, token_type> STLDriver::reserved = map<string, token_type>(); // filled in stl_scanner.lpp
+	map<string, token_type> STLDriver::reserved = {
+		{"F", token::DIAMOND},
+		{"F_", token::DIAMOND},
+		{"ev", token::DIAMOND},
+		{"ev_", token::DIAMOND},
+		{"G", token::BOX},
+		{"G_", token::BOX},
+		{"alw", token::BOX},
+		{"alw_", token::BOX},
+		{"U", token::UNTIL},
+		{"U_", token::UNTIL},
+		{"until", token::UNTIL},
+		{"until_", token::UNTIL},
+		{"and", token::AND},
+		{"or", token::OR},
+		{"not", token::NOT},
+		{"true", token::BOOL_TRUE},
+		{"false", token::BOOL_FALSE},
+		{"t", token::TIME},
+		{"abs", token::ABS},
+		{"param", token::PARAM_DECL},
+		{"test", token::TEST},
+		{"signal", token::SIGNAL_DECL}};
 
 	STLDriver::STLDriver()
 		: interpol(Interpol::LINEAR),
diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index 87e1ad3..08da77a 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -2104,32 +2104,7 @@ namespace STLRom {
 Scanner::Scanner(std::istream* in,
 		 std::ostream* out)
     : STLFlexLexer(in, out)
-{
-    STLDriver::reserved["F"] = token::DIAMOND;
-    STLDriver::reserved["F_"] = token::DIAMOND;
-    STLDriver::reserved["ev"] = token::DIAMOND;
-    STLDriver::reserved["ev_"] = token::DIAMOND;
-    STLDriver::reserved["G"] = token::BOX;
-    STLDriver::reserved["G_"] = token::BOX;
-    STLDriver::reserved["alw"] = token::BOX;
-    STLDriver::reserved["alw_"] = token::BOX;
-    STLDriver::reserved["U"] = token::UNTIL;
-    STLDriver::reserved["U_"] = token::UNTIL;
-    STLDriver::reserved["until"] = token::UNTIL;
-    STLDriver::reserved["until_"] = token::UNTIL;
-        
-    STLDriver::reserved["and"] = token::AND;
-    STLDriver::reserved["or"] = token::OR;
-    STLDriver::reserved["not"] = token::NOT;
-    STLDriver::reserved["true"] = token::BOOL_TRUE;
-    STLDriver::reserved["false"] = token::BOOL_FALSE;
-        
-    STLDriver::reserved["t"] = token::TIME;
-    STLDriver::reserved["abs"] = token::ABS;
-    STLDriver::reserved["param"] = token::PARAM_DECL;
-    STLDriver::reserved["test"] = token::TEST;
-    STLDriver::reserved["signal"] = token::SIGNAL_DECL;
-}
+{}
 
 Scanner::~Scanner()
 {
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index 082195c..dc2f787 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -173,32 +173,7 @@ namespace STLRom {
 Scanner::Scanner(std::istream* in,
 		 std::ostream* out)
     : STLFlexLexer(in, out)
-{
-    STLDriver::reserved["F"] = token::DIAMOND;
-    STLDriver::reserved["F_"] = token::DIAMOND;
-    STLDriver::reserved["ev"] = token::DIAMOND;
-    STLDriver::reserved["ev_"] = token::DIAMOND;
-    STLDriver::reserved["G"] = token::BOX;
-    STLDriver::reserved["G_"] = token::BOX;
-    STLDriver::reserved["alw"] = token::BOX;
-    STLDriver::reserved["alw_"] = token::BOX;
-    STLDriver::reserved["U"] = token::UNTIL;
-    STLDriver::reserved["U_"] = token::UNTIL;
-    STLDriver::reserved["until"] = token::UNTIL;
-    STLDriver::reserved["until_"] = token::UNTIL;
-        
-    STLDriver::reserved["and"] = token::AND;
-    STLDriver::reserved["or"] = token::OR;
-    STLDriver::reserved["not"] = token::NOT;
-    STLDriver::reserved["true"] = token::BOOL_TRUE;
-    STLDriver::reserved["false"] = token::BOOL_FALSE;
-        
-    STLDriver::reserved["t"] = token::TIME;
-    STLDriver::reserved["abs"] = token::ABS;
-    STLDriver::reserved["param"] = token::PARAM_DECL;
-    STLDriver::reserved["test"] = token::TEST;
-    STLDriver::reserved["signal"] = token::SIGNAL_DECL;
-}
+{}
 
 Scanner::~Scanner()
 {
-- 
2.43.0


From 75eb6fb3a1dd29b717ae026a926626b702bdd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 26/40] fix: the parser leaked operators, parameter maps,
 strings and test formulas

---
 src/stl_parser.cpp | 35 +++++++++++++++++++++++++++++++++++
 src/stl_parser.ypp |  7 +++++++
 2 files changed, 42 insertions(+)

diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index 6d20775..e9817c9 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -516,6 +516,36 @@ namespace STLRom {
 #line 517 "stl_parser.cpp" // lalr1.cc:617
         break;
 
+      case 30: // "constant"
+
+        { delete (yysym.value.stringVal); }
+        break;
+
+      case 42: // constant
+
+        { delete (yysym.value.stringVal); }
+        break;
+
+      case 51: // op
+
+        { delete (yysym.value.stringVal); }
+        break;
+
+      case 60: // local_param_assignement
+
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
+      case 61: // local_param_assignement_list
+
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
+      case 62: // local_param_assignements
+
+        { delete (yysym.value.param_map_ptr); }
+        break;
+
       case 53: // stl_formula
 
 #line 131 "stl_parser.ypp" // lalr1.cc:617
@@ -937,6 +967,7 @@ namespace STLRom {
               (yylhs.value.transducer_ptr)->trace_data_ptr = &driver.data;
               (yylhs.value.transducer_ptr)->param_map = driver.param_map;
               (yylhs.value.transducer_ptr)->signal_map = driver.signal_map;
+              delete (yystack_[1].value.stringVal);
           }
 #line 942 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1108,6 +1139,7 @@ namespace STLRom {
              double x;
              driver.add_trace_test(*(yystack_[2].value.stringVal), *(yystack_[0].value.stringVal), 0., false);
              delete (yystack_[2].value.stringVal);
+             delete (yystack_[0].value.stringVal);
          }
 #line 1113 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1199,6 +1231,8 @@ namespace STLRom {
     (yylhs.value.param_map_ptr) = new map<string,double>(*(yystack_[2].value.param_map_ptr));
     auto elem = (yystack_[0].value.param_map_ptr)->begin();
     (*(yylhs.value.param_map_ptr))[elem->first] = elem->second;
+    delete (yystack_[2].value.param_map_ptr);
+    delete (yystack_[0].value.param_map_ptr);
 }
 #line 1204 "stl_parser.cpp" // lalr1.cc:859
     break;
@@ -1243,6 +1277,7 @@ namespace STLRom {
             driver.add_stl_test(*(yystack_[10].value.stringVal), *(yystack_[9].value.param_map_ptr), (yystack_[7].value.transducer_ptr), *(yystack_[5].value.stringVal), *(yystack_[3].value.stringVal), (yystack_[1].value.boolVal) );
             delete (yystack_[10].value.stringVal);
             delete (yystack_[9].value.param_map_ptr);
+            delete (yystack_[7].value.transducer_ptr);
             delete (yystack_[5].value.stringVal);
             delete (yystack_[3].value.stringVal);
         }
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index 259d78f..a43232f 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -127,6 +127,8 @@ using namespace STLRom;
 %type <param_map_ptr>  local_param_assignements local_param_assignement_list local_param_assignement
 
 %destructor { delete $$; } STRING PARAM_ID PHI_ID NEW_ID SIGNAL_ID STL_TEST_ID
+%destructor { delete $$; } CONSTANT constant op
+%destructor { delete $$; } local_param_assignements local_param_assignement_list local_param_assignement
 %destructor { delete $$; } interval
 %destructor { delete $$; } stl_atom stl_formula signal signal_atom
 %destructor { delete $$; } signal_expr constant_signal signal_addexpr signal_multexpr signal_unaryexpr
@@ -270,6 +272,7 @@ stl_atom : signal_expr op signal_expr
               $$->trace_data_ptr = &driver.data;
               $$->param_map = driver.param_map;
               $$->signal_map = driver.signal_map;
+              delete $2;
           }
           ;
 
@@ -386,6 +389,7 @@ trace_env: TEST NEW_ID ':' STRING
              double x;
              driver.add_trace_test(*$2, *$4, 0., false);
              delete $2;
+             delete $4;
          }
          | TEST NEW_ID ':' STRING COMMA CONSTANT COMMA boolean  /* test id: environment, simulation time, visualization  */
          {
@@ -460,6 +464,8 @@ local_param_assignement_list: local_param_assignement
     $$ = new map<string,double>(*$1);
     auto elem = $3->begin();
     (*$$)[elem->first] = elem->second;
+    delete $1;
+    delete $3;
 }
 
 local_param_assignements: /* empty */
@@ -494,6 +500,7 @@ stl_test: NEW_ID  local_param_assignements '{'  stl_formula COMMA  STRING COMMA
             driver.add_stl_test(*$1, *$2, $4, *$6, *$8, $10 );
             delete $1;
             delete $2;
+            delete $4;
             delete $6;
             delete $8;
         }
-- 
2.43.0


From 759b4f129877f40bb2d8877eccd3431fe38bd368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 27/40] fix: reading a signal missing from a sample went out of
 bounds

---
 src/stl_atom.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 49ce337..67ff3d4 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -81,7 +81,7 @@ namespace STLRom {
         if (i) {
             while ( (td_idx <= trace_data_ptr->size()-1)  && t<=end_time)   {
                 t = (trace_data_ptr->at(td_idx))[0];
-                v = (trace_data_ptr->at(td_idx))[i];
+                v = (trace_data_ptr->at(td_idx)).at(i);
                 // cout << "t: " << t << " v: " << v << endl;
                 z.appendSample(t, v);
                 td_idx++;
-- 
2.43.0


From 624009d0ff4580bd48106bd5d8f67f5a8f1c3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 28/40] fix: add_sample accepted NaN as a time

---
 src/stl_driver.cpp  | 2 +-
 src/stl_monitor.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index b20ca2a..be2851d 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -488,7 +488,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (std::isnan(s[0]) || (!data.empty() && s[0] <= data.back()[0]))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
diff --git a/src/stl_monitor.cpp b/src/stl_monitor.cpp
index 3769d2c..bf86b66 100644
--- a/src/stl_monitor.cpp
+++ b/src/stl_monitor.cpp
@@ -18,7 +18,7 @@ namespace STLRom
 		{
 			throw std::invalid_argument("Sample size does not match the number of signals.");
 		}
-		if (!data.empty() && s[0] <= data.back()[0])
+		if (std::isnan(s[0]) || (!data.empty() && s[0] <= data.back()[0]))
 		{
 			throw std::invalid_argument("Sample time must be strictly greater than the last sample time.");
 		}
-- 
2.43.0


From 952048166567423c2c8748a2dcf1a88491b1cae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 29/40] fix: signal_map_to_string with no signal went out of
 bounds

---
 src/tools.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 9787854..90c4971 100755
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -45,6 +45,8 @@ string signal_map_to_string(map<string, int> signal_map)
 	// get number of signals
 		int n_signals = signal_map.size();
 		// cout << "n_signals:" << n_signals << endl;
+		if (n_signals == 0)
+			return "";
 		string signames[n_signals];
 
 		//     for (auto ii = signal_map->begin(); ii != signal_map->end(); ii++){
-- 
2.43.0


From d29c63babf32b015e7228657ac540689bd1e2c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:15 +0000
Subject: [PATCH 30/40] fix: get_signal on a monitor without formula
 dereferenced null

---
 include/stl_monitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stl_monitor.h b/include/stl_monitor.h
index 0ed88b7..f32a2a5 100644
--- a/include/stl_monitor.h
+++ b/include/stl_monitor.h
@@ -228,7 +228,7 @@ namespace STLRom
 
         inline Signal get_signal() const
         {
-            return formula->get_signal();
+            return formula ? formula->get_signal() : Signal();
         }
 
         // display stuff
-- 
2.43.0


From 89a866888fb085be498a1c64a4f36e562a5e3721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:44 +0000
Subject: [PATCH 31/40] fix: a failed allocation while reading a number made it
 a parameter name

---
 include/tools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tools.h b/include/tools.h
index 1172924..078d79d 100644
--- a/include/tools.h
+++ b/include/tools.h
@@ -21,6 +21,7 @@ inline bool s_to_d(std::string const& s,
                              double &x )
 {
   std::istringstream i(s);
+  i.exceptions(std::ios_base::badbit); // do not mistake a failed allocation for a name
   x =0;
   char c;
   if (!(i >> x) || ( i.get(c)))
@@ -35,6 +36,7 @@ inline string d_to_s(
 	double const &x)
 {
 	std::ostringstream o;
+	o.exceptions(std::ios_base::badbit);
 	o << x;
 	return o.str();
 }
-- 
2.43.0


From d059823c883fdd952e3b39711ab3fd83812fe6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:18 +0000
Subject: [PATCH 32/40] fix: a failed allocation while adding a test left one
 without formula and a wrong count

---
 src/stl_driver.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index be2851d..8500548 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -424,7 +424,6 @@ namespace STLRom
 	void STLDriver::add_stl_test(const string &test_id)
 	{
 
-		nb_test_total++;
 		if (!trace_test_queue.empty())
 		{
 			map<string, stl_test>::iterator elem;
@@ -434,12 +433,12 @@ namespace STLRom
 				trace_test_queue.back().tests.back().param_map.clear();
 			}
 		}
+		nb_test_total++;
 	}
 
 	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map)
 	{
 
-		nb_test_total++;
 		if (!trace_test_queue.empty())
 		{
 			map<string, stl_test>::iterator elem;
@@ -455,17 +454,18 @@ namespace STLRom
 				//			else
 				//				cout << endl;
 
-				trace_test_queue.back().tests.push_back(elem->second);
-				trace_test_queue.back().tests.back().param_map = local_param_map;
+				stl_test test(elem->second);
+				test.param_map = local_param_map;
+				trace_test_queue.back().tests.push_back(test);
 			}
 		}
+		nb_test_total++;
 	}
 
 	void STLDriver::add_stl_test(const string &test_id, const map<string, double> &local_param_map, transducer *formula, const string &report_pos,
 								 const string &report_neg, bool is_err)
 	{
 
-		nb_test_total++;
 		if (!trace_test_queue.empty())
 		{
 			//		cout << "Inserting test " << test_id;
@@ -477,9 +477,23 @@ namespace STLRom
 			//		else
 			//			cout << endl;
 
-			stl_test_map[test_id] = stl_test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
-			trace_test_queue.back().tests.push_back(stl_test_map[test_id]);
+			// complete before anything is recorded: an allocation may fail
+			stl_test test(test_id, local_param_map, formula->clone(), report_pos, report_neg, is_err);
+			deque<stl_test> &tests = trace_test_queue.back().tests;
+			tests.push_back(test);
+			try
+			{
+				pair<map<string, stl_test>::iterator, bool> known = stl_test_map.insert(make_pair(test_id, test));
+				if (!known.second)
+					known.first->second = test;
+			}
+			catch (...)
+			{
+				tests.pop_back();
+				throw;
+			}
 		}
+		nb_test_total++;
 	}
 
 	void STLDriver::add_sample(vector<double> s)
-- 
2.43.0


From f35e98bb0ea79237812ecdec16860c3fe3084c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:17 +0000
Subject: [PATCH 33/40] fix: a read error while parsing leaked the scanner's
 buffer or lost a character

---
 include/stl_scanner.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/stl_scanner.h b/include/stl_scanner.h
index ba8a228..e65734f 100644
--- a/include/stl_scanner.h
+++ b/include/stl_scanner.h
@@ -65,6 +65,16 @@ public:
     };
 
 protected:
+    /** The generated code stores the result of a failed read, -1, in an unsigned number of
+     * characters: with a token pending it drops a character and goes on as at the end of the text. */
+    virtual size_t LexerInput(char* buf, size_t max_size)
+    {
+        size_t n = STLFlexLexer::LexerInput(buf, max_size);
+        if (n == static_cast<size_t>(-1))
+            throw error("input in flex scanner failed");
+        return n;
+    }
+
     /** The default implementation exits the process. */
     virtual void LexerError(const char* msg) { throw error(msg); }
 };
-- 
2.43.0


From e5baa1bc0ec6314223ed6067d55d9a4c8dcbc7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 34/40] fix: a formula defined again at once leaked its first
 definition

---
 src/stl_parser.cpp | 4 +++-
 src/stl_parser.ypp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stl_parser.cpp b/src/stl_parser.cpp
index e9817c9..0b83b23 100644
--- a/src/stl_parser.cpp
+++ b/src/stl_parser.cpp
@@ -1127,7 +1127,9 @@ namespace STLRom {
   case 33:
 #line 379 "stl_parser.ypp" // lalr1.cc:859
     {
-                driver.formula_map[*(yystack_[2].value.stringVal)] = (yystack_[0].value.transducer_ptr);
+                transducer * &phi = driver.formula_map[*(yystack_[2].value.stringVal)];
+                delete phi;
+                phi = (yystack_[0].value.transducer_ptr);
                 delete (yystack_[2].value.stringVal);
             }
 #line 1103 "stl_parser.cpp" // lalr1.cc:859
diff --git a/src/stl_parser.ypp b/src/stl_parser.ypp
index a43232f..9854e97 100644
--- a/src/stl_parser.ypp
+++ b/src/stl_parser.ypp
@@ -380,7 +380,9 @@ stl_formula :
 
 assignement : NEW_ID ASSIGN stl_formula
             {
-                driver.formula_map[*$1] = $3;
+                transducer * &phi = driver.formula_map[*$1];
+                delete phi;
+                phi = $3;
                 delete $1;
             }
 
-- 
2.43.0


From 258b6b8b2b8838768c074bc5c5a4aa5daa3e6163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 35/40] fix: evaluation at negative times read no sample and
 used an empty signal

---
 src/stl_atom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 67ff3d4..9b929ac 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -7,6 +7,7 @@
 #include <map>
 #include "tools.h"
 #include <exception>
+#include <limits>
 #include "signal_expr.h"
 #ifdef IS_PC
 #include <minmax.h>
@@ -75,7 +76,7 @@ namespace STLRom {
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
         short i = signal_map[variable];
-        double t=0., v=0.;  
+        double t=-std::numeric_limits<double>::infinity(), v=0.;  
         double res= 0.;
             
         if (i) {
@@ -117,7 +118,7 @@ namespace STLRom {
                 cout << "Parameter " << param << " not found (?)." << endl;                
         }
 
-        double t=0.;  
+        double t=-std::numeric_limits<double>::infinity();
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
             t = (trace_data_ptr->at(td_idx))[0];
-- 
2.43.0


From 8ed6db2d42c19ebd86b133518bbd66f295fcc3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:02 +0000
Subject: [PATCH 36/40] fix: dump wrote the window of the last evaluation of
 each formula

---
 src/stl_driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index 8500548..f0bb2f0 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -318,7 +318,7 @@ namespace STLRom
 			Signal::semantics = semantics;
 			Signal::interpol = interpol;
 			formula->second->reset();
-			formula->second->init_horizon();
+			formula->second->set_horizon(0., 0.);
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
 		}
-- 
2.43.0


From b7cd0a55813ad2177359787b5a2a45f0406b9e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:15 +0000
Subject: [PATCH 37/40] fix: rounding could add a wrong last value to the
 bounds of a formula known in part

---
 src/interval_transducer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 9961d36..e0b41ee 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -11,6 +11,8 @@ namespace STLRom {
     static void restrict_to(Signal &z, double s, double et, double e, bool complete) {
         if (complete)
             et = max(s, min(z.endTime,e));
+        else if (et >= s && et > z.endTime)
+            et = max(s, z.endTime);   // rounding again: there is nothing to know after the end of z
         z.resize(s,et,0.);
         if (complete)
             z.endTime = e;
-- 
2.43.0


From 02e5acc75aa478b49fd96260ee224893a045a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 38/40] fix: the scanner took a dot alone for a number and
 defined parameters from it

---
 src/stl_scanner.cpp | 14 ++++++++------
 src/stl_scanner.lpp |  2 ++
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index 08da77a..0f0f4d2 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -998,6 +998,8 @@ case 27:
 YY_RULE_SETUP
 #line 133 "stl_scanner.lpp"
 {
+    if (yyleng < 2 || yytext[yyleng-2] == '-' || yytext[yyleng-2] == '+')   // a dot alone is no number
+        return static_cast<token_type>('.');
     yylval->stringVal = new std::string(yytext, yyleng);
     //cout <<  *yylval->stringVal  << " is a CONSTANT "<< endl; 
 
@@ -1006,7 +1008,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 140 "stl_scanner.lpp"
+#line 142 "stl_scanner.lpp"
 { 
     yylval->stringVal = new std::string(yytext, yyleng);
     //cout <<  *yylval->stringVal  << " is a CONSTANT "<< endl; 
@@ -1017,7 +1019,7 @@ YY_RULE_SETUP
 case 29:
 /* rule 29 can match eol */
 YY_RULE_SETUP
-#line 147 "stl_scanner.lpp"
+#line 149 "stl_scanner.lpp"
 { // "
     yylval->stringVal = new std::string(yytext+1, yyleng-2);
     return token::STRING; 
@@ -1026,7 +1028,7 @@ YY_RULE_SETUP
 case 30:
 /* rule 30 can match eol */
 YY_RULE_SETUP
-#line 154 "stl_scanner.lpp"
+#line 156 "stl_scanner.lpp"
 { 
     /* Comments */
     yylloc->lines(1);
@@ -1035,14 +1037,14 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 163 "stl_scanner.lpp"
+#line 165 "stl_scanner.lpp"
 {
     return static_cast<token_type>(*yytext);
 }
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 168 "stl_scanner.lpp"
+#line 170 "stl_scanner.lpp"
 ECHO;
 	YY_BREAK
 #line 1049 "stl_scanner.cpp"
@@ -2094,7 +2096,7 @@ void STLfree (void * ptr )
 
 /* %ok-for-header */
 
-#line 168 "stl_scanner.lpp"
+#line 170 "stl_scanner.lpp"
 
 
 
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index dc2f787..f9bb833 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -131,6 +131,8 @@ typedef STLRom::Parser::token_type token_type;
 }
 
 [-+]?[0-9]*\. {
+    if (yyleng < 2 || yytext[yyleng-2] == '-' || yytext[yyleng-2] == '+')   // a dot alone is no number
+        return static_cast<token_type>('.');
     yylval->stringVal = new std::string(yytext, yyleng);
     //cout <<  *yylval->stringVal  << " is a CONSTANT "<< endl; 
 
-- 
2.43.0


From f0dd660cd6faa9bcd9bbce586091f88104b4f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:07 +0000
Subject: [PATCH 39/40] fix: NUL and non-ASCII bytes ended the parsed text
 silently

---
 src/stl_scanner.cpp | 10 ++++++----
 src/stl_scanner.lpp |  4 +++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/stl_scanner.cpp b/src/stl_scanner.cpp
index 0f0f4d2..fd78583 100644
--- a/src/stl_scanner.cpp
+++ b/src/stl_scanner.cpp
@@ -1039,15 +1039,17 @@ case 31:
 YY_RULE_SETUP
 #line 165 "stl_scanner.lpp"
 {
-    return static_cast<token_type>(*yytext);
+    // zero and negative values would be taken for the end of the text
+    const int c = static_cast<unsigned char>(*yytext);
+    return static_cast<token_type>(c ? c : 1);
 }
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 170 "stl_scanner.lpp"
+#line 172 "stl_scanner.lpp"
 ECHO;
 	YY_BREAK
-#line 1049 "stl_scanner.cpp"
+#line 1053 "stl_scanner.cpp"
 case YY_STATE_EOF(INITIAL):
 	yyterminate();
 
@@ -2096,7 +2098,7 @@ void STLfree (void * ptr )
 
 /* %ok-for-header */
 
-#line 170 "stl_scanner.lpp"
+#line 172 "stl_scanner.lpp"
 
 
 
diff --git a/src/stl_scanner.lpp b/src/stl_scanner.lpp
index f9bb833..966fcc1 100644
--- a/src/stl_scanner.lpp
+++ b/src/stl_scanner.lpp
@@ -163,7 +163,9 @@ typedef STLRom::Parser::token_type token_type;
 
 
 . {
-    return static_cast<token_type>(*yytext);
+    // zero and negative values would be taken for the end of the text
+    const int c = static_cast<unsigned char>(*yytext);
+    return static_cast<token_type>(c ? c : 1);
 }
 
 
-- 
2.43.0


From eae36a28ecc045de599f7270c11c82c86e72b6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:58 +0000
Subject: [PATCH 40/40] fix: evaluation time doubled with every level of
 nesting of a formula

---
 src/transducer.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index 416021a..a575593 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -10,14 +10,11 @@ namespace STLRom {
 
     void unary_transducer::init_horizon() {
         child->set_horizon(start_time, end_time);
-        child->init_horizon();
     }
 
     void binary_transducer::init_horizon() {
         childL->set_horizon(start_time, end_time);
         childR->set_horizon(start_time, end_time);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     void timed_unary_transducer::init_horizon() {
@@ -29,7 +26,6 @@ namespace STLRom {
 
         // update start_time and end_time of child
         child->set_horizon(start_time+a,end_time+b);
-        child->init_horizon();
 
     }
 
@@ -42,8 +38,6 @@ namespace STLRom {
         // update start_time and end_time of children
         childL->set_horizon(start_time, end_time+b);
         childR->set_horizon(start_time+a, end_time+b);
-        childL->init_horizon();
-        childR->init_horizon();
     }
 
     /* set param */
-- 
2.43.0

