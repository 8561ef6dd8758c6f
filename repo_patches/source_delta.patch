From bee8c989d16c40aebc606780bbad9b315c0dfac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 01/10] fix: LogNormalFn with a standard deviation curve and a
 median or log-mean curve recursed forever

---
 src/functions.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8d6cb87..c45ec66 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -349,11 +349,22 @@ namespace SLAT {
             break;
         case SIGMA_X:
             sigma_X = [this] (double x) -> double { return this->sigma_function->ValueAt(x); };
-            sigma_lnX = [this] (double x) -> double { 
-                double sd = this->sigma_X(x);
-                double mean = this->mean_X(x);
-                return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
-            };
+            if (m_type == MEAN_X) {
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double mean = this->mean_X(x);
+                    return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
+                };
+            } else {
+                /*
+                 * mean_X is derived from sigma_lnX, so solve for sigma_lnX using
+                 * the median: sd^2 = median^2 * v * (v - 1), v = exp(sigma_lnX^2)
+                 */
+                sigma_lnX = [this] (double x) -> double { 
+                    double ratio = this->sigma_X(x) / this->median_X(x);
+                    return sqrt(log((1.0 + sqrt(1.0 + 4.0 * ratio * ratio)) / 2.0)); 
+                };
+            }
             break;
         case SIGMA_INVALID:
         default:
-- 
2.43.0


From fc5c47a922f252d4df58ebff123e9f3d6bce9e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 02/10] fix: FragilityFn accepted damage states with an
 undefined median

---
 src/fragility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fragility.cpp b/src/fragility.cpp
index c7dfef4..72f09fb 100644
--- a/src/fragility.cpp
+++ b/src/fragility.cpp
@@ -27,7 +27,7 @@ namespace SLAT {
             damage_states.resize(onsets.size());
             double mean = NAN;
             for (unsigned int i=0; i < onsets.size(); i++) {
-                if (onsets[i].get_mu_lnX() <= mean) {
+                if (std::isnan(onsets[i].get_mu_lnX()) || onsets[i].get_mu_lnX() <= mean) {
                     throw std::invalid_argument("onsets");
                     break;
                 } else {
-- 
2.43.0


From 6a36d137616bb5055768f971fc3970463906dd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 03/10] fix: first use of Context from parallel threads took
 its lock before creating it

---
 src/context.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2c5e880..5faf839 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -23,8 +23,9 @@ namespace SLAT {
 
      std::shared_ptr<Context> Context::LockContext()
      {
-        omp_set_lock(&Context::lock);
+        // The first use creates the lock, so it must come before taking it.
         std::shared_ptr<Context> instance = GetInstance();
+        omp_set_lock(&Context::lock);
         
         if (omp_get_active_level() > 0) {
             for (int i=0; i <= omp_get_active_level(); i++) {
-- 
2.43.0


From f027de4d0821e90b746e120baeea4a5ad1352125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:09 +0000
Subject: [PATCH 04/10] fix: replacing an object dropped the replacement's own
 listeners and handles could collide

---
 src/replaceable.h | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index a61bbb9..a1c094a 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -70,21 +70,24 @@ namespace SLAT {
          * id_counter is used as the key for clients. It is incremented by
          * add_callbacks().  Client ids do not need to be sequential; just
          * unique. This is an easy way to ensure that, but other mechanisms
-         * could be used without affecting anything outside this template.
+         * could be used without affecting anything outside this template. The
+         * counter is shared by all objects of a class, so that ids stay unique
+         * when replace() moves clients from one object to another.
          */
-        int id_counter;
+        static int id_counter;
     public:
         Replaceable()  { 
-            id_counter = 0;
             omp_init_lock(&lock);
         };
         
         int add_callbacks(std::function<void (void)> changed,
                           std::function<void (std::shared_ptr<T>)> replace)
         {
+            int result;
+#pragma omp atomic capture
+            result = ++id_counter;
             omp_set_lock(&lock);
-            int result = ++id_counter;
-            callbacks[id_counter] = {changed, replace};
+            callbacks[result] = {changed, replace};
             omp_unset_lock(&lock);
             return result;
         }
@@ -104,14 +107,26 @@ namespace SLAT {
         }
 
         void replace(std::shared_ptr<T> replacement) {
+            /*
+             * Take the clients off this object, add them to those of the
+             * replacement (which keeps its own), and tell them.
+             */
+            std::map<int, callback_struct> moving;
             omp_set_lock(&lock);
-            replacement->callbacks = callbacks;
-            for (auto it=callbacks.begin(); it != callbacks.end();) {
+            moving.swap(callbacks);
+            omp_unset_lock(&lock);
+
+            Replaceable<T> &target = *replacement;
+            omp_set_lock(&target.lock);
+            target.callbacks.insert(moving.begin(), moving.end());
+            omp_unset_lock(&target.lock);
+
+            for (auto it=moving.begin(); it != moving.end(); it++) {
                 it->second.replace_cb(replacement);
-                it = callbacks.erase(it);
             }
-            omp_unset_lock(&lock);
         }
     };
+
+    template <class T> int Replaceable<T>::id_counter = 0;
 }
 #endif
-- 
2.43.0


From 0cb6ee9a0b82d266e990c47289c78d1f243ba524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 05/10] fix: define Use_Default_Integration_Search_Limit and
 Use_Default_Method, which were only declared

---
 src/maq.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/maq.cpp b/src/maq.cpp
index dfca708..86b25fd 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -136,6 +136,16 @@ namespace SLAT {
             integration_eval_limit = INTEGRATION_EVAL_LIMIT_DEFAULT;
         }
 
+        void IntegrationSettings::Use_Default_Integration_Search_Limit() 
+        {
+            integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;
+        }
+
+        void IntegrationSettings::Use_Default_Method() 
+        {
+            integration_method = METHOD_DEFAULT;
+        }
+
         void IntegrationSettings::Set_Tolerance(double tol) 
         {
             if (tol > 0.0) {
-- 
2.43.0


From 3eb8fed24cef4f4f6ef53a2a8d9510dc62389af5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 06/10] fix: component groups did not pass changes of their
 inputs on to their own listeners

---
 src/comp_group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 6df2b7a..3ff0941 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -93,6 +93,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<EDP> new_edp) {
                 this->E_cost_IM.ClearCache();
@@ -105,6 +106,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->edp = new_edp;
+                this->notify_change();
             });
         /*
          * When the fragility changes or is replaced, clear the cached values.
@@ -120,6 +122,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<FragilityFn> new_frag_fn) {
                 this->E_cost_IM.ClearCache();
@@ -132,6 +135,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->frag_fn = new_frag_fn;
+                this->notify_change();
             });
         /*
          * When the cost changes or is replaced, clear the cached values.
@@ -146,6 +150,7 @@ namespace SLAT {
                     this->cost_EDP_dist.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_cost_fn) {
                     this->E_cost_IM.ClearCache();
@@ -156,6 +161,7 @@ namespace SLAT {
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
                     this->cost_fn = new_cost_fn;
+                    this->notify_change();
                 });
         }
 
@@ -168,12 +174,14 @@ namespace SLAT {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_delay_fn) {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->delay_fn = new_delay_fn;
+                    this->notify_change();
                 });
         }
     };
-- 
2.43.0


From 57013f36046c128f944ed309d559e86c3f1e592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 07/10] fix: IM kept its collapse and demolition rates when the
 hazard curve changed, and its demolition rate when collapse changed

---
 src/relationships.cpp | 4 ++++
 src/relationships.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index dc212fe..3a0a0d0 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -49,9 +49,13 @@ namespace SLAT {
         f = func;
         callback_id = f->add_callbacks(
             [this] (void) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             },
             [this] (std::shared_ptr<DeterministicFn> new_f) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->f = new_f;
                 this->notify_change();
             });
diff --git a/src/relationships.h b/src/relationships.h
index 96fd2ff..f8833bf 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -74,6 +74,7 @@ namespace SLAT {
         void SetCollapse(std::shared_ptr<LogNormalDist> new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache();
             collapse = new_collapse;
             notify_change();
         }
@@ -81,6 +82,7 @@ namespace SLAT {
         void SetCollapse(LogNormalDist new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache();
             collapse = std::make_shared<LogNormalDist>(new_collapse);
             notify_change();
         }
-- 
2.43.0


From 2abe2474411abd68df84d4d37bfe0e56d2f02a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 08/10] fix: replacing the second relationship of a compound
 demand replaced the first

---
 src/relationships.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 3a0a0d0..c05fbce 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -407,7 +407,7 @@ namespace SLAT {
             },
             [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
                 this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
+                this->second_dependent_rate = new_dependent_rate;
                 this->notify_change();
             });
     }
-- 
2.43.0


From 907f59dc8708b18260424e4f58a9b0d2d088f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:22 +0000
Subject: [PATCH 09/10] fix: structures kept a stale annual cost after cost or
 membership changes, and left callbacks behind when destroyed

---
 src/structure.cpp | 13 ++++++++++++-
 src/structure.h   |  7 ++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 76ccb87..6dcd655 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -25,6 +25,14 @@ namespace SLAT {
         this->name = name;
     };
     
+    Structure::~Structure()
+    {
+        if (im) im->remove_callbacks(im_callback_id);
+        for (size_t i=0; i < components.size(); i++) {
+            components[i]->first->remove_callbacks(components[i]->second);
+        }
+    };
+
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
     {
         std::vector<std::shared_ptr<CompGroup>> result(components.size());
@@ -43,8 +51,9 @@ namespace SLAT {
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
         if (components.size() == 0) {
+            if (im) im->remove_callbacks(im_callback_id);
             im = cg->getIM();
-            im->add_callbacks(
+            im_callback_id = im->add_callbacks(
                 [this] (void) {
                     this->Clear_Cache();
                 },
@@ -74,7 +83,9 @@ namespace SLAT {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
+                cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
+                this->Clear_Cache();
                 break;
             }
         }
diff --git a/src/structure.h b/src/structure.h
index 31187a2..e8360f5 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -20,7 +20,7 @@ namespace SLAT {
     class Structure : public Replaceable<Structure> {
     public:
         Structure(std::string name);
-        ~Structure() {};
+        ~Structure();
 
         void AddCompGroup(std::shared_ptr<CompGroup> cg);
         void RemoveCompGroup(std::shared_ptr<CompGroup> cg);
@@ -39,10 +39,10 @@ namespace SLAT {
         COSTS CostsByFate(double im);
         Caching::CachedValue<LogNormalDist> AnnualCost;
         std::pair<LogNormalDist, LogNormalDist> DeaggregatedCost(double im);
-        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; };
+        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; Clear_Cache(); };
         const std::vector<std::shared_ptr<CompGroup>> Components(void);
         LogNormalDist getRebuildCost(void) { return rebuild_cost; };
-        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; };
+        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; Clear_Cache(); };
         LogNormalDist getDemolitionCost(void) { return demolition_cost; };
         std::string get_Name(void) const { return name; };
 
@@ -55,6 +55,7 @@ namespace SLAT {
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
         std::shared_ptr<IM> im;
+        int im_callback_id;
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0


From 72d0366f93641fe71ee0ce267323d23926dc59f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:17 +0000
Subject: [PATCH 10/10] fix: an integration whose infinite contributions cancel
 was reported as a success with an undefined integral

---
 src/maq.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/maq.cpp b/src/maq.cpp
index 86b25fd..0a425bd 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -754,6 +754,10 @@ namespace SLAT {
                     region_stack.push({c, b, e, fc, fb , fe, r3});
                 }
             }
+            if (std::isnan(integral)) {
+                // Infinite contributions of opposite sign have no sum:
+                success = false;
+            }
             if (counter > stats.max_successful_integration) {
 #pragma omp critical
                 stats.max_successful_integration = counter;
-- 
2.43.0

