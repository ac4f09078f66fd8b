From 969fd930d1958e5129150745698b3fdd8d8b7397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 01/47] fix: multi_threads_loop must not drop the tail of the
 range

The last thread only took over the remainder when it was smaller than the
per-thread length, so e.g. 5 items on 3 threads lost items and total_len < thread_num
processed nothing.
---
 src/multi-thread/multi-thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index 923af2c..d529d4f 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -63,7 +63,7 @@ namespace hub::multi_thread {
         for (size_t th_id = 0; th_id < thread_num; ++th_id) {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
-            if (end + len_pth > total_len) end = total_len;
+            if (th_id + 1 == thread_num) end = total_len;
             threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
         }
 
-- 
2.43.0


From a345128c1e908ff6cdc73fa393ccb93da2e3b2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 02/47] fix: multi_thread helpers must hand the same job and
 arguments to every thread

Forwarding an rvalue job or argument inside the loop moved it into the first
thread; all later threads received a moved-from object.
---
 src/multi-thread/multi-thread.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/multi-thread.hpp b/src/multi-thread/multi-thread.hpp
index d529d4f..bf5eb3e 100644
--- a/src/multi-thread/multi-thread.hpp
+++ b/src/multi-thread/multi-thread.hpp
@@ -64,7 +64,7 @@ namespace hub::multi_thread {
             size_t begin = th_id * len_pth;
             size_t end = begin + len_pth;
             if (th_id + 1 == thread_num) end = total_len;
-            threads.emplace_back(std::thread(std::forward<Lambda>(task), begin, end));
+            threads.emplace_back(std::thread(task, begin, end));
         }
 
         for (auto &thread : threads) {
@@ -77,7 +77,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, args...));
         }
 
         for (auto &th : threads) {
@@ -90,7 +90,7 @@ namespace hub::multi_thread {
         std::vector<std::thread> threads;
         threads.reserve(thread_num);
         for (size_t i = 0; i < thread_num; ++i) {
-            threads.emplace_back(std::thread(std::forward<Callable>(job), i, std::forward<Args>(args)...));
+            threads.emplace_back(std::thread(job, i, args...));
         }
 
         for (auto &th : threads) {
-- 
2.43.0


From 52db96029b62dbdbe396dbaac6a7d47707b75a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 03/47] fix: ThreadPool destructor must set stop_ under the
 queue lock

Setting the flag without the lock lets the notification fall between a worker's
predicate check and its wait: the worker sleeps forever and join() deadlocks.
---
 src/multi-thread/thread_pool.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/multi-thread/thread_pool.h b/src/multi-thread/thread_pool.h
index 39f2d64..de94f40 100644
--- a/src/multi-thread/thread_pool.h
+++ b/src/multi-thread/thread_pool.h
@@ -69,7 +69,10 @@ namespace hub::multi_thread {
     }
 
     ThreadPool::~ThreadPool() {
-        stop_ = true;
+        {
+            std::lock_guard<std::mutex> lock(lock_);
+            stop_ = true;
+        }
         cv_.notify_all();
         for (auto &worker : workers_) {
             if (worker.joinable()) worker.join();
-- 
2.43.0


From 148aadfc82e6358cda90e366a54d7130a90e8853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 04/47] fix: ConcurrentDeque pops must wait on a unique_lock
 and stop() must hold the mutex

condition_variable::wait cannot take a lock_guard, so try_pop_* did not compile;
stop() without the mutex could lose the wake-up of a consumer about to wait.
---
 src/multi-thread/concurrent-queue.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/concurrent-queue.h b/src/multi-thread/concurrent-queue.h
index 313a888..0268a3f 100644
--- a/src/multi-thread/concurrent-queue.h
+++ b/src/multi-thread/concurrent-queue.h
@@ -27,7 +27,10 @@ namespace hub::multi_thread {
         }
 
         void stop() {
-            stop_ = true;
+            {
+                std::lock_guard<std::mutex> lock(mutex_);
+                stop_ = true;
+            }
             cv_.notify_all();
         }
 
@@ -41,7 +44,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_front(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
@@ -53,7 +56,7 @@ namespace hub::multi_thread {
         }
 
         bool try_pop_back(T &data) noexcept {
-            std::lock_guard<std::mutex> lock(mutex_);
+            std::unique_lock<std::mutex> lock(mutex_);
             while (!stop_ && deque_.empty()) {
                 cv_.wait(lock);
             }
-- 
2.43.0


From 30eb4282c5bcea0c6542132eec51cefcd90c35c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 05/47] fix: start the pipe threads after the flags they read
 are initialised

thread_ was declared before stop_/eoq_, so the background thread read them
uninitialised and the constructor's later initialisation raced with it.
---
 src/multi-thread/ciostream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 1a2bf1b..d35ca0e 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -57,8 +57,8 @@ namespace hub::multi_thread {
         std::mutex mutex_;
         std::condition_variable cv_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
+        std::thread thread_;
     };
 
     template <typename T>
@@ -121,9 +121,9 @@ namespace hub::multi_thread {
         std::condition_variable cv_load_;
         std::condition_variable cv_io_;
         std::fstream file_;
-        std::thread thread_;
         bool stop_{false};
         bool eoq_{false};
+        std::thread thread_;
     };
 
     template <typename T>
-- 
2.43.0


From 069d033336f79a080e4a72e9ee2ea4bb1a70d57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 06/47] fix: Ipip must deliver only records that were actually
 read

The element from the failing read at end of file was delivered as a record, and a
file that could not be opened or parsed produced records forever.
---
 src/multi-thread/ciostream.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index d35ca0e..5f90506 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -66,16 +66,20 @@ namespace hub::multi_thread {
        public:
         explicit Ipip(const char *file_name)
             : file_(file_name, std::fstream::in), thread_(std::thread([&] {
-                  while (!file_.eof()) {
+                  bool more = true;
+                  while (more) {
                       {
                           std::unique_lock<std::mutex> lock(mutex_);
                           cv_load_.wait(lock, [&] { return stop_ || queue_.empty(); });
 
                           if (stop_) break;
 
-                          for (size_t i = 0; i < 100 && !file_.eof(); ++i) {
+                          for (size_t i = 0; i < 100; ++i) {
                               T data;
-                              file_ >> data;
+                              if (!(file_ >> data)) {
+                                  more = false;
+                                  break;
+                              }
                               queue_.emplace(std::move(data));
                           }
                       }
-- 
2.43.0


From b5e9b23985c3071a02d6c037c072ca4c91ddb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:55 +0000
Subject: [PATCH 07/47] fix: Costream must be usable and Cistream must report
 the end of the file

Costream passed an lvalue to Opip's rvalue-only operator, so it did not compile;
Cistream dropped the result of the read, so the end could not be noticed.
---
 src/multi-thread/ciostream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/multi-thread/ciostream.hpp b/src/multi-thread/ciostream.hpp
index 5f90506..403e2f2 100644
--- a/src/multi-thread/ciostream.hpp
+++ b/src/multi-thread/ciostream.hpp
@@ -148,7 +148,7 @@ namespace hub::multi_thread {
             return *this;
         }
 
-        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << tup; }
+        friend void operator<<(Costream &out, T const &tup) { *(out.pip_ptr_) << T(tup); }
 
        private:
         std::unique_ptr<Opip<T>> pip_ptr_;
@@ -161,7 +161,7 @@ namespace hub::multi_thread {
 
         explicit Cistream(std::string &file_name) : Cistream(file_name.c_str()) {}
 
-        friend void operator>>(Cistream &in, T &&tup) { *(in.pip_ptr_) >> std::forward<T>(tup); }
+        friend bool operator>>(Cistream &in, T &&tup) { return *(in.pip_ptr_) >> std::forward<T>(tup); }
 
        private:
         std::shared_ptr<Ipip<T>> pip_ptr_;
-- 
2.43.0


From 14197af17ac3138dc0d4b23732f8df771144517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 08/47] fix: stop conditions must be evaluated in place so
 stateful ones keep their state

---
 src/simulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index 9f4bf5c..a0ee5ce 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -317,7 +317,7 @@ namespace hub {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     bool RunArgs<ParticleSys>::check_stops(ParticleSys &particle_system, Scalar step_size) const {
         return std::any_of(stop_cond_.begin(), stop_cond_.end(),
-                           [&](auto cond) { return cond(particle_system, step_size); });
+                           [&](auto const &cond) { return cond(particle_system, step_size); });
     }
 
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
-- 
2.43.0


From a671716e93840c20f31bfa0f035b72df74d33251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 09/47] fix: LogTimeSlice must terminate for spans <= 1 and
 reset its start time

---
 src/args-callback/callbacks.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index 1d9df24..b02dd64 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -399,7 +399,7 @@ namespace hub::callback {
         if (t >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_time_ <= t && opt_interval_ > 1);
             opt_(ptc, step_size);
         }
     }
@@ -413,7 +413,7 @@ namespace hub::callback {
         if (ptc.time() >= static_cast<Scalar>(opt_time_) && t <= end_time_) {
             do {
                 opt_time_ = (opt_time_ - start_time_) * opt_interval_ + start_time_;
-            } while (opt_time_ <= t);
+            } while (opt_time_ <= t && opt_interval_ > 1);
             return opt_(ptc, step_size);
         } else {
             return false;
@@ -424,6 +424,7 @@ namespace hub::callback {
     void LogTimeSlice<Operation, Scalar>::reset_slice_params(Scalar start, Scalar end, size_t opt_num) {
         opt_interval_ = POW(end - start, 1.0 / opt_num);
         opt_time_ = start + opt_interval_;
+        start_time_ = start;
         end_time_ = end;
     }
 
-- 
2.43.0


From f92e09c5ca222e1fac621c2289c790704815315b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 10/47] fix: EnergyErrWriter must measure against its own first
 energy

---
 src/args-callback/callbacks.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/args-callback/callbacks.hpp b/src/args-callback/callbacks.hpp
index b02dd64..750c3e6 100644
--- a/src/args-callback/callbacks.hpp
+++ b/src/args-callback/callbacks.hpp
@@ -27,6 +27,7 @@ License
 
 #include <cassert>
 #include <cmath>
+#include <any>
 #include <fstream>
 #include <iomanip>
 #include <memory>
@@ -296,6 +297,7 @@ namespace hub::callback {
 
        private:
         std::shared_ptr<std::ofstream> fstream_;
+        std::any E0_;
     };
 
     /*---------------------------------------------------------------------------*\
@@ -472,8 +474,11 @@ namespace hub::callback {
 
     template <typename ParticleSys>
     void EnergyErrWriter::operator()(ParticleSys& ptc, typename ParticleSys::Scalar step_size) {
-        static typename ParticleSys::Scalar E0 = calc::calc_total_energy(ptc);
-        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, E0) << '\n';
+        using Scalar = typename ParticleSys::Scalar;
+        if (std::any_cast<Scalar>(&E0_) == nullptr) {
+            E0_ = static_cast<Scalar>(calc::calc_total_energy(ptc));
+        }
+        *fstream_ << ptc.time() << ',' << calc::calc_energy_error(ptc, std::any_cast<Scalar>(E0_)) << '\n';
     }
 
     template <typename T>
-- 
2.43.0


From 2c69a1b90b01e9c6f6463d05587ed23d2d6d418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 11/47] fix: BulirschStoer must shorten a first step that does
 not converge

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index e153035..0a860b2 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -510,7 +510,7 @@ namespace hub::ode {
             }  // else k == iterDepth+1 and error >1 reject directly
             return error > r * r;
         } else {
-            return false;
+            return k == ideal_rank_ + 1;  // the whole table did not converge
         }
     }
 
-- 
2.43.0


From dccf17848781985081a0689e2e5fbf3dea85e002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 12/47] fix: BulirschStoer first step must keep the rank inside
 the extrapolation table

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 0a860b2..37d11de 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -491,7 +491,7 @@ namespace hub::ode {
             }
         } else {
             if (!step_reject_) {
-                ideal_rank_ = k;
+                ideal_rank_ = allowed(k);
             }
             return ideal_step_size_[k];
         }
-- 
2.43.0


From a10a61c18b4e592ce6fb74fbec84b57f21a21d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 13/47] fix: BulirschStoer sub-step integrations must not
 advance the caller's time

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 37d11de..453469d 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -125,7 +125,7 @@ namespace hub::ode {
         void integrate_by_n_steps(U &particles, Scalar macro_step_size, size_t steps);
 
         void integrate_by_n_steps(std::function<void(StateScalarArray const &, StateScalarArray &, Scalar)> func,
-                                  StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps);
+                                  StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps);
 
         void extrapolate(size_t k);
 
@@ -408,7 +408,7 @@ namespace hub::ode {
 
     template <typename Integrator, typename ErrEstimator, typename StepController, size_t MaxIter>
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
-        EvaluateFun func, StateScalarArray &data_out, Scalar &time, Scalar step_size, size_t steps) {
+        EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
-- 
2.43.0


From c334587c062e1c478c9cf49172d0ca49990b755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 14/47] fix: BulirschStoer on user functions must leave the
 first-step mode

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 453469d..2d8a34a 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -265,6 +265,7 @@ namespace hub::ode {
                         time += iter_h;
                         data = extrap_list_[0];
                         Scalar new_h = set_next_iteration(k);
+                        first_step_ = false;
                         iter_h *= step_ctrl_.limiter(result_order, new_h / iter_h);
                         last_error_ = error;
                         return iter_h;
-- 
2.43.0


From 46cf1ce298b4270f88b88b2c792c690666ab8a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 15/47] fix: SequentOdeIterator must commit the finest result
 when the refinements run out

---
 src/ode-iterator/sequent-iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ode-iterator/sequent-iterator.hpp b/src/ode-iterator/sequent-iterator.hpp
index 57d8582..082daa5 100644
--- a/src/ode-iterator/sequent-iterator.hpp
+++ b/src/ode-iterator/sequent-iterator.hpp
@@ -150,7 +150,7 @@ namespace hub::ode {
             auto bisec_error_scale = 1.0 / (integer_pow(double(ns[i]) / double(ns[i - 1]), Integrator::order) - 1);
             error = bisec_error_scale * err_checker_.error(input_, output_, dual_steps_output_);
             // std::cout << i << ' ' << error << '\n';
-            if (error <= 1) {
+            if (error <= 1 || i == max_iter_) {
                 break;
             }
             std::swap(output_, dual_steps_output_);
-- 
2.43.0


From e9ea9d7b72bc2fe3c7fbd5e1e9417d6a65504cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 16/47] fix: PIDController::set_limiter must take effect

---
 src/ode-iterator/step-controller/PID-controller.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ode-iterator/step-controller/PID-controller.hpp b/src/ode-iterator/step-controller/PID-controller.hpp
index 546b3c7..0db566e 100644
--- a/src/ode-iterator/step-controller/PID-controller.hpp
+++ b/src/ode-iterator/step-controller/PID-controller.hpp
@@ -122,6 +122,12 @@ namespace hub::ode {
     void PIDController<TypeSystem>::set_limiter(Scalar S3, Scalar S4) {
         safe_guard3_ = S3;
         safe_guard4_ = S4;
+        limiter_max_[0] = safe_guard4_;
+        limiter_min_[0] = 1.0 / safe_guard4_;
+        for (size_t i = 1; i < max_order; i++) {
+            limiter_max_[i] = POW(1.0 / safe_guard3_, expon_[i]);
+            limiter_min_[i] = POW(safe_guard3_, expon_[i]) / safe_guard4_;
+        }
     }
 
     template <typename TypeSystem>
-- 
2.43.0


From ca86f8c42a6551d0595bdc9542c6fa0cb56cb5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 17/47] fix: the _ExtPlus methods must use the extended precise
 type

---
 src/spaceHub.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spaceHub.hpp b/src/spaceHub.hpp
index ff5acc6..5e754f8 100644
--- a/src/spaceHub.hpp
+++ b/src/spaceHub.hpp
@@ -269,7 +269,7 @@ namespace hub {
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using NAME##_ExtPlus =                                                                                             \
-        Simulator<system::SYSTEM<particle<details::extended_type>, interactions>, details::ITER##_extplus>;            \
+        Simulator<system::SYSTEM<particle<details::extended_precise_type>, interactions>, details::ITER##_extplus>;    \
                                                                                                                        \
     template <typename interactions = DefaultForce, template <typename> typename particle = DefaultParticles>          \
     using Const_##NAME##_Ext =                                                                                         \
-- 
2.43.0


From 04ee0968b447f1ee79b7a8f3b0b214c5ca400fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 18/47] fix: chain index must reconsider the second closest
 pair when the chain grows

---
 src/particle-system/chain.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particle-system/chain.hpp b/src/particle-system/chain.hpp
index 3e3f8ff..f69355b 100644
--- a/src/particle-system/chain.hpp
+++ b/src/particle-system/chain.hpp
@@ -272,7 +272,7 @@ namespace hub {
                     if (chained_num == num) {
                         break;
                     } else {
-                        k = 1;
+                        k = 0;  // restart from dist[1]
                     }
                 }
             }
-- 
2.43.0


From 40a1eba0d094a7fadc00b61dda47993f23d9cd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:13 +0000
Subject: [PATCH 19/47] fix: only the extra forces change the binding energy in
 the regularised general derivative

---
 src/particle-system/archain.hpp     | 5 ++++-
 src/particle-system/regu-system.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/particle-system/archain.hpp b/src/particle-system/archain.hpp
index ed47b0d..fce7712 100644
--- a/src/particle-system/archain.hpp
+++ b/src/particle-system/archain.hpp
@@ -301,9 +301,12 @@ namespace hub::system {
 
         dy_dh.emplace_back(pos_regu);
 
+        Scalar dbindE_dt{0};  // only the extra forces change the binding energy
+
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -322,7 +325,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
     template <typename Array>
diff --git a/src/particle-system/regu-system.hpp b/src/particle-system/regu-system.hpp
index d4c32d9..9ed8181 100644
--- a/src/particle-system/regu-system.hpp
+++ b/src/particle-system/regu-system.hpp
@@ -317,10 +317,13 @@ namespace hub::system {
 
         dy_dh.emplace_back(pos_regu);
 
+        Scalar dbindE_dt{0};  // only the extra forces change the binding energy
+
         Interactions::eval_newtonian_acc(*this, accels_.newtonian_acc());
 
         if constexpr (Interactions::ext_vel_indep || Interactions::ext_vel_dep) {
             Interactions::eval_extra_acc(*this, accels_.acc());
+            dbindE_dt = calc_dbindE_dt(this->vel(), accels_.acc());
             calc::array_add(accels_.acc(), accels_.acc(), accels_.newtonian_acc());
         }
 
@@ -336,7 +339,7 @@ namespace hub::system {
 
         dy_dh.emplace_back(calc_domega_dt(this->vel(), accels_.newtonian_acc()) * vel_regu);
 
-        dy_dh.emplace_back(calc_dbindE_dt(this->vel(), accels_.acc()) * vel_regu);
+        dy_dh.emplace_back(dbindE_dt * vel_regu);
     }
 
     template <CONCEPT_PARTICLES Particles, CONCEPT_INTERACTION Interactions, ReguType RegType>
-- 
2.43.0


From 2b989f5cbd55090ec79d66668232bd45d9628d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 20/47] fix: 2PN acceleration of the second body uses its own
 radial velocity

---
 src/interaction/post-newtonian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interaction/post-newtonian.hpp b/src/interaction/post-newtonian.hpp
index 56f39c1..d6c3044 100644
--- a/src/interaction/post-newtonian.hpp
+++ b/src/interaction/post-newtonian.hpp
@@ -245,7 +245,7 @@ namespace hub::force {
             auto Bi = v1s * nv2 + 4 * v2s * nv1 - 5 * v2s * nv2 - 4 * v12 * nv1 + 4 * v12 * nv2 - 6 * nv1 * nv2s +
                       4.5 * nv2 * nv2s + gmr1 * (-15.75 * nv1 + 13.75 * nv2) + gmr2 * (-2 * nv1 - 2 * nv2);
 
-            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv2 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
+            auto Bj = -v2s * nv1 - 4 * v1s * nv2 + 5 * v1s * nv1 + 4 * v12 * nv2 - 4 * v12 * nv1 + 6 * nv2 * nv1s -
                       4.5 * nv1 * nv1s + gmr2 * (15.75 * nv2 - 13.75 * nv1) + gmr1 * (2 * nv2 + 2 * nv1);
 
             auto coef = consts::G / r2 * INV_C4;
-- 
2.43.0


From bc14f662c4e3fac40bd8e6065f4bd7b78442cec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 21/47] fix: tenth order symplectic integrator used
 coefficients of a fourth order scheme

---
 .../symplectic/symplectic-integrator.hpp      | 136 +++++++++---------
 1 file changed, 72 insertions(+), 64 deletions(-)

diff --git a/src/integrator/symplectic/symplectic-integrator.hpp b/src/integrator/symplectic/symplectic-integrator.hpp
index 091f3c1..2e4a7d7 100644
--- a/src/integrator/symplectic/symplectic-integrator.hpp
+++ b/src/integrator/symplectic/symplectic-integrator.hpp
@@ -170,7 +170,7 @@ namespace hub::integrator {
         Class Symplectic10th Declaration
     \*---------------------------------------------------------------------------*/
     /**
-     * Tenth order symplectic method.
+     * Tenth order symplectic method (35 stages, Sofroniou & Spaletta 2005).
      */
     template <typename TypeSystem>
     class Symplectic10th {
@@ -297,68 +297,76 @@ namespace hub::integrator {
     template <CONCEPT_PARTICLE_SYSTEM ParticleSys>
     void Symplectic10th<TypeSystem>::integrate(ParticleSys &system, typename ParticleSys::Scalar step_size) {
         /*unroll loop manually*/
-        system.drift(3.0610967201933609e-01 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(4.2693443542461296e-01 * step_size);
-        system.drift(3.3904387248169282e-01 * step_size);
-        system.kick(2.5115330953877268e-01 * step_size);
-        system.drift(-1.9288621063874828e-01 * step_size);
-        system.kick(-6.3692573081626924e-01 * step_size);
-        system.drift(5.5434862753225678e-02 * step_size);
-        system.kick(7.4779545632272060e-01 * step_size);
-        system.drift(4.3160892192959932e-01 * step_size);
-        system.kick(1.1542238753647800e-01 * step_size);
-        system.drift(4.2477286784491525e-01 * step_size);
-        system.kick(7.3412334815335245e-01 * step_size);
-        system.drift(-7.6872229417056015e-02 * step_size);
-        system.kick(-8.8786780698746448e-01 * step_size);
-        system.drift(-7.6956706144236287e-01 * step_size);
-        system.kick(-6.5126631589726136e-01 * step_size);
-        system.drift(-6.0050191119721985e-02 * step_size);
-        system.kick(5.3116593365781739e-01 * step_size);
-        system.drift(3.3095796002497074e-01 * step_size);
-        system.kick(1.3074998639212410e-01 * step_size);
-        system.drift(5.1288848042847668e-01 * step_size);
-        system.kick(8.9502697446482926e-01 * step_size);
-        system.drift(2.2250778443570857e-01 * step_size);
-        system.kick(-4.5001140559341213e-01 * step_size);
-        system.drift(-1.1750569210727700e-01 * step_size);
-        system.kick(2.1500002137885812e-01 * step_size);
-        system.drift(-1.5240397828727220e-01 * step_size);
-        system.kick(-5.1980797795340250e-01 * step_size);
-        system.drift(-6.6002635995076209e-01 * step_size);
-        system.kick(-8.0024474194812156e-01 * step_size);
-        system.drift(-9.4012698954724694e-02 * step_size);
-        system.kick(6.1221934403867218e-01 * step_size);
-        system.drift(3.0610967201933609e-01 * step_size);
+        system.drift(3.9397861260843207e-02 * step_size);
+        system.kick(7.8795722521686415e-02 * step_size);
+        system.drift(1.9594591296839747e-01 * step_size);
+        system.kick(3.1309610341510852e-01 * step_size);
+        system.drift(1.7050724332509329e-01 * step_size);
+        system.kick(2.7918383235078066e-02 * step_size);
+        system.drift(-1.0083722917941451e-01 * step_size);
+        system.kick(-2.2959284159390708e-01 * step_size);
+        system.drift(-4.9315390258371117e-02 * step_size);
+        system.kick(1.3096206107716488e-01 * step_size);
+        system.drift(-6.9385672288672928e-02 * step_size);
+        system.kick(-2.6973340565451071e-01 * step_size);
+        system.drift(-9.7380031249309634e-02 * step_size);
+        system.kick(7.4973343155891436e-02 * step_size);
+        system.drift(9.3483383577850826e-02 * step_size);
+        system.kick(1.1199342399981020e-01 * step_size);
+        system.drift(2.3906343677301847e-01 * step_size);
+        system.kick(3.6613344954622673e-01 * step_size);
+        system.drift(-1.6486090294904575e-02 * step_size);
+        system.kick(-3.9910563013603589e-01 * step_size);
+        system.drift(-1.4800911580428242e-01 * step_size);
+        system.kick(1.0308739852747108e-01 * step_size);
+        system.drift(2.5725913624168067e-01 * step_size);
+        system.kick(4.1143087395589023e-01 * step_size);
+        system.drift(2.0328225668637748e-01 * step_size);
+        system.kick(-4.8663605831352616e-03 * step_size);
+        system.drift(-1.9844985714588759e-01 * step_size);
+        system.kick(-3.9203335370863990e-01 * step_size);
+        system.drift(-1.7004542537309514e-01 * step_size);
+        system.kick(5.1942502962449649e-02 * step_size);
+        system.drift(5.1303796861187072e-02 * step_size);
+        system.kick(5.0665090759924494e-02 * step_size);
+        system.drift(5.0169730699827185e-02 * step_size);
+        system.kick(4.9674370639729876e-02 * step_size);
+        system.drift(4.9496053199662209e-02 * step_size);
+        system.kick(4.9317735759594535e-02 * step_size);
+        system.drift(4.9496053199662209e-02 * step_size);
+        system.kick(4.9674370639729876e-02 * step_size);
+        system.drift(5.0169730699827185e-02 * step_size);
+        system.kick(5.0665090759924494e-02 * step_size);
+        system.drift(5.1303796861187072e-02 * step_size);
+        system.kick(5.1942502962449649e-02 * step_size);
+        system.drift(-1.7004542537309514e-01 * step_size);
+        system.kick(-3.9203335370863990e-01 * step_size);
+        system.drift(-1.9844985714588759e-01 * step_size);
+        system.kick(-4.8663605831352616e-03 * step_size);
+        system.drift(2.0328225668637748e-01 * step_size);
+        system.kick(4.1143087395589023e-01 * step_size);
+        system.drift(2.5725913624168067e-01 * step_size);
+        system.kick(1.0308739852747108e-01 * step_size);
+        system.drift(-1.4800911580428242e-01 * step_size);
+        system.kick(-3.9910563013603589e-01 * step_size);
+        system.drift(-1.6486090294904575e-02 * step_size);
+        system.kick(3.6613344954622673e-01 * step_size);
+        system.drift(2.3906343677301847e-01 * step_size);
+        system.kick(1.1199342399981020e-01 * step_size);
+        system.drift(9.3483383577850826e-02 * step_size);
+        system.kick(7.4973343155891436e-02 * step_size);
+        system.drift(-9.7380031249309634e-02 * step_size);
+        system.kick(-2.6973340565451071e-01 * step_size);
+        system.drift(-6.9385672288672928e-02 * step_size);
+        system.kick(1.3096206107716488e-01 * step_size);
+        system.drift(-4.9315390258371117e-02 * step_size);
+        system.kick(-2.2959284159390708e-01 * step_size);
+        system.drift(-1.0083722917941451e-01 * step_size);
+        system.kick(2.7918383235078066e-02 * step_size);
+        system.drift(1.7050724332509329e-01 * step_size);
+        system.kick(3.1309610341510852e-01 * step_size);
+        system.drift(1.9594591296839747e-01 * step_size);
+        system.kick(7.8795722521686415e-02 * step_size);
+        system.drift(3.9397861260843207e-02 * step_size);
     }
 }  // namespace hub::integrator
-- 
2.43.0


From 66502fc33704df2048a54ab789f52d3ba840222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:28 +0000
Subject: [PATCH 22/47] fix: constant step Gauss-Radau integration never
 iterated its implicit corrector

---
 src/integrator/Gauss-Radau.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/integrator/Gauss-Radau.hpp b/src/integrator/Gauss-Radau.hpp
index fb7e82d..9f02c35 100644
--- a/src/integrator/Gauss-Radau.hpp
+++ b/src/integrator/Gauss-Radau.hpp
@@ -347,7 +347,24 @@ namespace hub::integrator {
     template <typename TypeSystem>
     template <typename ParticleSys>
     void GaussRadau<TypeSystem>::integrate(ParticleSys &particles, Scalar step_size) {
-        correct(particles, step_size);
+        auto max_norm = [](auto const &array) {
+            Scalar max_value = 0;
+            for (auto const &x : array) {
+                max_value = std::max(max_value, static_cast<Scalar>(fabs(x)));
+            }
+            return max_value;
+        };
+        // The scheme is implicit: iterate the corrector until the b coefficients converge to round-off.
+        constexpr size_t max_iter{30};
+        Scalar last_diff = math::max_value<Scalar>::value;
+        for (size_t k = 0; k < max_iter; ++k) {
+            correct(particles, step_size);
+            Scalar diff = max_norm(dg_array_) / max_norm(dydh_);
+            if (diff <= math::epsilon<Scalar>::value || (diff < 1e4 * math::epsilon<Scalar>::value && diff >= last_diff)) {
+                break;
+            }
+            last_diff = diff;
+        }
         evaluate(particles, step_size);
         predict(static_cast<Scalar>(1.0));
     }
-- 
2.43.0


From 550641e51dd98753db38c03863b3cc9d86bb8f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 23/47] fix: midpoint substeps of BulirschStoer on user
 functions used odd numbers of steps, which do not extrapolate

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 2d8a34a..6341c2e 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -411,6 +411,8 @@ namespace hub::ode {
     void BulirschStoer<Integrator, ErrEstimator, StepController, MaxIter>::integrate_by_n_steps(
         EvaluateFun func, StateScalarArray &data_out, Scalar time, Scalar step_size, size_t steps) {
         data_out = input_;
+        // the error of the smoothed midpoint rule is a series in h^2 only among even numbers of steps.
+        steps *= 2;
         Scalar h = step_size / steps;
         StateScalarArray dxdt(input_.size());
         StateScalarArray data_mid(input_);
-- 
2.43.0


From a79ac5644ef4235a4205c2b6ef6f921803a737dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 24/47] fix: WorstOffender and RMS accepted results that
 overflowed to NaN

---
 src/ode-iterator/error-checker/RMS.hpp            | 3 +++
 src/ode-iterator/error-checker/worst-offender.hpp | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ode-iterator/error-checker/RMS.hpp b/src/ode-iterator/error-checker/RMS.hpp
index c1a8bae..19ef4f0 100644
--- a/src/ode-iterator/error-checker/RMS.hpp
+++ b/src/ode-iterator/error-checker/RMS.hpp
@@ -87,6 +87,9 @@ namespace hub::ode {
                     continue;
                 }
                 auto r = fabs(y1[i] - y1_prime[i]) / scale;
+                if (!(r <= math::max_value<Scalar>::value)) {  // an overflow is never within the tolerance
+                    return math::max_value<Scalar>::value;
+                }
                 error += r * r;
             }
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
diff --git a/src/ode-iterator/error-checker/worst-offender.hpp b/src/ode-iterator/error-checker/worst-offender.hpp
index 341e525..cb573f0 100644
--- a/src/ode-iterator/error-checker/worst-offender.hpp
+++ b/src/ode-iterator/error-checker/worst-offender.hpp
@@ -85,8 +85,12 @@ namespace hub::ode {
         if constexpr (std::is_same_v<raw_type_t<typename Array1::value_type>, raw_type_t<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
                 Scalar scale = std::max(fabs(y1[i]), fabs(y0[i]));
+                Scalar diff = fabs(y1_prime[i] - y1[i]);
+                if (!(diff <= math::max_value<Scalar>::value)) {  // an overflow is never within the tolerance
+                    return math::max_value<Scalar>::value;
+                }
                 // Scalar scale = fabs(y0[i]) + fabs((y1[i] - y0[i]));
-                max_err = math::max(max_err, fabs(y1_prime[i] - y1[i]) / (atol_ + scale * rtol_));
+                max_err = math::max(max_err, diff / (atol_ + scale * rtol_));
             }
         } else if constexpr (std::is_same_v<typename Array1::value_type, Vec3<Scalar>>) {
             for (size_t i = 0; i < size; ++i) {
-- 
2.43.0


From 04183050731689a8f095657707d80208086c6e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 25/47] fix: a run that passed its end time (regularized
 systems) moved further away from it and never ended

---
 src/simulator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator.hpp b/src/simulator.hpp
index a0ee5ce..3493adf 100644
--- a/src/simulator.hpp
+++ b/src/simulator.hpp
@@ -412,6 +412,10 @@ namespace hub {
                !run_args.check_stops(particles_, step_size_);) {
             Scalar rest_step = (end_time - particles_.time()) * particles_.step_scale();
 
+            if (run_args.is_end_time_set() && step_size_ * rest_step < 0) {
+                step_size_ = -step_size_;  // passed the end time(regularized system): step back to it.
+            }
+
             if (std::abs(step_size_) <= std::abs(rest_step)) [[likely]] {
                 run_args.operations(particles_, step_size_);
                 advance_one_step();
-- 
2.43.0


From 52ae5c79ddc451ca11b3c94b01b0da1526d934cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 26/47] fix: distances and norms of long double vectors were
 computed in double precision

norm(), re_norm() and distance() called the C library's sqrt(double), so the
extended precision methods had forces and energies of double precision only.
---
 src/vector/vector3.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/vector/vector3.hpp b/src/vector/vector3.hpp
index 1a09c65..6d13fc8 100644
--- a/src/vector/vector3.hpp
+++ b/src/vector/vector3.hpp
@@ -182,7 +182,10 @@ namespace hub {
         }
 
         /** @deprecated Make it non-member function.*/
-        inline value_type norm() const { return sqrt(x * x + y * y + z * z); }
+        inline value_type norm() const {
+            using std::sqrt;
+            return sqrt(x * x + y * y + z * z);
+        }
 
         /** @deprecated Make it non-member function.*/
         inline value_type norm2() const { return (x * x + y * y + z * z); }
@@ -194,7 +197,10 @@ namespace hub {
         }
 
         /** @deprecated Make it non-member function*/
-        inline value_type re_norm() const { return 1.0 / sqrt(x * x + y * y + z * z); }
+        inline value_type re_norm() const {
+            using std::sqrt;
+            return 1.0 / sqrt(x * x + y * y + z * z);
+        }
 
         /** operator+ for left scalar operation*/
         friend Vec3 operator+(const value_type c, const Vec3 &v) { return Vec3(v.x + c, v.y + c, v.z + c); }
@@ -227,6 +233,7 @@ namespace hub {
         auto dx = v1.x - v2.x;
         auto dy = v1.y - v2.y;
         auto dz = v1.z - v2.z;
+        using std::sqrt;
         return sqrt(dx * dx + dy * dy + dz * dz);
     }
 
@@ -239,12 +246,14 @@ namespace hub {
     /** Calculate the length of a vector*/
     template <typename T>
     inline T norm(const Vec3<T> &v) {
+        using std::sqrt;
         return sqrt(v.x * v.x + v.y * v.y + v.z * v.z);
     }
 
     /**  Calculate the inverse length of a vector*/
     template <typename T>
     inline T re_norm(const Vec3<T> &v) {
+        using std::sqrt;
         return 1.0 / sqrt(v.x * v.x + v.y * v.y + v.z * v.z);
     }
 
-- 
2.43.0


From 0fae9e6e3dd45d47b022d82ca8b7ab1641257c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 27/47] fix: *= and /= of compensated numbers left the
 compensation unscaled

x = 1e16; x += 1; x /= 1e16; x += 0 subtracted the unscaled low-order part
from the scaled number.
---
 src/kahan-number.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 415af89..6094070 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -117,6 +117,7 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Kahan &operator/=(Kahan &lhs, const Kahan &rhs) {
+            lhs.err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -125,6 +126,7 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Kahan &operator*=(Kahan &lhs, const Kahan &rhs) {
+            lhs.err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
@@ -235,6 +237,7 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Neumaier &operator/=(Neumaier &lhs, const Neumaier &rhs) {
+            lhs.err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -243,6 +246,7 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Neumaier &operator*=(Neumaier &lhs, const Neumaier &rhs) {
+            lhs.err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
@@ -372,6 +376,8 @@ namespace hub {
          * Division assignment operator.
          */
         friend inline Klein &operator/=(Klein &lhs, const Klein &rhs) {
+            lhs.err /= rhs.real;
+            lhs.err_of_err /= rhs.real;
             lhs.real /= rhs.real;
             return lhs;
         }
@@ -380,6 +386,8 @@ namespace hub {
          * Multiple assignment operator.
          */
         friend inline Klein &operator*=(Klein &lhs, const Klein &rhs) {
+            lhs.err *= rhs.real;
+            lhs.err_of_err *= rhs.real;
             lhs.real *= rhs.real;
             return lhs;
         }
-- 
2.43.0


From 40350f118bdde17b8db3690d480687a80c22f5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:48 +0000
Subject: [PATCH 28/47] fix: reading a Klein number kept the second-order
 compensation of its old value

---
 src/kahan-number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kahan-number.hpp b/src/kahan-number.hpp
index 6094070..dc4bb52 100644
--- a/src/kahan-number.hpp
+++ b/src/kahan-number.hpp
@@ -405,7 +405,7 @@ namespace hub {
          */
         friend std::istream &operator>>(std::istream &input, Klein &v) {
             input >> v.real;
-            v.err = 0;
+            v.zero_err();
             return input;
         }
     };
-- 
2.43.0


From fef989495d4d62b7146d8e521b46e524e2112afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 29/47] fix: vec_abs and max_abs of long double vectors were
 rounded to double

---
 src/vector/vector3.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector/vector3.hpp b/src/vector/vector3.hpp
index 6d13fc8..6f08fd1 100644
--- a/src/vector/vector3.hpp
+++ b/src/vector/vector3.hpp
@@ -271,7 +271,7 @@ namespace hub {
 
     template <typename T>
     inline Vec3<T> vec_abs(Vec3<T> const &v) {
-        return Vec3<T>(fabs(v.x), fabs(v.y), fabs(v.z));
+        return v.abs();
     }
 
     template <typename T>
@@ -286,8 +286,8 @@ namespace hub {
 
     template <typename T>
     inline T max_abs(Vec3<T> const &v) {
-        auto max = std::max(fabs(v.x), fabs(v.y));
-        return std::max(max, fabs(v.z));
+        Vec3<T> a = v.abs();
+        return std::max(std::max(a.x, a.y), a.z);
     }
 
     /**
-- 
2.43.0


From 5cd7ca16cfedd2770d6025209839e18a47b138b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:21 +0000
Subject: [PATCH 30/47] fix: root_bisection never ended when the root was 0 at
 the lower end of the interval

high shrank to the smallest denormal number, whose relative tolerance is 0.
---
 src/math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.hpp b/src/math.hpp
index 0efb0d0..68ac5c7 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -245,6 +245,7 @@ namespace hub::math {
 
         for (; fabs((high - low)) > fabs(high) * math::epsilon<Scalar>::value;) {
             Scalar mid = 0.5 * (high + low);
+            if (mid == low || mid == high) break;  // no number in between
             if (f(mid) * f(high) > 0)
                 high = mid;
             else
-- 
2.43.0


From 8f7ecbd2ce402d9c1799728e8a4f9da292096d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:12 +0000
Subject: [PATCH 31/47] fix: karmack_sqrt_inv of a long double was computed in
 double precision

---
 src/math.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math.hpp b/src/math.hpp
index 68ac5c7..9e93089 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -204,6 +204,7 @@ namespace hub::math {
 
     template <typename T>
     inline T karmack_sqrt_inv(T x) {
+        using std::sqrt;
         return 1 / sqrt(x);
     }
 
-- 
2.43.0


From 1f900b3530cd384cceef5b6d78eeaaf7d572ecaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:10 +0000
Subject: [PATCH 32/47] fix: SmallVector insert or erase of an empty range
 moved the following elements onto themselves

Strings (and any type whose self-move clears it) lost their contents.
---
 src/small-vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/small-vector.hpp b/src/small-vector.hpp
index 15430ca..3c8df9a 100644
--- a/src/small-vector.hpp
+++ b/src/small-vector.hpp
@@ -845,6 +845,8 @@ namespace llvm {
             assert(S <= E && "Trying to erase invalid range.");
             assert(E <= this->end() && "Trying to erase past the end.");
 
+            if (S == E) return S;  // shifting would move every element onto itself
+
             iterator N = S;
             // Shift all elts down.
             iterator I = std::move(E, this->end(), S);
@@ -924,6 +926,8 @@ namespace llvm {
             assert(I >= this->begin() && "Insertion iterator is out of bounds.");
             assert(I <= this->end() && "Inserting past the end of the vector.");
 
+            if (NumToInsert == 0) return I;  // shifting would move every element onto itself
+
             // Ensure there is enough hub.
             reserve(this->size() + NumToInsert);
 
@@ -981,6 +985,8 @@ namespace llvm {
 
             size_t NumToInsert = std::distance(From, To);
 
+            if (NumToInsert == 0) return I;  // shifting would move every element onto itself
+
             // Ensure there is enough hub.
             reserve(this->size() + NumToInsert);
 
-- 
2.43.0


From 64380c2e3ec686b439158c8b64debdebcd18ba79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 33/47] fix: coord_to_orbit gave angles that describe a
 different orbit than orbit_to_coord places

---
 src/orbits/orbits.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 639e5e5..478c735 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -594,20 +594,20 @@ namespace hub::orbit {
 
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
+                args.omega = -math::sign(E.z) * myacos(-dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.omega = -math::sign(L.z) * math::sign(E.y) * myacos(-E.x / args.e);
+                args.Omega = 0;
             }
         } else {
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
                 Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = -math::sign(dot(peri, dr)) * myacos(-dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = -math::sign(L.z) * math::sign(dr.y) * myacos(-dr.x / r);
             }
         }
     }
@@ -655,20 +655,20 @@ namespace hub::orbit {
 
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
-                args.omega = math::sign(E.z) * myacos(dot(E / args.e, N / n));
+                args.omega = -math::sign(E.z) * myacos(-dot(E / args.e, N / n));
             } else {
-                args.omega = -math::sign(E.y) * myacos(-E.x / args.e);
-                args.Omega = args.omega;
+                args.omega = -math::sign(L.z) * math::sign(E.y) * myacos(-E.x / args.e);
+                args.Omega = 0;
             }
         } else {
             if (n != 0) {
                 args.Omega = math::sign(N.y) * myacos(N.x / n);
                 args.omega = 0;
                 Vector peri = cross(L, N);
-                args.nu = -math::sign(dot(N, dr)) * myacos(dot(peri / norm(peri), dr / r));
+                args.nu = -math::sign(dot(peri, dr)) * myacos(-dot(N / n, dr / r));
             } else {
                 args.Omega = args.omega = 0;
-                args.nu = math::sign(dr.y) * acos(dot(Vector(1.0, 0, 0), dr / r));
+                args.nu = -math::sign(L.z) * math::sign(dr.y) * myacos(-dr.x / r);
             }
         }
         return args;
-- 
2.43.0


From 4cfdd90d5b165590195041b529927e6bb48fb176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:31 +0000
Subject: [PATCH 34/47] fix: coord_to_orbit gave a parabolic orbit no
 semi-latus rectum, and lost its digits near e=1

---
 src/orbits/orbits.hpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 478c735..154c28b 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -580,12 +580,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type == OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
@@ -641,12 +636,7 @@ namespace hub::orbit {
         args.e = norm(E);
         args.orbit_type = classify_orbit(args.e);
 
-        if (args.orbit_type != OrbitType::Parabola) {
-            Scalar a = -u * r / (r * norm2(dv) - 2.0 * u);
-            args.p = semi_latus_rectum(a, args.e);
-        } else {
-            args.p = l * l / u;
-        }
+        args.p = l * l / u;
 
         args.i = acos(L.z / l);
 
-- 
2.43.0


From 7a98c5f9a597e2924d841e0840d5f05fe507ec8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 35/47] fix: M_anomaly_to_E_anomaly stopped at pi on hyperbolic
 and parabolic orbits

---
 src/orbits/orbits.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 154c28b..31a4f03 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -325,13 +325,16 @@ namespace hub::orbit {
         if (0 <= e && e < 1)
             return math::root_bisection([=](Scalar x) -> Scalar { return (x - e * sin(x) - M_anomaly); },
                                         -hub::consts::pi, hub::consts::pi);
-        else if (e > 1)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else if (fabs(e - 1) < math::epsilon<Scalar>::value)
-            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); },
-                                        -hub::consts::pi, hub::consts::pi);
-        else {
+        else if (e > 1) {
+            // sinh(E) <= M / (e - 1)
+            Scalar const bound = hub::consts::pi + asinh(fabs(M_anomaly) / (e - 1));
+            return math::root_bisection([=](Scalar x) -> Scalar { return (e * sinh(x) - x - M_anomaly); }, -bound,
+                                        bound);
+        } else if (fabs(e - 1) < math::epsilon<Scalar>::value) {
+            Scalar const bound = hub::consts::pi + fabs(M_anomaly);
+            return math::root_bisection([=](Scalar x) -> Scalar { return (x + x * x * x / 3 - M_anomaly); }, -bound,
+                                        bound);
+        } else {
             spacehub_abort("Eccentricity cannot be negative, Nan or inf!");
         }
     }
-- 
2.43.0


From f1d8be5d1e167709c8a27bb78d44e022226176bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 36/47] fix: time_to_periapsis of two clusters was NaN at an
 apsis or on a circular orbit

---
 src/orbits/particle-manip.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 49e53bf..56d318b 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -489,7 +489,8 @@ namespace hub::orbit {
             auto h = cross(dr, dv);
             auto h2 = dot(h, h);
             auto p = h2 / u;
-            auto T_anomaly = acos((p / r - 1) / e);
+            auto cos_T = e > 0 ? (p / r - 1) / e : 1.0;
+            auto T_anomaly = acos(math::in_range(-1.0, cos_T, 1.0));
             auto M_anomaly = E_anomaly_to_M_anomaly(T_anomaly_to_E_anomaly(T_anomaly, e), e);
 
             if (orbit_type == OrbitType::Parabola) {
-- 
2.43.0


From 1fad75b791c1ca7c9f5620627dd4ab9937f2c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 37/47] fix: tidal_factor of two clusters compared the first
 cluster with itself

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 56d318b..8593e74 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -801,7 +801,7 @@ namespace hub::orbit {
     auto tidal_factor(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return tidal_factor(cluster1, cluster1, R1, R2);
+        return tidal_factor(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From a77320e384b11387813f7c2142990f41a09da70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:09 +0000
Subject: [PATCH 38/47] fix: E_tid of two clusters did not compile

---
 src/orbits/particle-manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 8593e74..0da6be0 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -756,7 +756,7 @@ namespace hub::orbit {
     auto E_tid(Cluster1 const &cluster1, Cluster2 const &cluster2) {
         auto R1 = orbit::cluster_size(cluster1);
         auto R2 = orbit::cluster_size(cluster2);
-        return E_tid(std::forward<Cluster1>(cluster1), std::forward<Cluster2>(cluster2), R1, R2);
+        return E_tid(cluster1, cluster2, R1, R2);
     }
 
     /**
-- 
2.43.0


From 0e8a8a03f929c891a746ed94ce0c35e7e131bee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:47 +0000
Subject: [PATCH 39/47] fix: a cluster in a container could not be moved onto
 an orbit

---
 src/orbits/particle-manip.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/orbits/particle-manip.hpp b/src/orbits/particle-manip.hpp
index 0da6be0..a949978 100644
--- a/src/orbits/particle-manip.hpp
+++ b/src/orbits/particle-manip.hpp
@@ -357,11 +357,11 @@ namespace hub::orbit {
      * @param[in,out] ptc1 The first particle/The cluster/single particle needs to be moved.
      * @param[in,out] ptcs The rest particles need to be moved.
      */
-    template <typename Particle, typename... Args>
-    void move_particles(KeplerOrbit<typename Particle::Scalar> const &orbit, Particle &ptc1, Args &...ptcs) {
+    template <typename Scalar, typename Particle, typename... Args>
+    void move_particles(KeplerOrbit<Scalar> const &orbit, Particle &ptc1, Args &...ptcs) {
         static_assert(calc::all(std::is_same_v<Args, Particle>...),
                       "Type of the 2nd argument and the rest should be same!");
-        auto [cm_pos, cm_vel] = orbit_to_coord<typename Particle::Vector>(orbit);
+        auto [cm_pos, cm_vel] = orbit_to_coord<std::remove_cv_t<decltype(COM_p(ptc1))>>(orbit);
         move_particles(cm_pos, cm_vel, ptc1, ptcs...);
     }
 
-- 
2.43.0


From 45ec0c91278bc40119aafba422a38ea394751f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 40/47] fix: ELK_quad_timescale multiplied by the square root
 of the inner mass instead of dividing

---
 src/secular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/secular.hpp b/src/secular.hpp
index bd69572..f1c8000 100644
--- a/src/secular.hpp
+++ b/src/secular.hpp
@@ -36,7 +36,7 @@ namespace hub::secular {
     template <typename T = double>
     T ELK_quad_timescale(T m1, T m2, T m3, T a1, T a2, T e2) {
         T m_in = m1 + m2;
-        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / consts::G * m_in);
+        T P = 2 * consts::pi * sqrt(a1 * a1 * a1 / (consts::G * m_in));
         T a_ratio_eff = a2 * sqrt(1 - e2 * e2) / a1;
         return P * m_in / m3 * a_ratio_eff * a_ratio_eff * a_ratio_eff;
     }
-- 
2.43.0


From 784bd02a661c93689bc5ba2a3b2a2d7f6d36ed6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:13 +0000
Subject: [PATCH 41/47] fix: a random Parameter without a lower bound rejected
 every value below 2.2e-308

---
 src/rand-generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rand-generator.hpp b/src/rand-generator.hpp
index 30edbe1..d7a0499 100644
--- a/src/rand-generator.hpp
+++ b/src/rand-generator.hpp
@@ -195,7 +195,7 @@ namespace hub::random {
         void set_boundary(double min, double max) { min_ = min, max_ = max; }
 
        private:
-        double min_{std::numeric_limits<double>::min()};
+        double min_{std::numeric_limits<double>::lowest()};
         double max_{std::numeric_limits<double>::max()};
         std::function<double()> dist_;
     };
-- 
2.43.0


From 6b35d1855a6c87637e7dfe4628dbd55334017aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 42/47] fix: a hyperbolic orbit starting at its periapsis had a
 NaN true anomaly

---
 src/orbits/orbits.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/orbits/orbits.hpp b/src/orbits/orbits.hpp
index 31a4f03..564f6c2 100644
--- a/src/orbits/orbits.hpp
+++ b/src/orbits/orbits.hpp
@@ -519,12 +519,12 @@ namespace hub::orbit {
         if (this->p <= 0) {
             spacehub_abort("p = ", this->p, " invalid Semi-latus rectum `p` with a = ", a, " and e = ", e);
         }
-        if (r < a * (1 - e)) {
+        if (r < this->p / (1 + this->e)) {
             spacehub_abort("r = p/(1+e*cos(theta)) = ", r,
-                           " is smaller than pericenter distance a*(1-e) = ", a * (1 - e));
+                           " is smaller than pericenter distance p/(1+e) = ", this->p / (1 + this->e));
         }
-        this->nu = -acos((p - r) / (e * r));
-        if (std::isinf(this->nu) && std::isnan(this->nu)) {
+        this->nu = -myacos((p - r) / (e * r));
+        if (std::isinf(this->nu) || std::isnan(this->nu)) {
             spacehub_abort("true anomaly is inf/nan. a = ", a, " e = ", this->e);
         }
         this->b = b;
-- 
2.43.0


From 057165d3ded4a1250559224692c0f343828bef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 43/47] fix: ConfigReader refused files it may not write

---
 src/tools/config-reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 95a2524..075ab97 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -66,7 +66,7 @@ namespace hub::tools {
           Class ConfigReader Implementation
     \*---------------------------------------------------------------------------*/
     ConfigReader::ConfigReader(std::string const &file_name, char divider, char commenter) {
-        std::fstream file(file_name);
+        std::ifstream file(file_name);
         if (file.is_open()) {
             std::string line;
             while (std::getline(file, line)) {
-- 
2.43.0


From 3201b92a104dfd69e7194efd2de64e4f2cb6ea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 44/47] fix: read_command_line shifted the parameters after an
 empty argument or one with blanks

---
 src/tools/config-reader.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools/config-reader.hpp b/src/tools/config-reader.hpp
index 075ab97..187e5ca 100644
--- a/src/tools/config-reader.hpp
+++ b/src/tools/config-reader.hpp
@@ -107,11 +107,8 @@ namespace hub::tools {
         if (argc != n + 1) {
             spacehub_abort("Wrong args number!");
         } else {
-            std::stringstream ss;
-            for (int i = 1; i < argc; ++i) {
-                ss << argv[i] << ' ';
-            }
-            ((ss >> std::forward<Args>(args)), ...);
+            int i = 0;
+            ((std::stringstream(argv[++i]) >> std::forward<Args>(args)), ...);
         }
     }
 
-- 
2.43.0


From 73e80a57a6b0f4c3df1dd88fe90af001a39f9059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:48 +0000
Subject: [PATCH 45/47] fix: auto_name repeated a name when prefixes alternate
 within a second

---
 src/tools/auto-name.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/tools/auto-name.hpp b/src/tools/auto-name.hpp
index 0bb81ca..6a2221a 100644
--- a/src/tools/auto-name.hpp
+++ b/src/tools/auto-name.hpp
@@ -6,15 +6,18 @@
 
 #include <ctime>
 #include <iomanip>
+#include <mutex>
 #include <sstream>
 #include <string>
+#include <unordered_map>
 
 namespace hub::tools {
 
     std::string auto_name(std::string const &prefix = "space_") {
-        static int duplicate = 1;
-        static std::string last_name;
+        static std::mutex mutex;
+        static std::unordered_map<std::string, int> used;
 
+        std::lock_guard<std::mutex> lock(mutex);
         auto t = std::time(nullptr);
         auto tm = *std::localtime(&t);
         std::ostringstream oss;
@@ -22,11 +25,10 @@ namespace hub::tools {
 
         auto name = prefix + oss.str();
 
-        if (name == last_name) {
-            return name + '(' + std::to_string(duplicate++) + ").dat";
+        int duplicate = used[name]++;
+        if (duplicate > 0) {
+            return name + '(' + std::to_string(duplicate) + ").dat";
         } else {
-            duplicate = 1;
-            last_name = name;
             return name + ".dat";
         }
     }
-- 
2.43.0


From 61a37185de76134e0874479c49788ec5b95bc82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:14 +0000
Subject: [PATCH 46/47] fix: Bulirsch-Stoer never raised its order on steps
 back in time

---
 src/ode-iterator/Bulirsch-Stoer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ode-iterator/Bulirsch-Stoer.hpp b/src/ode-iterator/Bulirsch-Stoer.hpp
index 6341c2e..0246122 100644
--- a/src/ode-iterator/Bulirsch-Stoer.hpp
+++ b/src/ode-iterator/Bulirsch-Stoer.hpp
@@ -257,7 +257,7 @@ namespace hub::ode {
 
                 ideal_step_size_[k] = iter_h * step_ctrl_.next(result_order, error);
 
-                cost_per_len_[k] = consts_.cost(k) / ideal_step_size_[k];
+                cost_per_len_[k] = consts_.cost(k) / fabs(ideal_step_size_[k]);
                 // hub::print_csv(std::cout, k, ideal_rank_, error, ideal_step_size_[k], cost_per_len_[k], '\n');
                 if (in_converged_window(k)) {
                     if (error <= 1.0) {
@@ -331,7 +331,7 @@ namespace hub::ode {
                 extrapolate(k);  // extrapolate results and save it to extrap_list_[0];
                 Scalar error = err_checker_.error(input_, extrap_list_[1], extrap_list_[0]);
                 ideal_step_size_[k] = iter_h * step_ctrl_.next(result_order, error);
-                cost_per_len_[k] = consts_.cost(k) / ideal_step_size_[k];
+                cost_per_len_[k] = consts_.cost(k) / fabs(ideal_step_size_[k]);
                 // hub::print_csv(std::cout, k, ideal_rank_, error, ideal_step_size_[k], cost_per_len_[k], '\n');
                 if (in_converged_window(k)) {
                     if (error <= 1.0) {
-- 
2.43.0


From 5608f2a1fbb2d11d4b5e767b67c24d12d862d6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:29 +0000
Subject: [PATCH 47/47] fix: max of arguments of two types was cut to the
 second type

---
 src/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math.hpp b/src/math.hpp
index 9e93089..819087d 100644
--- a/src/math.hpp
+++ b/src/math.hpp
@@ -86,7 +86,7 @@ namespace hub::math {
      */
     template <typename T1, typename T2>
     inline constexpr auto max(T1 const &x, T2 const &y) {
-        return y > x ? y : static_cast<T2>(x);
+        return y > x ? y : x;
     }
 
     /**
-- 
2.43.0

