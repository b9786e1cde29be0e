From cdcdff2378e1bdc3897c42510f5cf8ba306f9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:00 +0000
Subject: [PATCH 01/49] fix: dynamic engine waits for all submitted tasks
 before run() returns, also after an error

---
 .../GDynamicEngine/GDynamicEngine.cpp         | 60 ++++++++++++-------
 .../_GEngine/GDynamicEngine/GDynamicEngine.h  | 20 +++++++
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index 5bf8a5b..6b66fea 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -55,6 +55,7 @@ CVoid GDynamicEngine::commonRunAll() {
      * 3. 等待异步执行结束
      */
     finished_end_size_.store(0, std::memory_order_release);
+    beginTasks();
     for (auto* element : front_element_arr_) {
         process(element, element == front_element_arr_.back());
     }
@@ -130,8 +131,10 @@ CVoid GDynamicEngine::process(GElementPtr element, const CBool affinity) {
         // 如果 affinity=true，表示用当前的线程，执行这个逻辑。以便增加亲和性
         innerExec(element);
     } else {
+        running_task_size_.fetch_add(1, std::memory_order_acq_rel);
         thread_pool_->execute([this, element] {
-            this->innerExec(element); }, element->binding_index_);
+            this->innerExec(element);
+            this->finishTask(); }, element->binding_index_);
     }
 }
 
@@ -209,39 +212,35 @@ CVoid GDynamicEngine::fatWait() {
         // 对于 pipeline 运行耗时很短的情况，在 进入 cv.wait() 之前，轮询等到一会
         // 如果遇到 isErr() 的情况，还是走进入 mutex 的逻辑
         if (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) {
-            return;
+            break;
         }
         CGRAPH_YIELD();
     }
 
-    CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-    locker_.cv_.wait(lock, [this] {
-        /**
-         * 遇到以下条件之一，结束执行：
-         * 1，执行结束
-         * 2，状态异常
-         */
-        return (finished_end_size_.load(std::memory_order_acquire) >= total_end_size_) || cur_status_.isErr();
-    });
+    waitTasks();
 }
 
 
 CVoid GDynamicEngine::parallelRunAll() {
     parallel_run_num_ = 0;
+    beginTasks();
     const CIndex& totalSize = static_cast<CIndex>(parallel_element_matrix_.size());
     for (CIndex i = 0; i < totalSize; i++) {
         auto& curArr = parallel_element_matrix_[i];
         if (curArr.size() > 1) {
             for (auto* element : curArr) {
-                thread_pool_->executeWithTid([this, element] { parallelRunOne(element); }, i,
+                running_task_size_.fetch_add(1, std::memory_order_acq_rel);
+                thread_pool_->executeWithTid([this, element] { parallelRunOne(element); finishTask(); }, i,
                                              element == curArr.front() || element == curArr.back(),
                                              element == curArr.front());
             }
         } else {
             // 仅有一个任务的情况，无法使用 executeWithTid 函数，故走这边的逻辑
             const auto& element = curArr.front();
+            running_task_size_.fetch_add(1, std::memory_order_acq_rel);
             thread_pool_->execute([this, element] {
-                parallelRunOne(element); }, element->binding_index_);
+                parallelRunOne(element);
+                finishTask(); }, element->binding_index_);
         }
     }
 
@@ -253,17 +252,12 @@ CVoid GDynamicEngine::parallelRunAll() {
     const auto epoch = thread_pool_->getConfig().pipeline_wait_busy_epoch_;
     for (CInt i = 0; i < epoch; i++) {
         if (parallel_run_num_ >= total_end_size_) {
-            return;
+            break;
         }
         CGRAPH_YIELD();
     }
 
-    {
-        CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
-        locker_.cv_.wait(lock, [this] {
-            return (parallel_run_num_ >= total_end_size_ || cur_status_.isErr());
-        });
-    }
+    waitTasks();
 }
 
 
@@ -314,4 +308,30 @@ CVoid GDynamicEngine::prepareRun() {
     }
 }
 
+
+CVoid GDynamicEngine::beginTasks() {
+    all_task_finished_ = false;
+    running_task_size_.store(1, std::memory_order_release);
+}
+
+
+CVoid GDynamicEngine::finishTask() {
+    if (1 == running_task_size_.fetch_sub(1, std::memory_order_acq_rel)) {
+        CGRAPH_LOCK_GUARD lock(locker_.mtx_);
+        all_task_finished_ = true;
+        locker_.cv_.notify_one();
+    }
+}
+
+
+CVoid GDynamicEngine::waitTasks() {
+    /**
+     * 无论是执行成功，还是中途出现异常，均需要等待所有已经放入线程池的任务结束。
+     * 否则，残留的任务会在本次运行返回之后（甚至在下一次运行中）继续执行
+     */
+    finishTask();
+    CGRAPH_UNIQUE_LOCK lock(locker_.mtx_);
+    locker_.cv_.wait(lock, [this] { return all_task_finished_; });
+}
+
 CGRAPH_NAMESPACE_END
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index 92dd02d..10894d1 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -103,6 +103,24 @@ protected:
      */
     CVoid prepareRun();
 
+    /**
+     * 开始记录正在执行的任务个数，当前线程自身也计为一个
+     * @return
+     */
+    CVoid beginTasks();
+
+    /**
+     * 一个任务执行结束。最后一个结束的任务，负责通知等待的线程
+     * @return
+     */
+    CVoid finishTask();
+
+    /**
+     * 等待本次运行中，放入线程池的任务全部结束（包含异常的情况）
+     * @return
+     */
+    CVoid waitTasks();
+
 private:
     GElementPtrArr total_element_arr_ {};                                                // pipeline中所有的元素信息集合
     GElementPtrArr front_element_arr_ {};                                                // 没有依赖的元素信息
@@ -113,6 +131,8 @@ private:
     GElementPtrMat2D parallel_element_matrix_ {};                                        // 纯并行时，记录分解后的数据
     internal::GEngineDagType dag_type_ = { internal::GEngineDagType::COMMON };           // 当前元素的排布形式
 
+    std::atomic<CSize> running_task_size_ {0};                                        // 尚未结束的任务个数
+    CBool all_task_finished_ = false;                                                    // 任务全部结束的标记，由 locker_ 保护
     UCvMutex locker_;
     std::mutex status_lock_;
 
-- 
2.43.0


From 4a9f5cfba1b30ce9c84aa0643c94410d21e2f4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:59 +0000
Subject: [PATCH 02/49] fix: topo and static engines return a crash status from
 run() instead of throwing it

---
 .../GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp    | 5 ++++-
 .../GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp        | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
index 661299a..922cc0f 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GStaticEngine/GStaticEngine.cpp
@@ -70,7 +70,10 @@ CStatus GStaticEngine::run() {
         for (auto& future : futures) {
             status += future.get();
         }
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (unlikely(status.isErr())) {
+            // 与 dynamic 引擎保持一致：crash 状态也通过返回值传递，而不是抛出异常
+            return status;
+        }
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
index 35ad44c..82d14f1 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GTopoEngine/GTopoEngine.cpp
@@ -25,7 +25,10 @@ CStatus GTopoEngine::run() {
     CGRAPH_FUNCTION_BEGIN
     for (auto* element : topo_elements_) {
         status += element->fatProcessor(CFunctionType::RUN);
-        CGRAPH_FUNCTION_CHECK_STATUS
+        if (unlikely(status.isErr())) {
+            // 与 dynamic 引擎保持一致：crash 状态也通过返回值传递，而不是抛出异常
+            return status;
+        }
     }
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From f5839dc8490c3de2689a4a2ffa750c6e8a8b8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 03/49] fix: an exception of an element held by the pipeline
 becomes an error status of run()

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 40fc749..77ad54f 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -46,7 +46,11 @@ CStatus GElementRepository::reset() {
     for (auto& cur : async_elements_) {
         if (GElementTimeoutStrategy::HOLD_BY_PIPELINE == cur->timeout_strategy_) {
             // 强烈建议，在这里等待执行完成
-            status += cur->getAsyncResult();
+            try {
+                status += cur->getAsyncResult();
+            } catch (const CException& ex) {
+                status += cur->crashed(ex);    // 异步执行的过程中抛出的异常，转化为返回值
+            }
         }
 
         // 无论如何，写回非 timeout状态，确保不会迭代到下一轮
-- 
2.43.0


From ea053001dced0b6a51ccf8b304b24962de937e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:18 +0000
Subject: [PATCH 04/49] fix: elements initialise in level order also when the
 level is set after registration

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 34a49bb..ac4e2b9 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -27,6 +27,9 @@ CStatus GElementManager::init() {
         CGRAPH_ASSERT_NOT_NULL(element)
     }
 
+    // element 的 level 信息，可能在注册之后被修改。故在这里重新排序，确保 init 的顺序符合预期
+    manager_elements_ = GSortedGElementPtrSet(manager_elements_.begin(), manager_elements_.end());
+
     status = initEngine();
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From 0e2deb31624679f68794513b1ee06ba18e9947f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:35 +0000
Subject: [PATCH 05/49] fix: assigning a status keeps the text when both have
 the same error code

---
 src/CBasic/CStatus.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CBasic/CStatus.h b/src/CBasic/CStatus.h
index d43e406..7ccda0b 100644
--- a/src/CBasic/CStatus.h
+++ b/src/CBasic/CStatus.h
@@ -60,8 +60,8 @@ public:
     }
 
     CSTATUS& operator=(const CSTATUS& status) {
-        if (this->error_code_ != status.error_code_) {
-            // 如果status是正常的话，则所有数据保持不变
+        if (this->error_code_ != status.error_code_ || STATUS_OK != status.error_code_) {
+            // 如果均是正常的话，则所有数据保持不变。错误码相同的异常，错误信息也可能不同
             this->error_code_ = status.error_code_;
             this->error_info_ = status.error_info_;
         }
-- 
2.43.0


From 4ab52f64d18cad653a2896b785408389543443ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:36 +0000
Subject: [PATCH 06/49] fix: cosine distance check refuses vectors of different
 dimensions

---
 src/UtilsCtrl/Distance/Common/UCosineDistance.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/UtilsCtrl/Distance/Common/UCosineDistance.h b/src/UtilsCtrl/Distance/Common/UCosineDistance.h
index 75ee539..bb10578 100644
--- a/src/UtilsCtrl/Distance/Common/UCosineDistance.h
+++ b/src/UtilsCtrl/Distance/Common/UCosineDistance.h
@@ -31,6 +31,18 @@ public:
         result = result / (std::sqrt(val1) * std::sqrt(val2));
         CGRAPH_FUNCTION_END
     }
+
+    CStatus check(const TSrc* v1, const TSrc* v2, CSize dim1, CSize dim2, CVoidPtr ext) override {
+        CGRAPH_FUNCTION_BEGIN
+        CGRAPH_ASSERT_NOT_NULL(v1)
+        CGRAPH_ASSERT_NOT_NULL(v2)
+
+        if (dim1 != dim2 || 0 == dim1) {
+            // 不相等，或者为0，则认为是异常
+            CGRAPH_RETURN_ERROR_STATUS("cosine distance dim error")
+        }
+        CGRAPH_FUNCTION_END
+    }
 };
 
 CGRAPH_NAMESPACE_END
-- 
2.43.0


From 119b289905248e9a07d3f46b909c50f0f88d4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:52 +0000
Subject: [PATCH 07/49] fix: graph analyses no longer write out of bounds when
 a level is set after registration

---
 src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h     | 5 +++--
 src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h b/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h
index 6aeb9a9..47bc35d 100644
--- a/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h
+++ b/src/GraphCtrl/GraphElement/_GOptimizer/GOptimizer.h
@@ -9,6 +9,7 @@
 #ifndef CGRAPH_GOPTIMIZER_H
 #define CGRAPH_GOPTIMIZER_H
 
+#include <algorithm>
 #include <vector>
 
 #include "../GElementObject.h"
@@ -77,9 +78,9 @@ protected:
         for (const auto& path : paths) {
             for (CSize i = 0; i < path.size(); i++) {
                 // 这里的 find是一定能找到的。因为path的数据，是从elements中记录的
-                CSize height = std::distance(elements.begin(), elements.find(path[i]));
+                CSize height = std::distance(elements.begin(), std::find(elements.begin(), elements.end(), path[i]));
                 for (CSize j = i + 1; j < path.size(); j++) {
-                    CSize column = std::distance(elements.begin(), elements.find(path[j]));
+                    CSize column = std::distance(elements.begin(), std::find(elements.begin(), elements.end(), path[j]));
                     graph[height][column] = father;
                     graph[column][height] = son;
                 }
diff --git a/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h b/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
index ae5c509..268c36e 100644
--- a/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
+++ b/src/GraphCtrl/GraphElement/_GOptimizer/GTrimOptimizer.h
@@ -32,10 +32,10 @@ class GTrimOptimizer : public GOptimizer {
             CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(cur)
             GElementPtrArr candidates;
             for (CSize i = 0; i < cur->dependence_.size(); i++) {
-                CSize x = std::distance(elements.begin(), elements.find(cur->dependence_[i]));
+                CSize x = std::distance(elements.begin(), std::find(elements.begin(), elements.end(), cur->dependence_[i]));
                 for (CSize j = 0; j < cur->dependence_.size(); j++) {
                     // 这里必须是 n^2 的循环
-                    CSize y = std::distance(elements.begin(), elements.find(cur->dependence_[j]));
+                    CSize y = std::distance(elements.begin(), std::find(elements.begin(), elements.end(), cur->dependence_[j]));
                     if (1 == graph[x][y]) {
                         candidates.push_back(cur->dependence_[i]);
                     }
-- 
2.43.0


From bd52cc5585eb543298ca3ca9a5c58c61d01cbb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 08/49] fix: commitWithTid compiles: it forwards to
 executeWithTid

---
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 850b6f8..7b32e73 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -32,7 +32,7 @@ auto UThreadPool::commitWithTid(const FunctionType& func, CIndex tid, CBool enab
     std::packaged_task<ResultType()> task(std::move(func));
     std::future<ResultType> result(task.get_future());
 
-    execute(std::move(task), tid, enable, lockable);
+    executeWithTid(std::move(task), tid, enable, lockable);
     return result;
 }
 
-- 
2.43.0


From 6e98cfe61c171513bdeea3b4b6ac246ff7748b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:14 +0000
Subject: [PATCH 09/49] fix: prioritised tasks leave the pool's priority queue
 by priority, not by address

---
 src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h | 11 ++++++++++-
 src/UtilsCtrl/ThreadPool/Task/UTask.h                 |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
index 552f4f5..0050398 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicPriorityQueue.h
@@ -10,6 +10,8 @@
 #define CGRAPH_UATOMICPRIORITYQUEUE_H
 
 #include <queue>
+#include <vector>
+#include <memory>
 
 #include "UQueueObject.h"
 
@@ -86,7 +88,14 @@ public:
     CGRAPH_NO_ALLOWED_COPY(UAtomicPriorityQueue)
 
 private:
-    std::priority_queue<std::unique_ptr<T> > priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
+    // 比较的是任务本身的优先级，而不是指针的地址
+    struct PriorityLess {
+        CBool operator()(const std::unique_ptr<T>& lhs, const std::unique_ptr<T>& rhs) const {
+            return *lhs < *rhs;
+        }
+    };
+
+    std::priority_queue<std::unique_ptr<T>, std::vector<std::unique_ptr<T> >, PriorityLess> priority_queue_;    // 优先队列信息，根据重要级别决定先后执行顺序
 };
 
 CGRAPH_NAMESPACE_END
diff --git a/src/UtilsCtrl/ThreadPool/Task/UTask.h b/src/UtilsCtrl/ThreadPool/Task/UTask.h
index e0e9d6c..97c587b 100644
--- a/src/UtilsCtrl/ThreadPool/Task/UTask.h
+++ b/src/UtilsCtrl/ThreadPool/Task/UTask.h
@@ -56,11 +56,11 @@ public:
     }
 
     CBool operator>(const UTask& task) const {
-        return priority_ < task.priority_;    // 新加入的，放到后面
+        return priority_ > task.priority_;
     }
 
     CBool operator<(const UTask& task) const {
-        return priority_ >= task.priority_;
+        return priority_ < task.priority_;
     }
 
     CGRAPH_NO_ALLOWED_COPY(UTask)
-- 
2.43.0


From 78d988d4663e6e8fe23949e22e9d8f3ed7bfa3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:15 +0000
Subject: [PATCH 10/49] fix: secondary threads are counted and visited under
 their lock

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 3233d75..ddfd79d 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -227,10 +227,10 @@ CIndex UThreadPool::dispatch(const CIndex origIndex) {
 CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
     const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
-    CGRAPH_LOCK_GUARD lock(st_mutex_);
     for (int i = 0; i < realSize; i++) {
         auto ptr = CGRAPH_MAKE_UNIQUE_COBJECT(UThreadSecondary)
         ptr->setThreadPoolInfo(&task_queue_, &priority_task_queue_, &config_);
@@ -281,10 +281,14 @@ CSize UThreadPool::wakeupAllThread() {
             }
         }
 
-        for (const auto& st : secondary_threads_) {
-            if (st->wakeup()) {
-                ++size;
+        // 辅助线程可能正在被创建或者释放。这里不等待 st_mutex_，避免和持有 st_mutex_ 并等待线程结束的逻辑互锁
+        if (st_mutex_.try_lock()) {
+            for (const auto& st : secondary_threads_) {
+                if (st->wakeup()) {
+                    ++size;
+                }
             }
+            st_mutex_.unlock();
         }
         wakeup_mutex_.unlock();
     }
-- 
2.43.0


From fe4389da57f5acf3f0b35ac721142f9be18c5b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:08 +0000
Subject: [PATCH 11/49] fix: a ring buffer queue holds as many entries as its
 capacity and stays usable after clear

---
 .../ThreadPool/Queue/UAtomicRingBufferQueue.h | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
index f191afc..e08f957 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/UAtomicRingBufferQueue.h
@@ -25,7 +25,7 @@ public:
         head_ = 0;
         tail_ = 0;
         capacity_ = capacity;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(slotSize());
     }
 
     ~UAtomicRingBufferQueue() override {
@@ -40,7 +40,7 @@ public:
      */
     UAtomicRingBufferQueue* setCapacity(const CUInt size) {
         capacity_ = size;
-        ring_buffer_queue_.resize(capacity_);
+        ring_buffer_queue_.resize(slotSize());
         return this;
     }
 
@@ -69,7 +69,7 @@ public:
                         push_cv_.wait(lk, [this] { return !isFull(); });
                         break;
                     case URingBufferPushStrategy::REPLACE:
-                        head_ = (head_ + 1) % capacity_;
+                        head_ = (head_ + 1) % slotSize();
                         break;
                     case URingBufferPushStrategy::DROP:
                         return;    // 直接返回，不写入即可
@@ -77,7 +77,7 @@ public:
             }
 
             ring_buffer_queue_[tail_] = value;
-            tail_ = (tail_ + 1) % capacity_;
+            tail_ = (tail_ + 1) % slotSize();
         }
         pop_cv_.notify_one();
     }
@@ -102,7 +102,7 @@ public:
             }
 
             value = std::move(ring_buffer_queue_[head_]);
-            head_ = (head_ + 1) % capacity_;
+            head_ = (head_ + 1) % slotSize();
         }
         push_cv_.notify_one();
         CGRAPH_FUNCTION_END
@@ -114,20 +114,29 @@ public:
      */
     CStatus clear() {
         CGRAPH_FUNCTION_BEGIN
-        ring_buffer_queue_.resize(0);
+        ring_buffer_queue_.clear();
+        ring_buffer_queue_.resize(slotSize());    // 仅清空内容，之后仍然可以继续写入
         head_ = 0;
         tail_ = 0;
         CGRAPH_FUNCTION_END
     }
 
 protected:
+    /**
+     * 实际的槽位数量。空出来一个槽位，用于区分空和满，故比容量大小多一个
+     * @return
+     */
+    CUInt slotSize() const {
+        return capacity_ + 1;
+    }
+
     /**
      * 当前队列是否为满
      * @return
      */
     CBool isFull() const {
         // 空出来一个位置，这个时候不让 tail写入
-        return head_ == (tail_ + 1) % capacity_;
+        return head_ == (tail_ + 1) % slotSize();
     }
 
     /**
-- 
2.43.0


From 78d485b78030a65645d1eaa9a7ed693528c50b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:09 +0000
Subject: [PATCH 12/49] fix: detached and dropped message connections are
 forgotten everywhere before they are freed

---
 src/GraphCtrl/GraphMessage/GMessageManager.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphMessage/GMessageManager.h b/src/GraphCtrl/GraphMessage/GMessageManager.h
index 733a1dc..30c8c56 100644
--- a/src/GraphCtrl/GraphMessage/GMessageManager.h
+++ b/src/GraphCtrl/GraphMessage/GMessageManager.h
@@ -177,8 +177,9 @@ public:
         auto& messageSet = result->second;
         for (auto* msg : messageSet) {
             if (connId == msg->getConnId()) {
-                CGRAPH_DELETE_PTR(msg);
+                messageSet.erase(msg);    // 需要同时从topic对应的集合中删除，否则会再次访问到已释放的信息
                 conn_message_map_.erase(connId);
+                CGRAPH_DELETE_PTR(msg);
                 break;
             }
         }
@@ -250,6 +251,7 @@ public:
 
         auto& messageSet = result->second;
         for (auto* msg : messageSet) {
+            conn_message_map_.erase(msg->getConnId());
             CGRAPH_DELETE_PTR(msg)
         }
         pub_sub_message_map_.erase(innerTopic);
-- 
2.43.0


From 7673494fc8b6d831d9333f960b154e93d6d83020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:44 +0000
Subject: [PATCH 13/49] fix: the lock free ring buffer queue compiles and moves
 its entries

---
 src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
index a5efc7a..f860583 100644
--- a/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
+++ b/src/UtilsCtrl/ThreadPool/Queue/ULockFreeRingBufferQueue.h
@@ -11,6 +11,7 @@
 
 #include <atomic>
 #include <memory>
+#include <vector>
 
 #include "UQueueObject.h"
 
@@ -42,7 +43,7 @@ public:
             CGRAPH_YIELD();
         }
 
-        ring_buffer_[curTail] = std::move(value);
+        ring_buffer_[curTail] = c_make_unique<T>(std::move(value));
         tail_.store(nextTail, std::memory_order_release);
     }
 
@@ -58,7 +59,8 @@ public:
             return false;
         }
 
-        value = std::move(ring_buffer_[curHead]);
+        value = std::move(*ring_buffer_[curHead]);
+        ring_buffer_[curHead].reset();
 
         const int nextHead = (curHead + 1) % CAPACITY;
         head_.store(nextHead, std::memory_order_release);
-- 
2.43.0


From 29574794106bc1cf5571b2a88ab6f377bf5db9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:11 +0000
Subject: [PATCH 14/49] fix: a semaphore waits until it was signalled

---
 src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
index 5247a9a..ff0a607 100644
--- a/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
+++ b/src/UtilsCtrl/ThreadPool/Semaphore/USemaphore.h
@@ -24,9 +24,7 @@ public:
     CVoid signal() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
         cnt_++;
-        if (cnt_ <= 0) {
-            cv_.notify_one();
-        }
+        cv_.notify_one();
     }
 
     /**
@@ -34,10 +32,10 @@ public:
      */
     CVoid wait() {
         CGRAPH_UNIQUE_LOCK lk(mutex_);
-        cnt_--;
         cv_.wait(lk, [this] {
-            return cnt_ < 0;
+            return cnt_ > 0;
         });
+        cnt_--;
     }
 
 private:
-- 
2.43.0


From e7fe5e4dd36658cf2463dadf968d3d15a24104ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 15/49] fix: the result of an asynchronous element can be
 waited for by several threads

---
 src/GraphCtrl/GraphElement/GElement.cpp       | 23 ++++++++++++++-----
 src/GraphCtrl/GraphElement/GElement.h         |  5 ++--
 .../GraphElement/GElementRepository.cpp       |  6 +++++
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index cb35007..6cc630a 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -536,13 +536,17 @@ CStatus GElement::asyncRun() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!isAsync(), "[" + name_ + "] cannot async run.")
 
-    async_result_ = thread_pool_->commit([this] {
+    const std::shared_future<CStatus> result = thread_pool_->commit([this] {
         return run();
-    }, CGRAPH_POOL_TASK_STRATEGY);
+    }, CGRAPH_POOL_TASK_STRATEGY).share();
+    {
+        CGRAPH_LOCK_GUARD lock(async_mtx_);
+        async_result_ = result;
+    }
 
-    const auto& futStatus = async_result_.wait_for(std::chrono::milliseconds(timeout_));
+    const auto& futStatus = result.wait_for(std::chrono::milliseconds(timeout_));
     if (std::future_status::ready == futStatus) {
-        status = getAsyncResult();
+        status = result.get();
     } else {
         doAspect(internal::GAspectType::ENTER_TIMEOUT);
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION( GElementTimeoutStrategy::AS_ERROR == timeout_strategy_,    \
@@ -556,8 +560,15 @@ CStatus GElement::asyncRun() {
 
 CStatus GElement::getAsyncResult() {
     CGRAPH_FUNCTION_BEGIN
-    if (async_result_.valid()) {
-        status = async_result_.get();    // 这里的get和valid方法，都是线程安全的
+    std::shared_future<CStatus> result;
+    {
+        // future 对象本身不是线程安全的，故每个等待的线程，都使用自己的拷贝
+        CGRAPH_LOCK_GUARD lock(async_mtx_);
+        result = async_result_;
+    }
+
+    if (result.valid()) {
+        status = result.get();
     }
 
     CGRAPH_FUNCTION_END
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index 1741d1a..e77a2f3 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -409,7 +409,7 @@ private:
      * 异步获取结果信息
      * @return
      */
-    CStatus getAsyncResult();
+    virtual CStatus getAsyncResult();
 
     /**
      * 判断当前节点，是否符合执行逻辑。主要用于init的早期阶段
@@ -469,7 +469,8 @@ private:
     std::vector<GElement *> children_ {};                                     // 子节点，适用于group类型
 
     /** 异步执行相关信息 */
-    std::future<CStatus> async_result_;                                       // 用于记录当前节点的异步执行情况
+    std::shared_future<CStatus> async_result_;                                // 用于记录当前节点的异步执行情况
+    std::mutex async_mtx_;                                                    // async_result_ 可能被多个线程（fence、pipeline等）同时访问
     UCvMutex suspend_locker_;                                                 // 控制停止执行锁信息
 
     friend class GNode;
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 77ad54f..af7c9bc 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -59,6 +59,12 @@ CStatus GElementRepository::reset() {
         }
     }
 
+    for (auto& cur : async_elements_) {
+        // 本轮的结果已经被获取，不带入下一轮
+        CGRAPH_LOCK_GUARD lock(cur->async_mtx_);
+        cur->async_result_ = std::shared_future<CStatus>();
+    }
+
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From 7dcdad35f168a91a9b000bbcf41e00dcab235710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:41 +0000
Subject: [PATCH 16/49] fix: a some-group leaves nothing running behind its
 pipeline run or repetition

---
 .../GraphElement/GElementRepository.cpp       |  3 +-
 .../GraphElement/GGroup/GSome/GSome.cpp       | 49 ++++++++++++++-----
 .../GraphElement/GGroup/GSome/GSome.h         |  3 ++
 3 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index af7c9bc..794a72b 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -136,7 +136,8 @@ CStatus GElementRepository::init() {
         CGRAPH_FUNCTION_CHECK_STATUS
         element->updateAspectInfo();
 
-        if (element->isAsync()) {
+        if (element->isAsync() || GElementType::SOME == element->element_type_) {
+            // some 结束的时候，内部可能有未执行完的 element，也需要在 pipeline 结束之前等待
             async_elements_.emplace(element);
         }
     }
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
index a39d284..8f8528a 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.cpp
@@ -16,6 +16,7 @@ CGRAPH_NAMESPACE_BEGIN
 GSome::GSome() {
     element_type_ = GElementType::SOME;
     binding_index_ = CGRAPH_TRIGGER_ALL_THREAD_STRATEGY;
+    timeout_strategy_ = GElementTimeoutStrategy::HOLD_BY_PIPELINE;
     session_ = URandom<>::generateSession(CGRAPH_STR_SOME);
 }
 
@@ -40,10 +41,24 @@ CStatus GSome::addElementEx(GElementPtr element) {
 CStatus GSome::run()  {
     CGRAPH_FUNCTION_BEGIN
 
-    wait_num_ = static_cast<CInt>(getWaitNum());
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(wait_num_ > children_.size(),
+    const CSize waitNum = getWaitNum();
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(waitNum > children_.size(),
         "num is bigger than elements size.");
-    cur_status_.reset();
+
+    {
+        // 上一次执行的时候，未执行完的 element，不可以影响到这一次
+        CGRAPH_UNIQUE_LOCK lock(lock_);
+        cv_.wait(lock, [this] { return 0 == running_num_; });
+        wait_num_ = static_cast<CInt>(waitNum);
+        running_num_ = children_.size();
+        cur_status_.reset();
+    }
+
+    for (auto* element : children_) {
+        element->done_ = false;
+        auto state = GElementState::TIMEOUT;
+        element->cur_state_.compare_exchange_strong(state, GElementState::NORMAL);
+    }
 
     /**
      * 1. 并发的执行，其中的所有逻辑信息
@@ -53,14 +68,13 @@ CStatus GSome::run()  {
      */
     for (auto* element : children_) {
         thread_pool_->execute([this, element] {
-            {
-                const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
-                CGRAPH_UNIQUE_LOCK lock(lock_);
-                cur_status_ += curStatus;
-                if (--wait_num_ <= 0 || cur_status_.isErr()) {
-                    cv_.notify_one();
-                }
-            }
+            const auto& curStatus = element->fatProcessor(CFunctionType::RUN);
+            CGRAPH_UNIQUE_LOCK lock(lock_);
+            element->done_ = true;
+            cur_status_ += curStatus;
+            --wait_num_;
+            --running_num_;
+            cv_.notify_all();
         }, binding_index_);
     }
 
@@ -79,6 +93,19 @@ CStatus GSome::run()  {
 }
 
 
+CStatus GSome::getAsyncResult() {
+    CGRAPH_FUNCTION_BEGIN
+    status = GElement::getAsyncResult();
+
+    // 等待内部所有的 element 执行完成
+    CGRAPH_UNIQUE_LOCK lock(lock_);
+    cv_.wait(lock, [this] { return 0 == running_num_; });
+    status += cur_status_;
+    cur_status_.reset();
+    CGRAPH_FUNCTION_END
+}
+
+
 CBool GSome::isSerializable() const {
     return false;    // 情况较为复杂，默认不可以
 }
diff --git a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
index f8c8b0b..0f1640f 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
+++ b/src/GraphCtrl/GraphElement/GGroup/GSome/GSome.h
@@ -42,8 +42,11 @@ protected:
 
     CStatus addElementEx(GElementPtr element) override;
 
+    CStatus getAsyncResult() override;
+
 private:
     CInt wait_num_ {0};                        // 还剩的触发结束的个数
+    CSize running_num_ {0};                    // 还未执行完成的个数
     CStatus cur_status_ ;                      // 记录异步时刻的当前状态信息
 
     std::mutex lock_;
-- 
2.43.0


From 08761a96a6d43e7208f52fe58a1f4145dd9132ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 17/49] fix: a mutable group whose reshape built a cycle runs
 nothing

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index ac4e2b9..1dade39 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -182,8 +182,10 @@ CStatus GElementManager::process(const GSortedGElementPtrSet& elements) {
     CGRAPH_ASSERT_NOT_NULL(engine_)
 
     // 主要是给 mutable 使用
-    status += engine_->setup(elements);
-    status += run();
+    status = engine_->setup(elements);
+    CGRAPH_FUNCTION_CHECK_STATUS    // 图结构异常（如，有环）的情况，不可以执行
+
+    status = run();
     CGRAPH_FUNCTION_END
 }
 
-- 
2.43.0


From a97f94ad4899f135184aedda43b8e5f4960c8745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 18/49] fix: notifications to be awaited by destroy are not
 dropped with the thread pool

---
 src/GraphCtrl/GraphEvent/GEventManager.cpp | 10 ++++++++++
 src/GraphCtrl/GraphEvent/GEventManager.h   |  6 ++++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp  |  3 ++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphEvent/GEventManager.cpp b/src/GraphCtrl/GraphEvent/GEventManager.cpp
index 032f9fa..38aeee8 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.cpp
+++ b/src/GraphCtrl/GraphEvent/GEventManager.cpp
@@ -90,6 +90,16 @@ CStatus GEventManager::reset() {
 }
 
 
+CStatus GEventManager::waitFinish() {
+    CGRAPH_FUNCTION_BEGIN
+    for (auto& iter : events_map_) {
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_RUN_FINISH);
+        iter.second->asyncWait(GEventAsyncStrategy::PIPELINE_DESTROY);
+    }
+    CGRAPH_FUNCTION_END
+}
+
+
 CStatus GEventManager::__create_4py(GEventPtr event, const std::string& key) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(event)
diff --git a/src/GraphCtrl/GraphEvent/GEventManager.h b/src/GraphCtrl/GraphEvent/GEventManager.h
index cffa85b..8a1d8db 100644
--- a/src/GraphCtrl/GraphEvent/GEventManager.h
+++ b/src/GraphCtrl/GraphEvent/GEventManager.h
@@ -66,6 +66,12 @@ protected:
 
     CStatus reset() final;
 
+    /**
+     * 等待所有策略的异步事件执行结束（NO_WAIT 除外）
+     * @return
+     */
+    CStatus waitFinish();
+
     CGRAPH_NO_ALLOWED_COPY(GEventManager)
 
 private:
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 39f97ed..527ea08 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -88,11 +88,12 @@ CStatus GPipeline::destroy() {
      * 否则的话，在错误status累积的情况下，在windows平台上，会产生崩溃
      */
     status += repository_.destroy();
+    status += daemon_manager_->destroy();    // 先停止守护，避免在线程池析构的时候，继续触发异步事件
+    status += event_manager_->waitFinish();    // 异步事件在线程池中执行，需要在线程池析构之前，等待其执行结束
     status += schedule_.destroy();
     CGRAPH_FUNCTION_CHECK_STATUS
 
     status += event_manager_->destroy();
-    status += daemon_manager_->destroy();
     status += element_manager_->destroy();
     status += stage_manager_->destroy();
     status += param_manager_->destroy();
-- 
2.43.0


From ee1c2be7d5f44d8f53d83acfce36b39ccc976e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 19/49] fix: a waiter of a stage round is not kept by arrivals
 of the next round

---
 src/GraphCtrl/GraphStage/GStage.cpp | 7 +++++--
 src/GraphCtrl/GraphStage/GStage.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphStage/GStage.cpp b/src/GraphCtrl/GraphStage/GStage.cpp
index d0d2197..551dea4 100644
--- a/src/GraphCtrl/GraphStage/GStage.cpp
+++ b/src/GraphCtrl/GraphStage/GStage.cpp
@@ -37,12 +37,15 @@ CVoid GStage::waiting() {
         // 如果超过了 threshold，则打开全部
         launch(param_);
         cur_value_ = 0;
+        cur_round_++;
         locker_.cv_.notify_all();
         return;
     }
 
-    locker_.cv_.wait(lk, [this] {
-        return 0 == cur_value_ || cur_value_ >= threshold_;
+    // 通过轮次判断，避免被唤醒之前，下一轮已经有新的到达者
+    const CSize round = cur_round_;
+    locker_.cv_.wait(lk, [this, round] {
+        return round != cur_round_;
     });
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStage.h b/src/GraphCtrl/GraphStage/GStage.h
index fdc26db..67f9488 100644
--- a/src/GraphCtrl/GraphStage/GStage.h
+++ b/src/GraphCtrl/GraphStage/GStage.h
@@ -61,6 +61,7 @@ private:
 private:
     CInt threshold_ { 0 };                // 阈值信息
     CInt cur_value_ { 0 };                // 当前值
+    CSize cur_round_ { 0 };               // 当前轮次，每次解开的时候加1
     GStageParamPtr param_ { nullptr };    // 参数信息
     UCvMutex locker_;
 
-- 
2.43.0


From f6f13a5a0d6d7b9a2a7652e89ff262ca17da1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 20/49] fix: stopping a timer does not miss its thread between
 the check and the wait

---
 src/UtilsCtrl/Timer/UTimer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/UtilsCtrl/Timer/UTimer.h b/src/UtilsCtrl/Timer/UTimer.h
index f85c715..a8f21db 100644
--- a/src/UtilsCtrl/Timer/UTimer.h
+++ b/src/UtilsCtrl/Timer/UTimer.h
@@ -45,6 +45,9 @@ public:
         future_ = std::async(std::launch::async, [this, task, modify]() {
              while (!is_stop_) {
                  CGRAPH_UNIQUE_LOCK lk(mutex_);
+                 if (is_stop_) {
+                     break;    // 加锁之前已经被停止，不会再收到通知信息
+                 }
                  auto result = cv_.wait_for(lk, std::chrono::milliseconds(left_interval_));
                  if (std::cv_status::timeout == result && !is_stop_) {
                      CMSec start = CGRAPH_GET_CURRENT_MS();
@@ -79,6 +82,9 @@ public:
             return;
         }
 
+        {
+            CGRAPH_LOCK_GUARD lk(mutex_);    // 确保 cv_ 已经进入等待，或者可以读到停止的信息
+        }
         cv_.notify_one();
         future_.wait();
     }
-- 
2.43.0


From 788843bd41089a53b8369a05c16b296cdc15aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 21/49] fix: the pipeline manager takes a pipeline back whose
 run threw

---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index d4f7a6b..ec45ba1 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -41,7 +41,12 @@ CStatus GPipelineManager::run() {
      * 这里执行，是外部线程执行的。获取的status就是这个pipeline run的结果
      * 无论如何，执行完成之后，都要将pipeline返回到 free_list 中去
      */
-    status = pipeline->run();
+    try {
+        status = pipeline->run();
+    } catch (...) {
+        release(pipeline);
+        throw;
+    }
     status += release(pipeline);
 
     CGRAPH_FUNCTION_END
-- 
2.43.0


From 7d6993e382e85844a3ee315af9729fc412bd90de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 22/49] fix: a pipeline is added to the pipeline manager once

---
 src/GraphCtrl/GraphPipeline/GPipelineManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
index ec45ba1..8405880 100644
--- a/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipelineManager.cpp
@@ -77,6 +77,8 @@ CStatus GPipelineManager::add(GPipelinePtr ptr) {
 
     {
         CGRAPH_LOCK_GUARD lk(mutex_);
+        // 不可以重复添加，否则同一个 pipeline 会被分配给多个使用者
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(find(ptr), "pipeline add duplicate")
         free_list_.push_back(ptr);
     }
 
-- 
2.43.0


From 4e4f50f94a92ed334494429f1617086921636ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 23/49] fix: an element reached while the pipeline is suspended
 runs after resume

---
 src/GraphCtrl/GraphElement/GElement.cpp | 13 ++++++++++++-
 src/GraphCtrl/GraphElement/GElement.h   |  6 ++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 6cc630a..033e65a 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -239,7 +239,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                     is_prepared_ = true;
                 }
 
-                for (CSize i = 0; i < this->loop_ && status.isOK() && GElementState::NORMAL == this->getCurState(); i++) {
+                for (CSize i = 0; i < this->loop_ && status.isOK() && this->checkRunnable(); i++) {
                     /** 执行带切面的run方法 */
                     status += doAspect(internal::GAspectType::BEGIN_RUN);
                     CGRAPH_FUNCTION_CHECK_STATUS
@@ -450,6 +450,17 @@ CVoid GElement::checkSuspend() {
 }
 
 
+CBool GElement::checkRunnable() {
+    auto state = getCurState();
+    while (GElementState::SUSPEND == state) {
+        checkSuspend();
+        state = getCurState();
+    }
+
+    return GElementState::NORMAL == state;
+}
+
+
 CBool GElement::isGGroup() const {
     // 按位与 GROUP有值，表示是 GROUP的逻辑
     return (static_cast<long>(element_type_) & static_cast<long>(GElementType::GROUP)) > 0;
diff --git a/src/GraphCtrl/GraphElement/GElement.h b/src/GraphCtrl/GraphElement/GElement.h
index e77a2f3..c6d25a6 100644
--- a/src/GraphCtrl/GraphElement/GElement.h
+++ b/src/GraphCtrl/GraphElement/GElement.h
@@ -387,6 +387,12 @@ private:
      */
     CVoid checkSuspend();
 
+    /**
+     * 判断是否可以（继续）执行。如果处于 suspend 状态，则等待恢复之后再判断，而不是直接跳过
+     * @return
+     */
+    CBool checkRunnable();
+
     /**
      * 判断当前元素，是否可以线性执行。默认返回true
      * @return
-- 
2.43.0


From 3edbd1b6bdda120555e4990b448dbc0055b29523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 24/49] fix: resume and cancel always wake a suspended element

---
 src/GraphCtrl/GraphElement/GElementRepository.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index 794a72b..afcf348 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -76,7 +76,11 @@ CStatus GElementRepository::pushAllState(const GElementState& state) {
     }
 
     for (auto& cur : elements_) {
-        cur->cur_state_.store(state, std::memory_order_release);
+        {
+            // 加锁，避免对方在判断状态之后、进入等待之前，丢失通知信息
+            CGRAPH_LOCK_GUARD lk(cur->suspend_locker_.mtx_);
+            cur->cur_state_.store(state, std::memory_order_release);
+        }
         if (GElementState::SUSPEND != state) {
             // 目前仅非 suspend 状态，需要切换的。如果一直处于 suspend 状态，是不需要被通知的
             cur->suspend_locker_.cv_.notify_one();
-- 
2.43.0


From 55e0124209bd4e28d21fed258b0efd4386a6f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 25/49] fix: cancel ends the repetition of a held element

---
 src/GraphCtrl/GraphElement/GElement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 033e65a..006bda7 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -251,7 +251,7 @@ CStatus GElement::fatProcessor(const CFunctionType& type) {
                          * 默认所有element的isHold条件均为false，即不hold，即执行一次
                          * 可以根据需求，对任意element类型，添加特定的isHold条件
                          * */
-                    } while (checkSuspend(), isHold() && status.isOK());
+                    } while (checkSuspend(), GElementState::CANCEL != this->getCurState() && isHold() && status.isOK());
                     (void)doAspect(internal::GAspectType::FINISH_RUN, status);
                 }
 
-- 
2.43.0


From abdedb79116ef31d1fa5e46b7ecfaac00d897700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:47 +0000
Subject: [PATCH 26/49] fix: cancel and suspend between the rounds of process,
 or right after asyncRun, are not overwritten

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 22 +++++++++++++++++++---
 src/GraphCtrl/GraphPipeline/GPipeline.h   |  6 ++++++
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 527ea08..8154c81 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -66,6 +66,17 @@ CStatus GPipeline::run() {
      * 6. 将所有的 GParam 复原
      */
     status += repository_.setup();
+    CGRAPH_FUNCTION_CHECK_STATUS
+
+    status = innerRun();
+    CGRAPH_FUNCTION_END
+}
+
+
+CStatus GPipeline::innerRun() {
+    CGRAPH_FUNCTION_BEGIN
+    CGRAPH_ASSERT_INIT(true)
+
     status += param_manager_->setup();
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -116,8 +127,9 @@ CStatus GPipeline::process(CSize runTimes) {
          * 1. 执行轮数（runTimes）没有结束
          * 2. 执行结果正常
          * 3. 没有进入取消状态
+         * init 的时候，已经设定为 NORMAL 状态。这里不再重复设定，避免覆盖多轮之间的 cancel 和 suspend 信息
          */
-        status += run();
+        status += innerRun();
     }
 
     status += destroy();
@@ -160,12 +172,16 @@ CStatus GPipeline::registerGGroup(GElementPPtr groupRef, const GElementPtrSet &d
 std::future<CStatus> GPipeline::asyncRun(std::launch policy) {
     /**
      * 1. 确认当前pipeline已经初始化完毕
-     * 2. 异步的执行 run() 方法，并且返回执行结果的 future 信息
+     * 2. 将所有 GElement 的状态设定为 NORMAL，返回之后的 cancel 和 suspend 信息，不会再被覆盖
+     * 3. 异步的执行 run() 中的逻辑，并且返回执行结果的 future 信息
      */
+    CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_INIT_THROW_ERROR(true)
+    status = repository_.setup();
+    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
 
     return std::async(policy, [this] {
-        return run();
+        return innerRun();
     });
 }
 
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index 494b9c2..4c8e9a2 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -426,6 +426,12 @@ private:
      */
     CStatus initEnv();
 
+    /**
+     * 执行一次 dag 逻辑，不重新设定 GElement 的状态
+     * @return
+     */
+    CStatus innerRun();
+
     /**
      * 内部真实一个 element 信息
      * @param element
-- 
2.43.0


From 463a7655e07484bf9339f3e550cba29c63a6a9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 27/49] fix: a serial pipeline runs its chain on the calling
 thread whatever its elements are

---
 .../GDynamicEngine/GDynamicEngine.cpp         | 21 ++++++++++++++++++-
 .../_GEngine/GDynamicEngine/GDynamicEngine.h  |  6 ++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
index 6b66fea..99411ba 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.cpp
@@ -6,6 +6,8 @@
 @Desc: 
 ***************************/
 
+#include <algorithm>
+
 #include "GDynamicEngine.h"
 
 CGRAPH_NAMESPACE_BEGIN
@@ -84,7 +86,8 @@ CVoid GDynamicEngine::mark(const GSortedGElementPtrSet& elements) {
 
 CVoid GDynamicEngine::analysisDagType() {
     if (total_element_arr_.empty()
-       || (front_element_arr_.size() == 1 && total_element_arr_.size() - 1 == linked_size_)) {
+       || (front_element_arr_.size() == 1 && total_element_arr_.size() - 1 == linked_size_)
+       || isThreadlessChain()) {
         /**
          * 如果所有的信息中，只有一个是非linkable。则说明只有最后的那个是的，且只有一个开头
          * 故，这里将其认定为一条 lineal 的情况
@@ -100,6 +103,22 @@ CVoid GDynamicEngine::analysisDagType() {
 }
 
 
+CBool GDynamicEngine::isThreadlessChain() const {
+    /**
+     * 在 makeSerial 的情况下，线程池中没有线程可用，所有的 element（包括绑定线程的）仅可在当前线程中，依次执行
+     */
+    if (nullptr == thread_pool_ || 1 != front_element_arr_.size()
+        || thread_pool_->getConfig().default_thread_size_ + thread_pool_->getConfig().secondary_thread_size_ > 0) {
+        return false;
+    }
+
+    return std::all_of(total_element_arr_.begin(), total_element_arr_.end(),
+                       [](GElementPtr element) {
+        return element->run_before_.size() <= 1 && element->dependence_.size() <= 1;
+    });
+}
+
+
 CVoid GDynamicEngine::analysisParallelMatrix() {
     parallel_element_matrix_.clear();
     const auto& config = thread_pool_ ? thread_pool_->getConfig() : UThreadPoolConfig();
diff --git a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
index 10894d1..7b14476 100644
--- a/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
+++ b/src/GraphCtrl/GraphElement/_GEngine/GDynamicEngine/GDynamicEngine.h
@@ -36,6 +36,12 @@ protected:
      */
     CVoid analysisDagType();
 
+    /**
+     * 判断是否为没有线程可用（makeSerial）情况下的链式结构
+     * @return
+     */
+    CBool isThreadlessChain() const;
+
     /**
      * 解析纯并行的情况下，元素矩阵
      * @return
-- 
2.43.0


From 254f0cf30407a4b824b5e577ef8f5cc78340a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 28/49] fix: makeSerial refuses groups with asynchronous
 elements

---
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index a4deac3..ba7820a 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -94,7 +94,7 @@ CBool GGroup::isSerializable() const {
      */
     return std::all_of(children_.begin(), children_.end(),
                        [](GElementPtr element) {
-        return element->isSerializable();
+        return element->isSerializable() && !element->isAsync();
     });
 }
 
-- 
2.43.0


From 8adf8c2f2ad692bcb680bc12bbdc2bed568e7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:07 +0000
Subject: [PATCH 29/49] fix: a parallel multi-condition with one child needs no
 worker thread

---
 .../GraphElement/GGroup/GCondition/GMultiCondition.inl         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
index 3c32bbd..29fbdad 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
+++ b/src/GraphCtrl/GraphElement/GGroup/GCondition/GMultiCondition.inl
@@ -33,7 +33,8 @@ CStatus GMultiCondition<type>::run() {
             status = serialRun();
             break;
         case GMultiConditionType::PARALLEL:
-            status = parallelRun();
+            // 仅有一个元素的情况，无需进入线程池（与 isSerializable() 中的判定保持一致）
+            status = this->children_.size() > 1 ? parallelRun() : serialRun();
             break;
         default:
             CGRAPH_RETURN_ERROR_STATUS("unknown multi condition type")
-- 
2.43.0


From 814dcd749b5398bc4a4c6b65a1ab45241f400d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 30/49] fix: a refused dependency set leaves nothing recorded

---
 src/GraphCtrl/GraphElement/GElement.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index 006bda7..da00a90 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -162,6 +162,10 @@ CStatus GElement::addDependGElements(const GElementPtrSet& elements) {
         CGRAPH_ASSERT_NOT_NULL(element)
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((element->belong_ != this->belong_),    \
         element->getName() + " cannot depend because not same belong info")
+    }
+
+    // 所有的依赖信息，均校验通过之后，再统一写入。避免出错的时候，仅写入了一部分
+    for (GElementPtr element: elements) {
         if (this == element) {
             continue;
         }
-- 
2.43.0


From e034270884e3ace148336f58afcb2b6b3010e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 31/49] fix: a relation with an element that is not registered
 in the same place is refused by init

---
 src/GraphCtrl/GraphElement/GElementManager.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/GraphCtrl/GraphElement/GElementManager.cpp b/src/GraphCtrl/GraphElement/GElementManager.cpp
index 1dade39..4a8ebb3 100644
--- a/src/GraphCtrl/GraphElement/GElementManager.cpp
+++ b/src/GraphCtrl/GraphElement/GElementManager.cpp
@@ -6,6 +6,8 @@
 @Desc: 
 ***************************/
 
+#include <algorithm>
+
 #include "GElementManager.h"
 #include "_GOptimizer/GOptimizerInclude.h"
 
@@ -112,6 +114,16 @@ CStatus GElementManager::initEngine() {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_DELETE_PTR(engine_)
 
+    const auto& allManaged = [this](const GElementPtrArr& arr) {
+        return std::all_of(arr.begin(), arr.end(), [this](GElementPtr cur) { return find(cur); });
+    };
+    for (auto* element : manager_elements_) {
+        // 前驱和后继，不可以是未注册的，或者注册到其他地方的 element
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!allManaged(element->dependence_.asVector())
+                                                || !allManaged(element->run_before_.asVector()),
+                                                "[" + element->getName() + "] has relation with element which is not registered here")
+    }
+
     switch (engine_type_) {
         case GEngineType::DYNAMIC : engine_ = CGRAPH_SAFE_MALLOC_COBJECT(GDynamicEngine) break;
         case GEngineType::TOPO: engine_ = CGRAPH_SAFE_MALLOC_COBJECT(GTopoEngine) break;
-- 
2.43.0


From 4cf78c073705dfbda4087e532dcc89dab338ef9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 32/49] fix: registering a group that was not created is an
 error

---
 src/GraphCtrl/GraphPipeline/GPipeline.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index bb26dc6..0dc2d2d 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -31,8 +31,8 @@ CStatus GPipeline::registerGElement(GElementPPtr elementRef,
          * 2，未被注册到其他的pipeline中
          * 3，group 类型必须正确
          */
-        if ((*elementRef) != nullptr
-            && ((*elementRef)->isRegistered())) {
+        CGRAPH_ASSERT_NOT_NULL(*elementRef)
+        if ((*elementRef)->isRegistered()) {
             CGRAPH_RETURN_ERROR_STATUS("this group register duplicate")
         }
 
-- 
2.43.0


From 93a9e80a094e72d4b2747a4dc1eb6f39cdade01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:13 +0000
Subject: [PATCH 33/49] fix: a second stage with the same key is refused
 instead of leaked

---
 src/GraphCtrl/GraphPipeline/GPipeline.inl | 5 ++++-
 src/GraphCtrl/GraphStage/GStageManager.h  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index 0dc2d2d..ffd7d33 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -252,12 +252,15 @@ template<typename TStage, typename TParam,
         c_enable_if_t<std::is_base_of<GStage, TStage>::value, int>,
         c_enable_if_t<std::is_base_of<GStageParam, TParam>::value, int>>
 GPipelinePtr GPipeline::addGStage(const std::string& key, CInt threshold, TParam* param) {
+    CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_INIT_THROW_ERROR(false)
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(stage_manager_, param_manager_)
     CGRAPH_THROW_EXCEPTION_BY_CONDITION(threshold <= 0, "threshold value must bigger than 0")
 
     stage_manager_->setGParamManager(param_manager_);
-    stage_manager_->create<TStage, TParam>(key, threshold, param);
+    status = stage_manager_->create<TStage, TParam>(key, threshold, param);
+    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
+
     return this;
 }
 
diff --git a/src/GraphCtrl/GraphStage/GStageManager.h b/src/GraphCtrl/GraphStage/GStageManager.h
index 911ce4d..2069f15 100644
--- a/src/GraphCtrl/GraphStage/GStageManager.h
+++ b/src/GraphCtrl/GraphStage/GStageManager.h
@@ -64,6 +64,9 @@ protected:
             c_enable_if_t<std::is_base_of<GStageParam, TParam>::value, int> = 0>
     CStatus create(const std::string& key, CInt threshold, TParam* param) {
         CGRAPH_FUNCTION_BEGIN
+        CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(stage_map_.end() != stage_map_.find(key),
+                                                "stage [" + key + "] has been register")
+
         GStagePtr stage = CGRAPH_SAFE_MALLOC_COBJECT(TStage);
         stage->setThreshold(threshold);
         stage->setSParam(param);
-- 
2.43.0


From b45fc5fb11a5cac2d4a103d76d9f5226b29dfca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:53 +0000
Subject: [PATCH 34/49] fix: the children of every kind of group know that they
 are initialised

---
 src/GraphCtrl/GraphElement/GGroup/GGroup.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
index ba7820a..b5ca132 100644
--- a/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
+++ b/src/GraphCtrl/GraphElement/GGroup/GGroup.cpp
@@ -19,7 +19,11 @@ CStatus GGroup::init() {
 
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
-        status += element->fatProcessor(CFunctionType::INIT);
+        const CStatus& curStatus = element->fatProcessor(CFunctionType::INIT);
+        if (curStatus.isNotErr()) {
+            element->is_init_ = true;
+        }
+        status += curStatus;
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
@@ -33,7 +37,11 @@ CStatus GGroup::destroy() {
 
     for (GElementPtr element : children_) {
         CGRAPH_ASSERT_NOT_NULL(element)
-        status += element->fatProcessor(CFunctionType::DESTROY);
+        const CStatus& curStatus = element->fatProcessor(CFunctionType::DESTROY);
+        if (curStatus.isNotErr()) {
+            element->is_init_ = false;
+        }
+        status += curStatus;
     }
     CGRAPH_FUNCTION_CHECK_STATUS
 
-- 
2.43.0


From a6dcb523143ef734111118bf8ff61b232d79e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 35/49] fix: a pipeline whose init failed can be changed and
 initialised again

---
 .../GraphElement/GElementRepository.cpp       |  7 +++++
 .../GraphElement/GElementRepository.h         |  6 +++++
 src/GraphCtrl/GraphPipeline/GPipeline.cpp     | 26 +++++++++++++++----
 src/GraphCtrl/GraphPipeline/GPipeline.h       |  6 +++++
 4 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElementRepository.cpp b/src/GraphCtrl/GraphElement/GElementRepository.cpp
index afcf348..65e7c46 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.cpp
+++ b/src/GraphCtrl/GraphElement/GElementRepository.cpp
@@ -116,6 +116,13 @@ CVoid GElementRepository::fetch(GElementPtr element) {
 }
 
 
+CVoid GElementRepository::resetInit() {
+    for (auto* cur : elements_) {
+        cur->is_init_ = false;
+    }
+}
+
+
 CBool GElementRepository::isCancelState() const {
     /**
      * 因为每次执行的时候，都需要判断一下这个状态是否为 cancel
diff --git a/src/GraphCtrl/GraphElement/GElementRepository.h b/src/GraphCtrl/GraphElement/GElementRepository.h
index 1b6cf17..627174f 100644
--- a/src/GraphCtrl/GraphElement/GElementRepository.h
+++ b/src/GraphCtrl/GraphElement/GElementRepository.h
@@ -73,6 +73,12 @@ private:
      */
     CVoid fetch(GElementPtr element);
 
+    /**
+     * 将所有的 element 恢复成未初始化的状态。用于 init 失败之后，可以再次被 init
+     * @return
+     */
+    CVoid resetInit();
+
     /**
      * 用于判断是否是出于退出状态
      * @return
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 8154c81..7a57a8b 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -38,17 +38,33 @@ CStatus GPipeline::init() {
     CGRAPH_ASSERT_INIT(false)    // 必须是非初始化的状态下，才可以初始化。反之同理
     CGRAPH_ASSERT_NOT_NULL(element_manager_, param_manager_, daemon_manager_, event_manager_, stage_manager_)
 
-    status += initEnv();
-    CGRAPH_FUNCTION_CHECK_STATUS
+    try {
+        status += initEnv();
+        CGRAPH_FUNCTION_CHECK_STATUS
+
+        status += initManagers();
+    } catch (const CException&) {
+        repository_.resetInit();
+        throw;
+    }
+
+    if (status.isErr()) {
+        repository_.resetInit();    // 初始化失败的情况下，仍可以被修改，并且再次初始化
+        return status;
+    }
 
+    is_init_ = true;
+    CGRAPH_FUNCTION_END
+}
+
+
+CStatus GPipeline::initManagers() {
+    CGRAPH_FUNCTION_BEGIN
     status += param_manager_->init();
     status += event_manager_->init();
     status += element_manager_->init();
     status += stage_manager_->init();
     status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    is_init_ = true;
     CGRAPH_FUNCTION_END
 }
 
diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.h b/src/GraphCtrl/GraphPipeline/GPipeline.h
index 4c8e9a2..bb3fb86 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.h
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.h
@@ -426,6 +426,12 @@ private:
      */
     CStatus initEnv();
 
+    /**
+     * 初始化所有的管理类信息
+     * @return
+     */
+    CStatus initManagers();
+
     /**
      * 执行一次 dag 逻辑，不重新设定 GElement 的状态
      * @return
-- 
2.43.0


From 3665358a4eec129d9ab82efb0d9f4846fa7b884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:45 +0000
Subject: [PATCH 36/49] fix: a failed init does not start the daemons

---
 src/GraphCtrl/GraphPipeline/GPipeline.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.cpp b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
index 7a57a8b..aa06381 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.cpp
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.cpp
@@ -64,6 +64,8 @@ CStatus GPipeline::initManagers() {
     status += event_manager_->init();
     status += element_manager_->init();
     status += stage_manager_->init();
+    CGRAPH_FUNCTION_CHECK_STATUS    // 如果初始化失败，则不启动daemon
+
     status += daemon_manager_->init();    // daemon的初始化，需要晚于所有element的初始化
     CGRAPH_FUNCTION_END
 }
-- 
2.43.0


From 7542f4a12019a09ce9cf93044586852af2c4bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 37/49] fix: perf restores the pipeline when the run failed

---
 src/GraphCtrl/GraphElement/GElement.cpp      |  1 -
 src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp | 26 +++++++++++++++-----
 src/GraphCtrl/GraphPipeline/_GPerf/GPerf.h   |  8 ++++++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphElement/GElement.cpp b/src/GraphCtrl/GraphElement/GElement.cpp
index da00a90..257e5ff 100644
--- a/src/GraphCtrl/GraphElement/GElement.cpp
+++ b/src/GraphCtrl/GraphElement/GElement.cpp
@@ -533,7 +533,6 @@ CBool GElement::isSerializable() const {
 
 CStatus GElement::popLastAspect() {
     CGRAPH_FUNCTION_BEGIN
-    CGRAPH_ASSERT_INIT(false)
     CGRAPH_ASSERT_NOT_NULL(aspect_manager_)
 
     status = aspect_manager_->popLast();
diff --git a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
index d670a1a..226774c 100644
--- a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.cpp
@@ -20,18 +20,29 @@ CStatus GPerf::perf(GPipelinePtr pipeline, std::ostream& oss) {
     status = inject(pipeline);
     CGRAPH_FUNCTION_CHECK_STATUS
 
+    try {
+        status = analyse(pipeline, oss);
+    } catch (const CException&) {
+        (void)recover(pipeline);
+        throw;
+    }
+
+    status += recover(pipeline);    // 无论执行成功与否，都需要恢复原来的信息
+    CGRAPH_FUNCTION_END
+}
+
+
+CStatus GPerf::analyse(GPipelinePtr pipeline, std::ostream& oss) {
+    CGRAPH_FUNCTION_BEGIN
     status = pipeline->process();
-    CGRAPH_FUNCTION_CHECK_STATUS
+    if (status.isErr()) {
+        return status;    // 和 process() 一致，通过返回值的形式反馈 crash 的信息
+    }
 
     status = markLongestPath(pipeline);
     CGRAPH_FUNCTION_CHECK_STATUS
 
     status = pipeline->dump(oss);
-    CGRAPH_FUNCTION_CHECK_STATUS
-
-    status = recover(pipeline);
-    CGRAPH_FUNCTION_CHECK_STATUS
-
     CGRAPH_FUNCTION_END
 }
 
@@ -83,6 +94,9 @@ CStatus GPerf::recover(GPipelinePtr pipeline) {
     CGRAPH_FUNCTION_BEGIN
     CGRAPH_ASSERT_NOT_NULL(pipeline)
     for (auto* cur : pipeline->repository_.elements_) {
+        if (nullptr == cur->perf_info_) {
+            continue;    // 执行过程中新加入的 element，没有被注入过
+        }
         status += cur->popLastAspect();
         CGRAPH_DELETE_PTR(cur->perf_info_)
     }
diff --git a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.h b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.h
index e7b6845..16904c1 100644
--- a/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.h
+++ b/src/GraphCtrl/GraphPipeline/_GPerf/GPerf.h
@@ -33,6 +33,14 @@ protected:
      */
     static CStatus inject(GPipeline* pipeline);
 
+    /**
+     * 执行pipeline，并且输出分析的结果
+     * @param pipeline
+     * @param oss
+     * @return
+     */
+    static CStatus analyse(GPipeline* pipeline, std::ostream& oss);
+
     /**
      * 查询最长链路信息
      * @param pipeline
-- 
2.43.0


From 0fd10495a579f2edf34a22131c883b34908ac1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 38/49] fix: a saved parameter keeps its type and backtrace
 switch

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp     | 3 ++-
 src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index edc8813..c43464e 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -39,7 +39,8 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(_GStageStorage,
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GParamStorage,
     UREFL_DECLARE_FIELD(_GParamStorage, key_, 1),
-    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2)
+    UREFL_DECLARE_FIELD(_GParamStorage, clz_name_, 2),
+    UREFL_DECLARE_FIELD(_GParamStorage, backtrace_, 3)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPassedParamStorage,
diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
index 75d6e02..74a92c8 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorageDefine.h
@@ -67,6 +67,7 @@ struct _GParamStorage : public _GStorageBasic {
     explicit _GParamStorage(const std::string& key, CBool backtrace, const std::string& clz) {
         key_ = key;
         backtrace_ = backtrace;
+        clz_name_ = clz;
     }
 
     std::string key_ {};
-- 
2.43.0


From e1a54101abb4115aa59ad08b8ebc1595817403c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 39/49] fix: the saved thread pool config has every field

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index c43464e..4a1de65 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -86,7 +86,9 @@ UREFL_CREATE_STRUCT_TRAIT_INFO(UThreadPoolConfig,
     UREFL_DECLARE_FIELD(UThreadPoolConfig, secondary_thread_priority_, 16),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, bind_cpu_enable_, 17),
     UREFL_DECLARE_FIELD(UThreadPoolConfig, batch_task_enable_, 18),
-    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19)
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, monitor_enable_, 19),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, pipeline_wait_busy_epoch_, 20),
+    UREFL_DECLARE_FIELD(UThreadPoolConfig, deliver_running_primary_thread_enable_, 21)
 )
 
 UREFL_CREATE_STRUCT_TRAIT_INFO(_GPipelineStorage,
-- 
2.43.0


From aebd1c6ff830483fd6c52225ff4653bbd5cc1488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 40/49] fix: elements that were never registered are not saved

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 4a1de65..68d4fd0 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -163,6 +163,9 @@ CStatus GStorage::buildPipelineStorage(GPipeline* pipeline, _GPipelineStorage& s
                            pipeline->stage_manager_);
 
     for (const auto* cur : pipeline->repository_.elements_) {
+        if (!cur->isRegistered()) {
+            continue;    // 仅创建、但是没有注册的 element，不属于 pipeline 的内容
+        }
         storage.element_storages_.emplace_back(cur);
     }
     for (const auto& event : pipeline->event_manager_->events_map_) {
-- 
2.43.0


From b92763708cdf3577f9060ed2ff0fccd57bb61b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 41/49] fix: a loaded pipeline owns the elements inside its
 groups

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 68d4fd0..9eb40c9 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -260,6 +260,7 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
         auto element = dynamic_cast<GElementPtr>(GStorageFactory::createByType(cur.clz_name_));
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(!element,
                                                 cur.name_ + " element do not register, please check")
+        pipeline->repository_.insert(element);    // 包含 group 内部的 element，生命周期均由 pipeline 管理
         CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION(element->element_type_ != cur.element_type_,
                                                 cur.name_ + " check type failed when load");
         status = cur.recover(element);
@@ -272,7 +273,7 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
     for (const auto& cur : storage.element_storages_) {
         auto element = eleCache[cur.session_];
         if (cur.belong_session_.empty()) {
-            pipeline->innerRegister(element, {}, cur.name_, cur.loop_);
+            status += pipeline->innerRegister(element, {}, cur.name_, cur.loop_);
         } else {
             element->belong_ = eleCache[cur.belong_session_];
         }
@@ -298,8 +299,9 @@ CStatus GStorage::loadElement(GPipelinePtr pipeline, const _GPipelineStorage& st
             GGroupPtr group = dynamic_cast<GGroupPtr>(eleCache[cur.session_]);
             CGRAPH_ASSERT_NOT_NULL(group)
             for (const auto& child : cur.children_) {
-                group->addElement(eleCache[child.session_]);
+                status += group->addElement(eleCache[child.session_]);
             }
+            CGRAPH_FUNCTION_CHECK_STATUS
         }
     }
 
-- 
2.43.0


From 7dc5a7b78b825b8b8e5d5882289d5d5a6514f622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:48 +0000
Subject: [PATCH 42/49] fix: loading a truncated file is an error instead of an
 out of bounds read

---
 src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp |  6 +++++-
 src/UtilsCtrl/Reflection/UReflectionSession.h      | 10 ++++++++++
 src/UtilsCtrl/Reflection/UReflectionType.h         |  1 +
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
index 9eb40c9..3975f1d 100644
--- a/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
+++ b/src/GraphCtrl/GraphPipeline/_GStroage/GStorage.cpp
@@ -233,7 +233,11 @@ CStatus GStorage::loadBuffer(GPipelinePtr pipeline, char* buffer, CSize size) {
 
     _GPipelineStorage storage {};
     auto refl = internal::UReflection<_GPipelineStorage>();
-    refl.read(storage, (CUCharPtr)buffer, size);
+    try {
+        refl.read(storage, (CUCharPtr)buffer, size);
+    } catch (const CException& ex) {
+        CGRAPH_RETURN_ERROR_STATUS(std::string("load failed, ") + ex.what())
+    }
 
     status += loadElement(pipeline, storage);    // element 中间包含校验。如果校验失败，立刻退出即可
     CGRAPH_FUNCTION_CHECK_STATUS
diff --git a/src/UtilsCtrl/Reflection/UReflectionSession.h b/src/UtilsCtrl/Reflection/UReflectionSession.h
index d92f7d2..bb2ac33 100644
--- a/src/UtilsCtrl/Reflection/UReflectionSession.h
+++ b/src/UtilsCtrl/Reflection/UReflectionSession.h
@@ -24,6 +24,7 @@ public:
     template<class T>
     void getValueAndOffset(T &value) {
         constexpr size_t len = sizeof(T);
+        checkRemain(len);
         memcpy(&value, data_ + offset_, len);
         offset_ += len;
     }
@@ -34,6 +35,7 @@ public:
     }
 
     void getStringAndOffset(std::string &value, const size_t len) {
+        checkRemain(len);
         value.assign((CCharPtr)(data_ + offset_), len);
         offset_ += len;
     }
@@ -45,6 +47,14 @@ public:
         offset_ += len;
     }
 
+    /**
+     * 确认剩余的内容，足够读取。避免在内容不完整的情况下，越界读取
+     * @param len
+     */
+    void checkRemain(const size_t len) const {
+        CGRAPH_THROW_EXCEPTION_BY_CONDITION(len > len_ - offset_, "data is incomplete")
+    }
+
     void addLen(const size_t len) {
         len_ += len;
     }
diff --git a/src/UtilsCtrl/Reflection/UReflectionType.h b/src/UtilsCtrl/Reflection/UReflectionType.h
index 7d80763..e2a092e 100644
--- a/src/UtilsCtrl/Reflection/UReflectionType.h
+++ b/src/UtilsCtrl/Reflection/UReflectionType.h
@@ -185,6 +185,7 @@ void reflRead(UReflSession &session, T &value) {
 
         size_t size = 0;
         session.getValueAndOffset(size);
+        session.checkRemain(size);
         UReflSession subSess(session.getCurrentPos(), size);
         while (!subSess.isEmpty()) {
             auto elem = container_element_t<T>{};
-- 
2.43.0


From 7810aa38f9ddc15154036c39508d0b96e5f458f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 43/49] fix: releasing secondary threads collects only those
 that have ended, it never waits for the thread it runs on

---
 .../ThreadPool/Thread/UThreadSecondary.h      |  2 ++
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp      | 34 +++++++++++++------
 src/UtilsCtrl/ThreadPool/UThreadPool.h        |  7 ++++
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
index 4648234..cb5fa71 100644
--- a/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
+++ b/src/UtilsCtrl/ThreadPool/Thread/UThreadSecondary.h
@@ -61,6 +61,7 @@ protected:
         CGRAPH_ASSERT_INIT(true)
 
         loopProcess();
+        is_exit_ = true;    // 之后不会再执行任何任务
         CGRAPH_FUNCTION_END
     }
 
@@ -119,6 +120,7 @@ protected:
 
 private:
     CSec cur_ttl_ { 0 };                                                      // 当前最大生存周期
+    std::atomic<CBool> is_exit_ { false };                                    // 是否已经执行结束
 
     friend class UThreadPool;
 };
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index ddfd79d..16bda44 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -188,19 +188,22 @@ CStatus UThreadPool::releaseSecondaryThread(CInt size) {
 
     // 先将所有已经结束的，给删掉
     CGRAPH_LOCK_GUARD lock(st_mutex_);
-    for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-        !(*iter)->done_ ? secondary_threads_.erase(iter++) : iter++;
-    }
+    collectSecondaryThread();
 
-    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > static_cast<CInt>(secondary_threads_.size())),    \
+    // 被标记、但是还在执行任务的线程（可能就是当前线程），不再参与计数
+    const auto leftSize = static_cast<CInt>(std::count_if(secondary_threads_.begin(), secondary_threads_.end(),
+                              [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; }));
+    CGRAPH_RETURN_ERROR_STATUS_BY_CONDITION((size > leftSize),    \
                                             "cannot release [" + std::to_string(size) + "] secondary thread,"    \
-                                            + "only [" + std::to_string(secondary_threads_.size()) + "] left.")
+                                            + "only [" + std::to_string(leftSize) + "] left.")
 
     // 再标记几个需要删除的信息
     for (auto iter = secondary_threads_.begin();
-         iter != secondary_threads_.end() && size-- > 0; ) {
-        (*iter)->done_ = false;
-        ++iter;
+         iter != secondary_threads_.end() && size > 0; ++iter) {
+        if ((*iter)->done_) {
+            (*iter)->done_ = false;
+            size--;
+        }
     }
     CGRAPH_FUNCTION_END
 }
@@ -228,6 +231,7 @@ CStatus UThreadPool::createSecondaryThread(const CInt size) {
     CGRAPH_FUNCTION_BEGIN
 
     CGRAPH_LOCK_GUARD lock(st_mutex_);
+    collectSecondaryThread();
     const int leftSize = static_cast<int>(config_.max_thread_size_ - config_.default_thread_size_ - secondary_threads_.size());
     const int realSize = std::min(size, leftSize);    // 使用 realSize 来确保所有的线程数量之和，不会超过设定max值
 
@@ -265,9 +269,19 @@ CVoid UThreadPool::monitor() {
 
         CGRAPH_LOCK_GUARD lock(st_mutex_);
         // 判断 secondary 线程是否需要退出
-        for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
-            (*iter)->freeze() ? secondary_threads_.erase(iter++) : iter++;
+        for (auto& st : secondary_threads_) {
+            if (st->freeze()) {
+                st->done_ = false;
+            }
         }
+        collectSecondaryThread();
+    }
+}
+
+
+CVoid UThreadPool::collectSecondaryThread() {
+    for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
+        (*iter)->is_exit_ ? secondary_threads_.erase(iter++) : iter++;
     }
 }
 
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 801f49a..3287ce3 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -197,6 +197,13 @@ protected:
      */
     CVoid monitor();
 
+    /**
+     * 回收所有执行结束的辅助线程
+     * @return
+     * @notice 需要在持有 st_mutex_ 的情况下调用。不等待任何仍在执行任务的线程，避免和被等待的线程（或者自己）互锁
+     */
+    CVoid collectSecondaryThread();
+
     CGRAPH_NO_ALLOWED_COPY(UThreadPool)
 
 private:
-- 
2.43.0


From 50e6a1d7387fcb9baef83ddb286c37f11c8e2805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 44/49] fix: a prioritised task gets a new secondary thread
 when all of them have been released

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 7 +++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.h   | 6 ++++++
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 4 ++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 16bda44..1bf344b 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -286,6 +286,13 @@ CVoid UThreadPool::collectSecondaryThread() {
 }
 
 
+CBool UThreadPool::hasSecondaryThread() {
+    CGRAPH_LOCK_GUARD lock(st_mutex_);
+    return std::any_of(secondary_threads_.begin(), secondary_threads_.end(),
+                       [](const std::unique_ptr<UThreadSecondary>& st) { return st->done_; });
+}
+
+
 CSize UThreadPool::wakeupAllThread() {
     CSize size = 0;
     if (wakeup_mutex_.try_lock()) {
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index 3287ce3..a334f0a 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -204,6 +204,12 @@ protected:
      */
     CVoid collectSecondaryThread();
 
+    /**
+     * 判断是否还有可以执行任务的辅助线程，不包含已经被释放的线程
+     * @return
+     */
+    CBool hasSecondaryThread();
+
     CGRAPH_NO_ALLOWED_COPY(UThreadPool)
 
 private:
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index 7b32e73..a42ecf2 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -45,8 +45,8 @@ auto UThreadPool::commitWithPriority(const FunctionType& func, int priority)
     std::packaged_task<ResultType()> task(func);
     std::future<ResultType> result(task.get_future());
 
-    if (secondary_threads_.empty()) {
-        createSecondaryThread(1);    // 如果没有开启辅助线程，则直接开启一个
+    if (!hasSecondaryThread()) {
+        createSecondaryThread(1);    // 如果没有开启辅助线程（或者均已被释放），则直接开启一个
     }
 
     priority_task_queue_.push(std::move(task), priority);
-- 
2.43.0


From b633bbe82497c2b581997b80ae8a36ad79e66523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 45/49] fix: the monitor thread is stopped before the threads
 it looks at are released, and the pool can be initialised again

---
 src/UtilsCtrl/ThreadPool/UThreadPool.cpp | 27 +++++++++++++++++-------
 src/UtilsCtrl/ThreadPool/UThreadPool.h   |  7 ++++++
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
index 1bf344b..0127a85 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.cpp
@@ -21,11 +21,7 @@ UThreadPool::UThreadPool(const CBool autoInit, const UThreadPoolConfig& config)
 
 
 UThreadPool::~UThreadPool() {
-    this->config_.monitor_enable_ = false;    // 在析构的时候，才释放监控线程。先释放监控线程，再释放其他的线程
-    if (monitor_thread_.joinable()) {
-        monitor_thread_.join();
-    }
-
+    stopMonitor();    // 先释放监控线程，再释放其他的线程
     destroy();
 }
 
@@ -52,6 +48,8 @@ CStatus UThreadPool::init() {
 
     if (config_.monitor_enable_) {
         // 默认不开启监控线程
+        stopMonitor();    // 之前初始化失败的情况下，可能仍在执行
+        is_monitor_ = true;
         monitor_thread_ = std::thread(&UThreadPool::monitor, this);
     }
     thread_record_map_.clear();
@@ -144,6 +142,8 @@ CStatus UThreadPool::destroy() {
         CGRAPH_FUNCTION_END
     }
 
+    stopMonitor();    // 监控线程会访问所有的线程信息，需要在释放线程之前结束
+
     // primary 线程是普通指针，需要delete
     for (const auto& pt : primary_threads_) {
         CGRAPH_ASSERT_NOT_NULL(pt);
@@ -247,16 +247,19 @@ CStatus UThreadPool::createSecondaryThread(const CInt size) {
 
 
 CVoid UThreadPool::monitor() {
-    while (config_.monitor_enable_) {
-        while (config_.monitor_enable_ && !is_init_) {
+    while (is_monitor_) {
+        while (is_monitor_ && !is_init_) {
             // 如果没有init，则一直处于空跑状态
             CGRAPH_SLEEP_SECOND(1)
         }
 
         auto span = config_.monitor_span_;
-        while (config_.monitor_enable_ && is_init_ && span--) {
+        while (is_monitor_ && is_init_ && span--) {
             CGRAPH_SLEEP_SECOND(1)    // 保证可以快速退出
         }
+        if (!is_monitor_ || !is_init_) {
+            continue;
+        }
 
         // 如果 primary线程都在执行，则表示忙碌
         const bool busy = !primary_threads_.empty() && std::all_of(primary_threads_.begin(), primary_threads_.end(),
@@ -279,6 +282,14 @@ CVoid UThreadPool::monitor() {
 }
 
 
+CVoid UThreadPool::stopMonitor() {
+    is_monitor_ = false;
+    if (monitor_thread_.joinable()) {
+        monitor_thread_.join();
+    }
+}
+
+
 CVoid UThreadPool::collectSecondaryThread() {
     for (auto iter = secondary_threads_.begin(); iter != secondary_threads_.end(); ) {
         (*iter)->is_exit_ ? secondary_threads_.erase(iter++) : iter++;
diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.h b/src/UtilsCtrl/ThreadPool/UThreadPool.h
index a334f0a..9c5172b 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.h
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.h
@@ -197,6 +197,12 @@ protected:
      */
     CVoid monitor();
 
+    /**
+     * 停止监控线程，并且等待其结束
+     * @return
+     */
+    CVoid stopMonitor();
+
     /**
      * 回收所有执行结束的辅助线程
      * @return
@@ -220,6 +226,7 @@ private:
     std::vector<UThreadPrimaryPtr> primary_threads_;                                // 记录所有的主线程
     std::list<std::unique_ptr<UThreadSecondary>> secondary_threads_;                // 用于记录所有的辅助线程
     UThreadPoolConfig config_;                                                      // 线程池设置值
+    std::atomic<CBool> is_monitor_ { false };                                       // 监控线程是否需要执行
     std::thread monitor_thread_;                                                    // 监控线程
     std::map<CSize, int> thread_record_map_;                                        // 线程记录的信息
     std::mutex st_mutex_;                                                           // 辅助线程发生变动的时候，加的mutex信息
-- 
2.43.0


From 1f3b977915482d68339541ef05a88f212d4afbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:55 +0000
Subject: [PATCH 46/49] fix: a refused registration or creation leaves nothing
 behind

---
 src/GraphCtrl/GraphPipeline/GPipeline.inl | 24 ++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/GraphCtrl/GraphPipeline/GPipeline.inl b/src/GraphCtrl/GraphPipeline/GPipeline.inl
index ffd7d33..8d37f16 100644
--- a/src/GraphCtrl/GraphPipeline/GPipeline.inl
+++ b/src/GraphCtrl/GraphPipeline/GPipeline.inl
@@ -50,6 +50,9 @@ CStatus GPipeline::registerGElement(GElementPPtr elementRef,
     }
 
     status = innerRegister(*elementRef, depends, name, loop);
+    if (status.isErr() && !std::is_base_of<GGroup, T>::value) {
+        CGRAPH_DELETE_PTR(*elementRef)    // 内部创建的信息，注册失败的时候，没有其他地方会释放
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -87,6 +90,9 @@ CStatus GPipeline::registerGElement(GTemplateNodePtr<Args ...> *elementRef,
     CGRAPH_ASSERT_NOT_NULL(*elementRef)
 
     status = innerRegister(*elementRef, depends, CGRAPH_EMPTY, CGRAPH_DEFAULT_LOOP_TIMES);
+    if (status.isErr()) {
+        CGRAPH_DELETE_PTR(*elementRef)
+    }
     CGRAPH_FUNCTION_END
 }
 
@@ -128,6 +134,9 @@ TNode* GPipeline::createGNode(const GNodeInfo &info, Args&&... args) {
     auto* node = new(std::nothrow) TNode(std::forward<Args>(args)...);
     CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(node)
     status = node->addElementInfo(info.dependence_, info.name_, info.loop_);
+    if (status.isErr()) {
+        CGRAPH_DELETE_PTR(node)
+    }
     CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
 
     repository_.insert(node);
@@ -165,10 +174,19 @@ TGroup* GPipeline::createGGroup(const GElementPtrArr &elements,
     for (GElementPtr element : elements) {
         status += group->addElement(element);
     }
-    CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
 
-    // 加入group的时候，是不设定manager信息的
-    status = group->addElementInfo(depends, name, loop);
+    if (status.isNotErr()) {
+        // 加入group的时候，是不设定manager信息的
+        status = group->addElementInfo(depends, name, loop);
+    }
+
+    if (status.isErr()) {
+        // 创建失败的时候，传入的 element 恢复到未加入 group 的状态
+        for (GElementPtr element : elements) {
+            element->belong_ = nullptr;
+        }
+        CGRAPH_DELETE_PTR(group)
+    }
     CGRAPH_THROW_EXCEPTION_BY_STATUS(status)
 
     this->repository_.insert(group);
-- 
2.43.0


From 80bd11e7d3dcf5c238521594ac0ae091995c1bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:38 +0000
Subject: [PATCH 47/49] fix: the parameter keys an object has asked for are
 kept by value and under a lock

---
 src/GraphCtrl/GraphParam/GParamManagerWrapper.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
index 6e1a69f..2ba1ca2 100644
--- a/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
+++ b/src/GraphCtrl/GraphParam/GParamManagerWrapper.h
@@ -9,6 +9,8 @@
 #ifndef CGRAPH_GPARAMMANAGERWRAPPER_H
 #define CGRAPH_GPARAMMANAGERWRAPPER_H
 
+#include <mutex>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -44,7 +46,10 @@ CGRAPH_NAMESPACE_BEGIN
         CGRAPH_ASSERT_NOT_NULL_THROW_ERROR(param_manager_)                              \
         auto param = param_manager_->get<TGParam>(key);                                 \
         if (nullptr != param) {                                                         \
-            concerned_params_.insert(param);                                            \
+            {                                                                           \
+                CGRAPH_LOCK_GUARD lock(concerned_params_mutex_);                        \
+                concerned_params_.insert(key);                                          \
+            }                                                                           \
             param->addBacktrace(name_.empty() ? session_ : name_);                      \
         }                                                                               \
         return param;                                                                   \
@@ -90,11 +95,8 @@ CGRAPH_NAMESPACE_BEGIN
      * @return
      */                                                                                 \
     std::vector<std::string> getConcernedGParamKeys() const {                           \
-        std::vector<std::string> keys;                                                  \
-        for (auto param : concerned_params_) {                                          \
-            keys.emplace_back(param->getKey());                                         \
-        }                                                                               \
-        return keys;                                                                    \
+        CGRAPH_LOCK_GUARD lock(concerned_params_mutex_);                                \
+        return std::vector<std::string>(concerned_params_.begin(), concerned_params_.end()); \
     }                                                                                   \
                                                                                         \
 public:                                                                                 \
@@ -134,7 +136,8 @@ private:
         return this;                                                                    \
     }                                                                                   \
                                                                                         \
-    GParamPtrSet concerned_params_;    /* 记录链路上使用过GParam信息 */                    \
+    std::set<std::string> concerned_params_;    /* 记录链路上使用过的GParam的key信息 */        \
+    mutable std::mutex concerned_params_mutex_;                                         \
                                                                                         \
 protected:                                                                              \
                                                                                         \
-- 
2.43.0


From 2a1e3c97ae6d89cffecdf5b727b14b23b6229497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:15 +0000
Subject: [PATCH 48/49] fix: a status an exception is thrown for is evaluated
 once

---
 src/CBasic/CFuncType.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CBasic/CFuncType.h b/src/CBasic/CFuncType.h
index 9a8cad6..9f7eac3 100644
--- a/src/CBasic/CFuncType.h
+++ b/src/CBasic/CFuncType.h
@@ -74,8 +74,11 @@ enum class CFunctionType {
 
 /** 在异常状态的情况下，抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_STATUS(status)                        \
-    if (unlikely((status).isErr())) {                                   \
-        CGRAPH_THROW_EXCEPTION((status).getInfo()); }                   \
+    {                                                                   \
+        const auto& __cur_throw_status__ = (status);                    \
+        if (unlikely(__cur_throw_status__.isErr())) {                   \
+            CGRAPH_THROW_EXCEPTION(__cur_throw_status__.getInfo()) }    \
+    }                                                                   \
 
 /** 根据条件判断是否抛出异常 */
 #define CGRAPH_THROW_EXCEPTION_BY_CONDITION(cond, info)                 \
-- 
2.43.0


From 81b7f03fa25eb00f3962ac56fef27d7b38f80734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 49/49] fix: an idle pool is woken by a task written to its
 common queue

---
 src/UtilsCtrl/ThreadPool/UThreadPool.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/UtilsCtrl/ThreadPool/UThreadPool.inl b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
index a42ecf2..768705c 100644
--- a/src/UtilsCtrl/ThreadPool/UThreadPool.inl
+++ b/src/UtilsCtrl/ThreadPool/UThreadPool.inl
@@ -62,11 +62,10 @@ CVoid UThreadPool::execute(FunctionType&& task, const CIndex index) {
         primary_threads_[realIndex]->pushTask(std::forward<FunctionType>(task));
     } else if (CGRAPH_LONG_TIME_TASK_STRATEGY == realIndex) {
         priority_task_queue_.push(std::forward<FunctionType>(task), CGRAPH_LONG_TIME_TASK_STRATEGY);
-    } else if (CGRAPH_TRIGGER_ALL_THREAD_STRATEGY == realIndex) {
-        task_queue_.push(std::forward<FunctionType>(task));
-        (void)wakeupAllThread();
     } else {
+        // 写入通用队列之后，需要唤醒休眠的线程。否则，最长需要等待一个休眠周期，任务才会被执行
         task_queue_.push(std::forward<FunctionType>(task));
+        (void)wakeupAllThread();
     }
 }
 
@@ -78,6 +77,7 @@ CVoid UThreadPool::executeWithTid(FunctionType&& task, CIndex tid, CBool enable,
     } else {
         // 如果超出主线程的范围，则默认写入 pool 通用的任务队列中
         task_queue_.push(std::forward<FunctionType>(task));
+        (void)wakeupAllThread();
     }
 }
 
-- 
2.43.0

