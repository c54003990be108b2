From 633c51bd974b7730d5b066a764634ff93dd622fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 01/84] fix: ThreadPool: make the future of a void task ready
 only after the task ran

---
 include/HXLibs/container/ThreadPool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index efd8c50..1383784 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -133,8 +133,8 @@ struct ThreadPool {
         ]() mutable {
             try {
                 if constexpr (std::is_void_v<Res>) {
-                    ans->setData(NonVoidType<>{});
                     moveApply(std::move(func), std::move(argWap));
+                    ans->setData(NonVoidType<>{});
                 } else {
                     ans->setData(moveApply(std::move(func), std::move(argWap)));
                 }
-- 
2.43.0


From 30d8ea814cf0c240007886535da928672254d1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 02/84] fix: ThreadPool: lost wake-ups between a worker's
 predicate and its wait

---
 include/HXLibs/container/ThreadPool.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 1383784..9c818af 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -142,7 +142,12 @@ struct ThreadPool {
                 ans->unhandledException();
             }
         };
-        _taskQueue.emplace(std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb)));
+        auto task = std::make_unique<MoveOnlyFunctionAny<decltype(cb)>>(std::move(cb));
+        {
+            // 必须持锁入队, 否则会在 worker 判断谓词与挂起之间丢失唤醒
+            std::lock_guard _{_mtx};
+            _taskQueue.emplace(std::move(task));
+        }
         _cv.notify_one();
         return res;
     }
@@ -177,7 +182,11 @@ struct ThreadPool {
     ThreadPool& operator=(ThreadPool&&) = delete;
 
     ~ThreadPool() noexcept {
-        _isRun = false;
+        {
+            // 必须持锁修改, 否则会在 worker 判断谓词与挂起之间丢失唤醒
+            std::lock_guard _{_mtx};
+            _isRun = false;
+        }
         if (_opThread.joinable()) {
             _opThread.join();
         }
-- 
2.43.0


From cdb68cd930fd5d9768050449f1a768d54d3a85e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 03/84] fix: ThreadPool: destructor joined retired workers
 twice and terminated

---
 include/HXLibs/container/ThreadPool.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 9c818af..16355a8 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -191,12 +191,10 @@ struct ThreadPool {
             _opThread.join();
         }
         _cv.notify_all();
+        // 已自行退出 (在 _delIdQueue 中) 但尚未回收的线程, 也仍在 _workers 中
         for (const auto& [_, t] : _workers) {
             t->join();
         }
-        if (!_delIdQueue.empty()) {
-            clearDelIdQueue();
-        }
     }
 private:
     /**
-- 
2.43.0


From edaf40ff38067858895b2e886c5c0ddbbc71cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 04/84] fix: ThreadPool: shrinking could retire every worker
 and strand later tasks

---
 include/HXLibs/container/ThreadPool.hpp | 26 ++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 16355a8..71bc24a 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -49,11 +49,11 @@ struct ThreadPoolData {
 
 inline auto ThreadPoolDefaultStrategy = [](ThreadPoolData const& data) -> int {
     if (data.taskNum <= data.minThreadNum) {
-        if (data.sleepThreadNum > data.runThreadNum) {
-            return -static_cast<int>(std::max<std::size_t>(
-                static_cast<std::size_t>(data.sleepThreadNum * 0.25),
-                data.nowThreadNum - data.minThreadNum
-            ));
+        if (data.sleepThreadNum > data.runThreadNum
+            && data.nowThreadNum > data.minThreadNum
+        ) {
+            // 至少保留 minThreadNum 个线程
+            return -static_cast<int>(data.nowThreadNum - data.minThreadNum);
         }
         return 0;
     }
@@ -208,6 +208,13 @@ private:
             makeWorker(_minThreadNum - _workers.size());
         }
         while (_isRun) [[likely]] {
+            {
+                // 撤销上一轮尚未被领取的删除名额, 之后不会再有线程退出,
+                // 从而下面回收之后 _workers.size() 是准确的
+                std::lock_guard _{_mtx};
+                _delCnt = 0;
+            }
+            clearDelIdQueue();
             auto taskSize = static_cast<uint32_t>(_taskQueue.size());
             auto runCnt = _runCnt.load();
             auto workerSize = static_cast<uint32_t>(_workers.size());
@@ -229,9 +236,6 @@ private:
                     }
                 }
             }
-            if (_delIdQueue.size()) {
-                clearDelIdQueue();
-            }
             std::this_thread::sleep_for(checkTimer);
         }
     }
@@ -254,10 +258,14 @@ private:
                         if (!_isRun) [[unlikely]] {
                             break;
                         }
-                        if (tryDecrementIfPositive(_delCnt)) {
+                        // 有任务时优先执行任务, 否则会吞掉该任务的唤醒
+                        if (_taskQueue.empty() && tryDecrementIfPositive(_delCnt)) {
                             _delIdQueue.emplace(std::this_thread::get_id());
                             break;
                         }
+                        if (_taskQueue.empty()) [[unlikely]] {
+                            continue; // 删除名额已被撤销或领取
+                        }
                         task = _taskQueue.frontAndPop();
                     }
                     ++_runCnt;
-- 
2.43.0


From 17c7788b9200b075b8ddb9ce6db3843f8e2f43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 05/84] fix: FutureResult::thenTry: propagate the exception
 held by the Try the callback returned

---
 include/HXLibs/container/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 71bc24a..920fcf2 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -414,7 +414,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            std::rethrow_exception(funcRes.get().exception());
                         }
                     } else {            
                         // func 返回值是任意类型
@@ -433,7 +433,7 @@ std::conditional_t<
                         if (funcRes.get().isVal()) {
                             ans->setData(funcRes.move().move());
                         } else {
-                            std::rethrow_exception(self._res->getException());
+                            std::rethrow_exception(funcRes.get().exception());
                         }
                     } else {
                         // func 返回值是任意类型
-- 
2.43.0


From f65e05c718015a63e1f57ef8528bf11221f8a03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 06/84] fix: co_await future.via(loop): resume on the loop's
 own thread, exactly once, before the loop ends

---
 include/HXLibs/container/FutureResult.hpp    | 27 +++---
 include/HXLibs/coroutine/loop/EventLoop.hpp  | 10 +-
 include/HXLibs/coroutine/loop/ThreadLoop.hpp | 99 +++++++++++++++-----
 3 files changed, 101 insertions(+), 35 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 4d1413c..b1511e7 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -106,35 +106,40 @@ private:
     };
 
     struct _hx_Await {
+        // 由等待的协程和线程池的任务共享
+        struct _hx_State : coroutine::ThreadLoop::Waiter {
+            Uninitialized<FutureResult<T>::ArgTryType> _res{};
+        };
+
         _hx_Await(FutureResult&& self)
-            : _res{}
-            , _coroutine{}
+            : _state{std::make_shared<_hx_State>()}
         {
             auto* loop = self._coEventLoop.get();
-            std::move(self).thenTry([this, raii = loop->makeTheradTask(), _loop = loop](auto t) mutable {
-                _res.set(std::move(t));
-                _coroutine.resume(); // 执行完毕后, self 已经被销毁了.
-                raii.notify();
-                _loop->makeNopAioTask();
+            std::move(self).thenTry([state = _state, raii = loop->makeTheradTask()](auto t) mutable {
+                state->_res.set(std::move(t));
+                raii.notify(std::move(state)); // 由 loop 所在的线程恢复协程
             });
         }
 
         _hx_Await& operator=(_hx_Await&&) noexcept = delete;
 
+        ~_hx_Await() noexcept {
+            _state->_coroutine = nullptr; // 协程被销毁, 不再恢复
+        }
+
         constexpr bool await_ready() const noexcept { return false; }
         constexpr void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
-            _coroutine = coroutine;
+            _state->_coroutine = coroutine;
         }
         constexpr auto await_resume() const {
-            auto t = _res.move();
+            auto t = _state->_res.move();
             if (!t) [[unlikely]] {
                 t.rethrow();
             }
             return t.move();
         }
     private:
-        mutable container::Uninitialized<FutureResult<T>::ArgTryType> _res;
-        mutable std::coroutine_handle<> _coroutine;
+        std::shared_ptr<_hx_State> _state;
     };
 public:
     using FutureResultType = _hx_Result;
diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index b524979..74be19b 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -462,13 +462,21 @@ struct EventLoop {
      * @brief 启动事件循环
      */
     void run() {
+        using namespace std::chrono_literals;
         for (;;) {
+            _theradLoop.run();
             auto timeout = _timerLoop.run();
             if (_eventDrive.isRun()) [[likely]] {
+                // 线程任务的完成不会唤醒 _eventDrive, 因此不能等待太久
+                if (_theradLoop.isRun() && (!timeout || *timeout > 1ms)) {
+                    timeout = 1ms;
+                }
                 _eventDrive.run(timeout);
+            } else if (_theradLoop.isRun()) {
+                _theradLoop.wait(timeout);
             } else if (timeout) {
                 std::this_thread::sleep_for(*timeout);
-            } else if (!_theradLoop.isRun()) [[unlikely]] {
+            } else [[unlikely]] {
                 break;
             }
         }
diff --git a/include/HXLibs/coroutine/loop/ThreadLoop.hpp b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
index c2f1cb9..8966704 100644
--- a/include/HXLibs/coroutine/loop/ThreadLoop.hpp
+++ b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
@@ -18,60 +18,106 @@
  * limitations under the License.
  */
 
-#include <mutex>
+#include <chrono>
+#include <coroutine>
 #include <condition_variable>
+#include <memory>
+#include <mutex>
+#include <optional>
+#include <utility>
+#include <vector>
 
 namespace HX::coroutine {
 
 /**
  * @brief 线程循环 (实际上仅是控制器)
+ * @note 线程池中的任务完成后, 仅仅是登记它的等待者; 协程总是由事件循环所在的线程恢复
  */
 struct ThreadLoop {
+    /**
+     * @brief 等待线程任务的协程, `_coroutine` 仅由事件循环所在的线程访问
+     */
+    struct Waiter {
+        std::coroutine_handle<> _coroutine{};
+    };
+
 private:
     struct _hx_ThreadLoopController {
         _hx_ThreadLoopController(ThreadLoop& self) noexcept
-            : _self{self}
+            : _self{&self}
         {
-            std::unique_lock _{_self._mtx};
-            ++_self._threadTaskCnt;
+            std::unique_lock _{_self->_mtx};
+            ++_self->_threadTaskCnt;
         }
 
         _hx_ThreadLoopController(_hx_ThreadLoopController const&) = delete;
         _hx_ThreadLoopController(_hx_ThreadLoopController&& that) noexcept
-            : _self{that._self}
+            : _self{std::exchange(that._self, nullptr)}
         {}
 
         _hx_ThreadLoopController& operator=(_hx_ThreadLoopController const&) = delete;
-        _hx_ThreadLoopController& operator=(_hx_ThreadLoopController&&) noexcept {
-            return *this;
+        _hx_ThreadLoopController& operator=(_hx_ThreadLoopController&&) = delete;
+
+        /**
+         * @brief 任务完成, 让事件循环恢复 waiter
+         */
+        void notify(std::shared_ptr<Waiter> waiter) {
+            std::exchange(_self, nullptr)->finish(std::move(waiter));
         }
 
-        void notify() noexcept {
-            std::unique_lock _{_self._mtx};
-            --_self._threadTaskCnt;
-            _self.notify();
+        ~_hx_ThreadLoopController() noexcept {
+            if (_self) [[unlikely]] { // 任务没有被执行就被丢弃了
+                _self->finish(nullptr);
+            }
         }
     private:
-        ThreadLoop& _self;  
+        ThreadLoop* _self;
     };
 public:
     ThreadLoop()
         : _mtx{}
         , _cv{}
         , _threadTaskCnt{0}
+        , _ready{}
     {}
 
+    /**
+     * @brief 是否还有未完成, 或者未恢复的线程任务
+     */
     bool isRun() noexcept {
-        std::size_t cnt = 0;
+        std::unique_lock _{_mtx};
+        return _threadTaskCnt != 0;
+    }
+
+    /**
+     * @brief 等待任意线程任务完成
+     * @param timeout 超时时间, 如果没有则一直等待
+     */
+    void wait(std::optional<std::chrono::system_clock::duration> timeout) {
         std::unique_lock lock{_mtx};
-        if (_threadTaskCnt == 0) {
-            return false;
+        auto pred = [this] { return !_ready.empty() || _threadTaskCnt == 0; };
+        if (timeout) {
+            _cv.wait_for(lock, *timeout, pred);
+        } else {
+            _cv.wait(lock, pred);
+        }
+    }
+
+    /**
+     * @brief 在当前线程恢复所有已经完成的任务的等待者
+     */
+    void run() {
+        std::vector<std::shared_ptr<Waiter>> ready;
+        {
+            std::unique_lock _{_mtx};
+            ready.swap(_ready);
+            _threadTaskCnt -= ready.size();
+        }
+        for (auto const& waiter : ready) {
+            if (waiter->_coroutine) [[likely]] {
+                waiter->_coroutine.resume();
+            }
         }
-        cnt = _threadTaskCnt;
-        _cv.wait(lock, [&] {
-            return cnt > _threadTaskCnt;
-        });
-        return true;
     }
 
     auto makeThreadTask() noexcept {
@@ -79,13 +125,20 @@ public:
     }
 
 private:
-    void notify() noexcept {
-        _cv.notify_one();
+    void finish(std::shared_ptr<Waiter> waiter) {
+        std::unique_lock _{_mtx};
+        if (waiter) [[likely]] {
+            _ready.push_back(std::move(waiter));
+        } else {
+            --_threadTaskCnt;
+        }
+        _cv.notify_one(); // 必须在锁内: 解锁后事件循环可能就结束了
     }
 
     mutable std::mutex _mtx;
     std::condition_variable _cv;
     std::size_t _threadTaskCnt;
+    std::vector<std::shared_ptr<Waiter>> _ready;
 };
 
-} // namespace HX::coroutine
\ No newline at end of file
+} // namespace HX::coroutine
-- 
2.43.0


From d30dcb530f82a3de1a665675ea05e9a491588bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:33 +0000
Subject: [PATCH 07/84] fix: TimerLoop: a pending timer starved yielded
 coroutines, and endless yields or due timers starved everything else

---
 include/HXLibs/coroutine/loop/TimerLoop.hpp | 22 +++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/TimerLoop.hpp b/include/HXLibs/coroutine/loop/TimerLoop.hpp
index 853c058..e2b5d96 100644
--- a/include/HXLibs/coroutine/loop/TimerLoop.hpp
+++ b/include/HXLibs/coroutine/loop/TimerLoop.hpp
@@ -18,10 +18,12 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <chrono>
 #include <map>
 #include <list>
 #include <coroutine>
+#include <optional>
 
 namespace HX::coroutine {
 
@@ -35,20 +37,28 @@ struct TimerLoop {
     TimerLoop& operator=(TimerLoop&&) = delete;
 
     std::optional<std::chrono::system_clock::duration> run() {
-        while (_timerTree.size()) {
+        // 只处理进入时就已经到期/让出的协程, 否则它们可以一直饿死其他任务
+        if (_timerTree.size()) {
             auto nowTime = std::chrono::system_clock::now();
-            auto it = _timerTree.begin();
-            if (it->first <= nowTime) {
+            for (auto it = _timerTree.begin();
+                 it != _timerTree.end() && it->first <= nowTime;
+                 it = _timerTree.begin()
+            ) {
                 it->second.resume();
                 _timerTree.erase(it);
-            } else {
-                return it->first - nowTime;
             }
         }
-        while (_yieldQueue.size()) {
+        for (auto n = _yieldQueue.size(); n && _yieldQueue.size(); --n) {
             _yieldQueue.front().resume();
             _yieldQueue.pop_front();
         }
+        if (_yieldQueue.size()) {
+            return std::chrono::system_clock::duration::zero();
+        }
+        if (_timerTree.size()) {
+            auto timeout = _timerTree.begin()->first - std::chrono::system_clock::now();
+            return std::max(timeout, std::chrono::system_clock::duration::zero());
+        }
         return {};
     }
 
-- 
2.43.0


From 2d22589a95666d8d707b8f63086325af91070285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 08/84] fix: IoUring: a full submission queue stalled the loop,
 lost a whole loop's work or split a linked timeout from its operation

getSqe() waited for some completion when the submission queue was full; with
only idle operations outstanding that never came, an interrupted wait threw,
and an operation could be submitted without the timeout linked to it.
---
 include/HXLibs/coroutine/loop/EventLoop.hpp | 52 +++++++++++++--------
 include/HXLibs/net/socket/IO.hpp            |  4 +-
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index 74be19b..4c97ad8 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -115,6 +115,14 @@ struct IoUring {
         // mandatory copy elision 场景
         // 编译器强制使用 RVO (返回值优化)
         // https://en.cppreference.com/w/cpp/language/copy_elision.html
+        reserveSqe(2); // 为可能紧跟着的链接超时任务预留, 它们不能被分开提交
+        return AioTask{getSqe()};
+    }
+
+    /**
+     * @brief 创建紧跟在上一个 makeAioTask 之后的任务 (和它一起提交)
+     */
+    AioTask makeLinkedAioTask() {
         return AioTask{getSqe()};
     }
 
@@ -185,28 +193,24 @@ struct IoUring {
     }
 
 private:
-    ::io_uring_sqe* getSqe() {
-        // 获取一个任务
-        ::io_uring_sqe* sqe = ::io_uring_get_sqe(&_ring);
-        while (!sqe) {
-#if 0
-            // 提交任务队列给内核 (为什么不是sqe, 因为sqe是从ring中get出来的, 故其本身就包含了sqe)
+    /**
+     * @brief 保证提交队列至少有 n 个空位; 如果不够则先提交给内核 (不等待完成)
+     */
+    void reserveSqe(unsigned int n) {
+        while (::io_uring_sq_space_left(&_ring) < n) {
             int res = ::io_uring_submit(&_ring);
-            if (res < 0) [[unlikely]] {
-                if (res == -EINTR) {
-                    continue;
-                }
+            if (res < 0 && res != -EINTR) [[unlikely]] {
                 throw std::system_error(-res, std::system_category());
             }
-            // 提交了, 应该有空位, 那可以
-            sqe = ::io_uring_get_sqe(&_ring);
-#else
-            ::io_uring_submit_and_wait(&_ring, 1); // 直接挂起等待操作系统完成了再说
-            sqe = ::io_uring_get_sqe(&_ring);
-            if (!sqe) {
-                throw std::runtime_error("Still failed to get sqe after wait");
-            }
-#endif
+        }
+    }
+
+    ::io_uring_sqe* getSqe() {
+        // 获取一个任务
+        reserveSqe(1);
+        ::io_uring_sqe* sqe = ::io_uring_get_sqe(&_ring);
+        if (!sqe) [[unlikely]] {
+            throw std::runtime_error("Still failed to get sqe after submit");
         }
         ++_numSqesPending;
         return sqe;
@@ -498,6 +502,16 @@ struct EventLoop {
         return _eventDrive.makeAioTask();
     }
 
+#if defined(__linux__)
+    /**
+     * @brief 创建链接在上一个 makeAioTask 之后的任务, 如 prepLinkTimeout
+     * @return decltype(auto) 
+     */
+    decltype(auto) makeLinkedAioTask() {
+        return _eventDrive.makeLinkedAioTask();
+    }
+#endif
+
     /**
      * @brief 创建异步线程任务 (仅控制权)
      * @return decltype(auto) 
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 244d8cd..6e83953 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -118,7 +118,7 @@ public:
     >> recvLinkTimeout(std::span<char> buf) {
         co_return co_await coroutine::AioTask::linkTimeout(
             _eventLoop.makeAioTask().prepRecv(_fd, buf, 0),
-            _eventLoop.makeAioTask().prepLinkTimeout(
+            _eventLoop.makeLinkedAioTask().prepLinkTimeout(
                 internal::getTimePtr<Timeout>(), 0)
         );
     }
@@ -180,7 +180,7 @@ public:
         while (!buf.empty()) {
             auto res = co_await coroutine::AioTask::linkTimeout(
                 _eventLoop.makeAioTask().prepSend(_fd, buf, 0),
-                _eventLoop.makeAioTask().prepLinkTimeout(
+                _eventLoop.makeLinkedAioTask().prepLinkTimeout(
                     internal::getTimePtr<Timeout>(), 0)
             );
             if (res.index() == 1) [[unlikely]] {
-- 
2.43.0


From 0be8a54037f70f982b8f48e8ab47e6d1a68e33f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 09/84] fix: AioTask::linkTimeout: wait for both completions

An operation completing while its linked timeout was firing left a completion
(-ETIME, -ENOENT or -EALREADY) pointing at the destroyed timeout task, or
resumed the caller while the operation was still using its buffer. Operations
that ended with -ECANCELED for any other reason never resumed their waiter.
---
 include/HXLibs/coroutine/loop/EventLoop.hpp |  3 --
 include/HXLibs/coroutine/task/AioTask.hpp   | 36 ++++++++++++++++++++-
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index 4c97ad8..a491ffa 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -172,9 +172,6 @@ struct IoUring {
         unsigned head, numGot = 0;
         io_uring_for_each_cqe(&_ring, head, cqe) {
             ++numGot;
-            if (cqe->res == -ECANCELED) { // 操作已取消 (比如超时了)
-                continue;
-            }
             auto* task = reinterpret_cast<AioTask*>(cqe->user_data);
             if (!task) [[unlikely]] {
                 continue; // 仅 prepNop
diff --git a/include/HXLibs/coroutine/task/AioTask.hpp b/include/HXLibs/coroutine/task/AioTask.hpp
index 9d9ea2e..2fddca1 100644
--- a/include/HXLibs/coroutine/task/AioTask.hpp
+++ b/include/HXLibs/coroutine/task/AioTask.hpp
@@ -271,15 +271,49 @@ public:
      * @brief 链接超时操作
      * @param task 任务
      * @param timeoutTask `prepLinkTimeout`的返回值
+     * @note 返回前, 两个任务都已经完成; 故内核不会再访问它们
      * @return auto 
      */
     [[nodiscard]] inline static auto linkTimeout(
         AioTask&& task, AioTask&& timeoutTask
     ) {
         task._sqe->flags |= IOSQE_IO_LINK;
-        return whenAny(std::move(task), std::move(timeoutTask));
+        return waitLinkTimeout(task, timeoutTask);
     }
 
+private:
+    struct LinkAwaiter {
+        constexpr bool await_ready() const noexcept { return false; }
+        constexpr void await_suspend(std::coroutine_handle<> coroutine) const noexcept {
+            _task->_previous = _timeoutTask->_previous = coroutine;
+            _task->_res = _timeoutTask->_res = -ENOSYS;
+        }
+        constexpr void await_resume() const noexcept {}
+        AioTask* _task;
+        AioTask* _timeoutTask;
+    };
+
+    using LinkTimeoutRes = container::UninitializedNonVoidVariant<int, int>;
+
+    inline static Task<LinkTimeoutRes> waitLinkTimeout(
+        AioTask& task, AioTask& timeoutTask
+    ) {
+        // 任务和它的超时各自会产生一个完成事件 (顺序不定), 必须都等到
+        co_await LinkAwaiter{&task, &timeoutTask};
+        co_await std::suspend_always{};
+
+        LinkTimeoutRes res;
+        const bool isCanceled = task._res == -ECANCELED || task._res == -EINTR;
+        const bool isTimeout = timeoutTask._res == -ETIME || timeoutTask._res == -EALREADY;
+        if (isCanceled && isTimeout) {
+            res.template emplace<1>(-ETIME);
+        } else {
+            res.template emplace<0>(task._res); // 即便刚好超时, 任务也已经完成
+        }
+        co_return res;
+    }
+
+public:
     ~AioTask() noexcept = default;
 };
 
-- 
2.43.0


From 521c46bc349b38ee8798f871ddf76ef3dfc19cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 10/84] fix: fullyRecv: the end of the stream is an error, not
 a reason to retry forever

---
 include/HXLibs/net/socket/IO.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 6e83953..987ef73 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -90,6 +90,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"is Close"}; // 还没有读取完毕, 对方就关闭了
+            }
             buf = buf.subspan(sent);
         }
     }
@@ -337,6 +340,9 @@ public:
                     co_await recv(buf)
                 )
             );
+            if (sent == 0) [[unlikely]] {
+                throw std::runtime_error{"is Close"}; // 还没有读取完毕, 对方就关闭了
+            }
             buf = buf.subspan(sent);
         }
     }
-- 
2.43.0


From 35d36341d9c263bad764b3863c5c219b5a93cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 11/84] fix: AsyncFile::open: a path that is not NUL-terminated
 opened another file

---
 include/HXLibs/utils/FileUtils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 061eff4..9f0ba4c 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -129,9 +129,10 @@ public:
         ModeType mode = 0644
     ) {
 #if defined(__linux__)
+        std::string const pathStr{path}; // path 不一定以 '\0' 结尾
         _fd = HXLIBS_CHECK_EVENT_LOOP(
             co_await _eventLoop.makeAioTask().prepOpenat(
-                dirfd, path.data(), static_cast<int>(flags), mode
+                dirfd, pathStr.c_str(), static_cast<int>(flags), mode
             )
         );
 #elif defined(_WIN32)
-- 
2.43.0


From 576544791228ccddbd8f86623003f175290c3908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 12/84] fix: ConnectionHandler: a query string kept the request
 from reaching its endpoint

---
 include/HXLibs/net/server/ConnectionHandler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index 2cf670b..ed4c8bb 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -60,7 +60,7 @@ struct ConnectionHandler {
                     // 路由
                     co_await router.getEndpoint(
                         req.getReqType(), 
-                        req.getReqPath()
+                        req.getPureReqPath() // 查询参数不参与路由
                     )(req, res);
                     // 只要不是明确写 close 的, 我就复用连接 (keep-alive)
                     if (auto it = req.getHeaders().find(CONNECTION_SV);
-- 
2.43.0


From 9f18e5c7b68d1c94c0470dcb00805316294f82d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 13/84] fix: Request: malformed or space-less header lines
 crashed the server or were added to another header

---
 include/HXLibs/net/protocol/http/Http.hpp    | 24 ++++++++++++++++++++
 include/HXLibs/net/protocol/http/Request.hpp | 22 +++++++++---------
 2 files changed, 35 insertions(+), 11 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index f1b959d..0b5f738 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -80,6 +80,30 @@ struct TransparentCaseInsensitiveEqual {
     }
 };
 
+/**
+ * @brief 解析一行 `K: V`, 其中 `:` 后面的空白是可选的, 值可以为空
+ * @return 该行是否是独立的键值对; 不是则应该接在上一个键值对的值尾
+ */
+inline bool parseHeaderLine(std::string_view line, std::string& key, std::string& val) {
+    auto pos = line.find(':');
+    if (pos == std::string_view::npos || pos == 0 || line[0] == ' ' || line[0] == '\t') {
+        return false;
+    }
+    key.clear();
+    for (char c : line.substr(0, pos)) { // K 是不区分大小写的
+        key += static_cast<char>(asciiToLower(static_cast<unsigned char>(c)));
+    }
+    auto v = line.substr(pos + 1);
+    while (!v.empty() && (v.front() == ' ' || v.front() == '\t')) {
+        v.remove_prefix(1);
+    }
+    while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) {
+        v.remove_suffix(1);
+    }
+    val = v;
+    return true;
+}
+
 } // namespace internal
 
 class Http {};
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 8fd3968..b78887c 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -686,7 +686,7 @@ private:
                 );
 
                 if (_requestLine.size() < 3) [[unlikely]] {
-                    return IO::kBufMaxSize;
+                    throw std::runtime_error{"Malformed request line"};
                 } 
                 // else if (_requestLine.size() > 3) [[unlikely]] {
                 // @todo 理论上不会出现
@@ -709,17 +709,17 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) [[unlikely]] {     // 找不到 ": "
-                        if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输请求头的
-                            _requestHeadersIt->second.append(subKVStr);
-                        } else { // 请求头解析完毕!
-                            _completeRequestHeader = true;
-                        }
-                    } else {
+                    std::pair<std::string, std::string> p;
+                    if (subKVStr.empty()) { // 请求头解析完毕!
+                        _completeRequestHeader = true;
+                    } else if (internal::parseHeaderLine(subKVStr, p.first, p.second)) {
                         // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
-                        utils::StringUtil::toLower(p.first);
-                        _requestHeadersIt = _requestHeaders.insert(p).first;
+                        _requestHeadersIt = _requestHeaders.insert(std::move(p)).first;
+                    } else if (_requestHeadersIt != _requestHeaders.end()) [[unlikely]] {
+                        // 很少会有分片传输请求头的
+                        _requestHeadersIt->second.append(subKVStr);
+                    } else [[unlikely]] {
+                        throw std::runtime_error{"Malformed request header"};
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 }
-- 
2.43.0


From a05970bd8d9749d8c5fbbc50dbc74df2bd48c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:27 +0000
Subject: [PATCH 14/84] fix: Request: bodies split at a chunk edge were
 corrupted and bytes of the next request were lost or underflowed the length

A chunk-size line, a CRLF or a trailer that arrived in another read than
the data before it was misparsed, and bytes following a body (a pipelined
request) were appended to it or dropped. Decode chunks incrementally and
keep what belongs to the next request in the receive buffer.
---
 include/HXLibs/net/protocol/http/Http.hpp    |  68 ++++++++++++
 include/HXLibs/net/protocol/http/Request.hpp | 107 ++++---------------
 2 files changed, 90 insertions(+), 85 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Http.hpp b/include/HXLibs/net/protocol/http/Http.hpp
index 0b5f738..fb0d2d4 100644
--- a/include/HXLibs/net/protocol/http/Http.hpp
+++ b/include/HXLibs/net/protocol/http/Http.hpp
@@ -18,7 +18,10 @@
  * limitations under the License.
  */
 
+#include <algorithm>
 #include <array>
+#include <charconv>
+#include <stdexcept>
 #include <string>
 #include <string_view>
 #include <unordered_map>
@@ -165,6 +168,71 @@ using HeaderHashMap = std::unordered_map<
     internal::TransparentCaseInsensitiveEqual
 >;
 
+namespace internal {
+
+enum class ChunkStep {
+    NeedMore,   // 数据不足, 需要继续读取
+    Data,       // 得到一段数据
+    End         // 解析完毕 (包括尾部)
+};
+
+/**
+ * @brief 分块传输编码解码, 每次前进一步
+ * @param buf [in, out] 待解析的数据, 会去掉已经解析的部分
+ * @param remaining [in, out] 状态: 无值 = 块长度行; 0 = 尾部; 否则为本块剩余的长度 (包含结尾的 CRLF)
+ * @param data [out] 得到的数据
+ */
+inline ChunkStep nextChunk(
+    std::string_view& buf, std::optional<std::size_t>& remaining, std::string_view& data
+) {
+    for (;;) {
+        if (remaining && *remaining > 2) { // 块数据
+            data = buf.substr(0, *remaining - 2);
+            if (data.empty()) {
+                return ChunkStep::NeedMore;
+            }
+            *remaining -= data.size();
+            buf.remove_prefix(data.size());
+            return ChunkStep::Data;
+        }
+        if (remaining && *remaining) { // 块数据结尾的 CRLF
+            auto n = std::min(*remaining, buf.size());
+            if (buf.substr(0, n) != CRLF.substr(2 - *remaining, n)) [[unlikely]] {
+                throw std::runtime_error{"Malformed chunk"};
+            }
+            *remaining -= n;
+            buf.remove_prefix(n);
+            if (*remaining) {
+                return ChunkStep::NeedMore;
+            }
+            remaining.reset();
+        }
+        auto pos = buf.find(CRLF);
+        if (pos == std::string_view::npos) {
+            return ChunkStep::NeedMore;
+        }
+        auto line = buf.substr(0, pos);
+        buf.remove_prefix(pos + 2);
+        if (remaining) { // 尾部, 以空行结束
+            if (line.empty()) {
+                return ChunkStep::End;
+            }
+            continue;
+        }
+        line = line.substr(0, line.find_first_of("; \t")); // 去掉块扩展
+        std::size_t size = 0;
+        auto [ptr, ec] = std::from_chars(line.data(), line.data() + line.size(), size, 16);
+        if (ec != std::errc{} || ptr != line.data() + line.size()
+            || size > static_cast<std::size_t>(-1) - 2
+        ) [[unlikely]] {
+            throw std::runtime_error{"Malformed chunk size"};
+        }
+        remaining = size ? size + 2 : 0;
+    }
+}
+
+} // namespace internal
+
 /**
  * @brief 断点续传参数包
  */
diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index b78887c..abd652c 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -305,7 +305,8 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserReqHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserReqHead()) {
+        // 先解析已经读取的数据 (它们可能已经包含整个请求)
+        for (std::size_t n = _recvBuf.size() ? _parserReqHead() : IO::kBufMaxSize; n; n = _parserReqHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -550,7 +551,6 @@ public:
         _requestLine.clear();
         _requestHeaders.clear();
         _requestHeadersIt = _requestHeaders.end();
-        _recvBuf.clear();
         _body.clear();
         _completeRequestHeader = false;
         _remainingBodyLen.reset();
@@ -752,54 +752,23 @@ private:
             if (!_remainingBodyLen.has_value()) {
                 _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
-                return *_remainingBodyLen;
-            }
+            auto data = buf.substr(0, *_remainingBodyLen); // 多出的属于下一个请求
+            *_remainingBodyLen -= data.size();
+            _body.append(data);
+            _recvBuf.moveToHead(buf.substr(data.size()));
+            return *_remainingBodyLen;
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
+            std::string_view data;
             for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
+                auto step = internal::nextChunk(buf, _remainingBodyLen, data);
+                if (step != internal::ChunkStep::Data) {
                     _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
+                    return step == internal::ChunkStep::End ? 0 : IO::kBufMaxSize;
                 }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                _body.append(data);
             }
         }
         return 0;
@@ -818,55 +787,23 @@ private:
             if (!_remainingBodyLen.has_value()) {
                 _remainingBodyLen = std::stoull(_requestHeaders.find(CONTENT_LENGTH_SV)->second);
             }
-            
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                co_await file.write(buf); // _body.append(buf);
-                _recvBuf.clear();
-                co_return *_remainingBodyLen;
-            }
+            auto data = buf.substr(0, *_remainingBodyLen); // 多出的属于下一个请求
+            *_remainingBodyLen -= data.size();
+            co_await file.write(data);
+            _recvBuf.moveToHead(buf.substr(data.size()));
+            co_return *_remainingBodyLen;
         } else if (_requestHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在请求体以`分块传输编码`
             /**
              * @todo 目前只支持 chunked 编码, 不支持压缩的 (2024-9-6 09:36:25) 
              * */
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
-                } else { // 读取完了
-                    co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
+            std::string_view data;
             for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
+                auto step = internal::nextChunk(buf, _remainingBodyLen, data);
+                if (step != internal::ChunkStep::Data) {
                     _recvBuf.moveToHead(buf);
-                    co_return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
-                }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    co_return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    co_await file.write(buf); // _body.append(buf);
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    co_return IO::kBufMaxSize;
+                    co_return step == internal::ChunkStep::End ? 0 : IO::kBufMaxSize;
                 }
-                co_await file.write(buf.substr(0, *_remainingBodyLen)); // _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                co_await file.write(data);
             }
         }
         co_return 0;
-- 
2.43.0


From 2149ef63382c3bb4c708350c26e68709459f8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 15/84] fix: HttpResponse: a client that stopped reading pinned
 its connection for ever

Responses and file transfers were sent without a timeout, so such a
client kept its descriptor and the server could not be stopped. Send
with a timeout, as requests are.
---
 include/HXLibs/net/protocol/http/Response.hpp | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d92285..e841ef1 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -362,15 +362,19 @@ public:
      * @brief 发送已经设置的响应
      * @return coroutine::Task<> 
      */
+    template <typename Timeout = decltype(30_s)>
+        requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> sendRes() {
         createResponseBuffer();
-        co_await _io.fullySend(_sendBuf);
+        co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
     }
 
     /**
      * @brief 使用分块编码传输文件
      * @param filePath 文件路径
      */
+    template <typename Timeout = decltype(30_s)>
+        requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> useChunkedEncodingTransferFile(std::string_view filePath) {
         using namespace std::string_literals;
         auto fileType = getMimeType(
@@ -382,7 +386,7 @@ public:
         // 生成响应行和响应头
         _buildResponseLineAndHeaders();
         // 先发送一版, 告知我们是分块编码
-        co_await _io.fullySend(_sendBuf);
+        co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
         
         utils::AsyncFile file{_io};
         co_await file.open(filePath);
@@ -395,8 +399,8 @@ public:
                 内容片段
             */
             _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
-            co_await _io.fullySend(_sendBuf);           // 发送
-            co_await _io.fullySend({buf.data(), size}); // 发送文件
+            co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);           // 发送
+            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size}); // 发送文件
             for (;;) {
                 size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
@@ -407,7 +411,7 @@ public:
                     */
                     // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
                     _buildToChunkedEncoding<false, true>(0); // 发送完成的版本: \r\n0\r\n\r\n
-                    co_await _io.fullySend(_sendBuf);
+                    co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
                     break;
                 }
                 /*
@@ -416,8 +420,8 @@ public:
                     内容片段
                 */
                 _buildToChunkedEncoding(size);         // 补充上次的头版本: \r\nlen\r\n
-                co_await _io.fullySend(_sendBuf);      // 发送
-                co_await _io.fullySend({buf.data(), size});           // 发送文件
+                co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);      // 发送
+                co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});           // 发送文件
             }
         } catch (...) {
             ; // _io.template send 会抛异常
@@ -437,6 +441,8 @@ public:
      * @param rrv 断点续传参数包, 通过 `req.getRangeRequestView()` 获取
      * @param filePath 文件路径
      */
+    template <typename Timeout = decltype(30_s)>
+        requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> useRangeTransferFile(RangeRequestView rrv, std::string_view filePath) {
         using namespace std::string_literals;
         using namespace std::string_view_literals;
@@ -461,7 +467,7 @@ public:
             addHeader("Content-Type", fileType);
             addHeader("Accept-Ranges", "bytes");
             _buildResponseLineAndHeaders();
-            co_await _io.fullySend(_sendBuf);
+            co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
         } else if (auto it = headMap.find("range"); it != headMap.end()) {
             // 开始[断点续传]传输, 先发一下头
             /*
@@ -495,7 +501,7 @@ public:
                     // 范围不合法: 返回416, 表示请求错误
                     setResLine(Status::CODE_416);
                     _buildResponseLineAndHeaders();
-                    co_await _io.fullySend(_sendBuf);
+                    co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
                     co_return ;
                 }
                 uint64_t remaining = endPos - beginPos + 1;
@@ -503,7 +509,7 @@ public:
                 addHeader("Content-Type", fileType);
                 addHeader("Content-Length", std::to_string(remaining));
                 _buildResponseLineAndHeaders();
-                co_await _io.fullySend(_sendBuf); // 先发一个头
+                co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
                 
                 utils::AsyncFile file{_io};
                 co_await file.open(filePath);
@@ -522,7 +528,7 @@ public:
                         if (!size) [[unlikely]] {
                             break;
                         }
-                        co_await _io.fullySend({buf.data(), size});
+                        co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
                         remaining -= size;
                     }
                 } catch (...) {
@@ -550,7 +556,7 @@ public:
                 */
                 addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
                 _buildResponseLineAndHeaders();
-                co_await _io.fullySend(_sendBuf); // 先发一个头
+                co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
                 for (auto& ragen : rangeNumArr) {
                     auto [begin, end] = utils::StringUtil::splitAtFirst(ragen, "-");
                     if (begin.empty()) {
@@ -581,7 +587,7 @@ public:
                     utils::StringUtil::append(_sendBuf, CRLF);
                     utils::StringUtil::append(_sendBuf, "Content-Type: application/octet-stream\r\n"sv);
                     utils::StringUtil::append(_sendBuf, CRLF);
-                    co_await _io.fullySend(_sendBuf); // 先发头
+                    co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发头
 
                     utils::AsyncFile file{_io};
                     co_await file.open(filePath);
@@ -600,8 +606,8 @@ public:
                             if (!size) [[unlikely]] {
                                 break;
                             }
-                            co_await _io.fullySend({buf.data(), size});
-                            co_await _io.fullySend(CRLF);
+                            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
+                            co_await _io.template sendLinkTimeout<Timeout>(CRLF);
                             remaining -= size;
                         }
                     } catch (...) {
@@ -610,7 +616,7 @@ public:
                     }
                     co_await file.close();
                 }
-                co_await _io.fullySend("--BOUNDARY_STRING--\r\n"sv);
+                co_await _io.template sendLinkTimeout<Timeout>("--BOUNDARY_STRING--\r\n"sv);
             }
         } else {
             // 普通的传输文件
@@ -618,7 +624,7 @@ public:
             addHeader("Content-Type"s, fileType);
             addHeader("Content-Length"s, fileSizeStr);
             _buildResponseLineAndHeaders();
-            co_await _io.fullySend(_sendBuf); // 先发一个头
+            co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
 
             utils::AsyncFile file{_io};
             co_await file.open(filePath);
@@ -632,7 +638,7 @@ public:
                     if (!size) [[unlikely]] {
                         break;
                     }
-                    co_await _io.fullySend({buf.data(), size});
+                    co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
                     remaining -= size;
                 }
             } catch (...) {
-- 
2.43.0


From 69d98f782a216be8d0ab776709665589edf40972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 16/84] fix: Acceptor: a transient accept error ended the
 server's accepting for good

---
 include/HXLibs/net/server/Acceptor.hpp | 31 +++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index 2cab310..a8bcabc 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -54,14 +54,21 @@ struct Acceptor {
     coroutine::Task<> start(std::atomic_bool const& isRun) {
         auto serverFd = co_await makeServerFd();
         for (;;) [[likely]] {
-            auto fd = HXLIBS_CHECK_EVENT_LOOP((
-                co_await _eventLoop.makeAioTask().prepAccept(
-                    serverFd,
-                    nullptr,    // 如果需要, 可以 getpeername(fd, ...) 获取的说...
-                    nullptr,
-                    0
-                )
-            ));
+            auto fd = co_await _eventLoop.makeAioTask().prepAccept(
+                serverFd,
+                nullptr,    // 如果需要, 可以 getpeername(fd, ...) 获取的说...
+                nullptr,
+                0
+            );
+            if (isAcceptError(fd)) [[unlikely]] {
+                // 比如: 对方在 accept 之前就断开了, 或者文件描述符用完了; 这不应该使得服务器不再接受连接
+                log::hxLog.error("accept 失败:", fd);
+                if (!isRun.load(std::memory_order_acquire)) {
+                    break;
+                }
+                co_await _eventLoop.makeTimer().sleepFor(std::chrono::milliseconds{10});
+                continue;
+            }
             log::hxLog.debug("有新的连接:", fd);
             ConnectionHandler<IOType>::template
                 start<Timeout>(fd, isRun, _router, _eventLoop).detach();
@@ -76,6 +83,14 @@ struct Acceptor {
     }
 
 private:
+    static constexpr bool isAcceptError(SocketFdType fd) noexcept {
+#if defined(_WIN32)
+        return fd == kInvalidSocket;
+#else
+        return fd < 0;
+#endif
+    }
+
     coroutine::Task<SocketFdType> makeServerFd() {
 #if defined(__linux__)
         int serverFd = exception::IoUringErrorHandlingTools::check(
-- 
2.43.0


From 48ad24ea2b6d56c1b3e22a7abd0aded8b36ee61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 17/84] fix: Acceptor: a failed bind or listen leaked the
 socket

---
 include/HXLibs/net/server/Acceptor.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index a8bcabc..cd0eea5 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -29,6 +29,7 @@
 #if defined(__linux__)
     #include <netinet/in.h>
     #include <netinet/tcp.h> // TCP_NODELAY
+    #include <unistd.h>      // close
 #endif
 
 #include <HXLibs/log/Log.hpp>
@@ -102,6 +103,15 @@ private:
             )
         );
 
+        struct FdGuard { // bind / listen 失败时不应该泄漏
+            int fd;
+            ~FdGuard() {
+                if (fd >= 0) [[unlikely]] {
+                    ::close(fd);
+                }
+            }
+        } guard{serverFd};
+
         auto serAddr = _entry.getAddress();
         int on = 1;
         setsockopt(serverFd, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
@@ -118,6 +128,7 @@ private:
             ::listen(serverFd, SOMAXCONN)
         ).expect("listen");
 
+        guard.fd = -1;
         co_return serverFd;
 #elif defined(_WIN32)
         auto serSocket 
-- 
2.43.0


From 1db0c841f7812bc28505e5cdae9c010aca28b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 18/84] fix: HttpServer: stopping before a loop thread had
 started missed that thread

---
 include/HXLibs/net/server/HttpServer.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index 386c200..960853c 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -142,9 +142,15 @@ public:
         }
         init();
         for (std::size_t i = 0; i < threadNum; ++i) {
-            _threads.emplace_back([this] {
-                _sync<Timeout>();
-            });
+            ++_runNum; // 不可以由线程自己计数, 否则线程启动前的关闭会漏掉它
+            try {
+                _threads.emplace_back([this] {
+                    _sync<Timeout>();
+                });
+            } catch (...) {
+                --_runNum;
+                throw;
+            }
         }
     }
 
@@ -235,7 +241,6 @@ private:
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
             Acceptor<HttpIO> acceptor{_router, _eventLoop, entry};
             auto mainTask = acceptor.start<Timeout>(_isRun);
             _eventLoop.start(mainTask);
@@ -307,7 +312,6 @@ private:
             coroutine::EventLoop _eventLoop;
             AddressResolver addr;
             auto entry = addr.resolve("0.0.0.0", _port);
-            ++_runNum;
             Acceptor<HttpsIO> acceptor{_router, _eventLoop, entry};
             auto mainTask = acceptor.start<Timeout>(_isRun);
             _eventLoop.start(mainTask);
-- 
2.43.0


From 541ce7e2a777e3cd62382f3469d5ee53c380542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 19/84] fix: HttpServer: the asynchronous stop used members
 that were already destroyed

---
 include/HXLibs/net/server/HttpServer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index 960853c..ca821f3 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -170,6 +170,7 @@ public:
 
     ~HttpBaseServer() noexcept {
         syncStop();
+        _asyncStopThread.reset(); // 它会使用成员, 应该在成员析构之前结束
     }
 
 private:
-- 
2.43.0


From 55b4e234bbd5471f61612b3c4b39ec77475388c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:58 +0000
Subject: [PATCH 20/84] fix: HttpServer: syncStop did not ask the loops to stop
 and could spin

---
 include/HXLibs/net/server/HttpServer.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index ca821f3..71a3e85 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -200,11 +200,12 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
+        _isRun.store(false, std::memory_order_release);
         while (_runNum) {
             try {
                 // ! Win 上面, 0.0.0.0 无法被路由, 只能 127.0.0.1 访问!
                 HttpClient cli{HttpClientOptions{}};
-                cli.get(
+                auto res = cli.get(
                     (std::is_same_v<IO, HttpIO> ? std::string{"http"} : std::string{"https"}) 
                     + "://127.0.0.1:"
                     + _port
@@ -212,6 +213,9 @@ public:
                     {{"Connection", "close"}}
                 ).get();
                 cli.close();
+                if (!res) { // 已经不再监听, 仅剩连接需要结束
+                    std::this_thread::sleep_for(std::chrono::milliseconds{50});
+                }
             } catch (...) {
                 ;
             }
@@ -269,13 +273,14 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
+        _isRun.store(false, std::memory_order_release);
         while (_runNum) {
             try {
                 HttpsClient cli{HttpClientOptions{}};
                 cli.initSsl({
                     SslVerifyOption::None
                 });
-                cli.get(
+                auto res = cli.get(
                     (std::is_same_v<IO, HttpIO> ? std::string{"http"} : std::string{"https"}) 
                     + "://127.0.0.1:"
                     + _port
@@ -283,6 +288,9 @@ public:
                     {{"Connection", "close"}}
                 ).get();
                 cli.close();
+                if (!res) { // 已经不再监听, 仅剩连接需要结束
+                    std::this_thread::sleep_for(std::chrono::milliseconds{50});
+                }
             } catch (...) {
                 ;
             }
-- 
2.43.0


From a2376fe9b84d2dda01e6f20eeeb3ffeac0d5a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 21/84] fix: HttpResponse: a malformed status line or header
 crashed the client or was added to another header

---
 include/HXLibs/net/protocol/http/Response.hpp | 62 +++++++++----------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index e841ef1..d8e2120 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -871,29 +871,29 @@ private:
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
         switch ((_completeResponseHeader << 1) | (!_statusLine.empty())) {
             case 0x00: { // 响应行
-                if (_statusLine.empty()) { // 响应行还未解析
-                    std::size_t pos = buf.find(CRLF);
-                    if (pos == std::string_view::npos) [[unlikely]] { // 不可能事件
-                        return IO::kBufMaxSize;
-                    }
+                std::size_t pos = buf.find(CRLF);
+                if (pos == std::string_view::npos) [[unlikely]] { // 不可能事件
+                    return IO::kBufMaxSize;
+                }
 
-                    // 解析响应行, 注意 不能按照空格直接切分! 因为 HTTP/1.1 404 NOF FOND\r\n
-                    _statusLine = utils::StringUtil::split<std::string>(
-                        buf.substr(0, pos), " "sv
-                    );
-                    if (_statusLine.size() < 3) [[unlikely]] {
-                        return IO::kBufMaxSize;
-                    }
-                    if (_statusLine.size() > 3) {
-                        auto& msg = _statusLine[ResponseLineDataType::StatusMessage];
-                        for (std::size_t i = 3; i < _statusLine.size(); ++i) {
-                            msg += ' ';
-                            msg += std::move(_statusLine[i]);
-                        }
-                        _statusLine.resize(3);
-                    }
-                    buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
+                // 解析响应行, 注意 不能按照空格直接切分! 因为 HTTP/1.1 404 NOF FOND\r\n
+                // 并且状态信息可以为空
+                auto line = buf.substr(0, pos);
+                auto codePos = line.find(' ');
+                if (!line.starts_with("HTTP/"sv)
+                    || codePos == std::string_view::npos
+                    || line.size() < codePos + 4
+                    || line.substr(codePos + 1, 3).find_first_not_of("0123456789"sv) != std::string_view::npos
+                    || (line.size() > codePos + 4 && line[codePos + 4] != ' ')
+                ) [[unlikely]] {
+                    throw std::runtime_error{"Malformed response line"};
                 }
+                _statusLine.resize(3);
+                _statusLine[ProtocolVersion] = line.substr(0, codePos);
+                _statusLine[StatusCode] = line.substr(codePos + 1, 3);
+                _statusLine[StatusMessage] = line.substr(std::min(codePos + 5, line.size()));
+
+                buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 [[fallthrough]];
             }
             case 0x01: { // 响应头
@@ -910,17 +910,17 @@ private:
                         return IO::kBufMaxSize;
                     }
                     std::string_view subKVStr = buf.substr(0, pos);
-                    auto p = utils::StringUtil::splitAtFirst(subKVStr, HEADER_SEPARATOR_SV);
-                    if (p.first.empty()) {                  // 找不到 ": "
-                        if (subKVStr.size()) [[unlikely]] { // 很少会有分片传输响应头的
-                            _responseHeadersIt->second.append(subKVStr);
-                        } else { // 请求头解析完毕!
-                            _completeResponseHeader = true;
-                        }
-                    } else {
+                    std::pair<std::string, std::string> p;
+                    if (subKVStr.empty()) { // 响应头解析完毕!
+                        _completeResponseHeader = true;
+                    } else if (internal::parseHeaderLine(subKVStr, p.first, p.second)) {
                         // K: V, 其中 V 是区分大小写的, 但是 K 是不区分的
-                        utils::StringUtil::toLower(p.first);
-                        _responseHeadersIt = _responseHeaders.insert(p).first;
+                        _responseHeadersIt = _responseHeaders.insert(std::move(p)).first;
+                    } else if (_responseHeadersIt != _responseHeaders.end()) [[unlikely]] {
+                        // 很少会有分片传输响应头的
+                        _responseHeadersIt->second.append(subKVStr);
+                    } else [[unlikely]] {
+                        throw std::runtime_error{"Malformed response header"};
                     }
                     buf = buf.substr(pos + 2); // 再前进, 以去掉 "\r\n"
                 }
-- 
2.43.0


From 0dcbb5f26f23e67dc0e0bb9621913c23eb8a4bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:08 +0000
Subject: [PATCH 22/84] fix: HttpResponse: bodies split at a chunk edge,
 surplus bytes, interim responses and bodies without a length were corrupted

---
 include/HXLibs/net/protocol/http/Response.hpp | 120 ++++++++++--------
 1 file changed, 67 insertions(+), 53 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index d8e2120..c0f6921 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -168,11 +168,17 @@ public:
     HttpResponse& operator=(HttpResponse&&) noexcept = delete;
 #endif
     // ===== ↓客户端使用↓ =====
+    /**
+     * @brief 解析服务端响应 (响应行 + 响应头 + 响应体)
+     * @tparam Timeout 超时时间
+     * @param isNoBody 是否没有响应体 (例如 HEAD 请求的响应)
+     * @return coroutine::Task<bool> 是否解析完毕 
+     */
     template <typename Timeout = decltype(30_s)>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<bool> parserRes() {
+    coroutine::Task<bool> parserRes(bool isNoBody = false) {
         co_return co_await parserResHead<Timeout>()
-               && co_await parseBody<Timeout>();
+               && (isNoBody || co_await parseBody<Timeout>());
     }
 
     /**
@@ -183,7 +189,7 @@ public:
     template <typename Timeout = decltype(30_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parserResHead() {
-        for (std::size_t n = IO::kBufMaxSize; n; n = _parserResHead()) {
+        for (std::size_t n = _recvBuf.size() ? _parserResHead() : IO::kBufMaxSize; n; n = _parserResHead()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + std::min(_recvBuf.max_size(), n)}
@@ -199,6 +205,14 @@ public:
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
         }
+        if (auto code = getStatusCode(); code.front() == '1' && code != "101") [[unlikely]] {
+            // 临时响应 (例如 100 Continue), 最终的响应还在后面
+            _statusLine.clear();
+            _responseHeaders.clear();
+            _responseHeadersIt = _responseHeaders.end();
+            _completeResponseHeader = false;
+            co_return co_await parserResHead<Timeout>();
+        }
         co_return true;
     }
 
@@ -211,6 +225,9 @@ public:
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<bool> parseBody() {
         _markBodyParsed();
+        if (auto code = getStatusCode(); code.front() == '1' || code == "204" || code == "304") {
+            co_return true; // 没有响应体
+        }
         for (std::size_t n = _parserReqBody(); n; n = _parserReqBody()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
@@ -225,7 +242,7 @@ public:
             );
             if (recvN == 0) [[unlikely]] {
                 // 连接断开
-                co_return false;
+                co_return _isBodyUntilClose;
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
         }
@@ -307,6 +324,21 @@ public:
         return _statusLine[ResponseLineDataType::StatusMessage];
     }
 
+    /**
+     * @brief [仅客户端] 解析完毕后, 连接是否还可以给下一个请求使用
+     */
+    bool isKeepAlive() const {
+        if (_isBodyUntilClose || _recvBuf.size()) {
+            return false; // 多余的数据不属于任何请求
+        }
+        auto it = _responseHeaders.find(CONNECTION_SV);
+        if (it == _responseHeaders.end()) {
+            return getProtocolVersion() != "HTTP/1.0";
+        }
+        internal::TransparentCaseInsensitiveEqual eq;
+        return getProtocolVersion() != "HTTP/1.0" ? !eq(it->second, "close") : eq(it->second, "keep-alive");
+    }
+
     /**
      * @brief 获取响应头键值对 只读引用
      * @return 响应头键值对 (键均为小写)
@@ -740,8 +772,10 @@ public:
         _body.clear();
         _responseHeadersIt = _responseHeaders.end();
         _sendBuf.clear();
+        _remainingBodyLen.reset();
         _completeResponseHeader = false;
         _completeBody = false;
+        _isBodyUntilClose = false;
     }
 
     /**
@@ -779,6 +813,7 @@ private:
     IOType& _io;
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
+    bool _isBodyUntilClose = false;                 // 响应体是否以连接关闭为结尾
 
     template <typename>
     friend class WebSocketFactory;
@@ -947,63 +982,42 @@ private:
         using namespace std::string_literals;
         using namespace std::string_view_literals;
         std::string_view buf{_recvBuf.data(), _recvBuf.size()};
-        if (_responseHeaders.contains(CONTENT_LENGTH_SV)) { // 存在content-length模式接收的响应体
-            // 是 空行之后 (\r\n\r\n) 的内容大小(char)
-            if (!_remainingBodyLen.has_value()) {
-                _remainingBodyLen = std::stoull(_responseHeaders.find(CONTENT_LENGTH_SV)->second);
-            }
-            if (*_remainingBodyLen != 0) {
-                *_remainingBodyLen -= buf.size();
-                _body.append(buf);
-                _recvBuf.clear();
-                return *_remainingBodyLen;
-            }
-        } else if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
-            if (_remainingBodyLen) { // 处理没有读取完的
-                if (buf.size() <= *_remainingBodyLen) { // 还没有读取完毕
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
-                } else { // 读取完了
-                    _body.append(buf, 0, *_remainingBodyLen);
-                    buf = buf.substr(std::min(*_remainingBodyLen + 2, buf.size()));
-                    _remainingBodyLen.reset();
-                }
-            }
+        if (_responseHeaders.contains(TRANSFER_ENCODING_SV)) { // 存在响应体以`分块传输编码`
+            std::string_view data;
             for (;;) {
-                std::size_t posLen = buf.find(CRLF);
-                if (posLen == std::string_view::npos) { // 没有读完
+                auto step = internal::nextChunk(buf, _remainingBodyLen, data);
+                if (step != internal::ChunkStep::Data) {
                     _recvBuf.moveToHead(buf);
-                    return IO::kBufMaxSize;
-                }
-                if (!posLen && buf[0] == '\r') [[unlikely]] { // posLen == 0
-                    // \r\n 贴脸, 触发原因, std::min(*_remainingBodyLen + 2, buf.size()) 只能 buf.size()
-                    buf = buf.substr(posLen + 2);
-                    continue;
+                    return step == internal::ChunkStep::End ? 0 : IO::kBufMaxSize;
                 }
-                _remainingBodyLen = utils::NumericBaseConverter::strToNum<std::size_t, 16>(
-                    buf.substr(0, posLen)
-                ); // 转换为十进制整数
-                if (!*_remainingBodyLen) { // 解析完毕
-                    return 0;
-                }
-                buf = buf.substr(posLen + 2);
-                if (buf.size() <= *_remainingBodyLen) { // 没有读完
-                    _body += buf;
-                    *_remainingBodyLen -= buf.size();
-                    _recvBuf.clear();
-                    return IO::kBufMaxSize;
+                _body.append(data);
+            }
+        } else if (auto it = _responseHeaders.find(CONTENT_LENGTH_SV); it != _responseHeaders.end()) {
+            // 存在content-length模式接收的响应体
+            // 是 空行之后 (\r\n\r\n) 的内容大小(char)
+            if (!_remainingBodyLen.has_value()) {
+                auto const& len = it->second;
+                std::size_t n = 0;
+                auto [ptr, ec] = std::from_chars(len.data(), len.data() + len.size(), n);
+                if (ec != std::errc{} || ptr != len.data() + len.size()) [[unlikely]] {
+                    throw std::runtime_error{"Malformed content-length"};
                 }
-                _body.append(buf.substr(0, *_remainingBodyLen));
-                buf = buf.substr(*_remainingBodyLen + 2);
+                _remainingBodyLen = n;
             }
-        } 
+            auto data = buf.substr(0, *_remainingBodyLen);
+            *_remainingBodyLen -= data.size();
+            _body.append(data);
+            _recvBuf.moveToHead(buf.substr(data.size()));
+            return *_remainingBodyLen;
+        }
         // else if (_responseHeaders.contains("content-range")) {
             // 断点续传 @todo
         // }
-        _recvBuf.moveToHead(buf);
-        return 0;
+        // 没有长度的响应体, 以连接关闭为结尾
+        _isBodyUntilClose = true;
+        _body.append(buf);
+        _recvBuf.clear();
+        return IO::kBufMaxSize;
     }
 
     /**
-- 
2.43.0


From 0f4ee43ac23130b8765c27ccf6849f7c05880e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 23/84] fix: HttpClient: a failed connect left a stale or
 double-closed descriptor and was reported only by using it

---
 include/HXLibs/net/client/HttpClient.hpp | 107 +++++++++++------------
 include/HXLibs/net/socket/IO.hpp         |   4 +-
 2 files changed, 55 insertions(+), 56 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index be7f313..cfcd417 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -186,8 +186,7 @@ public:
                 err.setException(std::current_exception());
             }
             // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
             err.rethrow();
             co_return {};
         };
@@ -373,9 +372,6 @@ public:
      */
     coroutine::Task<container::Try<>> coConnect(std::string_view url) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
-                co_await coClose();
-            }
             co_await makeSocket(url);
         };
         if (_isUniqueEventLoop) {
@@ -416,7 +412,9 @@ public:
             throw std::runtime_error{"Please call coClose() first"};
         }
 #endif // !NDEBUG
-        _io.get().reset();
+        if (_io.isAvailable()) {
+            _io.get().reset();
+        }
     }
 
     /**
@@ -426,7 +424,9 @@ public:
      */
     coroutine::Task<> coClose() noexcept {
         if (_cliFd == kInvalidSocket) {
-            _io.get().reset();
+            if (_io.isAvailable()) {
+                _io.get().reset();
+            }
             co_return;
         }
         co_await _io.get().close();
@@ -532,8 +532,7 @@ public:
                 }
             }
             // 断开连接
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
         };
         auto taskMain = taskObj();
         if (_isUniqueEventLoop) {
@@ -615,8 +614,7 @@ public:
 
             log::hxLog.error("超时断开 SSE"); // debug
 
-            co_await _io.get().close();
-            _cliFd = kInvalidSocket;
+            co_await coClose();
             std::rethrow_exception(exceptionPtr);
         };
         if (_isUniqueEventLoop) {
@@ -643,59 +641,60 @@ private:
      * @return coroutine::Task<>
      */
     coroutine::Task<> makeSocket(std::string_view url) {
+        co_await coClose(); // 关闭之前的连接
         AddressResolver resolver;
         UrlInfoExtractor parser{_options.proxy.get().size() ? _options.proxy.get() : url};
         auto entry = resolver.resolve(parser.getHostname(), parser.getService());
+        auto fd = HXLIBS_CHECK_EVENT_LOOP((
+            co_await _eventLoop->makeAioTask().prepSocket(
+                entry._curr->ai_family,
+                entry._curr->ai_socktype,
+                entry._curr->ai_protocol,
+                0
+            )
+        ));
+        [[maybe_unused]] auto isInit = _io.isAvailable();
+        if (!isInit) {
+            _io.set(fd, *_eventLoop);
+        } else {
+            co_await _io.get().bindNewFd(fd);
+        }
+        _cliFd = fd; // 此后由 coClose() 关闭
+        std::exception_ptr exceptionPtr{};
         try {
-            _cliFd = HXLIBS_CHECK_EVENT_LOOP((
-                co_await _eventLoop->makeAioTask().prepSocket(
-                    entry._curr->ai_family,
-                    entry._curr->ai_socktype,
-                    entry._curr->ai_protocol,
-                    0
-                )
-            ));
-            try {
-                auto sockaddr = entry.getAddress();
+            auto sockaddr = entry.getAddress();
+            HXLIBS_CHECK_EVENT_LOOP((
                 co_await _eventLoop->makeAioTask().prepConnect(
                     _cliFd,
                     sockaddr._addr,
                     sockaddr._addrlen
-                );
-                auto isInit = _io.isAvailable();
-                if (!isInit) {
-                    _io.set(_cliFd, *_eventLoop);
-                } else {
-                    co_await _io.get().bindNewFd(_cliFd);
-                }
-                if constexpr (!std::is_same_v<Proxy, NoneProxy>) {
-                    // 初始化代理
-                    if (_options.proxy.get().size()) {
-                        Proxy proxy{_io.get()};
-                        co_await proxy.connect(_options.proxy.get(), url);
-                    }
+                )
+            ));
+            if constexpr (!std::is_same_v<Proxy, NoneProxy>) {
+                // 初始化代理
+                if (_options.proxy.get().size()) {
+                    Proxy proxy{_io.get()};
+                    co_await proxy.connect(_options.proxy.get(), url);
                 }
+            }
 #ifdef HXLIBS_ENABLE_SSL
-                if constexpr (std::is_same_v<IOType, HttpsIO>) {
-                    if (!isInit) {
-                        _io.get().initSslBio(SslContext::SslType::Client);
-                    } else {
-                        _io.get().resetSslBio();
-                    }
-                    // 初始化连接 (Https 握手)
-                    co_await _io.get().template initSsl<decltype(10_s)>(false);
+            if constexpr (std::is_same_v<IOType, HttpsIO>) {
+                if (!isInit) {
+                    _io.get().initSslBio(SslContext::SslType::Client);
+                } else {
+                    _io.get().resetSslBio();
                 }
-#endif // !HXLIBS_ENABLE_SSL
-                co_return;
-            } catch (...) {
-                log::hxLog.error("连接失败");
+                // 初始化连接 (Https 握手)
+                co_await _io.get().template initSsl<decltype(10_s)>(false);
             }
-        } catch (std::exception const& e) {
-            log::hxLog.error("创建套接字失败:", e.what());
+#endif // !HXLIBS_ENABLE_SSL
+            co_return;
+        } catch (...) {
+            log::hxLog.error("连接失败");
+            exceptionPtr = std::current_exception();
         }
-        // 总之得关闭
-        co_await _eventLoop->makeAioTask().prepClose(_cliFd);
-        _cliFd = kInvalidSocket;
+        co_await coClose();
+        std::rethrow_exception(exceptionPtr);
     }
 
     /**
@@ -763,8 +762,7 @@ private:
             if (auto it = req.getHeaders().find("Connection");
                 it != req.getHeaders().end() && it->second == "close"
             ) {
-                co_await _io.get().close();
-                _cliFd = kInvalidSocket;
+                co_await coClose();
             }
             co_return res.makeResponseData();
         } catch (...) {
@@ -773,8 +771,7 @@ private:
 
         log::hxLog.error("解析出错"); // debug
 
-        co_await _io.get().close();
-        _cliFd = kInvalidSocket;
+        co_await coClose();
         std::rethrow_exception(exceptionPtr);
     }
 
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 987ef73..15accec 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -243,7 +243,9 @@ public:
      * @param fd 
      */
     coroutine::Task<> bindNewFd(SocketFdType fd) noexcept {
-        co_await close();
+        if (_fd != kInvalidSocket) {
+            co_await close();
+        }
         _fd = fd;
     }
 
-- 
2.43.0


From 13e48a413531eb3947b4957731811488105f21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 24/84] fix: HttpsClient: reconnecting reused the TLS session
 state of the previous connection

---
 include/HXLibs/container/Uninitialized.hpp | 3 ++-
 include/HXLibs/net/client/HttpClient.hpp   | 9 ++-------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/container/Uninitialized.hpp b/include/HXLibs/container/Uninitialized.hpp
index a571a6d..4fda2d6 100644
--- a/include/HXLibs/container/Uninitialized.hpp
+++ b/include/HXLibs/container/Uninitialized.hpp
@@ -34,7 +34,7 @@ struct Uninitialized {
     Uninitialized& operator=(Uninitialized const&) = delete;
     
     Uninitialized(Uninitialized&& that) noexcept 
-        : _available(that._available)
+        : _available{false}
     {
         if (that._available) {
             set(that.move());
@@ -71,6 +71,7 @@ struct Uninitialized {
 
     template <typename... Ts>
     void set(Ts&&... args) {
+        del(); // 如果已有对象, 应该先析构
         new (std::addressof(_data)) T(std::forward<Ts>(args)...);
         _available = true;
     }
diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index cfcd417..b8c8161 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -653,8 +653,7 @@ private:
                 0
             )
         ));
-        [[maybe_unused]] auto isInit = _io.isAvailable();
-        if (!isInit) {
+        if (!_io.isAvailable()) {
             _io.set(fd, *_eventLoop);
         } else {
             co_await _io.get().bindNewFd(fd);
@@ -679,11 +678,7 @@ private:
             }
 #ifdef HXLIBS_ENABLE_SSL
             if constexpr (std::is_same_v<IOType, HttpsIO>) {
-                if (!isInit) {
-                    _io.get().initSslBio(SslContext::SslType::Client);
-                } else {
-                    _io.get().resetSslBio();
-                }
+                _io.get().initSslBio(SslContext::SslType::Client); // 每个连接都是新的会话
                 // 初始化连接 (Https 握手)
                 co_await _io.get().template initSsl<decltype(10_s)>(false);
             }
-- 
2.43.0


From 27036f7857ae56073fd8eb592c0a0876f0df9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 25/84] fix: HttpClient: a resent request continued the partial
 response of the broken connection, and connections that must not be reused
 were reused

---
 include/HXLibs/net/client/HttpClient.hpp | 138 +++++++++++------------
 1 file changed, 65 insertions(+), 73 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index b8c8161..934c3fd 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -18,6 +18,8 @@
  * limitations under the License.
  */
 
+#include <optional>
+
 #include <HXLibs/net/client/HttpClientOptions.hpp>
 #include <HXLibs/net/protocol/http/Request.hpp>
 #include <HXLibs/net/protocol/http/Response.hpp>
@@ -156,39 +158,45 @@ public:
             if (needConnect()) {
                 co_await makeSocket(url);
             }
-            container::Try<> err{};
+            std::exception_ptr exceptionPtr{};
             Request req{_io.get()};
             req.template setReqLine<Method>(UrlParse::extractPath(url));
             preprocessHeaders(url, contentType, req);
             req.addHeaders(std::move(headers));
             try {
-                co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
+                std::optional<Response> res{std::in_place, _io.get()};
+                bool isOk = false;
+                try {
+                    co_await req.template sendChunkedReq<Timeout>(path);
+                    isOk = co_await res->template parserRes<Timeout>(Method == HttpMethod::HEAD);
+                } catch (...) {
+                    ;
                 }
-                co_await res.template parseBody<Timeout>();
-                co_return res.makeResponseData();
-            } catch (...) {
-                ;
-            }
-            // 二次尝试
-            try {
-                co_await makeSocket(url);
-                // 再次发送
-                co_await req.template sendChunkedReq<Timeout>(path);
-                Response res{_io.get()};
-                if (!co_await res.template parserRes<Timeout>()) [[unlikely]] {
-                    throw std::runtime_error{"Recv Timed Out"};
+                if (!isOk) { // 二次尝试
+                    if (!_isAutoReconnect) [[unlikely]] {
+                        throw std::runtime_error{"Recv Timed Out"};
+                    }
+                    co_await makeSocket(url);
+                    // 再次发送
+                    co_await req.template sendChunkedReq<Timeout>(path);
+                    // 不能沿用只解析了一部分的响应
+                    res.emplace(_io.get());
+                    if (!co_await res->template parserRes<Timeout>(Method == HttpMethod::HEAD)) [[unlikely]] {
+                        throw std::runtime_error{"Recv Timed Out"};
+                    }
+                }
+                if (auto it = req.getHeaders().find("Connection");
+                    (it != req.getHeaders().end() && it->second == "close") || !res->isKeepAlive()
+                ) {
+                    co_await coClose();
                 }
-                co_return res.makeResponseData();
+                co_return res->makeResponseData();
             } catch (...) {
-                err.setException(std::current_exception());
+                exceptionPtr = std::current_exception();
             }
             // 断开连接
             co_await coClose();
-            err.rethrow();
-            co_return {};
+            std::rethrow_exception(exceptionPtr);
         };
         if (_isUniqueEventLoop) {
             co_return _eventLoop->trySync(task());
@@ -575,37 +583,29 @@ public:
             }
             std::exception_ptr exceptionPtr{};
             try {
-                bool isOkFd = true;
+                std::optional<Response> res{std::in_place, _io.get()};
+                bool isOk = false;
                 try {
                     co_await req.template sendHttpReq<Timeout>();
+                    isOk = co_await res->template parserResHead<Timeout>();
                 } catch (...) {
-                    // e: 大概率是 断开的管道, 直接重连
-                    isOkFd = false;
+                    ; // e: 大概率是 断开的管道, 直接重连
                 }
-                Response res{_io.get()};
-                do {
-                    try {
-                        // 可能会抛异常...
-                        if (isOkFd && co_await res.template parserResHead<Timeout>()) {
-                            break;
-                        }
-                    } catch (...) {
-                        ;
+                if (!isOk) { // 读取超时 或者 连接断开
+                    if (!_isAutoReconnect) [[unlikely]] {
+                        throw std::runtime_error{"Send Timed Out"};
                     }
-                    // 读取超时
-                    if (_isAutoReconnect) [[likely]] {
-                        // 重新建立连接
-                        co_await makeSocket(url);
-                        // 重新发送一次请求
-                        co_await req.template sendHttpReq<Timeout>();
-                        // 再次解析请求
-                        if (co_await res.template parserResHead<Timeout>()) [[likely]] {
-                            break;
-                        }
+                    // 重新建立连接
+                    co_await makeSocket(url);
+                    // 重新发送一次请求
+                    co_await req.template sendHttpReq<Timeout>();
+                    // 再次解析请求, 不能沿用只解析了一部分的响应
+                    res.emplace(_io.get());
+                    if (!co_await res->template parserResHead<Timeout>()) [[unlikely]] {
+                        throw std::runtime_error{"Send Timed Out"};
                     }
-                    [[unlikely]] throw std::runtime_error{"Send Timed Out"};
-                } while (false);
-                for (auto seeLoop = res.template parserSseStrem<Timeout>(); ;) {
+                }
+                for (auto seeLoop = res->template parserSseStrem<Timeout>(); ;) {
                     co_await std::forward<Func>(func)(co_await seeLoop);
                 }
             } catch (...) {
@@ -724,42 +724,34 @@ private:
         }
         std::exception_ptr exceptionPtr{};
         try {
-            bool isOkFd = true;
+            std::optional<Response> res{std::in_place, _io.get()};
+            bool isOk = false;
             try {
                 co_await req.template sendHttpReq<Timeout>();
+                isOk = co_await res->template parserRes<Timeout>(Method == HttpMethod::HEAD);
             } catch (...) {
-                // e: 大概率是 断开的管道, 直接重连
-                isOkFd = false;
+                ; // e: 大概率是 断开的管道, 直接重连
             }
-            Response res{_io.get()};
-            do {
-                try {
-                    // 可能会抛异常...
-                    if (isOkFd && co_await res.template parserRes<Timeout>()) {
-                        break;
-                    }
-                } catch (...) {
-                    ;
+            if (!isOk) { // 读取超时 或者 连接断开
+                if (!_isAutoReconnect) [[unlikely]] {
+                    throw std::runtime_error{"Send Timed Out"};
                 }
-                // 读取超时
-                if (_isAutoReconnect) [[likely]] {
-                    // 重新建立连接
-                    co_await makeSocket(url);
-                    // 重新发送一次请求
-                    co_await req.template sendHttpReq<Timeout>();
-                    // 再次解析请求
-                    if (co_await res.template parserRes<Timeout>()) [[likely]] {
-                        break;
-                    }
+                // 重新建立连接
+                co_await makeSocket(url);
+                // 重新发送一次请求
+                co_await req.template sendHttpReq<Timeout>();
+                // 再次解析请求, 不能沿用只解析了一部分的响应
+                res.emplace(_io.get());
+                if (!co_await res->template parserRes<Timeout>(Method == HttpMethod::HEAD)) [[unlikely]] {
+                    throw std::runtime_error{"Send Timed Out"};
                 }
-                [[unlikely]] throw std::runtime_error{"Send Timed Out"};
-            } while (false);
+            }
             if (auto it = req.getHeaders().find("Connection");
-                it != req.getHeaders().end() && it->second == "close"
+                (it != req.getHeaders().end() && it->second == "close") || !res->isKeepAlive()
             ) {
                 co_await coClose();
             }
-            co_return res.makeResponseData();
+            co_return res->makeResponseData();
         } catch (...) {
             exceptionPtr = std::current_exception();
         }
-- 
2.43.0


From b6d7fa48001ea947982118f0790803f6d147fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 26/84] fix: HttpClient: closing or destroying a client with a
 request in progress raced for its event loop

---
 include/HXLibs/net/client/HttpClient.hpp | 55 ++++++++++++++----------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 934c3fd..cef0891 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -65,7 +65,7 @@ public:
         : _options{std::move(options)}
         , _eventLoop{nullptr}
         , _cliFd{kInvalidSocket}
-        , _pool{}
+        , _pool{std::in_place}
         , _host{}
         , _isAutoReconnect{true}
         , _isUniqueEventLoop{loop == nullptr}
@@ -76,8 +76,8 @@ public:
         // https://github.com/HengXin666/HXLibs/issues/14
         // 并发时候可能会对fd并发. 多个不同任务不可能共用流式缓冲区.
         // 所以, 使用线程池仅需要的是一个任务队列, 和一个任务线程.
-        _pool.setFixedThreadNum(1);
-        _pool.run<container::ThreadPool::Model::FixedSizeAndNoCheck>();
+        _pool->setFixedThreadNum(1);
+        _pool->run<container::ThreadPool::Model::FixedSizeAndNoCheck>();
     }
 
     /**
@@ -122,7 +122,7 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this,
+        return _pool->addTask([this,
                               _url = std::move(url),
                               _path = std::move(path),
                               _contentType = contentType,
@@ -321,7 +321,7 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this, _url = std::move(url),
+        return _pool->addTask([this, _url = std::move(url),
                               _body = std::move(body), _headers = std::move(headers),
                               contentType] {
             return coRequest<Method>(
@@ -401,28 +401,24 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this, _url = std::move(url)](){
+        return _pool->addTask([this, _url = std::move(url)](){
             return coConnect(_url).runSync();
         });
     }
 
     /**
      * @brief 断开连接
+     * @note 独享事件循环时, 会在之前的请求都结束后再断开
      */
     void close() {
         if (_isUniqueEventLoop) {
-            _eventLoop->trySync(coClose());
+            // 事件循环可能正被任务线程使用, 因此只能在任务线程断开
+            _pool->addTask([this] {
+                _eventLoop->trySync(coClose());
+            }).get();
             return;
         }
-#ifndef NDEBUG
-        else if (_cliFd != kInvalidSocket) [[unlikely]] {
-            // 请先调用 coClose() 函数; 对于共享 EventLoop 情况, 必须手动 co_await coClose()
-            throw std::runtime_error{"Please call coClose() first"};
-        }
-#endif // !NDEBUG
-        if (_io.isAvailable()) {
-            _io.get().reset();
-        }
+        _closeShared();
     }
 
     /**
@@ -469,7 +465,7 @@ public:
                 "only coroutine functions are allowed"};
         }
 #endif // !NDEBUG
-        return _pool.addTask([this, _url = std::move(url),
+        return _pool->addTask([this, _url = std::move(url),
                               _func = std::forward<Func>(func), _headers = std::move(headers)]() mutable {
             return coWsLoop(
                 std::move(_url),
@@ -627,14 +623,29 @@ public:
 
 #ifdef NDEBUG
     ~HttpBaseClient() noexcept {
-        close();
-    }
 #else
     ~HttpBaseClient() noexcept(false) {
-        close();
-    }
 #endif // !NDEBUG
+        _pool.reset(); // 等待正在进行的请求, 之后才可以使用事件循环
+        if (_isUniqueEventLoop) {
+            _eventLoop->trySync(coClose());
+        } else {
+            _closeShared();
+        }
+    }
 private:
+    void _closeShared() {
+#ifndef NDEBUG
+        if (_cliFd != kInvalidSocket) [[unlikely]] {
+            // 请先调用 coClose() 函数; 对于共享 EventLoop 情况, 必须手动 co_await coClose()
+            throw std::runtime_error{"Please call coClose() first"};
+        }
+#endif // !NDEBUG
+        if (_io.isAvailable()) {
+            _io.get().reset();
+        }
+    }
+
     /**
      * @brief 建立 TCP 连接
      * @param url
@@ -787,7 +798,7 @@ private:
     HttpClientOptions<Proxy> _options;
     std::shared_ptr<coroutine::EventLoop> _eventLoop;
     SocketFdType _cliFd;
-    container::ThreadPool _pool;
+    std::optional<container::ThreadPool> _pool;
     container::Uninitialized<IOType> _io;
 
     // 上一次解析的 Host
-- 
2.43.0


From b048bf0a188dcbd9e1bb2cfd3f7fc87818a35e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 27/84] fix: HttpClient: a request for another host was sent
 over the connection of the previous one

---
 include/HXLibs/net/client/HttpClient.hpp     | 20 ++++++++++++++++----
 include/HXLibs/net/protocol/url/UrlParse.hpp | 13 +++++++++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index cef0891..dc2bd8a 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -155,7 +155,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
+            if (needConnect() || !_isSameOrigin(url)) {
                 co_await makeSocket(url);
             }
             std::exception_ptr exceptionPtr{};
@@ -353,7 +353,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect()) {
+            if (needConnect() || !_isSameOrigin(url)) {
                 co_await makeSocket(url);
             }
             co_return co_await sendReq<Method>(
@@ -498,7 +498,7 @@ public:
     ) {
         container::Try<Res> res;
         auto taskObj = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
+            if (needConnect() || !_isSameOrigin(url)) {
                 co_await makeSocket(url);
             }
             container::Uninitialized<WebSocketClient<IOType>> ws;
@@ -564,7 +564,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect()) {
+            if (needConnect() || !_isSameOrigin(url)) {
                 co_await makeSocket(url);
             }
             Request req{_io.get()};
@@ -634,6 +634,14 @@ public:
         }
     }
 private:
+    /**
+     * @brief url 是否属于当前连接 (只有 path 的 url 总是使用当前连接)
+     */
+    bool _isSameOrigin(std::string_view url) const noexcept {
+        auto origin = UrlParse::extractOrigin(url);
+        return origin.empty() || origin == _origin;
+    }
+
     void _closeShared() {
 #ifndef NDEBUG
         if (_cliFd != kInvalidSocket) [[unlikely]] {
@@ -670,6 +678,7 @@ private:
             co_await _io.get().bindNewFd(fd);
         }
         _cliFd = fd; // 此后由 coClose() 关闭
+        _origin = UrlParse::extractOrigin(url);
         std::exception_ptr exceptionPtr{};
         try {
             auto sockaddr = entry.getAddress();
@@ -804,6 +813,9 @@ private:
     // 上一次解析的 Host
     std::string _host;
 
+    // 当前连接的 Origin (协议 + 主机 + 端口)
+    std::string _origin;
+
     // 是否自动重连
     bool _isAutoReconnect;
 
diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 032bf0d..2da958a 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -47,6 +47,19 @@ struct UrlParse {
         return pathFind == std::string_view::npos ? "/" : url.substr(pathFind);
     }
 
+    /**
+     * @brief 从 URL 提取 Origin (也就是 Path 之前的部分)
+     * @param url 
+     * @return std::string_view 如果不包含协议 (例如只有 Path) 则为空
+     */
+    static std::string_view extractOrigin(std::string_view url) noexcept {
+        std::size_t protocolFind = url.find("://");
+        if (protocolFind == std::string_view::npos || protocolFind > url.find_first_of("/?#")) {
+            return {};
+        }
+        return url.substr(0, url.find_first_of("/?#", protocolFind + 3));
+    }
+
     /**
      * @brief 从 ws URL 提取 Origin (也就是 Path 之前的部分)
      * @param url 必须包含 `ws://` 或 `wss://`
-- 
2.43.0


From 3e772d15217e07a9b70560637644a1320e134d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 28/84] fix: HttpClient: a path-only request could not
 reconnect after its connection was lost

---
 include/HXLibs/net/client/HttpClient.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index dc2bd8a..0cdaa43 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -661,6 +661,9 @@ private:
      */
     coroutine::Task<> makeSocket(std::string_view url) {
         co_await coClose(); // 关闭之前的连接
+        if (url.starts_with('/')) {
+            url = _origin; // 只有 path, 那么重新连接之前的主机
+        }
         AddressResolver resolver;
         UrlInfoExtractor parser{_options.proxy.get().size() ? _options.proxy.get() : url};
         auto entry = resolver.resolve(parser.getHostname(), parser.getService());
-- 
2.43.0


From 656f06d64277a903936059965c3ece960c43c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 29/84] fix: UrlInfoExtractor: characters of the path, query or
 account were taken for the host or port

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 2da958a..4e52011 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -220,10 +220,13 @@ private:
 
     void parseUrl(std::string_view url) {
         std::size_t protocolFind = url.find("://");
-        std::size_t userFind = url.find('@', protocolFind == std::string_view::npos ? 0 : protocolFind + 1);
-        if (userFind == std::string_view::npos)
-            userFind = protocolFind;
-        std::size_t portFind = url.find(':', userFind == std::string_view::npos ? 0 : userFind + 1);
+        // 只能在 `协议://` 之后, Path 之前查找
+        auto authority = url.substr(protocolFind == std::string_view::npos ? 0 : protocolFind + 3);
+        authority = authority.substr(0, authority.find_first_of("/?#"));
+        if (auto userFind = authority.rfind('@'); userFind != std::string_view::npos) {
+            authority.remove_prefix(userFind + 1);
+        }
+        std::size_t portFind = authority.find(':');
 
         if (protocolFind == std::string_view::npos && portFind == std::string_view::npos) {
             // 没有协议和端口，默认服务为 "http"
@@ -232,14 +235,14 @@ private:
             if (portFind != std::string_view::npos) {
                 // 有端口，提取端口号
                 std::size_t start = portFind + 1;
-                std::size_t end = url.find_first_not_of("0123456789", start);
-                _service = url.substr(start, end - start);
+                std::size_t end = authority.find_first_not_of("0123456789", start);
+                _service = authority.substr(start, end - start);
             } else if (protocolFind != std::string_view::npos) {
                 // 有协议但没有端口
                 _service = url.substr(0, protocolFind);
             }
         }
-        _hostname = UrlParse::extractDomainName({url.data(), url.size()});
+        _hostname = UrlParse::extractDomainName(std::string{authority});
     }
 };
 
-- 
2.43.0


From b7bd92e6259037e2ef49f3207d2ac350f78a3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 30/84] fix: HttpClient: bytes that followed a response were
 taken for the response of the next request

---
 include/HXLibs/net/client/HttpClient.hpp |  8 ++++----
 include/HXLibs/net/socket/IO.hpp         | 22 ++++++++++++++++++++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 0cdaa43..4dde5fd 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -155,7 +155,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect() || !_isSameOrigin(url)) {
+            if (needConnect() || !_isSameOrigin(url) || !_io.get().isReusable()) {
                 co_await makeSocket(url);
             }
             std::exception_ptr exceptionPtr{};
@@ -353,7 +353,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<ResponseData> {
-            if (needConnect() || !_isSameOrigin(url)) {
+            if (needConnect() || !_isSameOrigin(url) || !_io.get().isReusable()) {
                 co_await makeSocket(url);
             }
             co_return co_await sendReq<Method>(
@@ -498,7 +498,7 @@ public:
     ) {
         container::Try<Res> res;
         auto taskObj = [&]() -> coroutine::Task<> {
-            if (needConnect() || !_isSameOrigin(url)) {
+            if (needConnect() || !_isSameOrigin(url) || !_io.get().isReusable()) {
                 co_await makeSocket(url);
             }
             container::Uninitialized<WebSocketClient<IOType>> ws;
@@ -564,7 +564,7 @@ public:
         [[maybe_unused]] Timeout timeout = {}
     ) {
         auto task = [&]() -> coroutine::Task<> {
-            if (needConnect() || !_isSameOrigin(url)) {
+            if (needConnect() || !_isSameOrigin(url) || !_io.get().isReusable()) {
                 co_await makeSocket(url);
             }
             Request req{_io.get()};
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 15accec..bfe03c6 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -26,6 +26,11 @@
 #include <HXLibs/exception/ExceptionMode.hpp>
 #include <HXLibs/utils/TimeNTTP.hpp>
 
+#if defined(__linux__)
+    #include <cerrno>
+    #include <sys/socket.h>
+#endif
+
 #ifndef NDEBUG
     #include <HXLibs/log/Log.hpp>
 #endif // !NDEBUG
@@ -224,6 +229,19 @@ public:
 #endif
     }
 
+    /**
+     * @brief 空闲的连接是否还可以使用: 没有断开, 也没有多余的数据 (它们不属于之后的请求)
+     */
+    bool isReusable() const noexcept {
+#if defined(__linux__)
+        char c;
+        return ::recv(_fd, &c, 1, MSG_PEEK | MSG_DONTWAIT) < 0
+            && (errno == EAGAIN || errno == EWOULDBLOCK);
+#else
+        return true;
+#endif
+    }
+
     /**
      * @brief 关闭套接字
      * @warning 注意, 内部不会抛异常! 需要外部自己检查
@@ -297,6 +315,10 @@ class HttpsIO : public HttpIO {
 public:
     using Base::Base;
 
+    bool isReusable() const noexcept {
+        return true; // 可能有会话票据等数据, 无法判断
+    }
+
     void initSslBio(SslContext::SslType type) {
         _ssl.set(type);
     }
-- 
2.43.0


From fe9c67c6ad995366b80b1a5239bed8b834045c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:51 +0000
Subject: [PATCH 31/84] fix: UrlParse: a '://' in the query of a path-only
 request was taken for the protocol

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 4e52011..804c4fc 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -42,6 +42,9 @@ struct UrlParse {
      */
     static std::string_view extractPath(std::string_view url) {
         std::size_t protocolFind = url.find("://");
+        if (protocolFind > url.find_first_of("/?#")) {
+            protocolFind = std::string_view::npos; // 在 Path 之内, 不是协议
+        }
         std::size_t pathFind = url.find("/",
             protocolFind == std::string_view::npos ? 0 : protocolFind + 3);
         return pathFind == std::string_view::npos ? "/" : url.substr(pathFind);
-- 
2.43.0


From e510dd6c8bfa60c2c62123643ef273b4be37fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 32/84] fix: HttpServer: threads started while the server was
 being stopped never ended

---
 include/HXLibs/net/server/Acceptor.hpp   | 3 ++-
 include/HXLibs/net/server/HttpServer.hpp | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/server/Acceptor.hpp b/include/HXLibs/net/server/Acceptor.hpp
index cd0eea5..3ff96dc 100644
--- a/include/HXLibs/net/server/Acceptor.hpp
+++ b/include/HXLibs/net/server/Acceptor.hpp
@@ -54,7 +54,8 @@ struct Acceptor {
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> start(std::atomic_bool const& isRun) {
         auto serverFd = co_await makeServerFd();
-        for (;;) [[likely]] {
+        // 关闭可能发生在线程启动之前, 那么不应该再等待连接
+        while (isRun.load()) [[likely]] {
             auto fd = co_await _eventLoop.makeAioTask().prepAccept(
                 serverFd,
                 nullptr,    // 如果需要, 可以 getpeername(fd, ...) 获取的说...
diff --git a/include/HXLibs/net/server/HttpServer.hpp b/include/HXLibs/net/server/HttpServer.hpp
index 71a3e85..b41ed2d 100644
--- a/include/HXLibs/net/server/HttpServer.hpp
+++ b/include/HXLibs/net/server/HttpServer.hpp
@@ -52,7 +52,7 @@ public:
      * @warning 该方法不可重入
      */
     void syncStop() noexcept {
-        _isRun.store(false, std::memory_order_release);
+        _isRun.store(false); // 之后才读取 _runNum, 不能重排
         static_cast<Self*>(this)->syncStop();
     }
 
@@ -200,7 +200,7 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
-        _isRun.store(false, std::memory_order_release);
+        _isRun.store(false); // 之后才读取 _runNum, 不能重排
         while (_runNum) {
             try {
                 // ! Win 上面, 0.0.0.0 无法被路由, 只能 127.0.0.1 访问!
@@ -273,7 +273,7 @@ public:
 
     void syncStop() noexcept {
         using namespace utils;
-        _isRun.store(false, std::memory_order_release);
+        _isRun.store(false); // 之后才读取 _runNum, 不能重排
         while (_runNum) {
             try {
                 HttpsClient cli{HttpClientOptions{}};
-- 
2.43.0


From d09c60e61cbf3ff2e4908153a54aa88a65d08c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:53 +0000
Subject: [PATCH 33/84] fix: FutureResult: the future of a task dropped with
 its pool never became ready

---
 include/HXLibs/container/FutureResult.hpp | 47 +++++++++++++++++++++++
 include/HXLibs/container/ThreadPool.hpp   |  4 +-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index b1511e7..6892c14 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -22,6 +22,8 @@
 #include <condition_variable>
 #include <coroutine>
 
+#include <stdexcept>
+
 #include <HXLibs/container/Uninitialized.hpp>
 #include <HXLibs/container/Try.hpp>
 #include <HXLibs/coroutine/loop/EventLoop.hpp>
@@ -90,6 +92,22 @@ private:
             ready();
         }
 
+        /**
+         * @brief 任务没有执行就被丢弃了, 等待者不应该永远等待
+         */
+        void abandon() noexcept {
+            {
+                std::lock_guard _{_mtx};
+                if (_isResed) [[likely]] {
+                    return;
+                }
+                _exception = std::make_exception_ptr(
+                    std::runtime_error{"The task was dropped before it was executed"});
+                _isResed = true;
+            }
+            _cv.notify_all();
+        }
+
         bool isException() const noexcept {
             return _exception != nullptr;
         }
@@ -175,6 +193,35 @@ public:
         return _res;
     }
 
+    /**
+     * @brief 任务持有的结果写入端, 如果任务没有执行就被销毁, 则结果为异常
+     */
+    class Promise {
+    public:
+        Promise(std::shared_ptr<FutureResultType> res) noexcept
+            : _res{std::move(res)}
+        {}
+
+        Promise(Promise&&) noexcept = default;
+        Promise& operator=(Promise&&) noexcept = delete;
+
+        FutureResultType* operator->() const noexcept {
+            return _res.get();
+        }
+
+        ~Promise() noexcept {
+            if (_res) {
+                _res->abandon();
+            }
+        }
+    private:
+        std::shared_ptr<FutureResultType> _res;
+    };
+
+    Promise getPromise() noexcept {
+        return {_res};
+    }
+
     void wait() {
         _res->wait();
         if (_res->isException()) [[unlikely]] {
diff --git a/include/HXLibs/container/ThreadPool.hpp b/include/HXLibs/container/ThreadPool.hpp
index 920fcf2..eca23e7 100644
--- a/include/HXLibs/container/ThreadPool.hpp
+++ b/include/HXLibs/container/ThreadPool.hpp
@@ -128,7 +128,7 @@ struct ThreadPool {
         FutureResult<Res> res;
         res.via(this);
         auto cb = [func = std::move(func), 
-                   ans = res.getFutureResult(),
+                   ans = res.getPromise(),
                    argWap = makePreserveTuple(std::forward<Args>(args)...)
         ]() mutable {
             try {
@@ -390,7 +390,7 @@ std::conditional_t<
         res.via(dispatch);
         dispatch->addTask([self = std::move(*this),
                            _func = std::forward<Func>(func),
-                           ans = res.getFutureResult()](
+                           ans = res.getPromise()](
         ) mutable noexcept {
             using InArgType = typename FutureResult<T>::ArgTryType; // func 参数类型, Try<RemoveTryWarpType<T>>
             Uninitialized<InArgType> data;
-- 
2.43.0


From ca35c3cbc867c50fd323ceb1817ae543b88dad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:17 +0000
Subject: [PATCH 34/84] fix: WebSocket: frames that arrived together with the
 opening handshake were lost by the server

---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index f77fcbc..71e6c61 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -800,12 +800,13 @@ public:
         co_return {_res._io, [&]{
             // 缓存迁移
             std::vector<char> buf;
-            std::size_t n = _res._recvBuf.size();
+            std::size_t n = _req._recvBuf.size();
             buf.resize(n);
-            auto* data = _res._recvBuf.data();
+            auto* data = _req._recvBuf.data();
             for (std::size_t i = 0, j = n - 1; i < n; ++i, --j) {
                 buf[i] = data[j];
             }
+            _req._recvBuf.clear(); // 它们是 ws 的数据, 不再属于 http
             return buf;
         }()};
     }
-- 
2.43.0


From c331a9433944b8b27023ada73e5698c9cb0b02d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:08 +0000
Subject: [PATCH 35/84] fix: WebSocket: split frames were misread, a peer
 stalling inside a frame hung the receiver, the announced length was allocated
 at once

---
 .../net/protocol/websocket/WebSocket.hpp      | 143 ++++++++----------
 1 file changed, 59 insertions(+), 84 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 71e6c61..779a9f1 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -394,44 +394,45 @@ private:
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
-     * @brief 读取
+     * @brief 完全读取
      * @tparam Timeout 超时时间
-     * @tparam Res
-     * > 
+     * @param buf 
+     * @return false 还没有读取到任何内容, 就超时 或者 断开
+     * @throw 读取到一部分内容, 之后超时 或者 断开
      */
-    template <typename Timeout, typename Res = 
-#if defined(__linux__)
-    coroutine::WhenAnyReturnType<
-        coroutine::AioTask,
-        decltype(std::declval<coroutine::AioTask>().prepLinkTimeout({}, {}))
-    >
-#elif defined(_WIN32)
-    container::UninitializedNonVoidVariant<int, void> // 只能固定返回值
-#else
-    // 暂时不支持该操作系统
-    #error "Unsupported operating system"
-#endif // !defined(__linux__)
-    >
+    template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
-    coroutine::Task<Res> recvLinkTimeout(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                Res res;
-                res.template emplace<0>(static_cast<
-                    coroutine::AwaiterReturnType<coroutine::AioTask>
-                >(buf.size()));
-                co_return res;
+    coroutine::Task<bool> fullyRecv(std::span<char> buf) {
+        const auto allSize = buf.size();
+        while (!buf.empty() && !_recvBuf.empty()) [[unlikely]] {
+            buf.front() = _recvBuf.back();
+            _recvBuf.pop_back();
+            buf = buf.subspan(1);
+        }
+        while (!buf.empty()) {
+            auto res = co_await _io.template recvLinkTimeout<Timeout>(buf);
+            if (res.index() == 1 
+             || res.template get<0, exception::ExceptionMode::Nothrow>() <= 0
+            ) [[unlikely]] {
+                if (buf.size() == allSize) {
+                    co_return false;
+                }
+                throw std::runtime_error{"Interrupted in the middle of a frame"};
             }
-            // @todo 此处偷懒了, 因为也没有使用到 get<0>() 的实际的值, 所以没有影响
-            // 但是不保证日后!
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf.subspan(size));
-        } else {
-            co_return co_await _io.template recvLinkTimeout<Timeout>(buf);
+            buf = buf.subspan(static_cast<std::size_t>(
+                res.template get<0, exception::ExceptionMode::Nothrow>()));
+        }
+        co_return true;
+    }
+
+    /**
+     * @brief 读取帧的剩余部分, 此时超时 或者 断开都是错误
+     */
+    template <typename Timeout>
+        requires(utils::HasTimeNTTP<Timeout>)
+    coroutine::Task<> recvRest(std::span<char> buf) {
+        if (!co_await fullyRecv<Timeout>(buf)) [[unlikely]] {
+            throw std::runtime_error{"Interrupted in the middle of a frame"};
         }
     }
 
@@ -441,36 +442,14 @@ private:
      * @tparam T 
      * @return coroutine::Task<T> 
      */
-    template <typename T>
+    template <typename T, typename Timeout>
     coroutine::Task<T> recvStruct() {
         T res;
-        co_await fullyRecv(std::span<char>{
+        co_await recvRest<Timeout>(std::span<char>{
             reinterpret_cast<char*>(&res), sizeof(T)
         });
         co_return res;
     }
-    
-
-    /**
-     * @brief 完全读取
-     * @param buf 
-     * @return coroutine::Task<> 
-     */
-    coroutine::Task<> fullyRecv(std::span<char> buf) {
-        auto size = _recvBuf.size();
-        if (size) [[unlikely]] {
-            for (char& c : buf) {
-                c = _recvBuf.back();
-                _recvBuf.pop_back();
-            }
-            if (size >= buf.size()) {
-                co_return;
-            }
-            co_await _io.fullyRecv(buf.subspan(size));
-        } else {
-            co_await _io.fullyRecv(buf);
-        }
-    }
 
     // 响应 pong (无需暴露, 库内部使用即可)
     template <typename Timeout = DefaultPPTimeout>
@@ -538,10 +517,8 @@ private:
         // 记录第一帧数据内容
         OpCode firstOpCode{OpCode::Unknown};
         do {
-            auto res = co_await recvLinkTimeout<Timeout>(
-                std::span<char>{reinterpret_cast<char*>(head), 2});
-            if (res.index() == 1 
-             || res.template get<0, exception::ExceptionMode::Nothrow>() <= 0
+            if (!co_await fullyRecv<Timeout>(
+                std::span<char>{reinterpret_cast<char*>(head), 2})
             ) [[unlikely]] {
                 // 超时 或者 出错
                 co_return std::nullopt;
@@ -593,11 +570,11 @@ private:
             // 解析包的长度
             std::size_t payloadLen;
             if (payloadLen8 == 0x7E) {
-                uint16_t payloadLen16 = co_await recvStruct<uint16_t>();
+                uint16_t payloadLen16 = co_await recvStruct<uint16_t, Timeout>();
                 payloadLen16 = utils::ByteUtils::byteswapIfLittle(payloadLen16);
                 payloadLen = static_cast<std::size_t>(payloadLen16);
             } else if (payloadLen8 == 0x7F) {
-                uint64_t payloadLen64 = co_await recvStruct<uint64_t>();
+                uint64_t payloadLen64 = co_await recvStruct<uint64_t, Timeout>();
                 payloadLen64 = utils::ByteUtils::byteswapIfLittle(payloadLen64);
                 if constexpr (sizeof(uint64_t) > sizeof(std::size_t)) {
                     if (payloadLen64 > std::numeric_limits<std::size_t>::max()) {
@@ -610,31 +587,29 @@ private:
                 payloadLen = static_cast<std::size_t>(payloadLen8);
             }
 
+            // 获取掩码
+            uint8_t maskKeyArr[4] {};
             if constexpr (IsServer) {
-                // 获取掩码
-                uint8_t maskKeyArr[4];
-                co_await fullyRecv(std::span<char>{
+                co_await recvRest<Timeout>(std::span<char>{
                     reinterpret_cast<char*>(maskKeyArr),
                     4
                 });
-    
-                // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
-    
-                const std::size_t len = tmp.size();
-                auto* p = reinterpret_cast<uint8_t*>(tmp.data());
-                for (std::size_t i = 0; i != len; ++i) {
-                    p[i] ^= maskKeyArr[i % 4];
+            }
+
+            // 解析数据; 长度是对方声称的, 因此仅随着读取到的内容增长
+            for (std::size_t i = 0; i != payloadLen; ) {
+                const std::size_t len = std::min(payloadLen - i, IOType::kBufMaxSize);
+                const std::size_t begin = packet.content.size();
+                packet.content.resize(begin + len);
+                co_await recvRest<Timeout>(std::span<char>{
+                    packet.content.data() + begin, len});
+                if constexpr (IsServer) {
+                    auto* p = reinterpret_cast<uint8_t*>(packet.content.data() + begin);
+                    for (std::size_t j = 0; j != len; ++j) {
+                        p[j] ^= maskKeyArr[(i + j) % 4];
+                    }
                 }
-                packet.content += std::move(tmp);
-            } else {
-                // 解析数据
-                std::string tmp;
-                tmp.resize(payloadLen);
-                co_await fullyRecv(tmp);
-                packet.content += std::move(tmp);
+                i += len;
             }
         } while (!fin);
         packet.opCode = firstOpCode;
-- 
2.43.0


From b35a53e0f246ac4cc0a54794c3ca918b71850179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 36/84] fix: WebSocket: a control frame between two fragments
 destroyed the message, stray continuations and RSV bits were accepted

---
 .../net/protocol/websocket/WebSocket.hpp      | 51 ++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 779a9f1..67a9aab 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -391,6 +391,9 @@ private:
     // 缓存之前多读取的内容, 特别的, 原本头部的数据是在尾部! 应该使用 back() + pop_back() 进行遍历
     std::vector<char> _recvBuf;
 
+    // 还没有读取到最后一个分片的消息 (分片之间可以穿插控制帧)
+    WebSocketPacket _fragment{OpCode::Unknown};
+
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
@@ -511,12 +514,8 @@ private:
   以及, 如果分片 (fin = false), 那么它的第一个包是 (Test / Binary), 之后的只能是 Cont
   注意, 分片的数据只能是 Test / Binary
 */
-        // 记录是否为最后一个分片
-        bool fin;
-
-        // 记录第一帧数据内容
-        OpCode firstOpCode{OpCode::Unknown};
-        do {
+        for (;;) {
+            packet.content.clear();
             if (!co_await fullyRecv<Timeout>(
                 std::span<char>{reinterpret_cast<char*>(head), 2})
             ) [[unlikely]] {
@@ -527,7 +526,11 @@ private:
             uint8_t head1 = head[1];
 
             // 解析 FIN, 为 0 标识当前为最后一个包
-            fin = (head0 >> 7);
+            const bool fin = (head0 >> 7);
+            if (head0 & 0x70) [[unlikely]] {
+                // 没有协商任何扩展, RSV 必须为 0
+                throw std::runtime_error{"Protocol Error: RSV != 0"};
+            }
 
             // 解析 OpCode
             packet.opCode = static_cast<OpCode>(head0 & 0x0F);
@@ -541,13 +544,13 @@ private:
 
             uint8_t payloadLen8 = head1 & 0x7F;
             if (static_cast<uint8_t>(packet.opCode) <= 2) {
-                // 合法的数据帧
-                if (firstOpCode == OpCode::Unknown) [[likely]] {
-                    // 第一包必然是这里
-                    firstOpCode = packet.opCode;
-                } else if (packet.opCode != OpCode::Cont) [[unlikely]] {
-                    // 分片情况下
-                    throw std::runtime_error{"Fragmentation Error: OpCode != Cont"};
+                // 合法的数据帧: 仅在分片情况下, 才是 Cont
+                if ((_fragment.opCode != OpCode::Unknown)
+                 != (packet.opCode == OpCode::Cont)
+                ) [[unlikely]] {
+                    throw std::runtime_error{_fragment.opCode == OpCode::Unknown
+                        ? "Fragmentation Error: OpCode == Cont"
+                        : "Fragmentation Error: OpCode != Cont"};
                 }
             } else if (static_cast<uint8_t>(packet.opCode) >= 8 
                     && static_cast<uint8_t>(packet.opCode) <= 10
@@ -561,7 +564,6 @@ private:
                     throw std::runtime_error{
                         "Control frame too big"};
                 }
-                firstOpCode = packet.opCode;
             } else [[unlikely]] {
                 // 其他保留值, 非法
                 throw std::runtime_error{"Unknown OpCode"};
@@ -611,9 +613,22 @@ private:
                 }
                 i += len;
             }
-        } while (!fin);
-        packet.opCode = firstOpCode;
-        co_return packet;
+
+            if (static_cast<uint8_t>(packet.opCode) >= 8) {
+                // 控制帧, 可以穿插在分片之间
+                co_return packet;
+            }
+            if (packet.opCode == OpCode::Cont) {
+                _fragment.content += packet.content;
+            } else if (fin) [[likely]] {
+                co_return packet;
+            } else {
+                _fragment = std::move(packet);
+            }
+            if (fin) {
+                co_return std::exchange(_fragment, {OpCode::Unknown});
+            }
+        }
     }
 
     /**
-- 
2.43.0


From 01140cb9e7f361fb0f0dfaa91f3fa30e4f331400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:59 +0000
Subject: [PATCH 37/84] fix: WebSocket: data arriving while the receiver waits
 for a pong made it throw, as did an unsolicited pong

---
 .../net/protocol/websocket/WebSocket.hpp      | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 67a9aab..9cf5441 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -250,26 +250,25 @@ public:
     template <bool TimeoutIsError = false, typename Timeout = DefaultPPTimeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<WebSocketPacket> recv(OpCode recvType, OpCode alternative = OpCode::Unknown) {
+        // 是否已经发送 ping, 在等待对方的任何响应
+        bool pinged = false;
         for (;;) {
-            auto res = co_await recvPacket<Timeout>();
+            auto res = co_await (pinged ? recvPacket<DefaultPPTimeout>()
+                                        : recvPacket<Timeout>());
             if (!res) [[unlikely]] {
-                if constexpr (TimeoutIsError) {
-                    // 读取超时
-                    throw std::runtime_error{"Read Timeout"};
-                } else {
-                    // 第一次超时就 ping, 然后尝试读取 pong
-                    co_await ping();
-                    // 如果 pong 超时, 就是异常了!
-                    auto res = co_await recv<true>(OpCode::Pong, recvType);
-                    if (res.opCode == recvType) [[unlikely]] {
-                        // 特别的: 如果此时 之前 recv 的数据到了, 那么继续把这次的 OpCode::Pong 接收
-                        co_await recv<true>(OpCode::Pong);
-                        co_return res;
+                if constexpr (!TimeoutIsError) {
+                    // 第一次超时就 ping, 如果还是超时, 就是异常了!
+                    if (!pinged) {
+                        co_await ping();
+                        pinged = true;
+                        continue;
                     }
-                    // 没有超时就继续等待数据然后读取
-                    continue;
                 }
-            } else if ((*res).opCode == OpCode::Ping) {
+                // 读取超时
+                throw std::runtime_error{"Read Timeout"};
+            }
+            pinged = false;
+            if ((*res).opCode == OpCode::Ping) {
                 co_await pong(std::move(*res).content);
                 continue;
             } else if ((*res).opCode == OpCode::Close) [[unlikely]] {
@@ -277,6 +276,10 @@ public:
                 // 对方主动关闭连接: 安全关闭
                 throw std::runtime_error{"Connection Closed OK: 1000"};
             } else if ((*res).opCode != recvType && (*res).opCode != alternative) [[unlikely]] {
+                if ((*res).opCode == OpCode::Pong) {
+                    // pong 可以在任意时刻到达
+                    continue;
+                }
                 // 读取的不是期望的类型
                 throw std::runtime_error{"The type read is not the expected type"};
             }
-- 
2.43.0


From 7a1665cd207947b57b5fe161b90a2367985f9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:19 +0000
Subject: [PATCH 38/84] fix: WebSocket: sending to a peer that stopped reading
 waited forever

---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 9cf5441..fad9278 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -379,13 +379,13 @@ public:
                 "This API is exclusively provided for the server");
         }
         // 发送ws帧头
-        co_await _io.fullySend(std::span<char const>{
+        co_await _io.template sendLinkTimeout<DefaultPPTimeout>(std::span<char const>{
             reinterpret_cast<char const*>(view.head.data()),
             view.head.size()
         });
 
         // 发送内容
-        co_await _io.fullySend(view.content);
+        co_await _io.template sendLinkTimeout<DefaultPPTimeout>(view.content);
     }
 
 private:
@@ -704,13 +704,13 @@ private:
         }
 
         // 发送ws帧头
-        co_await _io.fullySend(std::span<char const>{
+        co_await _io.template sendLinkTimeout<DefaultPPTimeout>(std::span<char const>{
             reinterpret_cast<char const*>(data.data()),
             data.size()
         });
 
         // 发送内容
-        co_await _io.fullySend(packet.content);
+        co_await _io.template sendLinkTimeout<DefaultPPTimeout>(packet.content);
     }
 };
 
-- 
2.43.0


From 2233f1bfb0aa3f89147384c773a715f4263956e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:40 +0000
Subject: [PATCH 39/84] fix: WebSocket: frames sent by several coroutines on
 one connection interleaved

---
 .../net/protocol/websocket/WebSocket.hpp      | 84 +++++++++++++++++++
 1 file changed, 84 insertions(+)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index fad9278..3657e6b 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -31,6 +31,10 @@
 #include <HXLibs/reflection/json/JsonWrite.hpp>
 
 #include <random>
+#include <coroutine>
+#include <list>
+#include <memory>
+#include <utility>
 
 namespace HX::net {
 
@@ -163,6 +167,79 @@ struct WebSocketBase<WebSocketModel::Client> {
     mutable std::optional<utils::XorShift32> _random;
 };
 
+/**
+ * @brief 发送锁: 多个协程可以同时向一个 ws 发送 (如: 群发), 帧之间不可以交错
+ * @note 先到先得; 仅用于同一个事件循环内
+ */
+class WebSocketSendLock {
+    struct State {
+        bool isLocked = false;
+        std::list<std::coroutine_handle<>> waiters;
+    };
+
+    std::shared_ptr<State> _state = std::make_shared<State>();
+public:
+    class Guard {
+        std::shared_ptr<State> _state;
+    public:
+        Guard(std::shared_ptr<State> state)
+            : _state{std::move(state)}
+        {}
+
+        Guard(Guard&&) noexcept = default;
+        Guard& operator=(Guard&&) noexcept = delete;
+
+        ~Guard() {
+            if (!_state) {
+                return;
+            }
+            if (_state->waiters.empty()) {
+                _state->isLocked = false;
+                return;
+            }
+            // 锁转移给下一个等待者
+            auto next = _state->waiters.front();
+            _state->waiters.pop_front();
+            next.resume();
+        }
+    };
+
+    class Awaiter {
+        std::shared_ptr<State> _state;
+        std::coroutine_handle<> _self{};
+    public:
+        Awaiter(std::shared_ptr<State> state)
+            : _state{std::move(state)}
+        {}
+
+        Awaiter& operator=(Awaiter&&) noexcept = delete;
+
+        bool await_ready() const noexcept {
+            return !std::exchange(_state->isLocked, true);
+        }
+
+        void await_suspend(std::coroutine_handle<> coroutine) {
+            _state->waiters.push_back(coroutine);
+            _self = coroutine;
+        }
+
+        Guard await_resume() noexcept {
+            _self = nullptr;
+            return {_state};
+        }
+
+        ~Awaiter() {
+            if (_self) [[unlikely]] {
+                _state->waiters.remove(_self); // 还在等待的时候, 协程被销毁
+            }
+        }
+    };
+
+    Awaiter lock() const noexcept {
+        return {_state};
+    }
+};
+
 } // namespace internal
 
 template <WebSocketModel Model, typename IOType>
@@ -378,6 +455,8 @@ public:
             static_assert(!sizeof(Model),
                 "This API is exclusively provided for the server");
         }
+        [[maybe_unused]] auto lock = co_await _sendLock.lock();
+
         // 发送ws帧头
         co_await _io.template sendLinkTimeout<DefaultPPTimeout>(std::span<char const>{
             reinterpret_cast<char const*>(view.head.data()),
@@ -397,6 +476,9 @@ private:
     // 还没有读取到最后一个分片的消息 (分片之间可以穿插控制帧)
     WebSocketPacket _fragment{OpCode::Unknown};
 
+    // 拷贝的 ws 共用同一个锁, 因为它们是同一个连接
+    internal::WebSocketSendLock _sendLock;
+
     // === 提供二度封装的统一的读取接口, 如果 _recvBuf 有数据, 就先从 _recvBuf 获取 ===
 
     /**
@@ -703,6 +785,8 @@ private:
             }
         }
 
+        [[maybe_unused]] auto lock = co_await _sendLock.lock();
+
         // 发送ws帧头
         co_await _io.template sendLinkTimeout<DefaultPPTimeout>(std::span<char const>{
             reinterpret_cast<char const*>(data.data()),
-- 
2.43.0


From 5f6014ef4aa818a02dc95ae2a396eee81a0a73e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:18 +0000
Subject: [PATCH 40/84] fix: WebSocket: getIO() of a plain WebSocket did not
 compile when SSL is enabled

---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 3657e6b..2336f5d 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -266,7 +266,7 @@ public:
         , _recvBuf{std::move(recvBuf)}
     {}
 
-    IO& getIO() noexcept {
+    IOType& getIO() noexcept {
         return _io;
     }
 
-- 
2.43.0


From ef1083dc8a96e6086107f7c35e733c2ec9b89217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:10 +0000
Subject: [PATCH 41/84] fix: SerialExecutor: a throwing task, clear() while a
 task ran, or the end of the executor's scope lost tasks or used freed frames

---
 .../coroutine/executor/SerialExecutor.hpp     | 144 ++++++++----------
 1 file changed, 65 insertions(+), 79 deletions(-)

diff --git a/include/HXLibs/coroutine/executor/SerialExecutor.hpp b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
index eefe5af..0a6ad97 100644
--- a/include/HXLibs/coroutine/executor/SerialExecutor.hpp
+++ b/include/HXLibs/coroutine/executor/SerialExecutor.hpp
@@ -18,7 +18,7 @@
  * limitations under the License.
  */
 
-#include <queue>
+#include <coroutine>
 #include <list>
 #include <memory>
 
@@ -30,82 +30,74 @@ namespace HX::coroutine {
  * @brief 协程串行调度器
  */
 class SerialExecutor {
-    struct SerialTask {
-        struct promise_type {
-            StopAwaiter<true> initial_suspend() noexcept { return {}; }
-            auto get_return_object() noexcept {
-                return std::coroutine_handle<promise_type>::from_promise(*this);
-            }
-            StopAwaiter<false> final_suspend() noexcept {
-                _list->erase(_it);
-                return {};
-            }
-            void return_void() noexcept { }
-            void unhandled_exception() noexcept { std::terminate(); }
-
-            std::list<std::coroutine_handle<promise_type>>* _list{};
-            std::list<std::coroutine_handle<promise_type>>::iterator _it;
-        };
-
-        using HandleType = std::coroutine_handle<promise_type>;
-
-        SerialTask(HandleType h) : _handle(h) {}
-        SerialTask& operator=(SerialTask&&) = delete;
-
-        SerialTask&& via(std::list<SerialTask::HandleType>& runList) && {
-            _handle.promise()._list = &runList;
-            _handle.promise()._it = runList.insert(runList.end(), _handle);
-            return std::move(*this);
-        }
-        void detach() && { _handle.resume(); }
-    private:
-        HandleType _handle;
-    };
+    class Turn;
 
     struct State {
-        bool isRun{};
-        // 传递引用, 防止其因为析构引发的 段错误
-        std::queue<std::tuple<coroutine::Task<> const&, std::coroutine_handle<>>> q;
-        // SerialTask 运行队列
-        std::list<SerialTask::HandleType> runList;
+        bool isRun{};       // 有任务正在执行
+        bool isHandOver{};  // 正在移交执行权 (在同一个调用栈内仅需移交一次, 防止递归)
+        std::list<Turn*> q; // 等待执行的任务
     };
 
-    struct SerialAwaiter {
-        explicit SerialAwaiter(SerialExecutor& mtx, coroutine::Task<> const& task)
-            : _mtx{mtx}
-            , _task{task}
+    /**
+     * @brief 执行权: 等待到自己时候获取, 析构时候 (任务完成, 抛异常 或者 协程被销毁) 移交给下一个
+     */
+    class Turn {
+        enum class Status { None, Wait, Run };
+
+        // 执行权的移交可能会使得 SerialExecutor 析构
+        std::shared_ptr<State> _state;
+        std::coroutine_handle<> _co{};
+        Status _status{Status::None};
+    public:
+        explicit Turn(std::shared_ptr<State> state)
+            : _state{std::move(state)}
         {}
-        constexpr bool await_ready() const noexcept { return false; }
-        bool await_suspend(std::coroutine_handle<> co) const noexcept {
-            [[maybe_unused]] auto& [isRun, q, _] = *_mtx._runList;
-            if (!isRun) {
-                q.push({_task, std::noop_coroutine()});
+
+        Turn& operator=(Turn&&) noexcept = delete;
+
+        bool await_ready() noexcept {
+            if (_state->isRun || !_state->q.empty()) {
                 return false;
             }
-            q.push({_task, co});
+            _state->isRun = true;
+            _status = Status::Run;
             return true;
         }
+
+        void await_suspend(std::coroutine_handle<> co) {
+            _state->q.push_back(this);
+            _co = co;
+            _status = Status::Wait;
+        }
+
         constexpr void await_resume() const noexcept {}
-    private:
-        SerialExecutor& _mtx;
-        coroutine::Task<> const& _task;
-    };
 
-    coroutine::Task<> start() {
-        auto runListPtr = _runList;
-        auto& [isRun, q, runList] = *runListPtr;
-        auto [task, co] = std::move(q.front());
-        q.pop();
-        co_await task;
-        co.resume();
-        if (!isRun || q.empty()) {
-            isRun = false;
-            co_return;
+        // 被丢弃, 不会再被执行
+        void drop() noexcept { _status = Status::None; }
+
+        ~Turn() {
+            if (_status == Status::Wait) {
+                _state->q.remove(this);
+            }
+            if (_status != Status::Run) {
+                return;
+            }
+            auto state = _state;
+            state->isRun = false;
+            if (state->isHandOver) {
+                return;
+            }
+            state->isHandOver = true;
+            while (!state->isRun && !state->q.empty()) {
+                auto* next = state->q.front();
+                state->q.pop_front();
+                state->isRun = true;
+                next->_status = Status::Run;
+                next->_co.resume();
+            }
+            state->isHandOver = false;
         }
-        [this]() -> SerialTask {
-            co_await start();
-        }().via(runList).detach();
-    }
+    };
 public:
     /**
      * @brief 串行调度
@@ -113,32 +105,26 @@ public:
      * @note 也就是说, 需要特别小心 whenAny 的使用
      */
     coroutine::Task<> serial(coroutine::Task<> const& t) {
-        co_await SerialAwaiter{*this, t};
-        if (auto& isRun = _runList->isRun; !isRun) {
-            isRun = true;
-            co_await start();
-        }
+        Turn turn{_state};
+        co_await turn;
+        co_await t;
     }
 
     /**
      * @brief 清空所有正在等待的串行任务
      */
     void clear() {
-        auto& [isRun, q, runList] = *_runList;
-        q = {};
-        isRun = false;
-        for (auto& co : runList)
-            co.destroy();
-        runList.clear();
+        for (auto* turn : _state->q) {
+            turn->drop();
+        }
+        _state->q.clear();
     }
 
     ~SerialExecutor() noexcept {
         clear();
     }
 private:
-    // @todo 需要一个协程的共享智能指针
-    const std::shared_ptr<State> _runList = std::make_shared<State>(
-        State{false, {}, {}});
+    const std::shared_ptr<State> _state = std::make_shared<State>();
 };
 
 } // namespace HX::coroutine
-- 
2.43.0


From aee02c99e98982d96cf4d205d1f8d0e02a480bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 42/84] fix: HttpResponse: a chunked download announced success
 before the file was opened, ended an empty file twice and reused the
 connection after a failed transfer

---
 include/HXLibs/net/protocol/http/Response.hpp | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index c0f6921..709fe63 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -409,6 +409,7 @@ public:
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> useChunkedEncodingTransferFile(std::string_view filePath) {
         using namespace std::string_literals;
+        using namespace std::string_view_literals;
         auto fileType = getMimeType(
             utils::FileUtils::getExtension(filePath)
         );
@@ -417,12 +418,14 @@ public:
         addHeader("Transfer-Encoding", "chunked");
         // 生成响应行和响应头
         _buildResponseLineAndHeaders();
-        // 先发送一版, 告知我们是分块编码
-        co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
-        
+
+        // 先打开文件, 打不开就不能回复 200 (只读: 文件不存在时不应该创建它)
         utils::AsyncFile file{_io};
-        co_await file.open(filePath);
+        co_await file.open(filePath, utils::OpenMode::Read);
+        std::exception_ptr err;
         try {
+            // 先发送一版, 告知我们是分块编码
+            co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
             std::vector<char> buf(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
@@ -430,10 +433,15 @@ public:
                 len\r\n
                 内容片段
             */
-            _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
-            co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);           // 发送
-            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size}); // 发送文件
-            for (;;) {
+            if (size) [[likely]] {
+                _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
+                co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);           // 发送
+                co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size}); // 发送文件
+            } else {
+                // 空文件: 没有上一个分块, 只有结束分块
+                co_await _io.template sendLinkTimeout<Timeout>("0\r\n\r\n"sv);
+            }
+            while (size) {
                 size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
                     /*
@@ -456,9 +464,13 @@ public:
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});           // 发送文件
             }
         } catch (...) {
-            ; // _io.template send 会抛异常
+            // _io.template send 会抛异常, 响应不完整, 此连接不能再被复用
+            err = std::current_exception();
         }
         co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
+        }
     }
 
 #if defined(__GNUC__) && !defined(__clang__)
-- 
2.43.0


From 03afb79eab4ace10145904d9a72c01a5e0ea93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 43/84] fix: HttpResponse: a range download whose file could
 not be opened, failed to read or shrank left a short response on a reused
 connection

---
 include/HXLibs/net/protocol/http/Response.hpp | 48 ++++++++++++-------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 709fe63..8d26fab 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -553,11 +553,12 @@ public:
                 addHeader("Content-Type", fileType);
                 addHeader("Content-Length", std::to_string(remaining));
                 _buildResponseLineAndHeaders();
-                co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
                 
                 utils::AsyncFile file{_io};
-                co_await file.open(filePath);
+                co_await file.open(filePath, utils::OpenMode::Read);
+                std::exception_ptr err;
                 try {
+                    co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
                     file.setOffset(beginPos);
                     std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
                     // 支持偏移量
@@ -570,15 +571,19 @@ public:
                             )
                         );
                         if (!size) [[unlikely]] {
-                            break;
+                            throw std::runtime_error{"The file became shorter while it was being sent"};
                         }
                         co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
                         remaining -= size;
                     }
                 } catch (...) {
-                    ;
+                    // 响应不完整, 此连接不能再被复用
+                    err = std::current_exception();
                 }
                 co_await file.close();
+                if (err) [[unlikely]] {
+                    std::rethrow_exception(err);
+                }
             } else {
                 /*
                     HTTP/1.1 206 Partial Content\r\n
@@ -631,11 +636,11 @@ public:
                     utils::StringUtil::append(_sendBuf, CRLF);
                     utils::StringUtil::append(_sendBuf, "Content-Type: application/octet-stream\r\n"sv);
                     utils::StringUtil::append(_sendBuf, CRLF);
-                    co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发头
-
                     utils::AsyncFile file{_io};
-                    co_await file.open(filePath);
+                    co_await file.open(filePath, utils::OpenMode::Read);
+                    std::exception_ptr err;
                     try {
+                        co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发头
                         file.setOffset(beginPos);
                         std::vector<char> buf(utils::FileUtils::kBufMaxSize);
                         // 支持偏移量
@@ -648,17 +653,20 @@ public:
                                 )
                             );
                             if (!size) [[unlikely]] {
-                                break;
+                                throw std::runtime_error{"The file became shorter while it was being sent"};
                             }
                             co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
                             co_await _io.template sendLinkTimeout<Timeout>(CRLF);
                             remaining -= size;
                         }
                     } catch (...) {
-                        // _io.template send 会抛异常
-                        ;
+                        // _io.template send 会抛异常, 响应不完整, 此连接不能再被复用
+                        err = std::current_exception();
                     }
                     co_await file.close();
+                    if (err) [[unlikely]] {
+                        std::rethrow_exception(err);
+                    }
                 }
                 co_await _io.template sendLinkTimeout<Timeout>("--BOUNDARY_STRING--\r\n"sv);
             }
@@ -668,28 +676,36 @@ public:
             addHeader("Content-Type"s, fileType);
             addHeader("Content-Length"s, fileSizeStr);
             _buildResponseLineAndHeaders();
-            co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
 
             utils::AsyncFile file{_io};
-            co_await file.open(filePath);
+            co_await file.open(filePath, utils::OpenMode::Read);
+            std::exception_ptr err;
             try {
+                co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
                 std::vector<char> buf(std::min(fileSize, utils::FileUtils::kBufMaxSize));
                 uint64_t remaining = fileSize;
                 while (remaining > 0) {
+                    // 文件可能正在变大, 不能发送超过 Content-Length 的内容
                     std::size_t size = static_cast<std::size_t>(
-                        co_await file.read(buf)
+                        co_await file.read(
+                            buf,
+                            static_cast<uint32_t>(std::min<uint64_t>(remaining, buf.size()))
+                        )
                     );
                     if (!size) [[unlikely]] {
-                        break;
+                        throw std::runtime_error{"The file became shorter while it was being sent"};
                     }
                     co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
                     remaining -= size;
                 }
             } catch (...) {
-                // _io.template send 会抛异常
-                ;
+                // _io.template send 会抛异常, 响应不完整, 此连接不能再被复用
+                err = std::current_exception();
             }
             co_await file.close();
+            if (err) [[unlikely]] {
+                std::rethrow_exception(err);
+            }
         }
     }
 
-- 
2.43.0


From a1600d432429678816b0b092c74daf0410bfc09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:53 +0000
Subject: [PATCH 44/84] fix: HttpResponse: malformed Range headers threw,
 suffix ranges served the wrong bytes, ranges past the end were misjudged and
 416 had no framing

---
 include/HXLibs/net/protocol/http/Response.hpp | 84 +++++++++++++++----
 1 file changed, 67 insertions(+), 17 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 8d26fab..9391387 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -512,7 +512,7 @@ public:
             addHeader("Accept-Ranges", "bytes");
             _buildResponseLineAndHeaders();
             co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
-        } else if (auto it = headMap.find("range"); it != headMap.end()) {
+        } else if (auto it = headMap.find("range"); it != headMap.end() && _isRangeValid(it->second)) {
             // 开始[断点续传]传输, 先发一下头
             /*
                 "HTTP/1.1 206 Partial Content\r\n"
@@ -532,18 +532,14 @@ public:
             addHeader("Accept-Ranges", "bytes");
 
             if (rangeNumArr.size() == 1) [[likely]] { // 一般都是请求单个范围
-                auto [begin, end] = utils::StringUtil::splitAtFirst(rangeNumArr.back(), "-"sv);
-                if (begin.empty()) {
-                    begin += '0';
-                }
-                if (end.empty()) {
-                    end = std::to_string(fileSize - 1);
-                }
+                auto [begin, end] = _resolveRange(rangeNumArr.back(), fileSize);
                 uint64_t beginPos = std::stoull(begin);
                 uint64_t endPos = std::stoull(end);
-                if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
+                if (beginPos > endPos || endPos >= fileSize) [[unlikely]] {
                     // 范围不合法: 返回416, 表示请求错误
                     setResLine(Status::CODE_416);
+                    addHeader("Content-Range", "bytes */" + fileSizeStr);
+                    addHeader("Content-Length", "0");
                     _buildResponseLineAndHeaders();
                     co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
                     co_return ;
@@ -607,17 +603,11 @@ public:
                 _buildResponseLineAndHeaders();
                 co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
                 for (auto& ragen : rangeNumArr) {
-                    auto [begin, end] = utils::StringUtil::splitAtFirst(ragen, "-");
-                    if (begin.empty()) {
-                        begin += '0';
-                    }
-                    if (end.empty()) {
-                        end = std::to_string(fileSize - 1);
-                    }
+                    auto [begin, end] = _resolveRange(ragen, fileSize);
                     uint64_t beginPos = std::stoull(begin);
                     uint64_t endPos = std::stoull(end);
                     // 范围不合法: 不会报错, 而是忽略!
-                    if (beginPos > endPos || endPos > fileSize) [[unlikely]] {
+                    if (beginPos > endPos || endPos >= fileSize) [[unlikely]] {
                         continue;
                     }
                     _sendBuf.clear();
@@ -882,6 +872,66 @@ private:
         }
     }
 
+    /**
+     * @brief [仅服务端] 判断 Range 请求头是否符合语法: `bytes=` 1#( 起始 "-" [ 结束 ] / "-" 长度 )
+     * @note 不符合语法的 Range 应该被忽略 (视为没有此请求头)
+     */
+    static bool _isRangeValid(std::string_view rangeVals) {
+        using namespace std::string_view_literals;
+        if (!rangeVals.starts_with("bytes="sv)) {
+            return false;
+        }
+        for (auto const& range : utils::StringUtil::split<std::string>(rangeVals.substr(6), ","sv)) {
+            auto str = _trimRange(range);
+            auto pos = str.find('-');
+            if (pos == std::string_view::npos
+                || str.size() == 1                  // 只有 "-"
+                || pos > 18 || str.size() - pos > 19  // 防止溢出
+                || str.find_first_not_of("0123456789"sv) != pos
+                || str.find_first_not_of("0123456789"sv, pos + 1) != std::string_view::npos
+            ) {
+                return false;
+            }
+            if (pos && pos + 1 < str.size()
+                && std::stoull(std::string{str.substr(0, pos)}) > std::stoull(std::string{str.substr(pos + 1)})
+            ) {
+                return false;
+            }
+        }
+        return true;
+    }
+
+    static std::string_view _trimRange(std::string_view str) {
+        auto pos = str.find_first_not_of(" \t");
+        if (pos == std::string_view::npos) {
+            return {};
+        }
+        return str.substr(pos, str.find_last_not_of(" \t") - pos + 1);
+    }
+
+    /**
+     * @brief [仅服务端] 计算范围的起始位置和结束位置 (包含)
+     * @param range 符合语法的范围
+     * @return 如果范围无法满足, 则 起始位置 > 结束位置 或者 结束位置 >= 文件大小
+     */
+    static std::pair<std::string, std::string> _resolveRange(std::string_view range, uint64_t fileSize) {
+        using namespace std::string_view_literals;
+        auto [begin, end] = utils::StringUtil::splitAtFirst(_trimRange(range), "-"sv);
+        if (!fileSize) {
+            // 空文件, 任何范围都无法满足
+            return {"0", "0"};
+        }
+        if (begin.empty()) {
+            // "-N": 最后 N 个字节
+            begin = std::to_string(fileSize - std::min<uint64_t>(fileSize, std::stoull(end)));
+            end.clear();
+        }
+        if (end.empty() || std::stoull(end) >= fileSize) {
+            end = std::to_string(fileSize - 1);
+        }
+        return {std::to_string(std::stoull(begin)), std::to_string(std::stoull(end))};
+    }
+
     /**
      * @brief [仅服务端] 把 size 大小转换为 16 进制并以符合 ChunkedEncoding 的格式写入 _sendBuf
      * @param size 内容大小
-- 
2.43.0


From a64cc1ebb779352634b099dc523eee7364cb84d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 45/84] fix: HttpResponse: multipart range responses had no
 framing and line breaks inside the parts

---
 include/HXLibs/net/protocol/http/Response.hpp | 35 ++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 9391387..c3b6d63 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -584,6 +584,7 @@ public:
                 /*
                     HTTP/1.1 206 Partial Content\r\n
                     Content-Type: multipart/byteranges; boundary=BOUNDARY_STRING\r\n
+                    Content-Length: L\r\n
                     \r\n
                     --BOUNDARY_STRING\r\n
                     Content-Range: bytes X1-Y1/Z\r\n
@@ -599,9 +600,14 @@ public:
                     [BINARY DATA PART 2]\r\n
                     --BOUNDARY_STRING--\r\n
                 */
-                addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
-                _buildResponseLineAndHeaders();
-                co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发一个头
+                // 先组装每一部分的头, 才知道响应的总长度
+                struct Part {
+                    std::string head;
+                    uint64_t beginPos;
+                    uint64_t size;
+                };
+                std::vector<Part> parts;
+                uint64_t bodySize = "--BOUNDARY_STRING--\r\n"sv.size();
                 for (auto& ragen : rangeNumArr) {
                     auto [begin, end] = _resolveRange(ragen, fileSize);
                     uint64_t beginPos = std::stoull(begin);
@@ -626,11 +632,32 @@ public:
                     utils::StringUtil::append(_sendBuf, CRLF);
                     utils::StringUtil::append(_sendBuf, "Content-Type: application/octet-stream\r\n"sv);
                     utils::StringUtil::append(_sendBuf, CRLF);
+                    std::string head{_sendBuf.data(), _sendBuf.size()};
+                    bodySize += head.size() + remaining + CRLF.size();
+                    parts.push_back({std::move(head), beginPos, remaining});
+                }
+                _sendBuf.clear();
+                if (parts.empty()) [[unlikely]] {
+                    // 没有合法的范围: 返回416, 表示请求错误
+                    setResLine(Status::CODE_416);
+                    addHeader("Content-Range", "bytes */" + fileSizeStr);
+                    addHeader("Content-Length", "0");
+                    _buildResponseLineAndHeaders();
+                    co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
+                    co_return ;
+                }
+                addHeader("Content-Type", "multipart/byteranges; boundary=BOUNDARY_STRING");
+                addHeader("Content-Length", std::to_string(bodySize));
+                _buildResponseLineAndHeaders();
+                for (auto& [head, beginPos, remaining] : parts) {
+                    utils::StringUtil::append(_sendBuf, head);
+
                     utils::AsyncFile file{_io};
                     co_await file.open(filePath, utils::OpenMode::Read);
                     std::exception_ptr err;
                     try {
                         co_await _io.template sendLinkTimeout<Timeout>(_sendBuf); // 先发头
+                        _sendBuf.clear();
                         file.setOffset(beginPos);
                         std::vector<char> buf(utils::FileUtils::kBufMaxSize);
                         // 支持偏移量
@@ -646,9 +673,9 @@ public:
                                 throw std::runtime_error{"The file became shorter while it was being sent"};
                             }
                             co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-                            co_await _io.template sendLinkTimeout<Timeout>(CRLF);
                             remaining -= size;
                         }
+                        co_await _io.template sendLinkTimeout<Timeout>(CRLF);
                     } catch (...) {
                         // _io.template send 会抛异常, 响应不完整, 此连接不能再被复用
                         err = std::current_exception();
-- 
2.43.0


From a97b0dc1fd4b7447e790ac9a5078d9eca9c11fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 46/84] fix: HttpResponse: an empty list of ranges was taken
 for a list without satisfiable ranges

---
 include/HXLibs/net/protocol/http/Response.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index c3b6d63..3d193ae 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -905,7 +905,7 @@ private:
      */
     static bool _isRangeValid(std::string_view rangeVals) {
         using namespace std::string_view_literals;
-        if (!rangeVals.starts_with("bytes="sv)) {
+        if (!rangeVals.starts_with("bytes="sv) || rangeVals.size() == 6) {
             return false;
         }
         for (auto const& range : utils::StringUtil::split<std::string>(rangeVals.substr(6), ","sv)) {
-- 
2.43.0


From 5ade25236a913c3c410f12b3cd4e498f697c31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 47/84] fix: HttpRequest: an uploaded file was followed by a
 second end marker that broke the next request on the connection

---
 include/HXLibs/net/protocol/http/Request.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index abd652c..766275f 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -172,17 +172,22 @@ public:
             buf.resize(utils::FileUtils::kBufMaxSize);
             // 读取文件
             std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
-            _buildToChunkedEncoding<true>(size, sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
-            co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-            for (;;) {
+            if (size) [[likely]] {
+                _buildToChunkedEncoding<true>(size, sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
+                co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
+            } else {
+                // 空文件: 没有上一个分块, 只有结束分块
+                co_await _io.template sendLinkTimeout<Timeout>("0\r\n\r\n"sv);
+            }
+            while (size) {
+                size = static_cast<std::size_t>(co_await file.read(buf));
                 if (!size) [[unlikely]] {
-                    // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束
+                    // 需要使用 长度为 0 的分块, 来标记当前内容实体传输结束 (只能有一个)
                     _buildToChunkedEncoding<false, true>(0, sendBuf);
                     co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                     break;
                 }
-                size = static_cast<std::size_t>(co_await file.read(buf));
                 _buildToChunkedEncoding(size, sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
-- 
2.43.0


From 8a9b914d480ee643397a4bc19ae46bbf9ae4b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 48/84] fix: HttpRequest: saveToFile leaked the file when the
 body or the disk failed and emptied the file of a body that was already read

---
 include/HXLibs/net/protocol/http/Request.hpp | 23 ++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 766275f..dcc04f1 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -412,13 +412,29 @@ public:
     template <typename Timeout = decltype(5_s)>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> saveToFile(std::string_view path) {
-        utils::AsyncFile file{_io};
-        co_await file.open(path, utils::OpenMode::Write);
         if (_completeBody) [[unlikely]] {
-            // 已经解析过 Http Body 了
+            // 已经解析过 Http Body 了 (此时不能清空文件)
             throw std::runtime_error{"Have already analyzed the http body"};
         }
+        utils::AsyncFile file{_io};
+        co_await file.open(path, utils::OpenMode::Write);
         _completeBody = true;
+        std::exception_ptr err;
+        try {
+            co_await _saveToFile<Timeout>(file);
+        } catch (...) {
+            err = std::current_exception();
+        }
+        // 无论是否成功, 都需要关闭文件
+        co_await file.close();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
+        }
+    }
+
+    template <typename Timeout>
+        requires(utils::HasTimeNTTP<Timeout>)
+    coroutine::Task<> _saveToFile(utils::AsyncFile& file) {
         for (std::size_t n = co_await _coParserReqBody(file); n; n = co_await _coParserReqBody(file)) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
@@ -437,7 +453,6 @@ public:
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
         }
-        co_await file.close();
     }
 
     // @todo 
-- 
2.43.0


From 09d335df50cf7584bfa268bf34788440c37979d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:27 +0000
Subject: [PATCH 49/84] fix: AsyncFile: opening a directory or a file that was
 removed meanwhile leaked the descriptor

---
 include/HXLibs/utils/FileUtils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/utils/FileUtils.hpp b/include/HXLibs/utils/FileUtils.hpp
index 9f0ba4c..42854af 100644
--- a/include/HXLibs/utils/FileUtils.hpp
+++ b/include/HXLibs/utils/FileUtils.hpp
@@ -163,7 +163,12 @@ public:
 #else
         #error "Unsupported platform"
 #endif
-        _fileSize = FileUtils::getFileSize(path);
+        // 仅用于预留空间, 获取失败 (如: 目录、相对于 dirfd 的路径) 不应该影响已经打开的文件
+        std::error_code ec;
+        _fileSize = std::filesystem::file_size(std::filesystem::path{path}, ec);
+        if (ec) [[unlikely]] {
+            _fileSize = 0;
+        }
     }
 
     /**
-- 
2.43.0


From 8818e99c41a9236a22196bcfdf2dbd6e78deed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 50/84] fix: HttpRequest: after an endpoint handled a failed
 body the rest of that body was parsed as the next request

---
 include/HXLibs/net/protocol/http/Request.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index dcc04f1..618bc45 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -383,6 +383,7 @@ public:
             throw std::runtime_error{"Have already analyzed the http body"};
         }
         _completeBody = true;
+        _brokenBody = true;
         for (std::size_t n = _parserReqBody(); n; n = _parserReqBody()) {
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
@@ -401,6 +402,7 @@ public:
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
         }
+        _brokenBody = false;
         co_return std::move(_body);
     }
 
@@ -419,9 +421,11 @@ public:
         utils::AsyncFile file{_io};
         co_await file.open(path, utils::OpenMode::Write);
         _completeBody = true;
+        _brokenBody = true;
         std::exception_ptr err;
         try {
             co_await _saveToFile<Timeout>(file);
+            _brokenBody = false;
         } catch (...) {
             err = std::current_exception();
         }
@@ -566,6 +570,10 @@ public:
             // 250 ms, 如果解析不完, 就滚蛋! 传递这么多没用的干什么?!
             co_await parseBody<decltype(250_ms)>();
         }
+        if (_brokenBody) [[unlikely]] {
+            // 端点忽略了解析失败的请求体, 其剩余部分不能被当作下一个请求, 此连接不能再被复用
+            throw std::runtime_error{"The body of the previous request is incomplete"};
+        }
         _completeBody = false;
         _boundary = {};
         _requestLine.clear();
@@ -629,6 +637,9 @@ private:
      */
     bool _completeBody = false;
 
+    // 请求体解析失败 (只解析了一部分)
+    bool _brokenBody = false;
+
     template <typename>
     friend class Router;
     template <typename>
-- 
2.43.0


From 509ab9014e93562ba46b86e1ea1e8ccd6a06d0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 51/84] fix: HttpRequest: an upload whose file failed to close
 closed it a second time

---
 include/HXLibs/net/protocol/http/Request.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 618bc45..0e1e3c6 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -158,7 +158,7 @@ public:
 #endif // !NODEBUG
         utils::AsyncFile file{_io};
         co_await file.open(path, utils::OpenMode::Read);
-        container::Try<> err;
+        std::exception_ptr err;
         try {
             _requestHeaders[std::string{TRANSFER_ENCODING_SV}] = "chunked"; // 分块编码请求头要求
             // 开始发送分块编码
@@ -192,13 +192,13 @@ public:
                 co_await _io.template sendLinkTimeout<Timeout>(sendBuf);
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size});
             }
-            co_await file.close();
-            co_return;
         } catch (...) {
-            err.setException(std::current_exception());
+            err = std::current_exception();
         }
         co_await file.close();
-        err.rethrow();
+        if (err) [[unlikely]] {
+            std::rethrow_exception(err);
+        }
     }
 
     /**
-- 
2.43.0


From af5a71fa57b8de00254fbb1b82622a8143076e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 52/84] fix: SSE client: events already received were not
 delivered, chunked streams, CRLF, fields without colon, empty lines and long
 lines were misread

---
 include/HXLibs/net/protocol/http/Response.hpp | 82 ++++++++++++++-----
 1 file changed, 62 insertions(+), 20 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d193ae..cb6c91b 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -47,11 +47,10 @@ class HttpResponse;
 
 namespace internal {
 
+// 每一行都以 \n 结尾 (否则分不清开头的空行), 最后一个 \n 在事件结束时去掉
 inline void fromSse(std::string& v, std::string_view sv) {
-    if (v.size()) {
-        v += '\n';
-    }
     v += sv;
+    v += '\n';
 }
 
 inline void fromSse(std::optional<std::string>& v, std::string_view sv) {
@@ -60,7 +59,10 @@ inline void fromSse(std::optional<std::string>& v, std::string_view sv) {
 
 inline void fromSse(std::optional<std::chrono::milliseconds>& v, std::string_view sv) {
     uint64_t ms{};
-    reflection::Numer::fromNumer<uint64_t>(ms, sv);
+    auto [ptr, ec] = std::from_chars(sv.data(), sv.data() + sv.size(), ms);
+    if (ec != std::errc{} || ptr != sv.data() + sv.size()) [[unlikely]] {
+        return; // 不合法的字段应当被忽略
+    }
     v.emplace(ms);
 }
 
@@ -275,7 +277,16 @@ public:
         }
         // 进行 SSE 解析, 只有 TCP close 才是 SSE 结束, 因为它默认不会结束. 需用户协议好 [done] data
         SseEvent event;
+        std::string stream; // 已经解码, 但是没有解析的事件流
         for (;;) {
+            bool isEnd = _decodeSseStream(stream);
+            while (_parserSseStrem(event, stream)) {
+                co_yield std::move(event);
+                new (&event)SseEvent;
+            }
+            if (isEnd) [[unlikely]] {
+                throw std::runtime_error{"parseBody: The event stream has ended"};
+            }
             auto res = co_await _io.template recvLinkTimeout<Timeout>(
                 // 保留原有的数据
                 {_recvBuf.data() + _recvBuf.size(), _recvBuf.data() + _recvBuf.max_size()}
@@ -292,10 +303,6 @@ public:
                 throw std::runtime_error{"parseBody: Connection is Broken"};
             }
             _recvBuf.addSize(static_cast<std::size_t>(recvN));
-            while (_parserSseStrem(event)) {
-                co_yield std::move(event);
-                new (&event)SseEvent;
-            }
         }
         co_return std::move(event);
     }
@@ -1141,9 +1148,9 @@ private:
      * @return true 分块完成, 可以返回
      * @return false 继续读取
      */
-    bool _parserSseStrem(SseEvent& sse) {
+    bool _parserSseStrem(SseEvent& sse, std::string& stream) {
         using namespace std::string_view_literals;
-        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
+        std::string_view buf{stream};
         /*
         data: xxxx\n
         data:yyyy\n
@@ -1157,14 +1164,27 @@ private:
             pos = buf.find('\n')
         ) {
             // now line is: [0, pos)
-            auto skPos = buf.find(':');
-            if (skPos >= pos) {
+            auto line = buf.substr(0, pos);
+            buf = buf.substr(pos + 1); // 跳过 \n
+            if (line.ends_with('\r')) {
+                line.remove_suffix(1);
+            }
+            if (line.empty()) {
                 // 说明本行是 \n
-                _recvBuf.moveToHead(buf.substr(1)); // 跳过 \n
-                return sse;
+                if (!sse) {
+                    continue; // 没有任何字段, 不是事件
+                }
+                for (auto* str : {&sse.data, &sse.event}) {
+                    if (str->size()) {
+                        str->pop_back(); // 最后一行的 \n
+                    }
+                }
+                stream.erase(0, stream.size() - buf.size());
+                return true;
             }
-            auto key = buf.substr(0, skPos);
-            if (key.size()) { // 仅 \n
+            auto skPos = line.find(':');
+            auto key = line.substr(0, skPos);
+            if (key.size()) { // 不是注释
                 static const auto mp = reflection::makeNameToIdxVariantHashMap<SseEvent>();
                 if (auto it = mp.find(key); it != mp.end()) {
                     std::visit([&](auto&& idx) constexpr {
@@ -1172,20 +1192,42 @@ private:
                         auto ptr = reinterpret_cast<PtrType>(
                             reinterpret_cast<char*>(&sse) + idx.offset
                         );
-                        auto val = buf.substr(skPos + 1, pos - skPos - 1);
-                        if (val.front() == ' ') {
+                        // 没有 : 的行, 是值为空的字段
+                        auto val = skPos == std::string_view::npos ? ""sv : line.substr(skPos + 1);
+                        if (val.starts_with(' ')) {
                             val = val.substr(1);
                         }
                         internal::fromSse(*ptr, val);
                     }, it->second);
                 }
             }
-            buf = buf.substr(pos + 1); // 跳过 \n
         }
-        _recvBuf.moveToHead(buf);
+        stream.erase(0, stream.size() - buf.size());
         return false;
     }
 
+    /**
+     * @brief 把收到的数据 (可能是分块传输编码) 解码到 stream
+     * @return true 事件流已经结束
+     */
+    bool _decodeSseStream(std::string& stream) {
+        std::string_view buf{_recvBuf.data(), _recvBuf.size()};
+        if (!_responseHeaders.contains(TRANSFER_ENCODING_SV)) {
+            stream.append(buf);
+            _recvBuf.clear();
+            return false;
+        }
+        std::string_view data;
+        for (;;) {
+            auto step = internal::nextChunk(buf, _remainingBodyLen, data);
+            if (step != internal::ChunkStep::Data) {
+                _recvBuf.moveToHead(buf);
+                return step == internal::ChunkStep::End;
+            }
+            stream.append(data);
+        }
+    }
+
     /**
      * @brief [[仅客户端]] 解析响应
      * @return 是否需要继续解析;
-- 
2.43.0


From 599940db6562ae98cff2c25e2eea46cf64c05530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 53/84] fix: SSE server: a line of an event starting with a
 space lost it

---
 include/HXLibs/net/protocol/http/Response.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index cb6c91b..3d9eb0f 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -83,13 +83,13 @@ public:
         using namespace std::string_view_literals;
         auto& io = _res.getIO();
         if (event.event.size()) {
-            co_await sendStr("event:"sv, event.event);
+            co_await sendStr("event: "sv, event.event);
         }
         if (event.data.size()) {
-            co_await sendStr("data:"sv, event.data);
+            co_await sendStr("data: "sv, event.data);
         }
         if (event.id) {
-            co_await sendStr("id:"sv, *event.id);
+            co_await sendStr("id: "sv, *event.id);
         }
         if (event.retry) {
             co_await io.fullySend("retry:"sv);
-- 
2.43.0


From 5ac2920a447e7ef999766881fa8013ca01c3d212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 54/84] fix: SSE server: the end of a stream did not end the
 connection, the next request was answered into the stream

---
 include/HXLibs/net/protocol/http/Response.hpp   | 8 ++++++++
 include/HXLibs/net/server/ConnectionHandler.hpp | 1 +
 2 files changed, 9 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 3d9eb0f..399040e 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -741,6 +741,7 @@ public:
         // 组装必要的响应
         setResLine(Status::CODE_200);
         addHeader("Content-Type", "text/event-stream");
+        _isBodyUntilClose = true; // 事件流没有长度, 端点返回后需要断开连接才能让对方得知流结束
         // 生成响应行和响应头
         _buildResponseLineAndHeaders();
         // 先发送一版, 告知我们是 SseStream
@@ -748,6 +749,13 @@ public:
         co_return internal::SseStream<IOType>{*this};
     }
 
+    /**
+     * @brief [仅服务端] 响应是否以连接关闭为结尾
+     */
+    bool isBodyUntilClose() const noexcept {
+        return _isBodyUntilClose;
+    }
+
     // ===== ↑服务端使用の更加人性化API↑ =====
 
     // ===== ↓服务端使用↓ =====
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index ed4c8bb..c5fcfd4 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -65,6 +65,7 @@ struct ConnectionHandler {
                     // 只要不是明确写 close 的, 我就复用连接 (keep-alive)
                     if (auto it = req.getHeaders().find(CONNECTION_SV);
                         (it != req.getHeaders().end() && it->second == "close"sv)
+                        || res.isBodyUntilClose()
                         || !isRun.load(std::memory_order_acquire)
                     ) [[unlikely]] {
                         break;
-- 
2.43.0


From 920c767c2ae450765b56724f1d4ecd17a0e713a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 55/84] fix: HttpClientPool: resize made one client too many,
 raced with requests and could deadlock with their callbacks; requst() and
 close() did not compile

---
 include/HXLibs/net/client/HttpClientPool.hpp | 36 ++++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/HXLibs/net/client/HttpClientPool.hpp b/include/HXLibs/net/client/HttpClientPool.hpp
index b51dc6d..6ab42a5 100644
--- a/include/HXLibs/net/client/HttpClientPool.hpp
+++ b/include/HXLibs/net/client/HttpClientPool.hpp
@@ -36,7 +36,7 @@ public:
             throw std::runtime_error{"HttpClientPool: Size must be at least 1"};
         }
         for (std::size_t i = 0; i < size; ++i) {
-            _cliPool.emplace_back(std::make_unique<HttpClientType>(options));
+            _cliPool.emplace_back(std::make_shared<HttpClientType>(options));
         }
     }
 
@@ -46,12 +46,17 @@ public:
         if (newSize <= 0) [[unlikely]] {
             throw std::runtime_error{"HttpClientPool: Size must be at least 1"};
         }
+        // 析构会等待正在进行的请求, 而它们的回调可能也需要锁, 因此需要在解锁之后再析构
+        std::vector<std::shared_ptr<HttpClientType>> removed;
         std::unique_lock _{_mtx};
         if (newSize <= _cliPool.size()) {
+            for (std::size_t i = newSize; i < _cliPool.size(); ++i) {
+                removed.emplace_back(std::move(_cliPool[i]));
+            }
             _cliPool.resize(newSize);
         } else {
-            for (std::size_t i = _cliPool.size(); i <= newSize; ++i) {
-                _cliPool.emplace_back(std::make_unique<HttpClientType>(options));
+            for (std::size_t i = _cliPool.size(); i < newSize; ++i) {
+                _cliPool.emplace_back(std::make_shared<HttpClientType>(options));
             }
         }
     }
@@ -77,6 +82,7 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
+        std::unique_lock _{_mtx}; // 提交请求之前, 客户端不能被 resize 移除
         return _cliPool.at(getIdxAndNext())->template get<Timeout>(
             std::move(url), std::move(headers)
         );
@@ -97,6 +103,7 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
+        std::unique_lock _{_mtx}; // 提交请求之前, 客户端不能被 resize 移除
         return _cliPool.at(getIdxAndNext())->template post<Timeout>(
             std::move(url), std::move(body),
             contentType, std::move(headers)
@@ -124,7 +131,8 @@ public:
         HttpContentType contentType = HttpContentType::None,
         [[maybe_unused]] Timeout timeout = {}
     ) {
-        return _cliPool.at(getIdxAndNext())->template requst<Method, Timeout>(
+        std::unique_lock _{_mtx}; // 提交请求之前, 客户端不能被 resize 移除
+        return _cliPool.at(getIdxAndNext())->template request<Method, Timeout>(
             std::move(url),
             std::move(headers),
             std::forward<Str>(body),
@@ -152,6 +160,7 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
+        std::unique_lock _{_mtx}; // 提交请求之前, 客户端不能被 resize 移除
         return _cliPool.at(getIdxAndNext())->template wsLoop<Timeout>(
             std::move(url), std::forward<Func>(func), std::move(headers)
         );
@@ -174,6 +183,7 @@ public:
         HeaderHashMap headers = {},
         [[maybe_unused]] Timeout timeout = {}
     ) {
+        std::unique_lock _{_mtx}; // 提交请求之前, 客户端不能被 resize 移除
         return _cliPool.at(getIdxAndNext())->template uploadChunked<Method, Timeout>(
             std::move(url), std::move(path),
             contentType, std::move(headers)
@@ -181,16 +191,20 @@ public:
     }
 
     /**
-     * @brief 断开连接
-     * @return container::FutureResult<> 
+     * @brief 断开所有的连接
      */
-    container::FutureResult<> close() {
-        return _cliPool.at(getIdxAndNext())->close();
+    void close() {
+        std::unique_lock lck{_mtx};
+        auto cliPool = _cliPool; // 断开会等待正在进行的请求, 不能持有锁
+        lck.unlock();
+        for (auto& cli : cliPool) {
+            cli->close();
+        }
     }
 private:
-    std::vector<std::unique_ptr<HttpClientType>> _cliPool;
-    std::mutex _mtx;
-    std::uint64_t _index;
+    std::vector<std::shared_ptr<HttpClientType>> _cliPool;
+    std::recursive_mutex _mtx;
+    std::uint64_t _index{};
 };
 
 template <typename Proxy>
-- 
2.43.0


From 120c02f3636e9478dd32c2b7b072125dd75a3487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 56/84] fix: HttpClient: request() took the body away from the
 caller's string

---
 include/HXLibs/net/client/HttpClient.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 4dde5fd..0949d9b 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -322,7 +322,7 @@ public:
         }
 #endif // !NDEBUG
         return _pool->addTask([this, _url = std::move(url),
-                              _body = std::move(body), _headers = std::move(headers),
+                              _body = std::string{std::forward<Str>(body)}, _headers = std::move(headers),
                               contentType] {
             return coRequest<Method>(
                 std::move(_url), std::move(_headers),
-- 
2.43.0


From f29a08acf11a2face8afea7f9a39fac056e02ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 57/84] fix: UrlParse: extractUser split the password at its
 last ':', garbled users without a password and took an '@' of the path

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 21 ++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 804c4fc..2ac5e72 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -129,21 +129,22 @@ struct UrlParse {
      * @return pair<用户名, 密码>, 如果解析不到, 则返回 std::nullopt
      */
     static std::optional<AccountInfo> extractUser(std::string_view url) {
-        std::size_t findEnd = url.find('@');
+        // 只能在 `协议://` 之后, Path 之前查找
+        std::size_t protocolFind = url.find("://");
+        url.remove_prefix(protocolFind == std::string_view::npos ? 0 : protocolFind + 3);
+        url = url.substr(0, url.find_first_of("/?#"));
+        std::size_t findEnd = url.rfind('@');
         if (findEnd == std::string_view::npos) {
             return std::nullopt;
         }
-        std::size_t findMid = url.rfind(':', findEnd - 1);
-        std::size_t findStart = url.rfind('/', findMid - 1);
-        if (findStart == std::string_view::npos) {
-            return std::optional{AccountInfo{
-                url.substr(0, findMid), 
-                url.substr(findMid + 1, findEnd - findMid - 1)
-            }};
+        url = url.substr(0, findEnd);
+        std::size_t findMid = url.find(':'); // 用户名不包含 `:`, 但是密码可以包含
+        if (findMid == std::string_view::npos) {
+            return std::optional{AccountInfo{url, {}}}; // 没有密码
         }
         return std::optional{AccountInfo{
-            url.substr(findStart + 1, findMid - findStart - 1), 
-            url.substr(findMid + 1, findEnd - findMid - 1)
+            url.substr(0, findMid), 
+            url.substr(findMid + 1)
         }};
     }
 
-- 
2.43.0


From 43c79ad15afffac1ad60a61b189fe2d60a60640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:46 +0000
Subject: [PATCH 58/84] fix: HttpProxy: http targets and explicit ports were
 not asked for, the proxy's credentials were dropped

---
 .../HXLibs/net/protocol/proxy/HttpProxy.hpp   | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
index ebc3d24..1d73983 100644
--- a/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/HttpProxy.hpp
@@ -21,6 +21,7 @@
 #include <HXLibs/net/protocol/proxy/Proxy.hpp>
 #include <HXLibs/net/protocol/http/Request.hpp>
 #include <HXLibs/net/protocol/http/Response.hpp>
+#include <HXLibs/net/protocol/codec/Base64.hpp>
 #include <HXLibs/net/protocol/url/UrlParse.hpp>
 
 namespace HX::net {
@@ -34,17 +35,19 @@ public:
         UrlInfoExtractor parser(targetUrl);
         HttpRequest<HttpIO> req{_io};
         
-        if (parser.getService() == "https") {
-            req.setReqLine<HttpMethod::CONNECT>(
-                std::string{parser.getHostname()}
-                + ":"
-                + std::to_string(UrlParse::getProtocolPort(parser.getService()))
-            );
-        } else {
-            req.setReqLine<HttpMethod::GET>(url);
-        }
+        // 无论目标是什么协议, 都是建立隧道; 之后的数据才是给目标的
+        std::string target = std::string{parser.getHostname()}
+            + ":"
+            + std::to_string(UrlParse::getProtocolPort(parser.getService()));
+        req.setReqLine<HttpMethod::CONNECT>(target);
 
-        req.tryAddHeaders("Host", UrlParse::extractDomainName(std::string{url}));
+        req.tryAddHeaders("Host", target);
+        if (auto user = UrlParse::extractUser(url)) {
+            auto account = std::string{user->account} + ":" + std::string{user->password};
+            req.tryAddHeaders("Proxy-Authorization", "Basic " + base64Encode({
+                reinterpret_cast<uint8_t*>(account.data()), account.size()
+            }));
+        }
         req.tryAddHeaders("Connection", "keep-alive");
         req.tryAddHeaders("User-Agent", "HXLibs/1.0");
 
-- 
2.43.0


From a7fba9eddf648eaac2f3477149adda4daa90dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 59/84] fix: Socks5Proxy: the authentication reply was sent
 instead of received, the connect reply misread, nothing timed out

---
 .../HXLibs/net/protocol/proxy/Socks5Proxy.hpp | 74 +++++++++++++++++--
 1 file changed, 66 insertions(+), 8 deletions(-)

diff --git a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
index 036a998..2265ae3 100644
--- a/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
+++ b/include/HXLibs/net/protocol/proxy/Socks5Proxy.hpp
@@ -47,6 +47,9 @@ private:
         std::string_view username, 
         std::string_view password
     ) {
+        if (username.size() > 255 || password.size() > 255) [[unlikely]] {
+            throw std::invalid_argument("sub-negotiation: username or password is too long");
+        }
         // 发送用户名密码进行验证
         std::string authRequest;
         authRequest += static_cast<char>(0x01);
@@ -54,11 +57,11 @@ private:
         authRequest += username;
         authRequest += static_cast<char>(password.size());
         authRequest += password;
-        co_await _io.fullySend(authRequest);
+        co_await send(authRequest);
 
         char authResponse[2];
-        co_await _io.fullySend(authResponse);
-        if (authResponse[1] != 0x00) {
+        co_await recv(authResponse);
+        if (authResponse[0] != 0x01 || authResponse[1] != 0x00) {
             throw std::invalid_argument("sub-negotiation: REP is " + std::to_string(authResponse[1]));
         }
     }
@@ -74,11 +77,11 @@ private:
             0x01, // 客户端支持的方法数量 (决定 METHODS 的长度)
             static_cast<char>(authentication ? 0x02 : 0x00)  // 不进行用户名密码验证
         };
-        co_await _io.fullySend(handshakeRequest);
+        co_await send(handshakeRequest);
 
         // 解析服务端响应
         char handshakeResponse[2];
-        co_await _io.fullyRecv(handshakeResponse);
+        co_await recv(handshakeResponse);
         if (handshakeResponse[0] != 0x05                           // 协议版本 (需要一致)
          || handshakeResponse[1] != (authentication ? 0x02 : 0x00) // 服务端选择的可用方法
         ) [[unlikely]] {
@@ -134,14 +137,18 @@ private:
          *      - 域名 (unsigned char []) (可变长度)
          */
         UrlInfoExtractor parser(targetUrl);
+        if (parser.getHostname().size() > 255) [[unlikely]] {
+            throw std::invalid_argument("Connect Request: hostname is too long");
+        }
         connectRequest += static_cast<char>(parser.getHostname().size());
         connectRequest += parser.getHostname();
         connectRequest.resize(connectRequest.size() + 2);
         *(reinterpret_cast<uint16_t*>(&connectRequest[connectRequest.size() - 2])) = 
             ::htons(UrlParse::getProtocolPort(parser.getService()));
 
-        co_await _io.fullySend(connectRequest);
-        co_await _io.fullyRecv(connectRequest);
+        co_await send(connectRequest);
+        connectRequest.resize(4); // 先只读取到 ATYP, 失败的应答可能没有更多的数据
+        co_await recv(connectRequest);
 
         /**
          * @brief 
@@ -156,7 +163,7 @@ private:
          *                                                16 (IPv6)	
          * BND.PORT	    绑定端口	    unsigned short	2
          */
-        if (connectRequest[1] != 0x00) [[unlikely]] { // 失败
+        if (connectRequest[0] != 0x05 || connectRequest[1] != 0x00) [[unlikely]] { // 失败
             /**
              * @brief 服务器响应消息中的 REP 字段如果不为 0x00, 则表示请求失. 不同值的具体含义如下:
              * 0x00 成功
@@ -171,6 +178,57 @@ private:
              */
             throw std::invalid_argument("Connect Request: REP is " + std::to_string(connectRequest[1]));
         }
+
+        // BND.ADDR + BND.PORT, 长度取决于 ATYP, 需要全部读取, 否则就会被当做响应
+        std::size_t len = 2;
+        switch (connectRequest[3]) {
+        case 0x01:
+            len += 4;
+            break;
+        case 0x03: {
+            char domainLen[1];
+            co_await recv(domainLen);
+            len += static_cast<unsigned char>(domainLen[0]);
+            break;
+        }
+        case 0x04:
+            len += 16;
+            break;
+        default:
+            throw std::invalid_argument("Connect Request: ATYP is " + std::to_string(connectRequest[3]));
+        }
+        connectRequest.resize(len);
+        co_await recv(connectRequest);
+    }
+
+    using Timeout = utils::TimeNTTP<std::chrono::seconds, 3>;
+
+    /**
+     * @brief 完全写入
+     * @throw 超时, 失败
+     */
+    coroutine::Task<> send(std::span<char const> buf) {
+        co_await _io.sendLinkTimeout<Timeout>(buf);
+    }
+
+    /**
+     * @brief 完全读取
+     * @throw 超时, 失败, 对方关闭连接
+     */
+    coroutine::Task<> recv(std::span<char> buf) {
+        while (!buf.empty()) {
+            auto res = co_await _io.recvLinkTimeout<Timeout>(buf);
+            if (res.index() == 1) [[unlikely]] {
+                throw std::runtime_error{"is Timeout"};
+            }
+            auto n = static_cast<std::size_t>(HXLIBS_CHECK_EVENT_LOOP(
+                (res.template get<0, exception::ExceptionMode::Nothrow>())
+            ));
+            if (n == 0) [[unlikely]] {
+                throw std::runtime_error{"is Close"};
+            }
+            buf = buf.subspan(n);
+        }
     }
 };
 
-- 
2.43.0


From dc10d5e718b9175bbd79eeec68855223f0c827da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 60/84] fix: HttpsIO: recv and recvLinkTimeout never returned
 once the connection was closed or failed

---
 include/HXLibs/net/socket/IO.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index bfe03c6..0ae3d7d 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -344,6 +344,9 @@ public:
             }
             // 继续尝试读取密文
             res = co_await Base::recv(buf);
+            if (res <= 0) [[unlikely]] {
+                co_return res; // 断开 或者 出错
+            }
         }
         [[unlikely]] co_return res;
     }
@@ -446,6 +449,9 @@ public:
             }
             // 继续尝试读取密文
             res = co_await Base::recvLinkTimeout<Timeout>(buf);
+            if (res.index() == 0 && get<0, exception::ExceptionMode::Nothrow>(res) <= 0) [[unlikely]] {
+                co_return res; // 断开 或者 出错
+            }
         }
         co_return res;
     }
-- 
2.43.0


From 5dd4ddb2224e49f0395bff8b19091d59b21026b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 61/84] fix: HttpsIO: what did not fit into the TLS engine at
 once was lost when sending

---
 include/HXLibs/net/protocol/https/Https.hpp |  3 +++
 include/HXLibs/net/socket/IO.hpp            | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index 5deb3d5..872c4c2 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -130,6 +130,9 @@ private:
 
 class SslBio {
 public:
+    // 一次可以写入的明文大小, 再大则 BIO 放不下其密文
+    inline constexpr static std::size_t kPlaintextMaxSize = utils::FileUtils::kBufMaxSize;
+
     SslBio(SslContext::SslType type)
         : _ssl{
             SSL_new(type == SslContext::SslType::Server 
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 0ae3d7d..d26fc77 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -395,8 +395,12 @@ public:
      * @return coroutine::Task<> 
      */
     coroutine::Task<> fullySend(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::fullySend(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto part = buf.subspan(0, std::min(buf.size(), SslBio::kPlaintextMaxSize));
+            _ssl.get().writePlaintext(part);
+            co_await Base::fullySend(_ssl.get().readCiphertext());
+            buf = buf.subspan(part.size());
+        }
     }
 
     /**
@@ -463,8 +467,12 @@ public:
     template <typename Timeout>
         requires(utils::HasTimeNTTP<Timeout>)
     coroutine::Task<> sendLinkTimeout(std::span<char const> buf) {
-        _ssl.get().writePlaintext(buf);
-        co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+        while (!buf.empty()) {
+            auto part = buf.subspan(0, std::min(buf.size(), SslBio::kPlaintextMaxSize));
+            _ssl.get().writePlaintext(part);
+            co_await Base::sendLinkTimeout<Timeout>(_ssl.get().readCiphertext());
+            buf = buf.subspan(part.size());
+        }
     }
 
     template <typename Timeout>
-- 
2.43.0


From 06314b14721eac23cd84f2f720047f450bc0ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 62/84] fix: HttpsIO: ciphertext that did not fit into the TLS
 engine at once was lost when receiving into a large buffer

---
 include/HXLibs/net/socket/IO.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index d26fc77..846081c 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -343,7 +343,7 @@ public:
                 co_return res;
             }
             // 继续尝试读取密文
-            res = co_await Base::recv(buf);
+            res = co_await Base::recv(buf, std::min(buf.size(), kBufMaxSize));
             if (res <= 0) [[unlikely]] {
                 co_return res; // 断开 或者 出错
             }
@@ -452,7 +452,8 @@ public:
                 co_return res;
             }
             // 继续尝试读取密文
-            res = co_await Base::recvLinkTimeout<Timeout>(buf);
+            res = co_await Base::recvLinkTimeout<Timeout>(
+                buf.subspan(0, std::min(buf.size(), kBufMaxSize))); // BIO 必须放得下
             if (res.index() == 0 && get<0, exception::ExceptionMode::Nothrow>(res) <= 0) [[unlikely]] {
                 co_return res; // 断开 或者 出错
             }
-- 
2.43.0


From 0073da2c5b5f65edd471e1574a5d396b3bb0c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 63/84] fix: SslBio: a TLS error of one connection was reported
 on the other connections of its thread

---
 include/HXLibs/net/protocol/https/Https.hpp | 3 +++
 include/HXLibs/net/socket/IO.hpp            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index 872c4c2..a09c972 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -203,6 +203,7 @@ public:
      * @return int 读取的明文的字节数
      */
     int readPlaintext(std::span<char> buf) {
+        ERR_clear_error(); // 可能有其他连接的错误
         int n = SSL_read(_ssl, buf.data(), static_cast<int>(buf.size()));
         if (n > 0) [[likely]] {
             return n;
@@ -225,6 +226,7 @@ public:
         if (!isInitFinished()) [[unlikely]] {
             throw std::runtime_error("Cannot write plaintext before handshake finished");
         }
+        ERR_clear_error(); // 可能有其他连接的错误
         int res = SSL_write(_ssl, buf.data(), static_cast<int>(buf.size()));
         if (res <= 0) [[unlikely]] {
             int err = SSL_get_error(_ssl, res);
@@ -253,6 +255,7 @@ public:
 
     // 驱动握手状态机, true 为握手成功
     bool driveHandshake() {
+        ERR_clear_error(); // 可能有其他连接的错误
         int res = SSL_do_handshake(_ssl);
         if (res == 1) [[likely]] {
             return true;
diff --git a/include/HXLibs/net/socket/IO.hpp b/include/HXLibs/net/socket/IO.hpp
index 846081c..91e6481 100644
--- a/include/HXLibs/net/socket/IO.hpp
+++ b/include/HXLibs/net/socket/IO.hpp
@@ -18,6 +18,8 @@
  * limitations under the License.
  */
 
+#include <algorithm>
+
 #include <HXLibs/coroutine/task/Task.hpp>
 #include <HXLibs/coroutine/loop/EventLoop.hpp>
 #include <HXLibs/container/ArrayBuf.hpp>
-- 
2.43.0


From ba253626dad7bfc22edd1bf1bbe9b2468cdf9450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 64/84] fix: Dml: an executed statement was never reset, so a
 cached template worked only once, kept its lock and left a RETURNING insert
 uncommitted

---
 include/HXLibs/db/sql/Dml.hpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 1913db3..34ab073 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -455,6 +455,27 @@ constexpr void addLimitVal(std::string& res) {
 
 } // namespace internal
 
+namespace internal {
+
+/**
+ * @brief 无论执行成功与否, 离开时都重置 stmt
+ * @note 否则无法再次绑定参数, 并且会一直持有数据库的锁
+ */
+template <typename Db>
+struct StmtResetGuard {
+    Db& _db;
+
+    ~StmtResetGuard() noexcept {
+        try {
+            _db.reset();
+        } catch (...) {
+            // 执行的错误已经报告
+        }
+    }
+};
+
+} // namespace internal
+
 template <typename Db>
 struct SelectSqlBuild {
     using ColumnResType = ColumnResult<typename meta::RemoveCvRefType<Db>::SelectType>;
@@ -468,6 +489,7 @@ struct SelectSqlBuild {
         if (!this->_dbRef.isInit()) [[unlikely]] {
             this->_dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> _{this->_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!this->_dbRef.bind(Idx + 1, std::forward<Ts>(std::get<Idx>(ts)))) [[unlikely]] {
@@ -922,6 +944,7 @@ struct InsertSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> _{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -934,7 +957,9 @@ struct InsertSqlBuild {
             throw std::runtime_error{"SQL execution failed"};
         }
         if constexpr (!std::is_same_v<ColumnResType, void>) {
-            return _dbRef.template returning<Cs...>();
+            auto res = _dbRef.template returning<Cs...>();
+            _dbRef.reset(); // 此时才提交
+            return res;
         }
     }
 
@@ -1039,6 +1064,7 @@ struct MutationSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> _{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
@@ -1109,6 +1135,7 @@ struct MutationReturningSqlBuild {
         if (!_dbRef.isInit()) [[unlikely]] {
             _dbRef.prepareSql();
         }
+        internal::StmtResetGuard<Db> _{_dbRef};
         [&] <std::size_t... Idx> (std::index_sequence<Idx...>) constexpr {
             ([&]() constexpr {
                 if (!_dbRef.bind(Idx + 1, std::get<Idx>(ts))) [[unlikely]] {
-- 
2.43.0


From 1b90fead381bde7888bb9de4fd2875617005eb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 65/84] fix: SqliteStmt: a failed query threw a std::string

---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index 045035c..d81239b 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -116,7 +116,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
@@ -128,7 +128,7 @@ public:
             rc = step();
         }
         if (rc != SQLITE_DONE) [[unlikely]] {
-            throw getErrMsg();
+            throw std::runtime_error{getErrMsg()};
         }
     }
 
-- 
2.43.0


From 9fcbe2a19746dd25c2e1be720bc4e1b45d8ce3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 66/84] fix: SqliteDB: reopening kept the statements of the old
 database, closing twice used a freed handle and unterminated names were read
 past their end

---
 include/HXLibs/db/sqlite3/SqliteDB.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteDB.hpp b/include/HXLibs/db/sqlite3/SqliteDB.hpp
index 1401a16..b207ed8 100644
--- a/include/HXLibs/db/sqlite3/SqliteDB.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteDB.hpp
@@ -48,14 +48,16 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
 
     void open(std::string_view filePath) {
         close();
-        if (::sqlite3_open(filePath.data(), &_db) != SQLITE_OK) [[unlikely]] {
-            throw std::runtime_error{
-                "Failed to open database: " + std::string{::sqlite3_errmsg(_db)}
-            };
+        if (::sqlite3_open(std::string{filePath}.c_str(), &_db) != SQLITE_OK) [[unlikely]] {
+            std::string err = "Failed to open database: " + std::string{::sqlite3_errmsg(_db)};
+            close();
+            throw std::runtime_error{err};
         }
     }
 
     void close() noexcept {
+        // 缓存的 stmt 属于当前连接: 不清空则无法关闭, 并且之后会继续操作旧的数据库
+        Base::clearCache();
         if (!_db) {
             return;
         }
@@ -66,17 +68,16 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         }
 #endif
         sqlite3_close(_db);
+        _db = nullptr;
     }
 
     ~SqliteDB() noexcept {
-        // 需要清空缓存, 否则无法释放 sqlite3_close
-        Base::clearCache();
         close();
     }
 
     void exec(std::string_view sql) {
         char* errMsg = nullptr;
-        if (::sqlite3_exec(_db, sql.data(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
+        if (::sqlite3_exec(_db, std::string{sql}.c_str(), nullptr, nullptr, &errMsg) != SQLITE_OK) [[unlikely]] {
             std::string err = errMsg ? errMsg : "unknown error";
             ::sqlite3_free(errMsg);
             throw std::runtime_error{err};
-- 
2.43.0


From 435c7c6182317bac563248716a0c42cc4f302707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 67/84] fix: SqliteStmt: the text of a custom type was bound
 without a copy and read after it was gone

---
 include/HXLibs/db/sqlite3/SqliteStmt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sqlite3/SqliteStmt.hpp b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
index d81239b..b180407 100644
--- a/include/HXLibs/db/sqlite3/SqliteStmt.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteStmt.hpp
@@ -171,7 +171,7 @@ public:
                 return SQLITE_OK == ::sqlite3_bind_blob(_stmt, i, data.data(), static_cast<int>(data.size()), nullptr);
             } else if constexpr (IsCustomTypeVal<SqlType>) {
                 auto const& sqlData = CustomType<Type>::toSql(data);
-                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), nullptr);
+                return SQLITE_OK == ::sqlite3_bind_text(_stmt, i, sqlData.data(), static_cast<int>(sqlData.size()), SQLITE_TRANSIENT);
             } else {
                 // 不支持该类型
                 static_assert(!sizeof(SqlType), "type is not sql type");
-- 
2.43.0


From b5c6e3cdb4c16c12a3fbe2a979cda8e2bd1ff6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 68/84] fix: Dml: a SELECT whose preparation failed once was
 appended to itself and failed for ever

---
 include/HXLibs/db/sql/Dml.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 34ab073..74a248d 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -910,7 +910,7 @@ struct SelectBuild : public SelectSqlBuild<Db> {
         requires (sizeof...(Cs) > 0)
     constexpr FromBuild<Db> select() && {
         if (!this->_dbRef.isInit()) [[unlikely]] {
-            this->_dbRef.sql() += "SELECT ";
+            this->_dbRef.sql() = "SELECT ";
             ([this] <auto C> (meta::ValueWrap<C>) {
                 using U = decltype(C);
                 if constexpr (IsColTypeVal<U>) {
-- 
2.43.0


From c53d548a0c235404d53ff184cb119e3a2d0dbedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 69/84] fix: Dml: every use of a cached statement with a LIMIT
 appended to its SQL text

---
 include/HXLibs/db/sql/Dml.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/db/sql/Dml.hpp b/include/HXLibs/db/sql/Dml.hpp
index 74a248d..09401f1 100644
--- a/include/HXLibs/db/sql/Dml.hpp
+++ b/include/HXLibs/db/sql/Dml.hpp
@@ -560,10 +560,12 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> + IsParamVal<decltype(MaxCnt)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
-        this->_dbRef.sql() += ',';
-        internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+            this->_dbRef.sql() += ',';
+            internal::addLimitVal<MaxCnt>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(_tp)..., std::forward<Us>(us)...};
@@ -576,8 +578,10 @@ struct LimitBuild : public SelectSqlBuild<Db> {
         // 绑定参数个数不正确
         static_assert(IsParamVal<decltype(Offset)> == sizeof...(us),
             "The number of binding parameters is incorrect");
-        this->_dbRef.sql() += "LIMIT ";
-        internal::addLimitVal<Offset>(this->_dbRef.sql());
+        if (!this->_dbRef.isInit()) [[unlikely]] {
+            this->_dbRef.sql() += "LIMIT ";
+            internal::addLimitVal<Offset>(this->_dbRef.sql());
+        }
         return [&] <std::size_t... I> (std::index_sequence<I...>) constexpr {
             return SelectEndBuild<Db, Ts&&..., Us&&...>{this->_dbRef,
                 std::get<I>(_tp)..., std::forward<Us>(us)...};
-- 
2.43.0


From 803e4250a6e14b371ec6d6efe46579fa3bea6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 70/84] fix: SqliteDB: creating the tables of an existing
 database failed when they have indexes, and indexes named another table than
 the one created

---
 include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp | 10 +++++-----
 include/HXLibs/db/sqlite3/SqliteDB.hpp        |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
index 6d07fb5..aa7fef7 100644
--- a/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
+++ b/include/HXLibs/db/sqlite3/MakeCreateDbSql.hpp
@@ -253,15 +253,15 @@ struct CreateDbSql {
         }
     }
 
-    template <typename T>
+    template <typename T, bool IsNotExists = false>
     static std::vector<std::string> createIndex(T&& t) {
         using Table = meta::RemoveCvRefType<T>;
         auto sqls = std::vector<std::string>{};
 #if defined(_MSC_VER)
         // https://github.com/HengXin666/HXLibs/issues/17 (MSVC ICE)
-        const auto tableName = reflection::getTypeName<Table>();
+        const auto tableName = getTableName<Table>();
 #else
-        constexpr auto tableName = reflection::getTypeName<Table>();
+        constexpr auto tableName = getTableName<Table>();
 #endif // !defined(_MSC_VER)
         reflection::forEach(t, [&] (auto, auto name, auto&& val) {
             using Type = meta::RemoveCvRefType<decltype(val)>;
@@ -269,7 +269,7 @@ struct CreateDbSql {
                 [&] <typename U, typename... ConstraintTypes> (Constraint<U, ConstraintTypes...>&) {
                     ([&] <typename Constraint> (Constraint) {
                         if constexpr (attr::IsIndexVal<Constraint>) {
-                            std::string sql = "CREATE INDEX idx_";
+                            std::string sql = IsNotExists ? "CREATE INDEX IF NOT EXISTS idx_" : "CREATE INDEX idx_";
                             sql += tableName;
                             sql += '_';
                             sql += name;
@@ -302,7 +302,7 @@ struct CreateDbSql {
                         static_assert(!std::is_void_v<meta::GetMemberPtrsClassType<
                             attr::internal::GetIndexOrderKeyType<Keys>...>>,
                             "It is required that all indexes are from the same class");
-                        std::string sql = "CREATE INDEX idx_";
+                        std::string sql = IsNotExists ? "CREATE INDEX IF NOT EXISTS idx_" : "CREATE INDEX idx_";
                         std::string idxSql = "(";
                         sql += tableName;
                         ([&] <auto KeyPtr, attr::Order SortOrder> (attr::IndexOrder<KeyPtr, SortOrder>) {
diff --git a/include/HXLibs/db/sqlite3/SqliteDB.hpp b/include/HXLibs/db/sqlite3/SqliteDB.hpp
index b207ed8..466f10c 100644
--- a/include/HXLibs/db/sqlite3/SqliteDB.hpp
+++ b/include/HXLibs/db/sqlite3/SqliteDB.hpp
@@ -90,7 +90,7 @@ struct SqliteDB : public DataBaseCrtp<SqliteDB>, private DataBaseInterface<Sqlit
         try {
             auto sql = sqlite::CreateDbSql::createDatabase<Table, IsNotExists>({});
             exec(sql);
-            auto index = sqlite::CreateDbSql::createIndex<Table>({});
+            auto index = sqlite::CreateDbSql::createIndex<Table, IsNotExists>({});
             for (auto const& idxSql : index) {
                 exec(idxSql);
             }
-- 
2.43.0


From 47b122466787f3a18c2c1ed968ad08906bf1ab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 71/84] fix: Aes256Gcm: a random generator that reports -1 was
 taken for a success and every token got the same nonce

---
 include/HXLibs/net/token/tools/Aes256Gcm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HXLibs/net/token/tools/Aes256Gcm.hpp b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
index 003781a..8cc0b7e 100644
--- a/include/HXLibs/net/token/tools/Aes256Gcm.hpp
+++ b/include/HXLibs/net/token/tools/Aes256Gcm.hpp
@@ -78,7 +78,7 @@ public:
     // 生成随机IV
     static std::vector<unsigned char> generateRandomIV(std::size_t length = 12) {
         std::vector<unsigned char> iv(length);
-        if (!::RAND_bytes(iv.data(), static_cast<int>(iv.size()))) {
+        if (::RAND_bytes(iv.data(), static_cast<int>(iv.size())) != 1) {
             throw std::runtime_error("IV generation failed");
         }
         return iv;
-- 
2.43.0


From 49c931b1f55396619b9104c0849a66022756949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 72/84] fix: TokenApi: the claims of a token were appended to
 what the object contained before

---
 include/HXLibs/net/token/Token.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/token/Token.hpp b/include/HXLibs/net/token/Token.hpp
index 86bc422..1ea0f4f 100644
--- a/include/HXLibs/net/token/Token.hpp
+++ b/include/HXLibs/net/token/Token.hpp
@@ -62,9 +62,11 @@ struct TokenApi {
      */
     template <typename T>
     void fromToken(T& t, std::string_view urlBase64) {
-        reflection::fromJson(t, _aes256Gcm.decrypt(
+        T res{}; // 读取 json 是追加到已有内容的, 不能混入 t 原有的内容
+        reflection::fromJson(res, _aes256Gcm.decrypt(
             base64UrlDecode(urlBase64)
         ));
+        t = std::move(res);
     }
 
     template <typename KeyFromType = internal::KeyFromType>
-- 
2.43.0


From c1c1df7e71b9afdd071e8269fd43c4de0a9447a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 73/84] fix: JsonRead: a text that ends inside a string, array
 or object was accepted as complete

---
 include/HXLibs/reflection/json/JsonRead.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 36cfaeb..2a4da5c 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -298,7 +298,7 @@ struct FromJson {
         while (it != end) {
             if (*it == '"') [[unlikely]] {
                 ++it;
-                break;
+                return;
             }
             if (*it != '\\') {
                 t += *it++; // 下一个字符
@@ -306,6 +306,7 @@ struct FromJson {
                 handleEscapeChar(t, it, end); // 内部会处理好 it
             }
         }
+        [[unlikely]] throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
     }
 
     template <meta::SingleElementContainer T, typename It>
@@ -330,10 +331,11 @@ struct FromJson {
                 skipWhiteSpace(it, end);
                 if (*it == ']') {
                     ++it;
-                    break;
+                    return;
                 }
                 verify<','>(it, end);
             }
+            [[unlikely]] throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
         } else {
             // 对象没有默认无参构造, 显然不是聚合类
             static_assert(!sizeof(T), "Objects do not have a default parameterless construct");
@@ -364,10 +366,11 @@ struct FromJson {
             skipWhiteSpace(it, end);
             if (*it == ']') {
                 ++it;
-                break;
+                return;
             }
             verify<','>(it, end);
         }
+        [[unlikely]] throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
     }
 
     template <typename T, typename It>
@@ -422,10 +425,11 @@ struct FromJson {
             skipWhiteSpace(it, end);
             if (*it == '}') {
                 ++it;
-                break;
+                return;
             }
             verify<','>(it, end);
         }
+        [[unlikely]] throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
     }
     
     // 主模板 聚合类
@@ -483,10 +487,11 @@ struct FromJson {
                 skipWhiteSpace(it, end);
                 if (*it == '}') {
                     ++it;
-                    break;
+                    return;
                 }
                 verify<','>(it, end);
             }
+            [[unlikely]] throw std::runtime_error{"The buffer zone ended prematurely, not as expected"};
         }
     }
 };
-- 
2.43.0


From b56c88085821d2d35354debc723cea429f4f6f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 74/84] fix: JsonRead: an escaped surrogate pair, as JsonWrite
 itself produces, was read as two invalid characters

---
 include/HXLibs/reflection/json/JsonRead.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/HXLibs/reflection/json/JsonRead.hpp b/include/HXLibs/reflection/json/JsonRead.hpp
index 2a4da5c..033c8e6 100644
--- a/include/HXLibs/reflection/json/JsonRead.hpp
+++ b/include/HXLibs/reflection/json/JsonRead.hpp
@@ -150,6 +150,19 @@ void handleEscapeChar(Str& str, It&& it, It&& end) {
                 throw std::runtime_error(R"(Expected 4 hexadecimal digits)");
             }
             auto code_point = cv::parseUnicodeHex4(it);
+            if (code_point >= 0xD800 && code_point <= 0xDFFF) { // UTF-16 代理对, 两个转义表示一个字符
+                if (code_point > 0xDBFF || std::distance(it, end) <= 6
+                    || *it != '\\' || *(it + 1) != 'u'
+                ) [[unlikely]] {
+                    throw std::runtime_error("Invalid Unicode Surrogate Pair");
+                }
+                it += 2;
+                auto low = cv::parseUnicodeHex4(it);
+                if (low < 0xDC00 || low > 0xDFFF) [[unlikely]] {
+                    throw std::runtime_error("Invalid Unicode Surrogate Pair");
+                }
+                code_point = 0x10000 + ((code_point - 0xD800) << 10) + (low - 0xDC00);
+            }
             cv::encodeUtf8(str, code_point); // 内部会移动 it
             return;
         }
-- 
2.43.0


From 3f1214121a3ad78df0c19c1a636ed6a6573d9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 75/84] fix: Https: a server that verifies clients failed every
 resumed session (no session id context)

---
 include/HXLibs/net/protocol/https/Https.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HXLibs/net/protocol/https/Https.hpp b/include/HXLibs/net/protocol/https/Https.hpp
index a09c972..a8ab5d0 100644
--- a/include/HXLibs/net/protocol/https/Https.hpp
+++ b/include/HXLibs/net/protocol/https/Https.hpp
@@ -92,6 +92,8 @@ private:
         if (isServer) {
             // 服务器端需要设置验证模式, 要求客户端提供证书
             SSL_CTX_set_verify(sslCtx, static_cast<int>(config.verifyOption), nullptr);
+            // 要求验证时, 没有会话上下文则恢复的会话会被当作错误而断开
+            SSL_CTX_set_session_id_context(sslCtx, reinterpret_cast<unsigned char const*>("HXLibs"), 6);
         } else {
             // 客户端可以设置验证服务器证书
             SSL_CTX_set_verify(sslCtx, static_cast<int>(config.verifyOption), nullptr);
-- 
2.43.0


From 7685a8dba528e5818abca54dc36c546903f103b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:44 +0000
Subject: [PATCH 76/84] fix: getPathParam: an index out of range, or a route
 without parameters after one with, read freed memory

---
 include/HXLibs/net/protocol/http/Request.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/HXLibs/net/protocol/http/Request.hpp b/include/HXLibs/net/protocol/http/Request.hpp
index 0e1e3c6..e18d4fe 100644
--- a/include/HXLibs/net/protocol/http/Request.hpp
+++ b/include/HXLibs/net/protocol/http/Request.hpp
@@ -529,6 +529,9 @@ public:
         if (_wildcarDataArr.empty()) [[unlikely]] {
             throw std::runtime_error("No path parameters available to parse.");
         }
+        if (index >= _wildcarDataArr.size()) [[unlikely]] {
+            throw std::out_of_range("The index of the path parameter is out of range.");
+        }
         return _wildcarDataArr[index];
     }
 
@@ -582,6 +585,8 @@ public:
         _body.clear();
         _completeRequestHeader = false;
         _remainingBodyLen.reset();
+        _wildcarDataArr = {}; // 指向上一个请求的端点的数据
+        _urlWildcardData = {};
     }
 
 private:
-- 
2.43.0


From 73c59e5cd72cf9ef9119ea3c510b45f1a6a39ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 77/84] fix: Router: the wildcard part of a path with repeated
 slashes was cut at the wrong place

---
 include/HXLibs/net/router/Router.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/router/Router.hpp b/include/HXLibs/net/router/Router.hpp
index 3dcb9dd..4a4288c 100644
--- a/include/HXLibs/net/router/Router.hpp
+++ b/include/HXLibs/net/router/Router.hpp
@@ -239,7 +239,7 @@ private:
                 break;
             }
             case 0x2: {// 仅解析通配符
-                auto UWPIndex = path.find("/**"sv);
+                auto UWPIndex = utils::StringUtil::split<std::string_view>(path.substr(0, path.find("/**"sv)), "/").size();
                 realEndpoint = [this, endpoint = std::move(endpoint), UWPIndex,
                                 ... interceptors = interceptors](
                                    Request &req,
@@ -249,7 +249,11 @@ private:
                     bool ok = true;
                     auto pureRequesPath = req.getPureReqPath();
                     std::string_view pureRequesPathView = pureRequesPath;
-                    req._urlWildcardData = pureRequesPathView.substr(UWPIndex);
+                    // 匹配时会忽略多余的 '/', 因此不能使用模版路径的下标
+                    auto pathSplitArr = utils::StringUtil::splitWithPos<std::string_view>(pureRequesPathView, "/");
+                    req._urlWildcardData = pureRequesPathView.substr(UWPIndex
+                        ? pathSplitArr[UWPIndex - 1].first + pathSplitArr[UWPIndex - 1].second.size()
+                        : 0);
 #if defined(_MSC_VER)
                     co_await doBeforeAll(ok, req, res, interceptors...);
 #else
-- 
2.43.0


From b60bb3342fd23e115041cecc8a0a5657f57478f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 78/84] fix: HttpClient: the Host header lacked the port, and
 was taken from the path when that held a dotted name

---
 include/HXLibs/net/client/HttpClient.hpp     |  2 +-
 include/HXLibs/net/protocol/url/UrlParse.hpp | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index 0949d9b..e1b4fff 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -792,7 +792,7 @@ private:
      */
     void preprocessHeaders(std::string const& url, HttpContentType contentType, Request& req) {
         try {
-            auto host = UrlParse::extractDomainName(url);
+            std::string host{UrlParse::extractAuthority(url)};
             req.tryAddHeaders("Host", host);
             _host = std::move(host);
         } catch ([[maybe_unused]] std::exception const& e) {
diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 2ac5e72..3fb773b 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -94,6 +94,25 @@ struct UrlParse {
         return originStr;
     }
 
+    /**
+     * @brief 从 URL 提取 主机名称和端口 (不含用户信息), 如`http://hx@www.loli.com:81/a.b -> www.loli.com:81`
+     * @param url 
+     * @return std::string_view 
+     * @throw 如果不包含主机名称 (例如只有 Path) 则会抛出异常
+     */
+    static std::string_view extractAuthority(std::string_view url) {
+        std::size_t protocolFind = url.find("://");
+        if (protocolFind < url.find_first_of("/?#")) {
+            url.remove_prefix(protocolFind + 3);
+        }
+        url = url.substr(0, url.find_first_of("/?#"));
+        url.remove_prefix(url.rfind('@') + 1); // 没有`@`则是 npos + 1 == 0
+        if (url.empty()) {
+            throw std::invalid_argument("The URL does not contain a host");
+        }
+        return url;
+    }
+
     /**
      * @brief 从 URL 从提取出 域名
      * @param url 
-- 
2.43.0


From 710c5c249a6f91e7d725d47de11fc83322e340c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:13 +0000
Subject: [PATCH 79/84] fix: WebSocketClient: the handshake request had no Host
 header

---
 include/HXLibs/net/protocol/websocket/WebSocket.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/HXLibs/net/protocol/websocket/WebSocket.hpp b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
index 2336f5d..d0097ed 100644
--- a/include/HXLibs/net/protocol/websocket/WebSocket.hpp
+++ b/include/HXLibs/net/protocol/websocket/WebSocket.hpp
@@ -910,6 +910,7 @@ public:
            .addHeaders("Sec-WebSocket-Key", key)
            .addHeaders("Sec-WebSocket-Version", "13")
            .addHeaders(headers);
+        req.tryAddHeaders("Host", UrlParse::extractAuthority(url));
         co_await req.template sendHttpReq<Timeout>();
         // 解析响应
         Response res{io};
-- 
2.43.0


From f70305ebf5b9688abf3a5d1be401e275924e40bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 80/84] fix: HttpClient: a path-only request after connect()
 carried no Host header or that of an earlier host

---
 include/HXLibs/net/client/HttpClient.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/HXLibs/net/client/HttpClient.hpp b/include/HXLibs/net/client/HttpClient.hpp
index e1b4fff..f8d789d 100644
--- a/include/HXLibs/net/client/HttpClient.hpp
+++ b/include/HXLibs/net/client/HttpClient.hpp
@@ -792,7 +792,8 @@ private:
      */
     void preprocessHeaders(std::string const& url, HttpContentType contentType, Request& req) {
         try {
-            std::string host{UrlParse::extractAuthority(url)};
+            std::string host{UrlParse::extractAuthority(
+                UrlParse::extractOrigin(url).empty() ? _origin : url)}; // 只有 path, 那么是当前连接的主机
             req.tryAddHeaders("Host", host);
             _host = std::move(host);
         } catch ([[maybe_unused]] std::exception const& e) {
-- 
2.43.0


From 8ccd888f802fa7c4d40170ec4525046edd0ca634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 81/84] fix: HttpClient: a URL without a protocol was sent to
 whatever host the client was connected to

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 3fb773b..14a5539 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -53,12 +53,12 @@ struct UrlParse {
     /**
      * @brief 从 URL 提取 Origin (也就是 Path 之前的部分)
      * @param url 
-     * @return std::string_view 如果不包含协议 (例如只有 Path) 则为空
+     * @return std::string_view 如果只有 Path 则为空
      */
     static std::string_view extractOrigin(std::string_view url) noexcept {
         std::size_t protocolFind = url.find("://");
         if (protocolFind == std::string_view::npos || protocolFind > url.find_first_of("/?#")) {
-            return {};
+            return url.substr(0, url.find_first_of("/?#")); // 没有协议, 例如 `www.loli.com/path`
         }
         return url.substr(0, url.find_first_of("/?#", protocolFind + 3));
     }
-- 
2.43.0


From 11af862abdb2ca310fe3b0bbf2c67e9498e05685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 82/84] fix: UrlInfoExtractor: a URL without a protocol failed
 when its path held one

---
 include/HXLibs/net/protocol/url/UrlParse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/HXLibs/net/protocol/url/UrlParse.hpp b/include/HXLibs/net/protocol/url/UrlParse.hpp
index 14a5539..6f49f30 100644
--- a/include/HXLibs/net/protocol/url/UrlParse.hpp
+++ b/include/HXLibs/net/protocol/url/UrlParse.hpp
@@ -243,6 +243,9 @@ private:
 
     void parseUrl(std::string_view url) {
         std::size_t protocolFind = url.find("://");
+        if (protocolFind > url.find_first_of("/?#")) {
+            protocolFind = std::string_view::npos; // 在 Path 之内, 不是协议
+        }
         // 只能在 `协议://` 之后, Path 之前查找
         auto authority = url.substr(protocolFind == std::string_view::npos ? 0 : protocolFind + 3);
         authority = authority.substr(0, authority.find_first_of("/?#"));
-- 
2.43.0


From 7e8b5c00aea119a7c8ecf77927f7c6800edcf498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 83/84] fix: a coroutine awaiting a pool task was never resumed
 when the pool dropped it

The relay that resumes the coroutine is itself a pool task; when the pool is
destroyed before running it, the event loop forgot the coroutine. It is now
resumed with the task-was-dropped error.
---
 include/HXLibs/container/FutureResult.hpp    |  5 ++++-
 include/HXLibs/coroutine/loop/EventLoop.hpp  |  4 ++--
 include/HXLibs/coroutine/loop/ThreadLoop.hpp | 11 +++++++----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/HXLibs/container/FutureResult.hpp b/include/HXLibs/container/FutureResult.hpp
index 6892c14..408e91e 100644
--- a/include/HXLibs/container/FutureResult.hpp
+++ b/include/HXLibs/container/FutureResult.hpp
@@ -133,7 +133,7 @@ private:
             : _state{std::make_shared<_hx_State>()}
         {
             auto* loop = self._coEventLoop.get();
-            std::move(self).thenTry([state = _state, raii = loop->makeTheradTask()](auto t) mutable {
+            std::move(self).thenTry([state = _state, raii = loop->makeTheradTask(_state)](auto t) mutable {
                 state->_res.set(std::move(t));
                 raii.notify(std::move(state)); // 由 loop 所在的线程恢复协程
             });
@@ -150,6 +150,9 @@ private:
             _state->_coroutine = coroutine;
         }
         constexpr auto await_resume() const {
+            if (!_state->_res.isAvailable()) [[unlikely]] {
+                throw std::runtime_error{"The task was dropped before it was executed"};
+            }
             auto t = _state->_res.move();
             if (!t) [[unlikely]] {
                 t.rethrow();
diff --git a/include/HXLibs/coroutine/loop/EventLoop.hpp b/include/HXLibs/coroutine/loop/EventLoop.hpp
index a491ffa..7a2f990 100644
--- a/include/HXLibs/coroutine/loop/EventLoop.hpp
+++ b/include/HXLibs/coroutine/loop/EventLoop.hpp
@@ -513,8 +513,8 @@ struct EventLoop {
      * @brief 创建异步线程任务 (仅控制权)
      * @return decltype(auto) 
      */
-    decltype(auto) makeTheradTask() {
-        return _theradLoop.makeThreadTask();
+    decltype(auto) makeTheradTask(std::shared_ptr<ThreadLoop::Waiter> waiter = nullptr) {
+        return _theradLoop.makeThreadTask(std::move(waiter));
     }
 
     /**
diff --git a/include/HXLibs/coroutine/loop/ThreadLoop.hpp b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
index 8966704..586fb26 100644
--- a/include/HXLibs/coroutine/loop/ThreadLoop.hpp
+++ b/include/HXLibs/coroutine/loop/ThreadLoop.hpp
@@ -43,8 +43,9 @@ struct ThreadLoop {
 
 private:
     struct _hx_ThreadLoopController {
-        _hx_ThreadLoopController(ThreadLoop& self) noexcept
+        _hx_ThreadLoopController(ThreadLoop& self, std::shared_ptr<Waiter> waiter = nullptr) noexcept
             : _self{&self}
+            , _waiter{std::move(waiter)}
         {
             std::unique_lock _{_self->_mtx};
             ++_self->_threadTaskCnt;
@@ -53,6 +54,7 @@ private:
         _hx_ThreadLoopController(_hx_ThreadLoopController const&) = delete;
         _hx_ThreadLoopController(_hx_ThreadLoopController&& that) noexcept
             : _self{std::exchange(that._self, nullptr)}
+            , _waiter{std::move(that._waiter)}
         {}
 
         _hx_ThreadLoopController& operator=(_hx_ThreadLoopController const&) = delete;
@@ -67,11 +69,12 @@ private:
 
         ~_hx_ThreadLoopController() noexcept {
             if (_self) [[unlikely]] { // 任务没有被执行就被丢弃了
-                _self->finish(nullptr);
+                _self->finish(std::move(_waiter)); // 如果有协程在等待, 也应该恢复它
             }
         }
     private:
         ThreadLoop* _self;
+        std::shared_ptr<Waiter> _waiter;
     };
 public:
     ThreadLoop()
@@ -120,8 +123,8 @@ public:
         }
     }
 
-    auto makeThreadTask() noexcept {
-        return _hx_ThreadLoopController{*this};
+    auto makeThreadTask(std::shared_ptr<Waiter> waiter = nullptr) noexcept {
+        return _hx_ThreadLoopController{*this, std::move(waiter)};
     }
 
 private:
-- 
2.43.0


From 4ad77ed643af842dd033c2bc1c9dcd6f52861e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 84/84] fix: a response to a HEAD request carried a body

---
 include/HXLibs/net/protocol/http/Response.hpp | 20 ++++++++++++++++---
 .../HXLibs/net/server/ConnectionHandler.hpp   |  1 +
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/HXLibs/net/protocol/http/Response.hpp b/include/HXLibs/net/protocol/http/Response.hpp
index 399040e..0cda2e5 100644
--- a/include/HXLibs/net/protocol/http/Response.hpp
+++ b/include/HXLibs/net/protocol/http/Response.hpp
@@ -435,7 +435,10 @@ public:
             co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);
             std::vector<char> buf(utils::FileUtils::kBufMaxSize);
             // 读取文件
-            std::size_t size = static_cast<std::size_t>(co_await file.read(buf));
+            std::size_t size = 0;
+            if (!_isNoBody) [[likely]] {
+                size = static_cast<std::size_t>(co_await file.read(buf));
+            }
             /*
                 len\r\n
                 内容片段
@@ -444,7 +447,7 @@ public:
                 _buildToChunkedEncoding<true>(size);        // 朴素的版本: len\r\n
                 co_await _io.template sendLinkTimeout<Timeout>(_sendBuf);           // 发送
                 co_await _io.template sendLinkTimeout<Timeout>({buf.data(), size}); // 发送文件
-            } else {
+            } else if (!_isNoBody) {
                 // 空文件: 没有上一个分块, 只有结束分块
                 co_await _io.template sendLinkTimeout<Timeout>("0\r\n\r\n"sv);
             }
@@ -756,6 +759,13 @@ public:
         return _isBodyUntilClose;
     }
 
+    /**
+     * @brief [仅服务端] 设置响应是否不应该有响应体 (HEAD 请求的响应只有响应行和响应头)
+     */
+    void setNoBody(bool isNoBody) noexcept {
+        _isNoBody = isNoBody;
+    }
+
     // ===== ↑服务端使用の更加人性化API↑ =====
 
     // ===== ↓服务端使用↓ =====
@@ -836,6 +846,7 @@ public:
         _completeResponseHeader = false;
         _completeBody = false;
         _isBodyUntilClose = false;
+        _isNoBody = false;
     }
 
     /**
@@ -874,6 +885,7 @@ private:
     bool _completeResponseHeader = false;           // 是否解析完成响应头
     bool _completeBody = false;                     // 是否解析完成响应体
     bool _isBodyUntilClose = false;                 // 响应体是否以连接关闭为结尾
+    bool _isNoBody = false;                         // 响应是否不应该有响应体 (HEAD 请求)
 
     template <typename>
     friend class WebSocketFactory;
@@ -1010,7 +1022,9 @@ private:
         utils::StringUtil::append(_sendBuf, CRLF);
 
         utils::StringUtil::append(_sendBuf, CRLF);
-        utils::StringUtil::append(_sendBuf, std::move(_body));
+        if (!_isNoBody) [[likely]] {
+            utils::StringUtil::append(_sendBuf, std::move(_body));
+        }
     }
 
     /**
diff --git a/include/HXLibs/net/server/ConnectionHandler.hpp b/include/HXLibs/net/server/ConnectionHandler.hpp
index c5fcfd4..ff5188c 100644
--- a/include/HXLibs/net/server/ConnectionHandler.hpp
+++ b/include/HXLibs/net/server/ConnectionHandler.hpp
@@ -57,6 +57,7 @@ struct ConnectionHandler {
                     if (!co_await req.template parserReqHead<Timeout>()) [[unlikely]] {
                         break;
                     }
+                    res.setNoBody(req.getReqType() == "HEAD"sv);
                     // 路由
                     co_await router.getEndpoint(
                         req.getReqType(), 
-- 
2.43.0

