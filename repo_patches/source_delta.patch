From b5d8fef3c9d53357e230d28e69c3be8caf007b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 01/87] fix: a successful non-blocking pop must wake a blocked
 producer, not a consumer

---
 include/common/GBoundedBufferT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GBoundedBufferT.hpp b/include/common/GBoundedBufferT.hpp
index 1bb695d..4e38443 100644
--- a/include/common/GBoundedBufferT.hpp
+++ b/include/common/GBoundedBufferT.hpp
@@ -527,7 +527,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
@@ -554,7 +554,7 @@ public:
 			 }
 		 } // Release the lock
 
-		 if(success) m_not_empty.notify_one();
+		 if(success) m_not_full.notify_one();
 
 		 return success;
 	 }
-- 
2.43.0


From b768d483098979c01da8e9407a6632c9dc5f8f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 02/87] fix: GBarrier::wait must block until the generation has
 changed

---
 include/common/GBarrier.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/GBarrier.hpp b/include/common/GBarrier.hpp
index 83520eb..a763591 100644
--- a/include/common/GBarrier.hpp
+++ b/include/common/GBarrier.hpp
@@ -111,7 +111,7 @@ public:
 		 m_cond.wait(
 		 	lock
 		 	, [&]() {
-		 		return gen == m_generation;
+		 		return gen != m_generation;
 		 	}
 	 	 );
 		 return false;
-- 
2.43.0


From b344762f1f084a29dbd042a1b529741950415ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:04 +0000
Subject: [PATCH 03/87] fix: GThreadPool must fulfil the promise of tasks
 without a return value

---
 include/common/GThreadPool.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/common/GThreadPool.hpp b/include/common/GThreadPool.hpp
index 208e647..916c9f5 100644
--- a/include/common/GThreadPool.hpp
+++ b/include/common/GThreadPool.hpp
@@ -176,6 +176,7 @@ public:
 			, [this, promise_ptr, f = std::bind<result_type>(std::forward<F>(f), std::forward<Args>(args)...)]() {
 				 try {
 					 f();
+					 promise_ptr->set_value();
 				 } catch(boost::exception& e) {
 					 // Convert to a std::runtime_exception
 					 std::runtime_error r(boost::diagnostic_information(e));
-- 
2.43.0


From f95473e1ce690e96952d26a773ca1958bb69abc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 04/87] fix: GThreadPool::setNThreads(0) must not leave a pool
 whose tasks never run

---
 src/common/GThreadPool.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/common/GThreadPool.cpp b/src/common/GThreadPool.cpp
index 60fc1fb..a9ae17b 100644
--- a/src/common/GThreadPool.cpp
+++ b/src/common/GThreadPool.cpp
@@ -92,6 +92,15 @@ GThreadPool::~GThreadPool() {
  * @param nThreads The desired number of threads
  */
 void GThreadPool::setNThreads(unsigned int nThreads) {
+	// A pool without threads would never process its tasks. Act like the constructor in this case.
+	if(0 == nThreads) {
+		nThreads = DEFAULTNHARDWARETHREADS;
+		glogger
+			<< "In GThreadPool::setNThreads(unsigned int nThreads):" << std::endl
+			<< "User requested nThreads == 0. nThreads was reset to the default " << DEFAULTNHARDWARETHREADS << std::endl
+			<< GWARNING;
+	}
+
 	// Make sure no new jobs may be submitted
 	std::unique_lock<std::mutex> job_lck(m_task_submission_mutex, std::defer_lock);
 	// Make sure no threads may be created by other entities
-- 
2.43.0


From e583cb8730621a7a4836e7cbd0eb916ae0bdcfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 05/87] fix: making a priority queue unlimited must not discard
 its contents

---
 include/common/GFixedSizePriorityQueueT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 3063763..99db38f 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -453,7 +453,8 @@ public:
 	  */
 	 void setMaxSize(std::size_t maxSize) {
 		 // Make sure the current size of m_data complies with maxSize
-		 if (m_data_deq.size() > maxSize) {
+		 // (a value of 0 stands for an unlimited queue)
+		 if (maxSize && m_data_deq.size() > maxSize) {
 			 m_data_deq.resize(maxSize);
 		 }
 
-- 
2.43.0


From 01ecb06f49e974e69c1efbde590b41960bc115c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 06/87] fix: adding a batch to a partly filled priority queue
 must keep the best items

---
 include/common/GFixedSizePriorityQueueT.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 99db38f..50165ee 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -327,11 +327,13 @@ public:
 		 , bool replace
 	 ) BASE {
 		 double worstKnownEvaluation = Gem::Common::getWorstCase<double>(m_sortOrder);
+		 bool wasFull = false;
 		 if (replace || m_data_deq.empty()) {
 			 m_data_deq.clear();
 		 } else {
 			 // Data already exists, we know better than the worst known valid
 			 worstKnownEvaluation = this->evaluation(this->worst());
+			 wasFull = (m_maxSize && m_data_deq.size() >= m_maxSize);
 		 }
 
 		 // At this point, worstKnownEvaluation will be
@@ -340,9 +342,9 @@ public:
 		 for(auto const & item_ptr: items) {
 			 // Add the work item to the queue
 			 // - If the queue is unlimited
-			 // - If the queue isn't full yet
+			 // - If the queue wasn't full before this call (surplus and duplicate items are removed below)
 			 // - If the item is better than the worst one already contained in the queue
-			 if (0 == m_maxSize || m_data_deq.size() < m_maxSize || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
+			 if (!wasFull || isBetter(this->evaluation(item_ptr), worstKnownEvaluation)) {
 				 if (do_clone) {
 					 m_data_deq.push_back(item_ptr->template clone<T>());
 				 } else {
-- 
2.43.0


From d3c070e6d79d08f4ab11d809ab01af01973f6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:32 +0000
Subject: [PATCH 07/87] fix: changing the sort order of a priority queue must
 reorder its contents

---
 include/common/GFixedSizePriorityQueueT.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common/GFixedSizePriorityQueueT.hpp b/include/common/GFixedSizePriorityQueueT.hpp
index 50165ee..2879aee 100644
--- a/include/common/GFixedSizePriorityQueueT.hpp
+++ b/include/common/GFixedSizePriorityQueueT.hpp
@@ -231,6 +231,11 @@ public:
 	  * considered to be better.
 	  */
 	 void setSortOrder(Gem::Common::sortOrder sortOrder) {
+		 if (sortOrder != m_sortOrder) {
+			 // Entries are held from the best to the worst
+			 std::reverse(m_data_deq.begin(), m_data_deq.end());
+		 }
+
 		 m_sortOrder = sortOrder;
 	 }
 
-- 
2.43.0


From 458f3c605c5a2d1b9b2d3fa104e4b298547abb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 08/87] fix: setNProducerThreads must remember the number of
 threads it has started

---
 src/hap/GRandomFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 6a6fd41..361fa8b 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -209,6 +209,7 @@ void GRandomFactory::setNProducerThreads(const std::uint16_t &nProducerThreads)
 					[this]() { this->producer(this->getSeed()); }
 				);
 			}
+			m_n_producer_threads = nProducerThreads_local;
 		} else if (nProducerThreads_local < m_n_producer_threads.load()) { // We need to remove threads
 			glogger
 				<< "In GRandomFactory::setNProducerThreads(" << nProducerThreads << "): Warning!" << std::endl
-- 
2.43.0


From ee39e11908daf4e1e0a75e289f5186fcd3232255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:49 +0000
Subject: [PATCH 09/87] fix: the random factory must not start over with the
 same seeds once all are used

---
 include/hap/GRandomFactory.hpp | 4 ++++
 src/hap/GRandomFactory.cpp     | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hap/GRandomFactory.hpp b/include/hap/GRandomFactory.hpp
index c4007fc..41eb929 100644
--- a/include/hap/GRandomFactory.hpp
+++ b/include/hap/GRandomFactory.hpp
@@ -55,6 +55,7 @@
 #include <thread>
 #include <mutex>
 #include <array>
+#include <unordered_set>
 #include <algorithm>
 
 // Boost headers go here
@@ -297,6 +298,9 @@ private:
 			 , m_nondet_rng()
 		 };
 
+	 G_BASE_GENERATOR m_seed_rng; ///< Creates the seeds, initialized from m_seed_seq
+	 std::unordered_set<seed_type> m_used_seeds; ///< All seeds created so far
+
 	 mutable std::mutex m_seeding_mutex; ///< Regulates start-up of the seeding process
 	 std::vector<seed_type> m_seed_collection = std::vector<seed_type>(DEFAULTSEEDVECTORSIZE); ///< Holds pre-calculated seeds
 	 std::vector<seed_type>::const_iterator m_seed_cit = m_seed_collection.begin(); ///< Iterators over the seedCollection_
diff --git a/src/hap/GRandomFactory.cpp b/src/hap/GRandomFactory.cpp
index 361fa8b..03cb10f 100644
--- a/src/hap/GRandomFactory.cpp
+++ b/src/hap/GRandomFactory.cpp
@@ -148,7 +148,12 @@ seed_type GRandomFactory::getSeed() {
 
 	// Refill at the start of seeding or when all seeds have been used
 	if(not m_seeding_has_started || m_seed_cit==m_seed_collection.end()) {
-		m_seed_seq.generate(m_seed_collection.begin(), m_seed_collection.end());
+		// Note that std::seed_seq::generate() will always create the same sequence
+		if(not m_seeding_has_started) { m_seed_rng.seed(m_seed_seq); }
+		for(auto & seed: m_seed_collection) {
+			// Never hand out the same seed twice
+			do { seed = m_seed_rng(); } while(not m_used_seeds.insert(seed).second);
+		}
 		m_seed_cit=m_seed_collection.begin();
 		m_seeding_has_started.store(true);
 	}
-- 
2.43.0


From df294e81d451e5a01574ba2bd7e13d4a425e0d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 10/87] fix: an error flagged during processing must not be
 overwritten by the PROCESSED status

---
 include/courtier/GProcessingContainerT.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GProcessingContainerT.hpp b/include/courtier/GProcessingContainerT.hpp
index b683669..60fd84c 100644
--- a/include/courtier/GProcessingContainerT.hpp
+++ b/include/courtier/GProcessingContainerT.hpp
@@ -306,7 +306,10 @@ public:
 			 m_processing_time = std::chrono::duration<double>(afterProcessing - afterPreProcessing).count();
 			 m_post_processing_time = std::chrono::duration<double>(afterPostProcessing - afterProcessing).count();
 
-			 m_processing_status = processingStatus::PROCESSED;
+			 // Do not overwrite errors flagged by the user in one of the above steps
+			 if(processingStatus::ERROR_FLAGGED != m_processing_status) {
+				 m_processing_status = processingStatus::PROCESSED;
+			 }
 		 } catch(boost::exception& e) {
 			 // Let the audience know we had an error
 			 m_processing_status = processingStatus::EXCEPTION_CAUGHT;
-- 
2.43.0


From c2e57fdd48be8df24aef2dad4a642b9c22aea9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 11/87] fix: a producer disconnecting during enrolment must not
 leave the broker's port collections inconsistent

---
 include/courtier/GBrokerT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GBrokerT.hpp b/include/courtier/GBrokerT.hpp
index a657176..3357ba3 100644
--- a/include/courtier/GBrokerT.hpp
+++ b/include/courtier/GBrokerT.hpp
@@ -232,8 +232,8 @@ public:
 
 		 std::size_t nErasedProc = Gem::Common::erase_if(
 			 m_ProcessedBuffers
-			 , [](const std::pair<BUFFERPORT_ID_TYPE, GBUFFERPORT_PTR>& p) -> bool { return (not p.second->is_connected_to_producer()); }
-		 ); // m_ProcessedBuffers is a std::map, so items are of type std::pair
+			 , [this](const std::pair<BUFFERPORT_ID_TYPE, GBUFFERPORT_PTR>& p) -> bool { return (m_RawBuffers.find(p.first) == m_RawBuffers.end()); }
+		 ); // Same ports as above, even if another producer disconnects in the meantime
 
 #ifdef DEBUG
 	    if(nErasedProc != nErasedRaw) {
-- 
2.43.0


From c211c8dcd9f23979632512dfb92329b82a083572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 12/87] fix: a refused enrolment must leave the broker as it
 was

---
 include/courtier/GBrokerT.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/courtier/GBrokerT.hpp b/include/courtier/GBrokerT.hpp
index 3357ba3..fd165ec 100644
--- a/include/courtier/GBrokerT.hpp
+++ b/include/courtier/GBrokerT.hpp
@@ -263,6 +263,18 @@ public:
 #endif
 		 m_n_registered_buffer_ports -= BUFFERPORT_ID_TYPE(nErasedRaw);
 
+		 // Erasing ports may have invalidated the current get-pointer. We simply attach it to the start of the list
+		 m_currentGetPosition = m_RawBuffers.begin();
+
+		 // Check if we would exceed the allowed amount of buffer ports
+		 if(m_n_registered_buffer_ports >= MAXREGISTEREDBUFFERPORTS) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GBrokerT<>::enrol_buffer_port(buffer-port-ptr):" << std::endl
+					 << "Maximum number " << MAXREGISTEREDBUFFERPORTS << " of registered buffer ports exceeded" << std::endl
+			 );
+		 }
+
 		 // Retrieve a new id for the buffer port.
 		 auto gbp_tag = getNextBufferPortId();
 
@@ -273,14 +285,8 @@ public:
 		 m_RawBuffers[gbp_tag] = gbp_ptr;
 		 m_ProcessedBuffers[gbp_tag] = gbp_ptr;
 
-	    // Increment the number of registered buffer ports and check if we have exceeded the allowed amound
-		 if(++m_n_registered_buffer_ports > MAXREGISTEREDBUFFERPORTS) {
-			 throw gemfony_exception(
-				 g_error_streamer(DO_LOG, time_and_place)
-					 << "In GBrokerT<>::enrol_buffer_port(buffer-port-ptr):" << std::endl
-					 << "Maximum number " << MAXREGISTEREDBUFFERPORTS << " of registered buffer ports exceeded" << std::endl
-			 );
-		 }
+		 // Increment the number of registered buffer ports
+		 ++m_n_registered_buffer_ports;
 
 		 // Fix the current get-pointer. We simply attach it to the start of the list
 		 m_currentGetPosition = m_RawBuffers.begin();
-- 
2.43.0


From 56e5328eba34e4ea077b02da3e22bbd29f781147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:09 +0000
Subject: [PATCH 13/87] fix: local consumers must survive submitters that have
 left

---
 include/courtier/GSerialConsumerT.hpp    | 5 ++++-
 include/courtier/GStdThreadConsumerT.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GSerialConsumerT.hpp b/include/courtier/GSerialConsumerT.hpp
index 84eaf19..cfbdce2 100644
--- a/include/courtier/GSerialConsumerT.hpp
+++ b/include/courtier/GSerialConsumerT.hpp
@@ -251,7 +251,10 @@ private:
 				 , [this](
 					 std::shared_ptr<processable_type> p
 					 , const std::chrono::milliseconds& timeout
-				 ) -> void { m_broker_ptr->put(p, timeout); }
+				 ) -> void {
+				 	 // The submitter may have left in the meantime. The item is discarded in this case
+				 	 try { m_broker_ptr->put(p, timeout); } catch(const Gem::Courtier::buffer_not_present&) { /* nothing */ }
+				 }
 				 //----------------------
 				 , [this]() -> bool { return this->stopped(); }
 				 //----------------------
diff --git a/include/courtier/GStdThreadConsumerT.hpp b/include/courtier/GStdThreadConsumerT.hpp
index 8cde55a..9b78fe3 100644
--- a/include/courtier/GStdThreadConsumerT.hpp
+++ b/include/courtier/GStdThreadConsumerT.hpp
@@ -341,7 +341,10 @@ private:
 					 , [this](
 						 std::shared_ptr<processable_type> p
 						 , const std::chrono::milliseconds& timeout
-					 ) -> void { m_broker_ptr->put(p, timeout); }
+					 ) -> void {
+					 	 // The submitter may have left in the meantime. The item is discarded in this case
+					 	 try { m_broker_ptr->put(p, timeout); } catch(const Gem::Courtier::buffer_not_present&) { /* nothing */ }
+					 }
 					 //----------------------
 					 , [this]() -> bool { return this->stopped(); }
 					 //----------------------
-- 
2.43.0


From 98534d89472ae5a7359edc8998a1f2b77a6d1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 14/87] fix: a failing work item must not abort multi-threaded
 execution in release builds

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 29f5567..d306e0e 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -1654,13 +1654,13 @@ protected:
 			 // Retrieve the future and check for errors
 			 try {
 				 result_type r = f.get();
-#ifdef DEBUG
 			 } catch(const g_processing_exception& e) {
 				 // This is an expected exception if processing has failed. We do nothing,
 				 // it is up to the caller to decide what to do with processing errors, and
 				 // these are also stored in the processing item. We do try to create a sort
 				 // of stack trace by emitting a warning, though. Processing errors should be rare,
 				 // so might hint at some problem.
+#ifdef DEBUG
 				 glogger
 					 << "In GMTExecutorT<processable_type>::waitForReturn():" << std::endl
 					 << "Caught a g_processing_exception exception while retrieving a future" << std::endl
-- 
2.43.0


From f8b3cf12606ef9afb05ef6f399e4f8215b4bf079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 15/87] fix: the minimum partial return of the broker executor
 is a percentage

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index d306e0e..5e50047 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2391,7 +2391,7 @@ private:
 		 if(m_nReturnedCurrent == expectedNumber) return true;
 
 		 // Check if we have reached the minimum percentage
-		 double realPercentage = boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
+		 double realPercentage = 100. * boost::numeric_cast<double>(m_nReturnedCurrent) / boost::numeric_cast<double>(expectedNumber);
 		 return (realPercentage >= boost::numeric_cast<double>(this->getMinPartialReturnPercentage()));
 	 }
 
-- 
2.43.0


From ffeb45529946eefe4792bdee24095b6709d718f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 16/87] fix: a negative wait factor means "no timeout"

---
 include/courtier/GExecutorT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 5e50047..ffd6fde 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2147,7 +2147,7 @@ protected:
 	 ) override {
 		 // Act depending on the capabilities of the consumer or user-preferences
 		 return
-			 (m_capable_of_full_return || m_waitFactor == 0.)?
+			 (m_capable_of_full_return || m_waitFactor <= 0.)?
 			 this->waitForFullReturn(workItems, oldWorkItems):
 			 this->waitForTimeOut(workItems, oldWorkItems);
 	 }
-- 
2.43.0


From f78d86dbbc484d6fbbd6a53123ef561d2c481a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 17/87] fix: old work items of different iterations are not
 duplicates of each other

---
 include/courtier/GExecutorT.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index ffd6fde..73dbb1f 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -614,13 +614,14 @@ protected:
 	  * General initialization function to be called prior to the first submission
 	  */
 	 virtual void iterationFinalize_(std::vector<std::shared_ptr<processable_type>>& workItems) BASE {
-		 // Sort remaining old work items according to their position
+		 // Sort remaining old work items according to their position and iteration
 		 std::sort(
 			 m_old_work_items_cnt.begin()
 			 , m_old_work_items_cnt.end()
 			 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
-				 using namespace boost;
-				 return x_ptr->getCollectionPosition() <= y_ptr->getCollectionPosition();
+				 return
+					 std::make_tuple(x_ptr->getCollectionPosition(), x_ptr->getIterationCounter())
+					 < std::make_tuple(y_ptr->getCollectionPosition(), y_ptr->getIterationCounter());
 			 }
 		 );
 		 // Remove duplicates
@@ -629,7 +630,9 @@ protected:
 				 m_old_work_items_cnt.begin()
 				 , m_old_work_items_cnt.end()
 				 , [](std::shared_ptr<processable_type> x_ptr, std::shared_ptr<processable_type> y_ptr) -> bool {
-					 return x_ptr->getCollectionPosition() == y_ptr->getCollectionPosition();
+					 return
+						 x_ptr->getCollectionPosition() == y_ptr->getCollectionPosition()
+						 && x_ptr->getIterationCounter() == y_ptr->getIterationCounter();
 				 }
 			 ) // Returns the begin() of the duplicates moved to the end of the vector
 			 , m_old_work_items_cnt.end()
-- 
2.43.0


From cbd060b2abe981cf9fb0db30f52776cf7d15beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 18/87] fix: missing items must be resubmitted also if other
 items of the batch have failed

---
 include/courtier/GExecutorT.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 73dbb1f..5ce987d 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -772,7 +772,8 @@ protected:
 
 				 // Update the submission counter
 				 nSubmittedItems++;
-			 } else if(processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+			 } else if(this->inFirstCycle() && processingStatus::DO_IGNORE != ps && processingStatus::PROCESSED != ps) {
+				 // Note that items may have come back with errors in earlier cycles of the same iteration
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
 						 << "In GBaseExecutorT<processable_type>::submitAllWorkItems(): Error" << std::endl
-- 
2.43.0


From 6837855d8397154fbd612c64311239b2b22f722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:17 +0000
Subject: [PATCH 19/87] fix: a late item returning first in a cycle must not
 end the optimization

---
 include/courtier/GExecutorT.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 5ce987d..00d69f2 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2242,8 +2242,9 @@ private:
 			 if(status.is_complete) break;
 
 			 // For succesfully processed items, update the internal timeout variables,
-			 // so we know how much longer this cycle should run
-			 if(w_ptr->is_processed()) {
+			 // so we know how much longer this cycle should run. Late items from earlier
+			 // iterations tell us nothing unless an item of this cycle has returned.
+			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
 		 } while(not halt());
-- 
2.43.0


From 1a3e77d030555a0f2eb2f58b91339a0b26cfac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 20/87] fix: an executor must not wait if no item of a batch is
 due

---
 include/courtier/GExecutorT.hpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 00d69f2..5a4b346 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -302,10 +302,13 @@ public:
 
 			 // Wait for work items to complete. This function needs to
 			 // be re-implemented in derived classes.
-			 auto current_status = waitForReturn(
-				 workItems
-				 , m_old_work_items_cnt
-			 );
+			 // There is nothing to wait for if no item was due.
+			 auto current_status = (m_expectedNumber > 0) ?
+				 waitForReturn(
+					 workItems
+					 , m_old_work_items_cnt
+				 )
+				 : this->checkExecutionState(workItems);
 
 			 // There may not be errors during resubmission, so we need to save the "error state"
 			 if (current_status.is_complete) status.is_complete = true;
@@ -649,8 +652,9 @@ protected:
 		 m_n_erroneousItems  = this->countItemsWithStatus(workItems, processingStatus::ERROR_FLAGGED);
 		 m_n_erroneousItems += this->countItemsWithStatus(workItems, processingStatus::EXCEPTION_CAUGHT);
 
-		 // Make it known that the first iteration has ended (if this is the first iteration)
-		 if(m_in_first_iteration) {
+		 // Make it known that the first iteration has ended (if this is the first iteration
+		 // in which items were submitted)
+		 if(m_in_first_iteration && not m_no_items_submitted_in_object) {
 			 m_in_first_iteration = false;
 		 }
 
@@ -786,8 +790,10 @@ protected:
 
 		 // Set the start time of the new cycle. How this time is determined depends
 		 // on the actual executor. NOTE that the following call may block, if a start time cannot
-		 // yet be determined.
-		 if(this->inFirstIteration() && this->inFirstCycle()) {
+		 // yet be determined. It is not needed if nothing was submitted.
+		 if(0 == nSubmittedItems) {
+			 m_approx_cycle_start_time = this->now();
+		 } else if(this->inFirstIteration() && this->inFirstCycle()) {
 			 m_approx_cycle_start_time = this->determineInitialCycleStartTime();
 		 } else {
 			 m_approx_cycle_start_time = m_cycle_first_submission_time;
-- 
2.43.0


From b9f8d2c0d4f7c5cf3fb3160fcaf9e197a8b192ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 21/87] fix: failed items returning first must not be discarded
 by the broker executor

---
 include/courtier/GExecutorT.hpp | 90 +++++++++++++--------------------
 1 file changed, 34 insertions(+), 56 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 5a4b346..6861427 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2359,6 +2359,9 @@ private:
 	  * Checks whether a timeout was encountered.
 	  */
 	 bool timeout() {
+		 // There is no timeout before a first item has been processed successfully
+		 if(this->firstRetrieval()) return false;
+
 		 std::chrono::duration<double> currentElapsed
 			 = this->now() - this->getApproxCycleStartTime();
 
@@ -2435,37 +2438,34 @@ private:
 		 // Wait indefinitely for a processed item, if this is the very first individual retrieved.
 		 // We have no information on which we might base a timeout.
 		 if(this->firstRetrieval()) {
-			 do {
-				 // Wait indefinitely for the very first, successfully processed individual
-				 w_ptr = this->retrieve();
-
-				 // It is a severe error if we get an empty pointer here
-				 if (not w_ptr) {
-					 throw gemfony_exception(
-						 g_error_streamer(
-							 DO_LOG
-							 , time_and_place
-						 )
-							 << "In GBrokerExecutorT<processable_type>::getNextItem(): Received empty first individual"
-							 << std::endl
-					 );
-				 }
+			 // Wait indefinitely for the very first, successfully processed individual
+			 w_ptr = this->retrieve();
 
-				 // We do accept unsuccessfully processed items, but emit
-				 // a warning, as this should be a very rare case
-				 if(w_ptr->is_processed()) {
-					 break;
-				 } else { // unprocessed or has an error
-					 glogger
-						 << "In GBrokerExecutorT<>::getNextItem():" << std::endl
-						 << "Received \"first\" individual which is either" << std::endl
-						 << "unprocessed or has errors. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
-						 << "but expected " << processingStatus::PROCESSED << " ." << std::endl
-						 << "The item will be discarded. As this should be a rare occurance," << std::endl
-						 << "we do emit a warning here." << std::endl
-						 << GWARNING;
-				 }
-			 } while(true);
+			 // It is a severe error if we get an empty pointer here
+			 if (not w_ptr) {
+				 throw gemfony_exception(
+					 g_error_streamer(
+						 DO_LOG
+						 , time_and_place
+					 )
+						 << "In GBrokerExecutorT<processable_type>::getNextItem(): Received empty first individual"
+						 << std::endl
+				 );
+			 }
+
+			 // We do accept unsuccessfully processed items, but emit
+			 // a warning, as this should be a very rare case
+			 if(w_ptr->is_processed()) {
+				 m_first_retrieval = false;
+			 } else { // unprocessed or has an error
+				 glogger
+					 << "In GBrokerExecutorT<>::getNextItem():" << std::endl
+					 << "Received \"first\" individual which is either" << std::endl
+					 << "unprocessed or has errors. Got processing status of " << w_ptr->getProcessingStatus() << std::endl
+					 << "but expected " << processingStatus::PROCESSED << " ." << std::endl
+					 << "As this should be a rare occurance, we do emit a warning here." << std::endl
+					 << GWARNING;
+			 }
 		 } else { // not the first individual in the first iteration
 			 // Calculate the timeout
 			 std::chrono::duration<double> remainingTime = this->remainingTime();
@@ -2501,33 +2501,11 @@ private:
 
 	 /***************************************************************************/
 	 /**
-	  * Checks whether any calls to "retrieve() have been made yet This is identical
-	  * to the first call to this function, so we simply check and set a boolean
-	  * indicating whether this is the first retrieval.
+	  * Checks whether we are still waiting for the very first successfully processed
+	  * work item. No information is then available on which a timeout might be based.
 	  */
 	 bool firstRetrieval() const {
-		 if(m_first_retrieval) {
-#ifdef DEBUG
-			 if((not this->inFirstIteration() || not this->inFirstCycle() || 0<m_nReturnedCurrent)) {
-				 throw gemfony_exception(
-					 g_error_streamer(
-						 DO_LOG
-						 , time_and_place
-					 )
-						 << "In GBrokerExecutorT<processable_type>::firstRetrieval():" << std::endl
-						 << "Got true==m_first_retrieval, while one of the preconditions isn't met:" << std::endl
-						 << "this->inFirstIteration() : " << this->inFirstIteration() << std::endl
-						 << "this->inFirstCycle()     :" << this->inFirstCycle() << std::endl
-						 << "m_nReturnedCurrent       :" << m_nReturnedCurrent << " (we expect 0)" << std::endl
-				 );
-			 }
-#endif
-
-			 m_first_retrieval = false;
-			 return true;
-		 } else {
-			 return false;
-		 }
+		 return m_first_retrieval;
 	 }
 
 	 /***************************************************************************/
@@ -2676,7 +2654,7 @@ private:
 
 	 bool m_capable_of_full_return = false; ///< Indicates whether the broker may return results without losses
 
-	 mutable bool m_first_retrieval = true; ///< Indicates whether any retrievals have taken place so far
+	 bool m_first_retrieval = true; ///< Indicates whether we are still waiting for the very first processed item
 	 mutable bool m_first_item = true; ///< Indicates whether we are dealing with the very first individual
 
 	 Gem::Common::GPlotDesigner m_gpd; ///< A wrapper for the plots
-- 
2.43.0


From a710deba1c0a4fcf1373936ab0882f22c2278eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 22/87] fix: the last item of a cycle must contribute to the
 timeout of the broker executor

---
 include/courtier/GExecutorT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/courtier/GExecutorT.hpp b/include/courtier/GExecutorT.hpp
index 6861427..8926ea4 100644
--- a/include/courtier/GExecutorT.hpp
+++ b/include/courtier/GExecutorT.hpp
@@ -2244,15 +2244,15 @@ private:
 				 , oldWorkItems
 			 );
 
-			 // No need to continue if all currently submitted work items have returned
-			 if(status.is_complete) break;
-
 			 // For succesfully processed items, update the internal timeout variables,
 			 // so we know how much longer this cycle should run. Late items from earlier
 			 // iterations tell us nothing unless an item of this cycle has returned.
 			 if(w_ptr->is_processed() && m_nReturnedCurrent > 0) {
 				 this->updateTimeout(w_ptr);
 			 }
+
+			 // No need to continue if all currently submitted work items have returned
+			 if(status.is_complete) break;
 		 } while(not halt());
 
 		 // Check for the processing flags and derive the is_complete and has_errors states
-- 
2.43.0


From 5e72c633f1a12968e73a4335c0ca5d1f597124cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 23/87] fix: the limits on the number of iterations must be
 checked against the new value

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index a960af7..aa2e44a 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -844,11 +844,11 @@ std::size_t G_OptimizationAlgorithm_Base::getPopulationSize() const {
 void G_OptimizationAlgorithm_Base::setMaxIteration(std::uint32_t maxIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(maxIteration > 0 && maxIteration <= m_minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMaxIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	maxIteration << " is <= the minimum number " << m_minIteration << std::endl
 		);
 	}
 
@@ -877,11 +877,11 @@ std::uint32_t G_OptimizationAlgorithm_Base::getMaxIteration() const {
 void G_OptimizationAlgorithm_Base::setMinIteration(std::uint32_t minIteration) {
 	// Check that the maximum number of iterations is > the minimum number
 	// The check is only valid if a maximum number of iterations has been set (i.e. is != 0)
-	if(m_maxIteration > 0 && m_maxIteration <= m_minIteration) {
+	if(m_maxIteration > 0 && m_maxIteration <= minIteration) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In G_OptimizationAlgorithm_Base<>::setMinIteration(): Error!" << std::endl
-				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << m_minIteration << std::endl
+				<< "Maximum number of iterations " << 	m_maxIteration << " is <= the minimum number " << minIteration << std::endl
 		);
 	}
 
-- 
2.43.0


From 329651bc5d6b02100e07c4c819e26003eb9eb5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 24/87] fix: parents must keep their order when the population
 is repaired

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 5 +++--
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp    | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index b3124d7..6002558 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -600,8 +600,9 @@ void GEvolutionaryAlgorithm::fixAfterJobSubmission() {
 		[iteration](std::shared_ptr <GParameterSet> p) { p->setAssignedIteration(iteration); }
 	);
 
-	// Make sure that parents are at the beginning of the array.
-	sort(
+	// Make sure that parents are at the beginning of the array. The order of
+	// the parents amongst each other (best first) must not change.
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index f481268..a86e5f8 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -493,8 +493,9 @@ void GSimulatedAnnealing::fixAfterJobSubmission() {
 		[iteration](std::shared_ptr <GParameterSet> p) { p->setAssignedIteration(iteration); }
 	);
 
-	// Make sure that parents are at the beginning of the array.
-	sort(
+	// Make sure that parents are at the beginning of the array. The order of
+	// the parents amongst each other (best first) must not change.
+	std::stable_sort(
 		this->begin()
 		, this->end()
 		, [](std::shared_ptr<GParameterSet> x, std::shared_ptr<GParameterSet> y) -> bool {
-- 
2.43.0


From 4ee5b946b85b785693e9fb10f9fda64088035e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 25/87] fix: the number of children must follow the growth of
 the population

---
 src/geneva/G_OptimizationAlgorithm_ParChild.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
index a5b2c24..2736517 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParChild.cpp
@@ -662,6 +662,9 @@ void G_OptimizationAlgorithm_ParChild::performScheduledPopulationGrowth() {
 		// Set a new default population size
 		this->setPopulationSizes(this->getDefaultPopulationSize() + m_growth_rate, this->getNParents());
 
+		// The number of expected children grows along with the population
+		m_default_n_children = this->getDefaultPopulationSize() - m_n_parents;
+
 		// Add missing items as copies of the last individual in the list
 		this->resize_clone(G_OptimizationAlgorithm_Base::getDefaultPopulationSize(), G_OptimizationAlgorithm_Base::m_data_cnt[0]);
 	}
-- 
2.43.0


From 924ef32518cfc2bc59a1f652eec64842b1958476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 26/87] fix: pareto domination must take into account all
 evaluation criteria

---
 .../G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 6002558..e9aec22 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -1173,12 +1173,17 @@ bool GEvolutionaryAlgorithm::aDominatesB(
 #endif
 
 	// x dominates y, if none of its fitness criteria is worse than the
-	// corresponding criterion from y
+	// corresponding criterion from y, and at least one of them is better
+	bool found_better = false;
 	for (std::size_t i = 0; i < nCriteriaX; i++) {
-		if(isWorse(x_ptr, y_ptr)) return false;
+		double x_fitness = minOnly_transformed_fitness(x_ptr, i);
+		double y_fitness = minOnly_transformed_fitness(y_ptr, i);
+
+		if(x_fitness > y_fitness) return false;
+		if(x_fitness < y_fitness) found_better = true;
 	}
 
-	return true;
+	return found_better;
 }
 
 /******************************************************************************/
-- 
2.43.0


From 5a07819f073d4ff6100c9d662a0e4f1628e02580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 27/87] fix: check the size of the population in the pareto
 modes, too

---
 ...G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index e9aec22..ddc581f 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -392,11 +392,15 @@ void GEvolutionaryAlgorithm::populationSanityChecks_() const {
 	// number of parents. MUNU1PRETAIN has the same requirements as MUCOMMANU_SINGLEEVAL,
 	// as it is theoretically possible that all children are better than the former
 	// parents, so that the first parent individual will be replaced.
+	// The pareto modes may fill up the parents with any other individual, so that they
+	// require just one child. They fall back to the corresponding single-criterion mode, though,
+	// if there is just one evaluation criterion.
 	std::size_t popSize = this->getPopulationSize();
-	if ( // TODO: Why are PARETO modes missing here ?
-		((m_sorting_mode == sortingMode::MUCOMMANU_SINGLEEVAL || m_sorting_mode == sortingMode::MUNU1PRETAIN_SINGLEEVAL) && (popSize < 2 * this->m_n_parents)) ||
-		(m_sorting_mode == sortingMode::MUPLUSNU_SINGLEEVAL && popSize <= this->m_n_parents)
-		) {
+	bool single_eval_comma =
+		m_sorting_mode == sortingMode::MUCOMMANU_SINGLEEVAL
+		|| m_sorting_mode == sortingMode::MUNU1PRETAIN_SINGLEEVAL
+		|| (m_sorting_mode == sortingMode::MUCOMMANU_PARETO && not this->empty() && not this->front()->hasMultipleFitnessCriteria());
+	if ((single_eval_comma && (popSize < 2 * this->m_n_parents)) || popSize <= this->m_n_parents) {
 		std::ostringstream error;
 		error
 			<< "In G_OA_EvolutionaryAlgorithm::populationSanityChecks() :" << std::endl
-- 
2.43.0


From 2e1a5997515a415d41e673b9db07503e8024ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 28/87] fix: simulated annealing needs as many children as
 parents

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index a86e5f8..448aaa9 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -323,7 +323,7 @@ void GSimulatedAnnealing::populationSanityChecks_() const {
 
 	// We need at least as many children as parents
 	std::size_t popSize = this->getPopulationSize();
-	if (popSize <= this->m_n_parents) {
+	if (popSize < 2 * this->m_n_parents) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GSimulatedAnnealing::populationSanityChecks() :" << std::endl
-- 
2.43.0


From 8c7ed3daf57721971ca3a6e41bf65ea17820b65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 29/87] fix: simulated annealing must start with the configured
 temperature

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 448aaa9..beb155e 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -244,6 +244,7 @@ void GSimulatedAnnealing::setT0(double t0) {
 	}
 
 	m_t0 = t0;
+	m_t = t0;
 }
 
 /******************************************************************************/
-- 
2.43.0


From ea04b5d1133d7dcd8fae46e1feb50c884f2f9c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 30/87] fix: a vanishing temperature must not prevent the
 acceptance of equal children

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index beb155e..791acd3 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -699,6 +699,10 @@ double GSimulatedAnnealing::saProb(
 	const double &fMinOnlyParent
 	, const double &fMinOnlyChild
 ) {
+	// Children which are at least as good as their parent are always accepted. Note that
+	// the temperature may have become 0, so that we could not rely on the quotient.
+	if(fMinOnlyChild <= fMinOnlyParent) return 1.;
+
 	return exp(-(fMinOnlyChild - fMinOnlyParent) / m_t);
 }
 
-- 
2.43.0


From 8fee82d26dce9e97e26d6f266e56d53a10d0ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 31/87] fix: parents replaced in simulated annealing must not
 get lost as best known solutions

---
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index 791acd3..a029833 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -656,19 +656,20 @@ void GSimulatedAnnealing::sortSAMode() {
 		}
 	);
 
-	// Check for each parent whether it should be replaced by the corresponding child
+	// Check for each parent whether it should be replaced by the corresponding child. The
+	// former parent stays available as a candidate for the list of best individuals.
 	for (std::size_t np = 0; np < this->m_n_parents; np++) {
 		double pPass = saProb(
 			minOnly_transformed_fitness(this->at(np))
 			, minOnly_transformed_fitness(this->at(this->m_n_parents + np))
 		);
 		if (pPass >= 1.) {
-			this->at(np)->GObject::load(this->at(this->m_n_parents + np));
+			std::swap(*(this->begin() + np), *(this->begin() + this->m_n_parents + np));
 		} else {
 			double challenge =
 				this->m_uniform_real_distribution(this->m_gr, std::uniform_real_distribution<double>::param_type(0.,1.));
 			if (challenge < pPass) {
-				this->at(np)->GObject::load(this->at(this->m_n_parents + np));
+				std::swap(*(this->begin() + np), *(this->begin() + this->m_n_parents + np));
 			}
 		}
 	}
-- 
2.43.0


From c40ebf42d7a7e4e37a6df462f7a39a8720c32238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 32/87] fix: best solutions must not get lost in pareto mode
 with a single criterion

---
 ...OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index ddc581f..500fc83 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -201,6 +201,13 @@ void GEvolutionaryAlgorithm::updateGlobalBestsPQ_(
 			//----------------------------------------------------------------------------
 		case sortingMode::MUPLUSNU_PARETO:
 		case sortingMode::MUCOMMANU_PARETO: {
+			// With just one evaluation criterion the pareto modes fall back to
+			// the corresponding single-criterion modes
+			if(not this->front()->hasMultipleFitnessCriteria()) {
+				G_OptimizationAlgorithm_Base::updateGlobalBestsPQ_(bestIndividuals);
+				break;
+			}
+
 			// Retrieve all individuals on the pareto front
 			std::vector<std::shared_ptr < Gem::Geneva::GParameterSet>> paretoInds;
 			this->extractCurrentParetoIndividuals(paretoInds);
@@ -250,6 +257,13 @@ void GEvolutionaryAlgorithm::updateIterationBestsPQ_(
 			//----------------------------------------------------------------------------
 		case sortingMode::MUPLUSNU_PARETO:
 		case sortingMode::MUCOMMANU_PARETO: {
+			// With just one evaluation criterion the pareto modes fall back to
+			// the corresponding single-criterion modes
+			if(not this->front()->hasMultipleFitnessCriteria()) {
+				G_OptimizationAlgorithm_Base::updateIterationBestsPQ_(bestIndividuals);
+				break;
+			}
+
 			// Retrieve all individuals on the pareto front
 			std::vector<std::shared_ptr < Gem::Geneva::GParameterSet>> paretoInds;
 			this->extractCurrentParetoIndividuals(paretoInds);
-- 
2.43.0


From a38ceac1a69380d76e0106def2e070c78f2001cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 33/87] fix: swarm individuals must remember their best instead
 of their worst position

---
 ...tionAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp |  2 ++
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 11 +++++++----
 ...tionAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp | 10 ++++++++++
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
index b480cc8..3e816ba 100644
--- a/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.hpp
@@ -102,6 +102,8 @@ public:
     G_API_GENEVA void registerPersonalBest(std::shared_ptr<GParameterSet>);
     /** @brief Allows to retrieve the personal best individual */
     G_API_GENEVA std::shared_ptr<GParameterSet> getPersonalBest() const;
+    /** @brief Allows to check whether a personal best has already been registered */
+    G_API_GENEVA bool hasPersonalBest() const ;
     /** @brief Resets the personal best individual */
     G_API_GENEVA void resetPersonalBest();
     /** @brief Retrieve quality of personally best individual */
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index d0e1164..9643914 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -496,12 +496,15 @@ void GSwarmAlgorithm::updatePersonalBestIfBetter(
 #endif /* DEBUG */
 
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
-	if(isBetter(
-		std::get<G_TRANSFORMED_FITNESS>(ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->getPersonalBestQuality())
-		, ind_ptr->transformed_fitness(0)
+	auto traits_ptr = ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>();
+	// There is no personal best yet if this is the first time that the individual
+	// has returned, e.g. because it was late or missing in the first iteration
+	if(not traits_ptr->hasPersonalBest() || isBetter(
+		ind_ptr->transformed_fitness(0)
+		, std::get<G_TRANSFORMED_FITNESS>(traits_ptr->getPersonalBestQuality())
 		, m
 	)) {
-		ind_ptr->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->registerPersonalBest(ind_ptr);
+		traits_ptr->registerPersonalBest(ind_ptr);
 	}
 }
 
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
index 56edc9c..3d958ee 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm_PersonalityTraits.cpp
@@ -229,6 +229,16 @@ std::shared_ptr <GParameterSet> GSwarmAlgorithm_PersonalityTraits::getPersonalBe
  * ----------------------------------------------------------------------------------
  */
 
+/******************************************************************************/
+/**
+ * Allows to check whether a personal best has already been registered.
+ *
+ * @return A boolean indicating whether a personal best is available
+ */
+bool GSwarmAlgorithm_PersonalityTraits::hasPersonalBest() const {
+	return static_cast<bool>(personal_best_);
+}
+
 /******************************************************************************/
 /**
  * Resets the personally best individual by assigning a default-constructed
-- 
2.43.0


From bb0d2f9dd271a24399c2df872dd57c278442ab89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 34/87] fix: the check for the number of assigned values must
 take into account the activity mode

---
 include/geneva/GParameterSet.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/geneva/GParameterSet.hpp b/include/geneva/GParameterSet.hpp
index 9b7ec26..ee16ed3 100644
--- a/include/geneva/GParameterSet.hpp
+++ b/include/geneva/GParameterSet.hpp
@@ -672,14 +672,14 @@ public:
         , activityMode const &am = activityMode::DEFAULTACTIVITYMODE
     ) {
 #ifdef DEBUG
-        if (countParameters<par_type>() != parVec.size()) {
+        if (countParameters<par_type>(am) != parVec.size()) {
             throw gemfony_exception(
                 g_error_streamer(
                     DO_LOG
                     , time_and_place
                 )
                     << "In GParameterSet::assignValueVector(const std::vector<pat_type>&):" << std::endl
-                    << "Sizes don't match: " << countParameters<par_type>() << " / " << parVec.size() << std::endl
+                    << "Sizes don't match: " << countParameters<par_type>(am) << " / " << parVec.size() << std::endl
             );
         }
 #endif /* DEBUG */
-- 
2.43.0


From b92e957f0cba6c0134e841eeae86c893df97f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 35/87] fix: replacements for individuals missing in the first
 iteration of a swarm must not end the optimization

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp   | 20 +++++++++++++++++--
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp |  4 ++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index aa2e44a..e654b6a 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -1360,7 +1360,15 @@ void G_OptimizationAlgorithm_Base::updateGlobalBestsPQ_(GParameterSetFixedSizePr
 	// We simply add all individuals to the queue -- only the best ones will actually be added (and cloned)
 	// Unless we have asked for the queue to have an unlimited size, the queue will be resized as required
 	// by its maximum allowed size.
-	bestIndividuals.add(this->m_data_cnt, CLONE, DONOTREPLACE);
+	// Individuals which haven't been processed yet (such as randomly initialized replacements for
+	// missing work items) do not have a fitness and cannot take part.
+	std::vector<std::shared_ptr<GParameterSet>> processed;
+	for(auto const & ind_ptr: *this) {
+		if(ind_ptr->is_processed()) {
+			processed.push_back(ind_ptr);
+		}
+	}
+	bestIndividuals.add(processed, CLONE, DONOTREPLACE);
 }
 
 /******************************************************************************/
@@ -1385,7 +1393,15 @@ void G_OptimizationAlgorithm_Base::updateIterationBestsPQ_(GParameterSetFixedSiz
 #endif /* DEBUG */
 
 	// We simply add all individuals to the queue. They will automatically be sorted.
-	bestIndividuals.add(this->m_data_cnt, CLONE, REPLACE);
+	// Individuals which haven't been processed yet (such as randomly initialized replacements for
+	// missing work items) do not have a fitness and cannot take part.
+	std::vector<std::shared_ptr<GParameterSet>> processed;
+	for(auto const & ind_ptr: *this) {
+		if(ind_ptr->is_processed()) {
+			processed.push_back(ind_ptr);
+		}
+	}
+	bestIndividuals.add(processed, CLONE, REPLACE);
 }
 
 /******************************************************************************/
diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 9643914..f2312e4 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -834,6 +834,10 @@ void GSwarmAlgorithm::adjustNeighborhoods() {
 
 					// Randomly initialize the item and prevent position updates
 					(*(m_data_cnt.begin() + firstNIPos))->randomInit(activityMode::ACTIVEONLY);
+					(*(m_data_cnt.begin() + firstNIPos))->mark_as_due_for_processing();
+
+					// The item does not have a history of its own
+					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->resetPersonalBest();
 					(*(m_data_cnt.begin() + firstNIPos))->getPersonalityTraits<GSwarmAlgorithm_PersonalityTraits>()->setNoPositionUpdate();
 
 					// Set the neighborhood as required
-- 
2.43.0


From 6f9b4bf7d6ad42640db1854aa55415fb3d85cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 36/87] fix: swarms must cope with neighborhoods none of whose
 individuals have returned

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 85 ++++++-------------
 1 file changed, 25 insertions(+), 60 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index f2312e4..1dab77b 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -78,7 +78,6 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	  , m_n_neighborhoods(cp.m_n_neighborhoods)
 	  , m_default_n_neighborhood_members(cp.m_default_n_neighborhood_members)
 	  , m_n_neighborhood_members_cnt(cp.m_n_neighborhood_members_cnt)
-	  , m_global_best_ptr((cp.afterFirstIteration()) ? (cp.m_global_best_ptr)->clone<GParameterSet>() : std::shared_ptr<GParameterSet>())
 	  , m_neighborhood_bests_cnt(m_n_neighborhoods) // We copy the smart pointers over later
 	  , m_c_personal(cp.m_c_personal)
 	  , m_c_neighborhood(cp.m_c_neighborhood)
@@ -99,12 +98,10 @@ GSwarmAlgorithm::GSwarmAlgorithm(const GSwarmAlgorithm &cp)
 	// inside of the "optimize()" call.
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 
-	// Clone cp's best individuals in each neighborhood
-	if (cp.afterFirstIteration()) {
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			m_neighborhood_bests_cnt[i] = cp.m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-		}
-	}
+	// Clone cp's globally best individual and the best individuals in each neighborhood, as far
+	// as they are known already
+	Gem::Common::copyCloneableSmartPointer(cp.m_global_best_ptr, m_global_best_ptr);
+	Gem::Common::copyCloneableSmartPointerContainer(cp.m_neighborhood_bests_cnt, m_neighborhood_bests_cnt);
 
 	// Copying / setting of the optimization algorithm id is done by the parent class. The same
 	// applies to the copying of the optimization monitor.
@@ -150,49 +147,12 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 
 	m_velocity_range_percentage = p_load->m_velocity_range_percentage;
 
-	// We start from scratch if the number of neighborhoods or the alleged number of members in them differ
-	if (m_n_neighborhoods != p_load->m_n_neighborhoods ||
-		 not nNeighborhoodMembersEqual(m_n_neighborhood_members_cnt, p_load->m_n_neighborhood_members_cnt)) {
-		m_n_neighborhoods = p_load->m_n_neighborhoods;
-
-		m_n_neighborhood_members_cnt.clear();
-		m_neighborhood_bests_cnt.clear();
-
-		m_n_neighborhood_members_cnt.resize(m_n_neighborhoods);
-		m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
-
-		// Copy the neighborhood bests and number of neighborhood members over
-		for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-			m_n_neighborhood_members_cnt[i] = p_load->m_n_neighborhood_members_cnt[i];
-			// The following only makes sense if this is not the first iteration. Note that
-			// getIteration will return the "foreign" GSwarmAlgorithm object's iteration, as it has
-			// already been copied.
-			if (afterFirstIteration()) {
-				m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-			}
-			// we do not need to reset the m_neighborhood_bests_cnt, as that array has just been created
-		}
-	}
-	else { // We now assume that we can just load neighborhood bests in each position.
-		// Copying only makes sense if the foreign GSwarmAlgorithm object's iteration is larger
-		// than the iteration offset. Note that getIteration() will return the foreign iteration,
-		// as that value has already been copied.
-		if (afterFirstIteration()) {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				// We might be in a situation where the std::shared_ptr which usually
-				// holds the neighborhood bests has not yet been initialized
-				if (m_neighborhood_bests_cnt[i]) {
-					m_neighborhood_bests_cnt[i]->GObject::load(p_load->m_neighborhood_bests_cnt[i]);
-				} else {
-					m_neighborhood_bests_cnt[i] = p_load->m_neighborhood_bests_cnt[i]->clone<GParameterSet>();
-				}
-			}
-		} else {
-			for (std::size_t i = 0; i < m_n_neighborhoods; i++) {
-				m_neighborhood_bests_cnt[i].reset();
-			}
-		}
-	}
+	// Copy the number of neighborhood members and the neighborhood bests over. Note that
+	// there may not be a best individual yet for a given neighborhood.
+	m_n_neighborhoods = p_load->m_n_neighborhoods;
+	m_n_neighborhood_members_cnt = p_load->m_n_neighborhood_members_cnt;
+	m_neighborhood_bests_cnt.resize(p_load->m_neighborhood_bests_cnt.size());
+	Gem::Common::copyCloneableSmartPointerContainer(p_load->m_neighborhood_bests_cnt, m_neighborhood_bests_cnt);
 
 	// Copy the global best over
 	if (p_load->afterFirstIteration()) { // cp has a global best, we don't
@@ -938,14 +898,6 @@ void GSwarmAlgorithm::updatePositions() {
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
 #ifdef DEBUG
 		if(afterFirstIteration()) {
-			if(not m_neighborhood_bests_cnt[n]) {
-				throw gemfony_exception(
-					g_error_streamer(DO_LOG,  time_and_place)
-						<< "In GSwarmAlgorithm::updatePositions():" << std::endl
-						<< "m_neighborhood_bests_cnt[" << n << "] is empty." << std::endl
-				);
-			}
-
 			if(n==0 && not m_global_best_ptr) { // Only check for the first n
 				throw gemfony_exception(
 					g_error_streamer(DO_LOG,  time_and_place)
@@ -1327,9 +1279,17 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 			}
 		);
 
+		// Nothing is known yet about this neighborhood in the first iteration
+		if (inFirstIteration()) {
+			m_neighborhood_bests_cnt.at(n).reset();
+		}
+
+		// There is nothing to compare if no individual of this neighborhood has returned
+		if (firstCounter == lastCounter) continue;
+
 		// Check whether the best individual of the neighborhood is better than
 		// the best individual found so far in this neighborhood
-		if (inFirstIteration()) {
+		if (not m_neighborhood_bests_cnt.at(n)) {
 			m_neighborhood_bests_cnt.at(n) = (*(this->begin() + firstCounter))->clone<GParameterSet>();
 		}
 		else {
@@ -1344,12 +1304,17 @@ std::tuple<double, double> GSwarmAlgorithm::findBests() {
 	}
 
 	// Identify the best individuals among all neighborhood bests
+	bool foundBest = false;
 	for (std::size_t n = 0; n < m_n_neighborhoods; n++) {
-		if(isBetter(
+		// No individual of this neighborhood might have returned so far
+		if(not m_neighborhood_bests_cnt.at(n)) continue;
+
+		if(not foundBest || isBetter(
 			(m_neighborhood_bests_cnt.at(n))->transformed_fitness(0)
 			, std::get<G_TRANSFORMED_FITNESS>(bestLocalFitness)
 			, m
 		)) {
+			foundBest = true;
 			bestLocalId = n;
 			bestLocalFitness = (m_neighborhood_bests_cnt.at(n))->getFitnessTuple();
 		}
-- 
2.43.0


From 02b6edac5a82d76639220d80fd2f7deb77d76f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 37/87] fix: swarms must accept more individuals than required
 at the start of an optimization run

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 1dab77b..efd62c6 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -853,9 +853,12 @@ void GSwarmAlgorithm::updatePositions() {
 	auto start = this->begin();
 
 #ifdef DEBUG
-	// Check that all neighborhoods have the default size
+	// Check that all neighborhoods have the default size. In the first iteration there may
+	// be surplus individuals in the last neighborhood, which will be removed in adjustNeighborhoods()
+	bool surplusAllowed = inFirstIteration() && this->size() > m_n_neighborhoods*m_default_n_neighborhood_members;
 	for(std::size_t n=0; n<m_n_neighborhoods; n++) {
-		if(m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
+		bool lastMayBeLarger = surplusAllowed && n + 1 == m_n_neighborhoods && m_n_neighborhood_members_cnt[n] > m_default_n_neighborhood_members;
+		if(m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members && not lastMayBeLarger) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
@@ -864,7 +867,7 @@ void GSwarmAlgorithm::updatePositions() {
 			);
 		}
 
-		if(this->size() != m_n_neighborhoods*m_default_n_neighborhood_members) {
+		if(this->size() != m_n_neighborhoods*m_default_n_neighborhood_members && not surplusAllowed) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
@@ -884,7 +887,7 @@ void GSwarmAlgorithm::updatePositions() {
 
 #ifdef DEBUG
 	// Cross-check that we have the nominal amount of individuals
-	if(this->size() != m_n_neighborhoods*m_default_n_neighborhood_members) {
+	if(this->size() != m_n_neighborhoods*m_default_n_neighborhood_members && not surplusAllowed) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
@@ -906,15 +909,6 @@ void GSwarmAlgorithm::updatePositions() {
 				);
 			}
 		}
-
-		// Check that the number if individuals in each neighborhoods has the expected value
-		if(m_n_neighborhood_members_cnt[n] != m_default_n_neighborhood_members) {
-			throw gemfony_exception(
-				g_error_streamer(DO_LOG,  time_and_place)
-					<< "In GSwarmAlgorithm::updatePositions(): Error!" << std::endl
-					<< "Invalid number of members in neighborhood " << n << ": " << m_n_neighborhood_members_cnt[n] << std::endl
-			);
-		}
 #endif /* DEBUG */
 
 		for (std::size_t member = 0; member < m_n_neighborhood_members_cnt[n]; member++) {
-- 
2.43.0


From 0fc808d0414cec268e0e3031f61c6254e88e7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 38/87] fix: a change of the number of neighborhoods must not
 lead to out-of-bounds access

---
 src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index efd62c6..153f1ee 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -291,6 +291,10 @@ void GSwarmAlgorithm::setSwarmSizes(
 	m_n_neighborhoods = (nNeighborhoods >= 1) ? nNeighborhoods : 1;
 	m_default_n_neighborhood_members = (defaultNNeighborhoodMembers >= 2) ? defaultNNeighborhoodMembers : 2;
 
+	// The information stored for each neighborhood must match the number of neighborhoods
+	m_n_neighborhood_members_cnt.resize(m_n_neighborhoods, 0);
+	m_neighborhood_bests_cnt.resize(m_n_neighborhoods);
+
 	// Update our parent class'es values
 	G_OptimizationAlgorithm_Base::setDefaultPopulationSize(m_n_neighborhoods * m_default_n_neighborhood_members);
 }
-- 
2.43.0


From fd8df42433ce50f1dea16d1ac0ace235f39865d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 39/87] fix: the globally best individual must be loaded from
 another swarm

---
 .../G_OptimizationAlgorithm_SwarmAlgorithm.cpp     | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 153f1ee..42ec9f7 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -154,18 +154,8 @@ void GSwarmAlgorithm::load_(const GObject *cp) {
 	m_neighborhood_bests_cnt.resize(p_load->m_neighborhood_bests_cnt.size());
 	Gem::Common::copyCloneableSmartPointerContainer(p_load->m_neighborhood_bests_cnt, m_neighborhood_bests_cnt);
 
-	// Copy the global best over
-	if (p_load->afterFirstIteration()) { // cp has a global best, we don't
-		if (m_global_best_ptr) { // If we already have a global best, just load the other objects global best
-			m_global_best_ptr->GObject::load(p_load->m_global_best_ptr);
-		} else {
-			m_global_best_ptr = p_load->GObject::clone<GParameterSet>();
-		}
-	}
-	else if (p_load->inFirstIteration()) { // cp does not have a global best
-		m_global_best_ptr.reset(); // empty the smart pointer
-	}
-	// else {} // We do not need to do anything if both iterations are 0 as there is no global best at all
+	// Copy the global best over, if it is known already
+	Gem::Common::copyCloneableSmartPointer(p_load->m_global_best_ptr, m_global_best_ptr);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 429ebfd717106c6863e340ec52073e54afe28456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 40/87] fix: a swarm must survive iterations from which no
 individual returns

---
 ...G_OptimizationAlgorithm_SwarmAlgorithm.cpp | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
index 42ec9f7..c06727e 100644
--- a/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SwarmAlgorithm.cpp
@@ -1219,6 +1219,33 @@ void GSwarmAlgorithm::runFitnessCalculation_() {
  * @return The best evaluation found in this iteration
  */
 std::tuple<double, double> GSwarmAlgorithm::findBests() {
+	// If no individual has returned at all, adjustNeighborhoods() will reinstate the individuals of the
+	// last iteration. Neither the personal nor the neighborhood or global bests change in this case.
+	if (this->empty()) {
+		if (m_last_iteration_individuals_cnt.empty()) {
+			throw gemfony_exception(
+				g_error_streamer(DO_LOG,  time_and_place)
+					<< "In GSwarmAlgorithm::findBests(): Error!" << std::endl
+					<< "No individual has returned in the first iteration." << std::endl
+			);
+		}
+
+		auto lastBestFitness = std::make_tuple(
+			m_last_iteration_individuals_cnt.front()->getWorstCase()
+			, m_last_iteration_individuals_cnt.front()->getWorstCase()
+		);
+		for (const auto& ind_ptr: m_last_iteration_individuals_cnt) {
+			if(ind_ptr->is_processed() && isBetter(
+				ind_ptr->transformed_fitness(0)
+				, std::get<G_TRANSFORMED_FITNESS>(lastBestFitness)
+				, ind_ptr->getMaxMode()
+			)) {
+				lastBestFitness = ind_ptr->getFitnessTuple();
+			}
+		}
+		return lastBestFitness;
+	}
+
 	auto m = this->at(0)->getMaxMode(); // We assume that the maxMode is the same for all individuals
 
 	std::size_t bestLocalId = 0;
-- 
2.43.0


From 1fdfe552117ff5e7e0eacb38637aac6e56b15ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 41/87] fix: reject finite steps and step sizes which are not
 positive

---
 .../G_OptimizationAlgorithm_GradientDescent.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 22e9fcb..7734eef 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -104,12 +104,12 @@ void GGradientDescent::setNStartingPoints(std::size_t nStartingPoints) {
  * @param finiteStep The desired size of the adaption
  */
 void GGradientDescent::setFiniteStep(double finiteStep) {
-	// Check that finiteStep_ has an appropriate value
-	if (finiteStep_ <= 0. || finiteStep_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that finiteStep has an appropriate value
+	if (finiteStep <= 0. || finiteStep > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setFiniteStep(double): Error!" << std::endl
-				<< "Invalid values of finiteStep_: " << finiteStep_ << std::endl
+				<< "Invalid values of finiteStep: " << finiteStep << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
@@ -134,12 +134,12 @@ double GGradientDescent::getFiniteStep() const {
  * @param stepSize A multiplicative factor for the adaption process
  */
 void GGradientDescent::setStepSize(double stepSize) {
-	// Check that stepSize_ has an appropriate value
-	if (stepSize_ <= 0. || stepSize_ > 1000.) { // Specified in per mill of the allowed or preferred value range
+	// Check that stepSize has an appropriate value
+	if (stepSize <= 0. || stepSize > 1000.) { // Specified in per mill of the allowed or preferred value range
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GGradientDescent::setStepSize(double): Error!" << std::endl
-				<< "Invalid values of stepSize_: " << stepSize_ << std::endl
+				<< "Invalid values of stepSize: " << stepSize << std::endl
 				<< "Must be in the range ]0.:1000.]" << std::endl
 		);
 	}
-- 
2.43.0


From 19376b65764c1c597bb62d6ee3ee715b848a7442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 42/87] fix: gradients at the upper boundary must have the
 right sign and size

---
 ..._OptimizationAlgorithm_GradientDescent.cpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
index 7734eef..165297e 100644
--- a/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_GradientDescent.cpp
@@ -353,6 +353,16 @@ void GGradientDescent::updateChildParameters() {
 			// Attach the feature vector to the child individual
 			this->at(childPos)->assignValueVector<double>(parmVec, activityMode::ACTIVEONLY);
 
+			// Constrained parameters fold values beyond their upper boundary back into the
+			// allowed range, so that the child would not be located where we want it to be.
+			// Step into the opposite direction in this case.
+			std::vector<double> childVec;
+			this->at(childPos)->streamline<double>(childVec, activityMode::ACTIVEONLY);
+			if (childVec[j] < parmVec[j]) {
+				parmVec[j] = origParmVal - adjustedFiniteStep_[j];
+				this->at(childPos)->assignValueVector<double>(parmVec, activityMode::ACTIVEONLY);
+			}
+
 			// Restore the original value in the feature vector
 			parmVec[j] = origParmVal;
 		}
@@ -384,17 +394,26 @@ void GGradientDescent::updateParentIndividuals() {
 		// Retrieve the fitness of the individual again
 		double parentFitness = minOnly_transformed_fitness(this->at(i));
 
+		// The parameter values for which the fitness of the parent was calculated
+		const std::vector<double> origParmVec = parmVec;
+
 		// Calculate the adaption of each parameter
 		// double gradient = 0.;
 		for (std::size_t j = 0; j < nFPParmsFirst_; j++) {
 			// Calculate the position of the child
 			std::size_t childPos = nStartingPoints_ + i * nFPParmsFirst_ + j;
 
+			// Find out into which direction (if any) the child was moved
+			std::vector<double> childVec;
+			this->at(childPos)->streamline<double>(childVec, activityMode::ACTIVEONLY);
+			const double direction =
+				(childVec[j] > origParmVec[j]) ? 1. : ((childVec[j] < origParmVec[j]) ? -1. : 0.);
+
 			// Calculate the step to be performed in a given direction and
 			// adjust the parameter vector of each parent
 			try {
 				parmVec[j] -= boost::numeric_cast<double>(
-					stepRatio_ *
+					direction * stepRatio_ *
 					(boost::numeric_cast<long double>(
 						minOnly_transformed_fitness(this->at(childPos)) - boost::numeric_cast<long double>(parentFitness)))
 				);
-- 
2.43.0


From 28688c37e5074c3f1c40f9b97e9059caf565b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 43/87] fix: copies of scanned parameters keep their values and
 number of steps

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 014efcc..81a8eea 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -212,9 +212,10 @@ public:
      * random number generator.
      */
     baseScanParT(const baseScanParT<T> &cp)
-        : m_var(cp.m_var)
+        : Gem::Common::GPODVectorT<T>(cp)
+        , m_var(cp.m_var)
         , m_step(cp.m_step)
-        , m_nSteps(cp.m_step)
+        , m_nSteps(cp.m_nSteps)
         , m_lower(cp.m_lower)
         , m_upper(cp.m_upper)
         , m_randomScan(cp.m_randomScan)
-- 
2.43.0


From f9b3a6c8d6535ec96ebe9c0b5e8a4dee5d6bce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 44/87] fix: random scans of integer parameters stay within
 their upper boundary

---
 include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 81a8eea..2101245 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -422,7 +422,7 @@ inline std::int32_t baseScanParT<std::int32_t>::getRandomItem(
         gr
         , std::uniform_int_distribution<std::int32_t>::param_type(
             m_lower
-            , m_upper + 1
+            , m_upper // inclusive
         ));
 }
 
-- 
2.43.0


From 8d2c1a33bceb73ea353c66ccd8d873312dbab558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 45/87] fix: scan integer and boolean parameters over their
 entire grid

---
 .../G_OptimizationAlgorithm_ParameterScan.hpp       | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index 2101245..a29f470 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -244,6 +244,15 @@ public:
         return m_step;
     }
 
+    /***************************************************************************/
+    /**
+     * Retrieves the number of items to be explored. On a grid, this number is
+     * determined by the boundaries alone for integer and boolean parameters.
+     */
+    std::size_t getNItems() const {
+        return m_randomScan ? m_nSteps : this->size();
+    }
+
     /***************************************************************************/
     /**
      * Retrieve the current item
@@ -265,7 +274,7 @@ public:
      * @return A boolean indicating whether a warp has taken place
      */
     bool goToNextItem() override {
-        if (++m_step >= m_nSteps) {
+        if (++m_step >= this->getNItems()) {
             m_step = 0;
             return true;
         }
@@ -277,7 +286,7 @@ public:
      * Checks whether step_ points to the last item in the array
      */
     bool isAtTerminalPosition() const override {
-        return m_step >= m_nSteps;
+        return m_step >= this->getNItems();
     }
 
     /***************************************************************************/
-- 
2.43.0


From 7fca563658e7881fcba95aa79ba7d36ba8dc26e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 46/87] fix: setScanRandomly() also applies to parameters which
 are already registered

---
 .../G_OptimizationAlgorithm_ParameterScan.hpp | 29 ++++++++++++++-----
 .../G_OptimizationAlgorithm_ParameterScan.cpp |  7 +++++
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index a29f470..b9a0bc5 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -196,14 +196,7 @@ public:
         , m_upper(pps.upperBoundary)
         , m_randomScan(randomScan)
         , m_typeDescription(t) {
-        if (not m_randomScan) {
-            // Fill the object with data
-            this->m_data_cnt = fillWithData<T>(
-                m_nSteps
-                , m_lower
-                , m_upper
-            );
-        }
+        this->setScanRandomly(randomScan);
     }
 
     /***************************************************************************/
@@ -228,6 +221,26 @@ public:
      */
     ~baseScanParT() override = default;
 
+    /***************************************************************************/
+    /**
+     * Switches between a random scan and a scan on a grid, starting over with
+     * the first item
+     */
+    void setScanRandomly(bool randomScan) {
+        this->m_data_cnt.clear();
+        if (not randomScan) {
+            // Fill the object with data
+            this->m_data_cnt = fillWithData<T>(
+                m_nSteps
+                , m_lower
+                , m_upper
+            );
+        }
+
+        m_randomScan = randomScan;
+        m_step = 0;
+    }
+
     /***************************************************************************/
     /**
      * Retrieve the address of this object
diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 0620faa..ca0f66c 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -1162,6 +1162,13 @@ std::size_t GParameterScan::getNScansPerformed() const {
  */
 void GParameterScan::setScanRandomly(bool scanRandomly) {
 	m_scanRandomly = scanRandomly;
+
+	// Let parameters which have already been registered know about the new setting.
+	// In configuration files, the parameters are specified before the scan mode.
+	for(const auto& par_ptr: m_b_cnt)     { par_ptr->setScanRandomly(m_scanRandomly); }
+	for(const auto& par_ptr: m_int32_cnt) { par_ptr->setScanRandomly(m_scanRandomly); }
+	for(const auto& par_ptr: m_f_cnt)     { par_ptr->setScanRandomly(m_scanRandomly); }
+	for(const auto& par_ptr: m_d_cnt)     { par_ptr->setScanRandomly(m_scanRandomly); }
 }
 
 /******************************************************************************/
-- 
2.43.0


From e9e26619c9073ec94ac14ce7c3f334384d424456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 47/87] fix: random scans evaluate exactly the requested number
 of points

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index ca0f66c..89b5729 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -738,11 +738,6 @@ void GParameterScan::randomShuffle() {
 		// We were successful
 		m_cycleLogicHalt = false;
 
-		//------------------------------------------------------------------------
-		// We do not want to exceed the boundaries of the population -- stop
-		// if we have reached the end of the population
-		if (++indPos >= this->getDefaultPopulationSize()) break;
-
 		//------------------------------------------------------------------------
 		// Make sure we terminate when the desired overall number of random scans has
 		// been performed
@@ -759,6 +754,11 @@ void GParameterScan::randomShuffle() {
 			// Terminate the loop
 			break;
 		}
+
+		//------------------------------------------------------------------------
+		// We do not want to exceed the boundaries of the population -- stop
+		// if we have reached the end of the population
+		if (++indPos >= this->getDefaultPopulationSize()) break;
 	}
 }
 
-- 
2.43.0


From 503e42f33b5da714b9a586adbb2d1e4c7739b97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 48/87] fix: a random scan remains one after it has been
 performed

---
 src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
index 89b5729..9f9bc38 100644
--- a/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_ParameterScan.cpp
@@ -786,8 +786,6 @@ void GParameterScan::resetParameterObjects() {
 	for (d_it = m_d_cnt.begin(); d_it != m_d_cnt.end(); ++d_it) {
 		(*d_it)->resetPosition();
 	}
-
-	m_simpleScanItems = std::size_t(0);
 }
 
 /******************************************************************************/
-- 
2.43.0


From 05604ef3b7e426c5926a1997c072972bc8c090d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 49/87] fix: a new checkpoint must not be removed if it has the
 name of the last one

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index e654b6a..f1b0c2e 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -265,7 +265,8 @@ void G_OptimizationAlgorithm_Base::checkpoint(bool is_better) const {
 		saveCheckpoint(output_file);
 
 		// Remove the last checkoint file if requested by the user
-		if(m_cp_remove && m_cp_last != "empty") {
+		// (unless it has just been replaced by the new file)
+		if(m_cp_remove && m_cp_last != "empty" && m_cp_last != output_file.string()) {
 			if(std::filesystem::exists(std::filesystem::path(m_cp_last))) {
 				std::filesystem::remove(std::filesystem::path(m_cp_last));
 			}
-- 
2.43.0


From ea89f24d70068174f059404c5e9fbbc7c9fee004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 50/87] fix: a failed write to a file must be reported by
 toFile()

---
 include/common/GCommonInterfaceT.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/common/GCommonInterfaceT.hpp b/include/common/GCommonInterfaceT.hpp
index 53b012f..293e498 100644
--- a/include/common/GCommonInterfaceT.hpp
+++ b/include/common/GCommonInterfaceT.hpp
@@ -300,6 +300,18 @@ public:
         );
         ofstr.close();
 
+        // Make sure all data has actually reached the file
+        if (not ofstr) {
+            throw gemfony_exception(
+                g_error_streamer(
+                    DO_LOG
+                    , time_and_place
+                )
+                    << "In GCommonInterfaceT::toFile():" << std::endl
+                    << "Could not write all data to file " << p.string() << std::endl
+            );
+        }
+
 #ifdef DEBUG
         if (not std::filesystem::exists(std::filesystem::path(p))) {
             throw gemfony_exception(
-- 
2.43.0


From be8f7b179ba5b7b43959bf8064062752033f2e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 51/87] fix: a checkpoint must not be replaced by an incomplete
 file

---
 src/geneva/G_OptimizationAlgorithm_Base.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_Base.cpp b/src/geneva/G_OptimizationAlgorithm_Base.cpp
index f1b0c2e..4aad403 100644
--- a/src/geneva/G_OptimizationAlgorithm_Base.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_Base.cpp
@@ -1553,7 +1553,13 @@ std::vector<std::shared_ptr<GParameterSet>> G_OptimizationAlgorithm_Base::getOld
  * Saves the state of the class to disc
  */
 void G_OptimizationAlgorithm_Base::saveCheckpoint(std::filesystem::path const& outputFile) const {
-	this->toFile(outputFile, this->getCheckpointSerializationMode());
+	// Write to a temporary file first, so there is no moment at which an
+	// incomplete file has taken the place of an existing checkpoint
+	std::filesystem::path tmp_file(outputFile);
+	tmp_file += ".tmp";
+
+	this->toFile(tmp_file, this->getCheckpointSerializationMode());
+	std::filesystem::rename(tmp_file, outputFile);
 }
 
 /******************************************************************************/
-- 
2.43.0


From ea5b4cdab766cf6bd7770d54def74bfeddcec8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 52/87] fix: cross-over must not be attempted for a single
 parameter

---
 src/geneva/GParameterSet.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 41f1628..05d9ef3 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -695,7 +695,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 #endif /* DEBUG */
 
 	// Do the actual cross-over
-	if (not this_double_cnt.empty()) {
+	if (this_double_cnt.size() > 1) { // A single value cannot be split
 		// Calculate a suitable position for the cross-over
 		// We use this->cp as the source for getCrossOverPos in order to avoid
 		// having to mark getCrossOverPos const and this m_gr mutable.
@@ -706,7 +706,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_double_cnt.begin()+pos, cp_double_cnt.end(), this_double_cnt.begin()+pos);
 	}
 
-	if (not this_float_cnt.empty()) {
+	if (this_float_cnt.size() > 1) { // A single value cannot be split
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_float_cnt.size());
 
@@ -715,7 +715,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_float_cnt.begin()+pos, cp_float_cnt.end(), this_float_cnt.begin()+pos);
 	}
 
-	if (not this_bool_cnt.empty()) {
+	if (this_bool_cnt.size() > 1) { // A single value cannot be split
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_bool_cnt.size());
 
@@ -724,7 +724,7 @@ std::shared_ptr<GParameterSet> GParameterSet::crossOverWith(std::shared_ptr<GPar
 		std::copy(cp_bool_cnt.begin()+pos, cp_bool_cnt.end(), this_bool_cnt.begin()+pos);
 	}
 
-	if (not this_int_cnt.empty()) {
+	if (this_int_cnt.size() > 1) { // A single value cannot be split
 		// Calculate a suitable position for the cross-over
 		auto pos = this_cp->getCrossOverPos(1, this_int_cnt.size());
 
-- 
2.43.0


From 4e42b118fc2503fff09131cc6182def13cb933db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:48 +0000
Subject: [PATCH 53/87] fix: a parameter scan must be serializable in XML mode

---
 .../geneva/G_OptimizationAlgorithm_ParameterScan.hpp   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
index b9a0bc5..49a91f8 100644
--- a/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
+++ b/include/geneva/G_OptimizationAlgorithm_ParameterScan.hpp
@@ -165,7 +165,7 @@ class baseScanParT
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(Gem::Common::GPODVectorT<T>)
+        & make_nvp("GPODVectorT", boost::serialization::base_object<Gem::Common::GPODVectorT<T>>(*this))
         & BOOST_SERIALIZATION_NVP(m_var)
         & BOOST_SERIALIZATION_NVP(m_step)
         & BOOST_SERIALIZATION_NVP(m_nSteps)
@@ -466,7 +466,7 @@ class bScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<bool>);
+        & make_nvp("baseScanParT", boost::serialization::base_object<baseScanParT<bool>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -508,7 +508,7 @@ class int32ScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<std::int32_t>);
+        & make_nvp("baseScanParT", boost::serialization::base_object<baseScanParT<std::int32_t>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -550,7 +550,7 @@ class dScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<double>);
+        & make_nvp("baseScanParT", boost::serialization::base_object<baseScanParT<double>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
@@ -593,7 +593,7 @@ class fScanPar
         using boost::serialization::make_nvp;
 
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(baseScanParT<float>);
+        & make_nvp("baseScanParT", boost::serialization::base_object<baseScanParT<float>>(*this));
     }
 
     ///////////////////////////////////////////////////////////////////////
-- 
2.43.0


From fc41b5b1b12aa0854b2d96912ba8e6458a6f3bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 54/87] fix: evolutionary algorithms must accept more
 individuals than required at the start

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 500fc83..6c0a9bf 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -521,7 +521,9 @@ void GEvolutionaryAlgorithm::runFitnessCalculation_() {
 	}
 
 
-	if(this->size() != this->getDefaultPopulationSize()) {
+	// In the first iteration there may be more individuals than required. They
+	// will be removed after selection.
+	if(this->size() < this->getDefaultPopulationSize() || (this->size() > this->getDefaultPopulationSize() && not this->inFirstIteration())) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
 				<< "In GEvolutionaryAlgorithm::runFitnessCalculation(): Error!" << std::endl
-- 
2.43.0


From 4e142d84dd91b5dd2791d5878e115f453570523a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 55/87] fix: check the nominal population size, not the number
 of individuals added by the user

---
 src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp | 3 ++-
 src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
index 6c0a9bf..607e184 100644
--- a/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_EvolutionaryAlgorithm.cpp
@@ -409,7 +409,8 @@ void GEvolutionaryAlgorithm::populationSanityChecks_() const {
 	// The pareto modes may fill up the parents with any other individual, so that they
 	// require just one child. They fall back to the corresponding single-criterion mode, though,
 	// if there is just one evaluation criterion.
-	std::size_t popSize = this->getPopulationSize();
+	// Surplus individuals will be removed in the first iteration, so we look at the nominal size.
+	std::size_t popSize = this->getDefaultPopulationSize();
 	bool single_eval_comma =
 		m_sorting_mode == sortingMode::MUCOMMANU_SINGLEEVAL
 		|| m_sorting_mode == sortingMode::MUNU1PRETAIN_SINGLEEVAL
diff --git a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
index a029833..09c9529 100644
--- a/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
+++ b/src/geneva/G_OptimizationAlgorithm_SimulatedAnnealing.cpp
@@ -323,7 +323,8 @@ void GSimulatedAnnealing::populationSanityChecks_() const {
 	}
 
 	// We need at least as many children as parents
-	std::size_t popSize = this->getPopulationSize();
+	// Surplus individuals will be removed in the first iteration, so we look at the nominal size.
+	std::size_t popSize = this->getDefaultPopulationSize();
 	if (popSize < 2 * this->m_n_parents) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
-- 
2.43.0


From 0468e7b4a8f946de30e5e57e9e47d5578865d51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 56/87] fix: loading objects whose smart pointers refer to
 objects of different types must not throw

---
 include/common/GCommonHelperFunctionsT.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/common/GCommonHelperFunctionsT.hpp b/include/common/GCommonHelperFunctionsT.hpp
index 12c281c..a4c91a8 100644
--- a/include/common/GCommonHelperFunctionsT.hpp
+++ b/include/common/GCommonHelperFunctionsT.hpp
@@ -471,7 +471,9 @@ void copyCloneableSmartPointer (
 	if(not from) {
 		to.reset();
 	} else {
-		if(not to) {
+		// An object can only load data from another one of the same type
+		const T *from_raw = from.get(), *to_raw = to.get();
+		if(not to_raw || typeid(*from_raw) != typeid(*to_raw)) {
 			to = from->T::template clone<T>();
 		} else {
 			to->T::load(from);
-- 
2.43.0


From 20863cb668a1c2c10b4f1a6ef435be462c71301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 57/87] fix: assigning integer and boolean values needs to
 respect the activity mode

---
 include/geneva/GParameterBase.hpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/geneva/GParameterBase.hpp b/include/geneva/GParameterBase.hpp
index 94e3491..4f20ef7 100644
--- a/include/geneva/GParameterBase.hpp
+++ b/include/geneva/GParameterBase.hpp
@@ -1076,11 +1076,13 @@ inline void GParameterBase::assignValueVector<std::int32_t>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignInt32ValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignInt32ValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
@@ -1096,11 +1098,13 @@ inline void GParameterBase::assignValueVector<bool>(
     , std::size_t &pos
     , activityMode am
 ) {
-    this->assignBooleanValueVector(
-        parVec
-        , pos
-        , am
-    );
+    if (this->modifiableAmMatchOrHandover(am)) {
+        this->assignBooleanValueVector(
+            parVec
+            , pos
+            , am
+        );
+    }
 }
 
 /******************************************************************************/
-- 
2.43.0


From 8d40a11f7d2a0a7c4b9f7d998c1e1ba60c71d1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 58/87] fix: setting boundaries of a collection has to look at
 the externally visible values

---
 include/geneva/GConstrainedNumCollectionT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geneva/GConstrainedNumCollectionT.hpp b/include/geneva/GConstrainedNumCollectionT.hpp
index 06822e7..4d57b5b 100644
--- a/include/geneva/GConstrainedNumCollectionT.hpp
+++ b/include/geneva/GConstrainedNumCollectionT.hpp
@@ -255,7 +255,7 @@ public:
     virtual void setBoundaries(const num_type &lower, const num_type &upper) BASE {
         std::vector<num_type> currentValues;
         for (std::size_t pos = 0; pos < this->size(); pos++) {
-            currentValues.push_back(GParameterCollectionT<num_type>::value(pos));
+            currentValues.push_back(this->value(pos));
 
             // Check that the value is inside the allowed range
             if (currentValues[pos] < lower || currentValues[pos] > upper) {
-- 
2.43.0


From 0d11f8574cdf373e60f9f2de9908ccef1e9ec449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 59/87] fix: constrained floating point values need to stay in
 range, and may be subnormal

---
 include/geneva/GConstrainedFPT.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/geneva/GConstrainedFPT.hpp b/include/geneva/GConstrainedFPT.hpp
index c05dc3b..e78cca7 100644
--- a/include/geneva/GConstrainedFPT.hpp
+++ b/include/geneva/GConstrainedFPT.hpp
@@ -277,6 +277,7 @@ public:
 #ifdef DEBUG
 		 switch(std::fpclassify(val)) {
 			 case FP_NORMAL:
+			 case FP_SUBNORMAL:
 			 case FP_ZERO:      {
 				 /* nothing */
 			 } break;
@@ -297,14 +298,6 @@ public:
 				 );
 			 } break;
 
-			 case FP_SUBNORMAL: {
-				 throw gemfony_exception(
-					 g_error_streamer(DO_LOG, time_and_place)
-						 << "In GConstrainedFPT::transfer(): Error" << std::endl
-						 << "val is subnormal" << std::endl
-				 );
-			 } break;
-
 			 default: {
 				 throw gemfony_exception(
 					 g_error_streamer(DO_LOG, time_and_place)
@@ -319,8 +312,10 @@ public:
 		 long double lowerBoundary = boost::numeric_cast<long double>(GConstrainedNumT<fp_type>::getLowerBoundary());
 		 long double upperBoundary = boost::numeric_cast<long double>(GConstrainedNumT<fp_type>::getUpperBoundary());
 
-		 if(localVal >= lowerBoundary && localVal < upperBoundary) {
+		 if(localVal >= lowerBoundary && localVal <= upperBoundary) {
 			 return val; // no cast needed
+		 } else if(not (lowerBoundary < upperBoundary)) {
+			 return GConstrainedNumT<fp_type>::getLowerBoundary(); // There is just one allowed value
 		 } else {
 			 // Find out which region the value is in (compare figure transferFunction.pdf
 			 // that should have been delivered with this software). Note that boost::numeric_cast<>
@@ -354,6 +349,10 @@ public:
 				 mapping = -localVal + ((long double)(region-1)*(upperBoundary - lowerBoundary) + 2*upperBoundary);
 			 }
 
+			 // Rounding errors must not take us out of the allowed range
+			 if(mapping < lowerBoundary) mapping = lowerBoundary;
+			 else if(mapping > upperBoundary) mapping = upperBoundary;
+
 			 // fabs(mapping) will always be <= fabs(val), so this cast should never fail (if val was a valid fp value)
 			 return boost::numeric_cast<fp_type>(mapping);
 		 }
-- 
2.43.0


From 8db353164ea5d66444dbf9ea179dcca804ef0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:40 +0000
Subject: [PATCH 60/87] fix: values of constrained floating point collections
 need to stay in range

---
 include/geneva/GConstrainedFPNumCollectionT.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/geneva/GConstrainedFPNumCollectionT.hpp b/include/geneva/GConstrainedFPNumCollectionT.hpp
index aafd3b9..dcc5c50 100644
--- a/include/geneva/GConstrainedFPNumCollectionT.hpp
+++ b/include/geneva/GConstrainedFPNumCollectionT.hpp
@@ -178,20 +178,22 @@ public:
         fp_type lowerBoundary = GConstrainedNumCollectionT<fp_type>::getLowerBoundary();
         fp_type upperBoundary = GConstrainedNumCollectionT<fp_type>::getUpperBoundary();
 
-        if (val >= lowerBoundary && val < upperBoundary) {
+        if (val >= lowerBoundary && val <= upperBoundary) {
             return val;
+        } else if (not (lowerBoundary < upperBoundary)) {
+            return lowerBoundary; // There is just one allowed value
         } else {
             // Find out which region the value is in (compare figure transferFunction.pdf
             // that should have been delivered with this software). Note that boost::numeric_cast<>
             // may throw - exceptions must be caught in surrounding functions.
-            std::int32_t region = 0;
+            std::int64_t region = 0;
 
 #ifdef DEBUG
-            region = boost::numeric_cast<std::int32_t>(
+            region = boost::numeric_cast<std::int64_t>(
                 Gem::Common::gfloor(
                     (fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
 #else
-            region =	static_cast<std::int32_t>(Gem::Common::gfloor((fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
+            region =	static_cast<std::int64_t>(Gem::Common::gfloor((fp_type(val) - fp_type(lowerBoundary)) / (fp_type(upperBoundary) - fp_type(lowerBoundary))));
 #endif
 
             // Check whether we are in an odd or an even range and calculate the
@@ -203,6 +205,10 @@ public:
                 mapping = -val + (fp_type(region - 1) * (upperBoundary - lowerBoundary) + 2 * upperBoundary);
             }
 
+            // Rounding errors must not take us out of the allowed range
+            if (mapping < lowerBoundary) mapping = lowerBoundary;
+            else if (mapping > upperBoundary) mapping = upperBoundary;
+
             return mapping;
         }
 
-- 
2.43.0


From 23b8b40de56cd4363fd8bac65f5d892bb7dc7af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:41 +0000
Subject: [PATCH 61/87] fix: mapping integer values to their range must not
 overflow

---
 include/geneva/GConstrainedIntT.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/geneva/GConstrainedIntT.hpp b/include/geneva/GConstrainedIntT.hpp
index 7f5073b..791999c 100644
--- a/include/geneva/GConstrainedIntT.hpp
+++ b/include/geneva/GConstrainedIntT.hpp
@@ -194,43 +194,44 @@ public:
             return val;
         } else {
             // The result
-            int_type mapping = int_type(0);
+            // Intermediate results may exceed the range of int_type
+            std::int64_t mapping = 0;
 
             // Find out the size of the value range. Note that both boundaries
             // are included, so that we need to add 1 to the difference.
-            int_type value_range = upperBoundary - lowerBoundary + int_type(1);
+            std::int64_t value_range = std::int64_t(upperBoundary) - std::int64_t(lowerBoundary) + 1;
 
             if (val < lowerBoundary) {
                 // Find out how many full value ranges val is below the lower boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nBelowLowerBoundary = (lowerBoundary - (val + int_type(1))) / value_range;
+                std::int64_t nBelowLowerBoundary = (std::int64_t(lowerBoundary) - (std::int64_t(val) + 1)) / value_range;
 
                 // We are dealing with descending (nBelowLowerBoundary is even) and
                 // ascending ranges (nBelowLowerBoundary is odd), which need to be treated differently
 
                 // Transfer the value into the allowed region
-                mapping = val + (value_range * (nBelowLowerBoundary + int_type(1)));
+                mapping = val + (value_range * (nBelowLowerBoundary + 1));
                 if (nBelowLowerBoundary % 2 == 0) { // nBelowLowerBoundary is even
                     // Revert the value to a descending sequence
-                    mapping = revert(mapping);
+                    mapping = revert(int_type(mapping));
                 }
             } else { // val > getUpperBoundary()
                 // Find out how many full value ranges val is above the upper boundary.
                 // We use integer division here, so 13/4 would be 3.
-                int_type nAboveUpperBoundary = (val - upperBoundary - int_type(1)) / value_range;
+                std::int64_t nAboveUpperBoundary = (std::int64_t(val) - std::int64_t(upperBoundary) - 1) / value_range;
 
                 // We are dealing with descending (nAboveUpperBoundary is even) and
                 // ascending ranges (nAboveUpperBoundary is odd), which need to be treated differently
 
                 // Transfer into the allowed region
-                mapping = val - (value_range * (nAboveUpperBoundary + int_type(1)));
+                mapping = val - (value_range * (nAboveUpperBoundary + 1));
                 if (nAboveUpperBoundary % 2 == 0) { // nAboveUpperBoundary is even
                     // Revert, as we are dealing with a descending value range
-                    mapping = revert(mapping);
+                    mapping = revert(int_type(mapping));
                 }
             }
 
-            return mapping;
+            return int_type(mapping);
         }
     }
 
-- 
2.43.0


From 390e634e5d229f5ee7da58c8dbb4ee0327702343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 62/87] fix: multiplying a constrained value needs to start
 from the externally visible value

---
 src/geneva/GConstrainedDoubleObject.cpp | 6 +++---
 src/geneva/GConstrainedInt32Object.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/geneva/GConstrainedDoubleObject.cpp b/src/geneva/GConstrainedDoubleObject.cpp
index 4877192..bb8d676 100644
--- a/src/geneva/GConstrainedDoubleObject.cpp
+++ b/src/geneva/GConstrainedDoubleObject.cpp
@@ -246,7 +246,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(min, max);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -258,7 +258,7 @@ void GConstrainedDoubleObject::doubleMultiplyByRandom(
 	, Gem::Hap::GRandomBase& gr
 ) {
 	std::uniform_real_distribution<double> uniform_real_distribution(0., 1.);
-	GParameterT<double>::setValue(transfer(GParameterT<double>::value() * uniform_real_distribution(gr)));
+	GParameterT<double>::setValue(transfer(this->value() * uniform_real_distribution(gr)));
 }
 
 /******************************************************************************/
@@ -269,7 +269,7 @@ void GConstrainedDoubleObject::doubleMultiplyBy(
 	const double &val
 	, const activityMode &am
 ) {
-	GParameterT<double>::setValue(transfer(val * GParameterT<double>::value()));
+	GParameterT<double>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
diff --git a/src/geneva/GConstrainedInt32Object.cpp b/src/geneva/GConstrainedInt32Object.cpp
index 39249ce..996c2a3 100644
--- a/src/geneva/GConstrainedInt32Object.cpp
+++ b/src/geneva/GConstrainedInt32Object.cpp
@@ -244,7 +244,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 ) {
 	std::uniform_int_distribution<std::int32_t> uniform_int_distribution(min, max);
 	GParameterT<std::int32_t>::setValue(
-		transfer(GParameterT<std::int32_t>::value() * uniform_int_distribution(gr))
+		transfer(this->value() * uniform_int_distribution(gr))
 	);
 }
 
@@ -260,7 +260,7 @@ void GConstrainedInt32Object::int32MultiplyByRandom(
 	GParameterT<std::int32_t>::setValue(
 		transfer(
 			boost::numeric_cast<std::int32_t>(
-				boost::numeric_cast<double>(GParameterT<std::int32_t>::value())
+				boost::numeric_cast<double>(this->value())
 				* uniform_real_distribution(gr)
 			)
 		)
@@ -275,7 +275,7 @@ void GConstrainedInt32Object::int32MultiplyBy(
 	const std::int32_t &val
 	, const activityMode &am
 ) {
-	GParameterT<std::int32_t>::setValue(transfer(val * GParameterT<std::int32_t>::value()));
+	GParameterT<std::int32_t>::setValue(transfer(val * this->value()));
 }
 
 /******************************************************************************/
-- 
2.43.0


From e920b69d926fea91e5379580b10fa5bd3090a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 63/87] fix: GNumGaussAdaptorT 5-argument constructor ignored
 all arguments but the probability

---
 include/geneva/GNumGaussAdaptorT.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index ef35362..b13a0a0 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -141,7 +141,14 @@ public:
 		 , const double& probability
 	 )
 		 : GAdaptorT<num_type> (probability)
-	 { /* nothing */ }
+	 {
+		 // These functions do error checks on their values
+		 setSigmaAdaptionRate(sigmaSigma);
+		 setSigmaRange(minSigma, maxSigma);
+		 setSigma(sigma); // Must be set last so an error check for compliance with the boundaries can be made
+
+		 sigma_reset_ = sigma_;
+	 }
 
 	 /***************************************************************************/
 	 /**
-- 
2.43.0


From 0616e19b931aac35120f9c8ca808ca2cf3081c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 64/87] fix: GNumGaussAdaptorT::updateOnStall ignored whether
 the adaption probability was reset

---
 include/geneva/GNumGaussAdaptorT.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index b13a0a0..19d0abf 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -404,11 +404,11 @@ public:
 		 , const num_type& range
 	 ) override {
 		 // Call our parent class'es function
-		 GAdaptorT<num_type>::updateOnStall(nStalls, range);
+		 bool updated = GAdaptorT<num_type>::updateOnStall(nStalls, range);
 
-		 // Reset the adaption probability
+		 // Reset sigma
 		 if(sigma_ == sigma_reset_) {
-			 return false;
+			 return updated;
 		 } else {
 			 sigma_ = sigma_reset_;
 			 return true;
-- 
2.43.0


From 835fddb3a16b3774fae68d06a5a12dda7babf4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 65/87] fix: setSigmaRange/setAdProbRange with an upper limit
 below the smallest allowed lower limit threw after modifying the limits

---
 include/geneva/GAdaptorT.hpp         | 9 +++++++++
 include/geneva/GNumGaussAdaptorT.hpp | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GAdaptorT.hpp b/include/geneva/GAdaptorT.hpp
index a57d192..461a2dc 100644
--- a/include/geneva/GAdaptorT.hpp
+++ b/include/geneva/GAdaptorT.hpp
@@ -483,6 +483,15 @@ public:
 		 }
 #endif /* DEBUG */
 
+		 // The lower boundary will be at least DEFMINADPROB
+		 if (maxAdProb < DEFMINADPROB) {
+			 throw gemfony_exception(
+				 g_error_streamer(DO_LOG, time_and_place)
+					 << "In GAdaptorT<T, fp_type>::setAdProbRange(): Error!" << std::endl
+					 << "maxAdProb is smaller than the smallest allowed value: " << maxAdProb << " / " << DEFMINADPROB << std::endl
+			 );
+		 }
+
 		 // Store the new values
 		 m_minAdProb = minAdProb;
 		 if (m_minAdProb < DEFMINADPROB) {
diff --git a/include/geneva/GNumGaussAdaptorT.hpp b/include/geneva/GNumGaussAdaptorT.hpp
index 19d0abf..f9206fb 100644
--- a/include/geneva/GNumGaussAdaptorT.hpp
+++ b/include/geneva/GNumGaussAdaptorT.hpp
@@ -257,7 +257,7 @@ public:
 	 ){
 		 using namespace Gem::Common;
 
-		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.)) {
+		 if(minSigma < fp_type(0.) || minSigma > maxSigma || maxSigma > fp_type(1.) || maxSigma < fp_type(DEFAULTMINSIGMA)) {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG, time_and_place)
 					 << "In GNumGaussAdaptorT::setSigmaRange(const fp_type&, const fp_type&):" << std::endl
-- 
2.43.0


From 060c11e55b596690b7a5a4b067ef28e7b26cfe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 66/87] fix: combined validity checks were lost in
 serialisation and load, constraints could not be serialised as XML

---
 include/geneva/GMultiConstraintT.hpp            | 11 ++++++++---
 include/geneva/GParameterSetMultiConstraint.hpp |  4 +++-
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/geneva/GMultiConstraintT.hpp b/include/geneva/GMultiConstraintT.hpp
index 1f10ed8..df15168 100644
--- a/include/geneva/GMultiConstraintT.hpp
+++ b/include/geneva/GMultiConstraintT.hpp
@@ -319,7 +319,10 @@ class GValidityCheckContainerT :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>);
+        & make_nvp(
+            "GPreEvaluationValidityCheckT"
+            , boost::serialization::base_object<GPreEvaluationValidityCheckT<ind_type>>(*this))
+        & BOOST_SERIALIZATION_NVP(validityChecks_);
     }
     ///////////////////////////////////////////////////////////////////////
 
@@ -502,7 +505,9 @@ class GCheckCombinerT:
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<ind_type>)
+        & make_nvp(
+            "GValidityCheckContainerT"
+            , boost::serialization::base_object<GValidityCheckContainerT<ind_type>>(*this))
         & BOOST_SERIALIZATION_NVP(combinerPolicy_);
     }
     ///////////////////////////////////////////////////////////////////////
@@ -656,7 +661,7 @@ protected:
         );
 
         // Load our parent class'es data ...
-        GPreEvaluationValidityCheckT<ind_type>::load_(cp);
+        GValidityCheckContainerT<ind_type>::load_(cp);
 
         // and then our local data
         combinerPolicy_ = p_load->combinerPolicy_;
diff --git a/include/geneva/GParameterSetMultiConstraint.hpp b/include/geneva/GParameterSetMultiConstraint.hpp
index f2114da..0db3f2c 100644
--- a/include/geneva/GParameterSetMultiConstraint.hpp
+++ b/include/geneva/GParameterSetMultiConstraint.hpp
@@ -72,7 +72,9 @@ class GParameterSetConstraint :
     void serialize(Archive &ar, const unsigned int) {
         using boost::serialization::make_nvp;
         ar
-        & BOOST_SERIALIZATION_BASE_OBJECT_NVP(GPreEvaluationValidityCheckT<GParameterSet>);
+        & make_nvp(
+            "GPreEvaluationValidityCheckT_GParameterSet"
+            , boost::serialization::base_object<GPreEvaluationValidityCheckT<GParameterSet>>(*this));
     }
     ///////////////////////////////////////////////////////////////////////
 public:
-- 
2.43.0


From b0dacf4f44201652d3ee46b981d8e8e5a611a39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:23 +0000
Subject: [PATCH 67/87] fix: GParameterSet::adapt left a changed individual
 unmarked when the last attempt made no adaption

---
 src/geneva/GParameterSet.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index 05d9ef3..a762ea5 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -817,6 +817,7 @@ std::size_t GParameterSet::adapt() {
 	std::size_t nAdaptionAttempts = 0;
 	std::size_t nAdaptions = 0; // This is a measure of the "effective" adaption probability
 	std::size_t nInvalidAdaptions = 0;
+	bool modified = false; // Set to true if at least one of the attempts has changed this object
 	double validity = 0;
 
 	// Perform adaptions until a valid solution was find. In the context
@@ -832,6 +833,7 @@ std::size_t GParameterSet::adapt() {
 		while (true) { // Try again if no adaption has taken place
 			// Perform the actual adaption; Terminate, if at least one adaption was performed
 			if ((nAdaptions = this->customAdaptions()) > 0) {
+				modified = true;
 				break;
 			}
 
@@ -850,7 +852,7 @@ std::size_t GParameterSet::adapt() {
 	}
 
 	// Make sure the individual is re-evaluated when fitness(...) is called next time
-	if(nAdaptions > 0) {
+	if(modified) {
 		this->mark_as_due_for_processing();
 	}
 
-- 
2.43.0


From cb7b94e43c4fa67f6c3212c8213dbe19866369a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:24 +0000
Subject: [PATCH 68/87] fix: setFitness_/cannibalize of an invalid individual
 left it due for processing

---
 src/geneva/GParameterSet.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/geneva/GParameterSet.cpp b/src/geneva/GParameterSet.cpp
index a762ea5..b2296ec 100644
--- a/src/geneva/GParameterSet.cpp
+++ b/src/geneva/GParameterSet.cpp
@@ -1746,6 +1746,13 @@ void GParameterSet::setFitness_(std::vector<double> const & f_cnt) {
 
 			this->setAllFitnessTo(this->getWorstCase(), uniformFitnessValue);
 		}
+
+		// Make it known that the results are now available
+		std::vector<parameterset_processing_result> processing_results;
+		for(std::size_t i=0; i<this->getNStoredResults(); i++) {
+			processing_results.push_back(this->modifyStoredResult(i));
+		}
+		this->markAsProcessedWith(processing_results);
 	}
 }
 
-- 
2.43.0


From fa741a348982702770d4d6fe49bb956d56b3d878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 69/87] fix: networked messages in XML mode lacked the closing
 tag and terminated the receiver

---
 include/courtier/GCommandContainerT.hpp | 46 +++++++++++++++++--------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index d11bc85..75586d1 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -231,31 +231,37 @@ std::string container_to_string(
 		switch (serMode) {
 			case Gem::Common::serializationMode::TEXT: {
 				std::ostringstream oss;
-				boost::archive::text_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{
+					boost::archive::text_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				} // The archive must be closed before the string is retrieved
 				return oss.str();
 			} break; // archive and stream closed at end of scope
 
 			case Gem::Common::serializationMode::XML: {
 				std::ostringstream oss;
-				boost::archive::xml_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{
+					boost::archive::xml_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				} // The archive must be closed before the string is retrieved
 				return oss.str();
 			} break;
 
 			case Gem::Common::serializationMode::BINARY: {
 				std::ostringstream oss(std::ios_base::binary);
-				boost::archive::binary_oarchive oa(oss);
-				oa << boost::serialization::make_nvp(
-					"command_container"
-					, container
-				);
+				{
+					boost::archive::binary_oarchive oa(oss);
+					oa << boost::serialization::make_nvp(
+						"command_container"
+						, container
+					);
+				} // The archive must be closed before the string is retrieved
 				return oss.str();
 			} break;
 		}
@@ -323,6 +329,16 @@ void container_from_string(
 			} break; // archive and stream closed at end of scope
 
 			case Gem::Common::serializationMode::XML: {
+				// The destructor of the input archive reads the closing tag and
+				// may not throw, so incomplete messages must be rejected early
+				if(std::string::npos == descr.rfind("</boost_serialization>")) {
+					throw gemfony_exception(
+						g_error_streamer(DO_LOG,  time_and_place)
+							<< "In container_from_string(GCommandContainerT<>):" << std::endl
+							<< "Received an incomplete XML message" << std::endl
+					);
+				}
+
 				std::istringstream iss(descr);
 				boost::archive::xml_iarchive ia(iss);
 				ia >> boost::serialization::make_nvp("command_container", container);
-- 
2.43.0


From 49029bf298c486b1a6c8277103bf527e2971b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 70/87] fix: an Asio client disappearing before it was answered
 terminated the server

---
 include/courtier/GAsioConsumerT.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index 1f8fd2c..ddc3aec 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -315,7 +315,9 @@ private:
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
 		 // on the server side indicating that all data was written.
-		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send);
+		 // The server may already have closed the connection, which we will learn about when reading.
+		 boost::system::error_code shutdown_ec;
+		 m_socket_ptr->shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
 
 		 // Clear the outgoing message -- no longer needed
 		 m_outgoing_message_str.clear();
@@ -638,8 +640,10 @@ private:
 		 }
 
 		 // Shutdown the socket in send direction. This will result in an ec of boost::asio::error::eof
-		 // on the client-side indicating that all data was written.
-		 m_socket.shutdown(boost::asio::socket_base::shutdown_send);
+		 // on the client-side indicating that all data was written. The client may already have
+		 // gone, in which case there is nothing left to do. This must not affect other sessions.
+		 boost::system::error_code shutdown_ec;
+		 m_socket.shutdown(boost::asio::socket_base::shutdown_send, shutdown_ec);
 
 		 // Clear the outgoing message string, no longer needed
 		 m_outgoing_message_str.clear();
-- 
2.43.0


From 062246d2626e5cf5070a6c2dce9473d7952d166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 71/87] fix: a failing work item terminated or hung the
 networked client processing it

---
 include/courtier/GCommandContainerT.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GCommandContainerT.hpp b/include/courtier/GCommandContainerT.hpp
index 75586d1..76b4f71 100644
--- a/include/courtier/GCommandContainerT.hpp
+++ b/include/courtier/GCommandContainerT.hpp
@@ -187,13 +187,23 @@ public:
 
 	 //-------------------------------------------------------------------------
 	 /**
-	  * Processing of the payload (if any)
-	  *
-	  * // TODO: Check for errors during processing
+	  * Processing of the payload (if any). Errors during processing invalidate
+	  * the work item, but not the client it is processed in. The payload carries
+	  * information about the error back to its originator.
 	  */
 	 void process() {
 		 if(m_payload_ptr) {
-			 m_payload_ptr->process();
+			 try {
+				 m_payload_ptr->process();
+			 } catch(const g_processing_exception& e) {
+				 glogger
+					 << "In GCommandContainerT<processable_type, command_type>::process():" << std::endl
+					 << "The work item has flagged a processing exception with the message" << std::endl
+					 << e << std::endl
+					 << "The item will be returned. It is up to the recipient of the work item" << std::endl
+					 << "to decide on its fate" << std::endl
+					 << GWARNING;
+			 }
 		 } else {
 			 throw gemfony_exception(
 				 g_error_streamer(DO_LOG,  time_and_place)
-- 
2.43.0


From 8a5b70ce755f9a4df39ade0e99d2655c65391f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 72/87] fix: a late result for a port no longer present cost
 the client its connection

---
 include/courtier/GAsioConsumerT.hpp      | 14 ++++++++++++--
 include/courtier/GWebsocketConsumerT.hpp | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/courtier/GAsioConsumerT.hpp b/include/courtier/GAsioConsumerT.hpp
index ddc3aec..8434609 100644
--- a/include/courtier/GAsioConsumerT.hpp
+++ b/include/courtier/GAsioConsumerT.hpp
@@ -1116,10 +1116,20 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(const Gem::Courtier::buffer_not_present&) {
+			 // The producer is no longer interested in this result. This is not
+			 // the fault of the client, which should be able to continue its work.
 			 glogger
 				 << "In GAsioConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
+				 << "The originator of the work item is no longer available" << std::endl
 				 << "The item will be discarded" << std::endl
 				 << GWARNING;
 		 }
diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 072a0f5..98cb3c3 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -1428,10 +1428,20 @@ private:
 			 );
 		 }
 
-		 if(not m_broker_ptr->put(p, m_timeout)) {
+		 try {
+			 if(not m_broker_ptr->put(p, m_timeout)) {
+				 glogger
+					 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
+					 << "Work item could not be submitted to the broker" << std::endl
+					 << "The item will be discarded" << std::endl
+					 << GWARNING;
+			 }
+		 } catch(const Gem::Courtier::buffer_not_present&) {
+			 // The producer is no longer interested in this result. This is not
+			 // the fault of the client, which should be able to continue its work.
 			 glogger
 				 << "In GWebsocketConsumerT<>::putPayloadItem():" << std::endl
-				 << "Work item could not be submitted to the broker" << std::endl
+				 << "The originator of the work item is no longer available" << std::endl
 				 << "The item will be discarded" << std::endl
 				 << GWARNING;
 		 }
-- 
2.43.0


From 38aaca42d0b1cd3906d42876f9523ad08f74f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 73/87] fix: closing a websocket session blocked a server
 thread and could terminate the server

---
 include/courtier/GWebsocketConsumerT.hpp | 25 +++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 98cb3c3..1f73977 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -528,7 +528,8 @@ private:
 	  */
 	 void do_close(close_code cc) {
 		 if(m_ws.is_open()) {
-			 m_ws.close(cc);
+			 boost::system::error_code close_ec; // The server may already have gone
+			 m_ws.close(cc, close_ec);
 		 }
 
 		 if(m_ws.next_layer().is_open()) {
@@ -1010,10 +1011,28 @@ private:
 		 m_timer.cancel();
 
 		 if(m_ws.is_open()) {
-			 // Close the connection
-			 m_ws.close(cc);
+			 // Close the connection. This needs to wait for the reaction of the peer, which
+			 // may not respond or may already have gone. Neither must affect other sessions.
+			 auto self = this->shared_from_this();
+			 m_ws.async_close(
+				 cc
+				 , boost::asio::bind_executor(
+					 m_strand
+					 , [self](boost::system::error_code /* unused */) {
+						 self->close_next_layer();
+					 }
+				 )
+			 );
+		 } else {
+			 close_next_layer();
 		 }
+	 }
 
+	 //-------------------------------------------------------------------------
+	 /**
+	  * Shuts down the ASIO connection to the peer
+	  */
+	 void close_next_layer() {
 		 if(m_ws.next_layer().is_open()) {
 			 boost::system::error_code ec;
 
-- 
2.43.0


From eb4733f5b5f59658fd54dda9204dde6ae739bc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 74/87] fix: websocket client used its buffer and stream from
 two threads

---
 include/courtier/GWebsocketConsumerT.hpp | 31 +++++++++++++++---------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index 1f73977..f05fb6b 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -434,11 +434,16 @@ private:
 		 // Deal with the message and send a response back. Processing
 		 // of work items is done inside of process_request().
 		 try {
+			 // Extract the string from the buffer and clear it for the next read. This must
+			 // happen before the next read is started, as the buffer is not thread-safe.
+			 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
+			 m_incoming_buffer.consume(m_incoming_buffer.size());
+
 			 // Start asynchronous processing of the work item.
 			 auto self = this->shared_from_this();
 			 m_gtp.async_schedule(
-				 [self]() {
-					 self->process_request();
+				 [self, message]() {
+					 self->process_request(message);
 				 }
 			 );
 
@@ -457,17 +462,13 @@ private:
 	 //-------------------------------------------------------------------------
 	 /**
 	  * Processing of incoming messages and creation of responses takes place here
+	  *
+	  * @param message The message received from the server
 	  */
-	 void process_request(){
+	 void process_request(const std::string& message){
 	 	 // Make it known that we are processing a new work item
 		 m_processing_is_active = true;
 
-		 // Extract the string from the buffer
-		 auto message = boost::beast::buffers_to_string(m_incoming_buffer.data());
-
-		 // Clear the buffer, so we may later fill it with data to be sent
-		 m_incoming_buffer.consume(m_incoming_buffer.size());
-
 		 // De-serialize the object
 		 Gem::Courtier::container_from_string(
 			 message
@@ -516,8 +517,16 @@ private:
 		 // Processing has finished
 		 m_processing_is_active = false;
 
-		 // Serialize the object again and return the result
-		 this->async_start_write(Gem::Courtier::container_to_string(m_command_container, m_serialization_mode));
+		 // Serialize the object again and return the result. All operations on
+		 // the websocket need to be started from the thread running the io_context
+		 auto self = this->shared_from_this();
+		 auto response = Gem::Courtier::container_to_string(m_command_container, m_serialization_mode);
+		 boost::asio::post(
+			 m_io_context
+			 , [self, response]() {
+				 self->async_start_write(response);
+			 }
+		 );
 	 }
 
 	 //-------------------------------------------------------------------------
-- 
2.43.0


From 27d0d48d23662a99d5e7b2923ceb56231ec3a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:12 +0000
Subject: [PATCH 75/87] fix: websocket client hung after an unusable message or
 when asked to stop

---
 include/courtier/GWebsocketConsumerT.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/courtier/GWebsocketConsumerT.hpp b/include/courtier/GWebsocketConsumerT.hpp
index f05fb6b..76743d1 100644
--- a/include/courtier/GWebsocketConsumerT.hpp
+++ b/include/courtier/GWebsocketConsumerT.hpp
@@ -228,8 +228,12 @@ private:
 	  * @param message The message to be transferred to the peer
 	  */
 	 void async_start_write(const std::string& message) {
-		 // Do nothing if we have been asked to stop
-		 if(this->halt()) return;
+		 // Do nothing if we have been asked to stop. As a read operation
+		 // may be pending, we need to explicitly leave the main loop
+		 if(this->halt()) {
+			 m_io_context.stop();
+			 return;
+		 }
 
 		 // We need to persist the message for asynchronous operations.
 		 // It is hence stored in a class variable.
@@ -443,7 +447,18 @@ private:
 			 auto self = this->shared_from_this();
 			 m_gtp.async_schedule(
 				 [self, message]() {
-					 self->process_request(message);
+					 try {
+						 self->process_request(message);
+					 } catch(...) {
+						 glogger
+							 << "In GWebsocketClientT<processable_type>::when_read():" << std::endl
+							 << "Caught exception while dealing with a message. This will terminate the client." << std::endl
+							 << GWARNING;
+
+						 // There will be no answer to the server, hence it would not contact us again
+						 self->m_close_code = boost::beast::websocket::close_code::internal_error;
+						 self->m_io_context.stop();
+					 }
 				 }
 			 );
 
-- 
2.43.0


From 67f2f3101c2117ebb43ce4390eeb6d7bfe085828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 76/87] fix: defaults of vector options can be written to
 configuration files

---
 include/common/GParserBuilder.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index b104fe8..6b4bbfa 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1201,7 +1201,7 @@ public:
 	 )
 		 : GFileParsableI(optionNameVar, commentVar, isEssentialVar)
 		 , m_def_val_cnt(def_val)
-		 , m_par_cnt()
+		 , m_par_cnt(def_val)
 	 { /* nothing */ }
 
 	 /***************************************************************************/
@@ -1225,6 +1225,7 @@ protected:
 	  */
 	 void resetDefault(std::vector<parameter_type> const & def_val) {
 		 m_def_val_cnt = def_val;
+		 m_par_cnt = def_val;
 	 }
 
 	 /***************************************************************************/
@@ -1379,12 +1380,14 @@ private:
 		 }
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
+		 }
 
-			 par_it++;
+		 // The number of values may differ from the number of defaults
+		 pt.put((GParsableI::optionName(0) + ".value").c_str(), "");
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
@@ -1539,12 +1542,14 @@ private:
 
 
 		 // Add the value and default items
-		 auto par_it = GVectorParT<parameter_type>::m_par_cnt.cbegin();
 		 for(auto const& def_val: GVectorParT<parameter_type>::m_def_val_cnt) {
 			 pt.add((GParsableI::optionName(0) + ".default.item").c_str(), def_val);
-			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), *par_it);
+		 }
 
-			 par_it++;
+		 // The number of values may differ from the number of defaults
+		 pt.put((GParsableI::optionName(0) + ".value").c_str(), "");
+		 for(auto const& par: GVectorParT<parameter_type>::m_par_cnt) {
+			 pt.add((GParsableI::optionName(0) + ".value.item").c_str(), par);
 		 }
 	 }
 
-- 
2.43.0


From 606a9b6450f3f970ac2696c3a0de2b9a8288c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 77/87] fix: a vector option missing from a configuration file
 gets its default

---
 include/common/GParserBuilder.hpp | 36 ++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index 6b4bbfa..ac0aeb6 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1333,13 +1333,21 @@ private:
 	 void load_from(boost::property_tree::ptree const &pt) override {
 		 using namespace boost::property_tree;
 
-		 // Make sure the recipient vector is empty
-		 GVectorParT<parameter_type>::m_par_cnt.clear();
-
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+		 auto child = pt.get_child_optional(ppath.c_str());
+
+		 // Use the default values, if this option isn't part of the configuration file
+		 if(not child) {
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 // Only replace the stored values when all of them could be read
+		 std::vector<parameter_type> par_cnt;
+		 for(auto const& v: *child) {
+			 par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
 		 }
+		 GVectorParT<parameter_type>::m_par_cnt = par_cnt;
 	 }
 
 	 /***************************************************************************/
@@ -1494,13 +1502,21 @@ private:
 	 void load_from(boost::property_tree::ptree const & pt) override {
 		 using namespace boost::property_tree;
 
-		 // Make sure the recipient vector is empty
-		 GVectorParT<parameter_type>::m_par_cnt.clear();
-
 		 std::string ppath = GParsableI::optionName(0) + ".value";
-		 for(auto const& v: pt.get_child(ppath.c_str())) {
-			 GVectorParT<parameter_type>::m_par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+		 auto child = pt.get_child_optional(ppath.c_str());
+
+		 // Use the default values, if this option isn't part of the configuration file
+		 if(not child) {
+			 GVectorParT<parameter_type>::m_par_cnt = GVectorParT<parameter_type>::m_def_val_cnt;
+			 return;
+		 }
+
+		 // Only replace the stored values when all of them could be read
+		 std::vector<parameter_type> par_cnt;
+		 for(auto const& v: *child) {
+			 par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
 		 }
+		 GVectorParT<parameter_type>::m_par_cnt = par_cnt;
 	 }
 
 	 /***************************************************************************/
-- 
2.43.0


From 0061dc6781a74d1644f3ceff47b5817539302bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 78/87] fix: options registered without a comment keep their
 isEssential flag

---
 include/common/GParserBuilder.hpp | 126 +++++++++---------------------
 1 file changed, 35 insertions(+), 91 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index ac0aeb6..a702d62 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -2236,19 +2236,11 @@ public:
 
 		 std::shared_ptr<GFileSingleParsableParameterT<parameter_type>> singleParm_ptr;
 
-		 if (comment.empty()) {
-			 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
-				 new GFileSingleParsableParameterT<parameter_type>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
-				 new GFileSingleParsableParameterT<parameter_type>(
-					 optionName, comment, isEssential, def_val
-				 )
-			 );
-		 }
+		 singleParm_ptr = std::shared_ptr<GFileSingleParsableParameterT<parameter_type>>(
+			 new GFileSingleParsableParameterT<parameter_type>(
+				 optionName, comment, isEssential, def_val
+			 )
+		 );
 
 		 singleParm_ptr->registerCallBackFunction(callBack);
 
@@ -2294,19 +2286,11 @@ public:
 
 		 std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>> refParm_ptr;
 
-		 if (comment.empty()) {
-			 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
-				 new GFileReferenceParsableParameterT<parameter_type>(
-					 parameter, optionName, def_val
-				 )
-			 );
-		 } else {
-			 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
-				 new GFileReferenceParsableParameterT<parameter_type>(
-					 parameter, optionName, comment, isEssential, def_val
-				 )
-			 );
-		 }
+		 refParm_ptr = std::shared_ptr<GFileReferenceParsableParameterT<parameter_type>>(
+			 new GFileReferenceParsableParameterT<parameter_type>(
+				 parameter, optionName, comment, isEssential, def_val
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(refParm_ptr);
@@ -2381,19 +2365,11 @@ public:
 
 		 std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>> combParm_ptr;
 
-		 if (comment1.empty() && comment2.empty()) {
-			 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
-				 new GFileCombinedParsableParameterT<par_type1, par_type2>(
-					 optionName1, def_val1, optionName2, def_val2, combined_label
-				 )
-			 );
-		 } else {
-			 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
-				 new GFileCombinedParsableParameterT<par_type1, par_type2>(
-					 optionName1, comment1, def_val1, optionName2, comment2, def_val2, isEssential, combined_label
-				 )
-			 );
-		 }
+		 combParm_ptr = std::shared_ptr<GFileCombinedParsableParameterT<par_type1, par_type2>>(
+			 new GFileCombinedParsableParameterT<par_type1, par_type2>(
+				 optionName1, comment1, def_val1, optionName2, comment2, def_val2, isEssential, combined_label
+			 )
+		 );
 
 		 combParm_ptr->registerCallBackFunction(callBack);
 
@@ -2467,19 +2443,11 @@ public:
 
 		 std::shared_ptr<GFileVectorParsableParameterT<parameter_type>> vecParm_ptr;
 
-		 if (comment.empty()) {
-			 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
-				 new GFileVectorParsableParameterT<parameter_type>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
-				 new GFileVectorParsableParameterT<parameter_type>(
-					 optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 vecParm_ptr = std::shared_ptr<GFileVectorParsableParameterT<parameter_type>>(
+			 new GFileVectorParsableParameterT<parameter_type>(
+				 optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 vecParm_ptr->registerCallBackFunction(callBack);
 
@@ -2521,19 +2489,11 @@ public:
 
 		 std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>> vecRefParm_ptr;
 
-		 if (comment.empty()) {
-			 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
-				 new GFileVectorReferenceParsableParameterT<parameter_type>(
-					 stored_reference, optionName, def_val
-				 )
-			 );
-		 } else {
-			 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
-				 new GFileVectorReferenceParsableParameterT<parameter_type>(
-					 stored_reference, optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 vecRefParm_ptr = std::shared_ptr<GFileVectorReferenceParsableParameterT<parameter_type>>(
+			 new GFileVectorReferenceParsableParameterT<parameter_type>(
+				 stored_reference, optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(vecRefParm_ptr);
@@ -2605,19 +2565,11 @@ public:
 
 		 std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>> arrayParm_ptr;
 
-		 if (comment.empty()) {
-			 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
-				 new GFileArrayParsableParameterT<parameter_type, N>(
-					 optionName, def_val
-				 )
-			 );
-		 } else {
-			 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
-				 new GFileArrayParsableParameterT<parameter_type, N>(
-					 optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 arrayParm_ptr = std::shared_ptr<GFileArrayParsableParameterT<parameter_type, N>>(
+			 new GFileArrayParsableParameterT<parameter_type, N>(
+				 optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Register the call back function
 		 arrayParm_ptr->registerCallBackFunction(callBack);
@@ -2659,19 +2611,11 @@ public:
 #endif /* DEBUG */
 
 		 std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>> arrayRefParm_ptr;
-		 if (comment.empty()) {
-			 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
-				 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
-					 stored_reference, optionName, def_val
-				 )
-			 );
-		 } else {
-			 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
-				 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
-					 stored_reference, optionName, comment, def_val, isEssential
-				 )
-			 );
-		 }
+		 arrayRefParm_ptr = std::shared_ptr<GFileArrayReferenceParsableParameterT<parameter_type, N>>(
+			 new GFileArrayReferenceParsableParameterT<parameter_type, N>(
+				 stored_reference, optionName, comment, def_val, isEssential
+			 )
+		 );
 
 		 // Add to the proxy store
 		 m_file_parameter_proxies.push_back(arrayRefParm_ptr);
-- 
2.43.0


From 1d3b596e2e23ed4bb8245d2000134c24e5135043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 79/87] fix: configuration files can be created in the current
 directory

---
 include/common/GParserBuilder.hpp | 2 +-
 src/common/GParserBuilder.cpp     | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index a702d62..2abb7da 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -2760,7 +2760,7 @@ void configureFromFile(
 
 	// Check whether the target directory exists. It is a
 	// severe error if this is not the case.
-	if(not std::filesystem::exists(conf_file.parent_path())) {
+	if(conf_file.has_parent_path() && not std::filesystem::exists(conf_file.parent_path())) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG, time_and_place)
 				<< "In configureFromFile(" << conf_file << "): Error!" << std::endl
diff --git a/src/common/GParserBuilder.cpp b/src/common/GParserBuilder.cpp
index 18c792d..9613cb2 100644
--- a/src/common/GParserBuilder.cpp
+++ b/src/common/GParserBuilder.cpp
@@ -477,13 +477,14 @@ void GParserBuilder::writeConfigFile(
 			);
 		}
 
-		// Check that the target path exists and is a directory
-		if (not std::filesystem::exists(std::filesystem::path(configFile).remove_filename()) ||
-			 not std::filesystem::is_directory(std::filesystem::path(configFile).remove_filename())) { // We need to act on a copy
+		// Check that the target path exists and is a directory. A plain
+		// file name refers to the current directory
+		std::filesystem::path targetPath = configFile.has_parent_path() ? configFile.parent_path() : std::filesystem::path(".");
+		if (not std::filesystem::exists(targetPath) || not std::filesystem::is_directory(targetPath)) {
 			throw gemfony_exception(
 				g_error_streamer(DO_LOG,  time_and_place)
 					<< "In GParserBuilder::writeConfigFile(): Error!" << std::endl
-					<< "The target path " << std::filesystem::path(configFile).remove_filename().string()
+					<< "The target path " << targetPath.string()
 					<< " does not exist or is no directory." << std::endl
 			);
 		}
-- 
2.43.0


From f8bb8706d319b11b3931f1d4ff391a3d34c9ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 80/87] fix: no empty configuration file is left behind when
 there are no options

---
 src/common/GParserBuilder.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/common/GParserBuilder.cpp b/src/common/GParserBuilder.cpp
index 9613cb2..511371e 100644
--- a/src/common/GParserBuilder.cpp
+++ b/src/common/GParserBuilder.cpp
@@ -499,20 +499,20 @@ void GParserBuilder::writeConfigFile(
 		}
 	}
 
-	// Open the required configuration file
-	std::ofstream ofs(configFile);
-	if (not ofs) {
+	// Do some error checking
+	if (m_file_parameter_proxies.empty()) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
-				<< "In GParserBuilder::writeConfigFile(): Error writing configuration file " << configFile.string() << std::endl
+				<< "In GParserBuilder::writeConfigFile(): No variables found!" << std::endl
 		);
 	}
 
-	// Do some error checking
-	if (m_file_parameter_proxies.empty()) {
+	// Open the required configuration file
+	std::ofstream ofs(configFile);
+	if (not ofs) {
 		throw gemfony_exception(
 			g_error_streamer(DO_LOG,  time_and_place)
-				<< "In GParserBuilder::writeConfigFile(): No variables found!" << std::endl
+				<< "In GParserBuilder::writeConfigFile(): Error writing configuration file " << configFile.string() << std::endl
 		);
 	}
 
-- 
2.43.0


From 0c8e70a428bb84be7e6bdf88e7207fb179395b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 81/87] fix: vector options of type bool can be read back from
 configuration files

---
 include/common/GParserBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/common/GParserBuilder.hpp b/include/common/GParserBuilder.hpp
index 2abb7da..676114a 100644
--- a/include/common/GParserBuilder.hpp
+++ b/include/common/GParserBuilder.hpp
@@ -1345,7 +1345,7 @@ private:
 		 // Only replace the stored values when all of them could be read
 		 std::vector<parameter_type> par_cnt;
 		 for(auto const& v: *child) {
-			 par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+			 par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 		 GVectorParT<parameter_type>::m_par_cnt = par_cnt;
 	 }
@@ -1514,7 +1514,7 @@ private:
 		 // Only replace the stored values when all of them could be read
 		 std::vector<parameter_type> par_cnt;
 		 for(auto const& v: *child) {
-			 par_cnt.push_back(boost::lexical_cast<parameter_type>(v.second.data()));
+			 par_cnt.push_back(v.second.template get_value<parameter_type>());
 		 }
 		 GVectorParT<parameter_type>::m_par_cnt = par_cnt;
 	 }
-- 
2.43.0


From 47bacdd3dff4c653e7984896c8cbdca9695372ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 82/87] fix: plots of histograms without data can be written

---
 include/common/GPlotDesigner.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/common/GPlotDesigner.hpp b/include/common/GPlotDesigner.hpp
index 6170374..0a8c8ce 100644
--- a/include/common/GPlotDesigner.hpp
+++ b/include/common/GPlotDesigner.hpp
@@ -1687,6 +1687,9 @@ public:
 	  * Retrieves the minimum and maximum values in m_data
 	  */
     std::tuple<x_type, x_type> getMinMaxElements() const {
+        // There are no extremes without data
+        if (m_data.empty()) return std::make_tuple(x_type(0), x_type(0));
+
         auto minmax = std::minmax_element(
             m_data.begin()
             , m_data.end());
@@ -2235,6 +2238,9 @@ public:
 		* Retrieves the minimum and maximum values in m_data in x- and y-direction
 		*/
     std::tuple<x_type, x_type, y_type, y_type> getMinMaxElements() const {
+        // There are no extremes without data
+        if (m_data.empty()) return std::make_tuple(x_type(0), x_type(0), y_type(0), y_type(0));
+
         auto minmax_x = std::minmax_element(
             m_data.begin()
             , m_data.end()
-- 
2.43.0


From dbf3bb56c2a7bdad112bf5acf24fbb9f7bb09cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 83/87] fix: the solution logger prints names and types once,
 before the first solution

---
 include/geneva/GPluggableOptimizationMonitors.hpp | 2 ++
 src/geneva/GPluggableOptimizationMonitors.cpp     | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 9daf7fc..101b49e 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1223,6 +1223,8 @@ private:
 	 bool m_showValidity = true; ///< Indicates whether the validity of a solution should be shown
 	 bool m_printInitial = false; ///< Indicates whether the initial population should be printed
 	 bool m_showIterationBoundaries = false; ///< Indicates whether a comment indicating the end of an iteration should be printed
+
+	 bool m_headerPrinted = false; ///< Temporary: names and types have already been printed in the current run
 };
 
 /******************************************************************************/
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index ee3f8dc..bb886f8 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1021,6 +1021,9 @@ void GAllSolutionFileLogger::informationFunction_(
 				std::filesystem::rename(m_fileName, newFileName);
 			}
 
+			// A new run starts with a new file
+			m_headerPrinted = false;
+
 			if(m_printInitial) {
 				this->printPopulation("Initial population", goa);
 			}
@@ -1098,8 +1101,9 @@ void GAllSolutionFileLogger::printPopulation(
 		// Note that isGoodEnough may throw if loop acts on a "dirty" individual
 		if(not m_boundariesActive || ind->isGoodEnough(m_boundaries)) {
 			// Append the data to the external file
-			if(0 == pos && goa->inFirstIteration()) { // Only output name and type in the very first line (if at all)
+			if(not m_headerPrinted) { // Only output name and type before the very first solution of a run (if at all)
 				data << ind->toCSV(m_withNameAndType, m_withCommas, m_useRawFitness, m_showValidity);
+				m_headerPrinted = true;
 			} else {
 				data << ind->toCSV(false /* withNameAndType */, m_withCommas, m_useRawFitness, m_showValidity);
 			}
-- 
2.43.0


From 0381222e1d06554893bf9927e7aeb8bb5b8271ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 84/87] fix: the iteration results logger honours the choice of
 raw or transformed fitness

---
 src/geneva/GPluggableOptimizationMonitors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index bb886f8..9941d38 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1315,7 +1315,7 @@ void GIterationResultsFileLogger::informationFunction_(
 			std::size_t nIndividuals = goa->size();
 			for(std::size_t pos=0; pos<nIndividuals; pos++) {
 				std::shared_ptr<GParameterSet> ind = goa->template individual_cast<GParameterSet>(pos);
-				fitness_cnt = goa->at(pos)->raw_fitness_vec();
+				fitness_cnt = m_useRawFitness ? ind->raw_fitness_vec() : ind->transformed_fitness_vec();
 
 				std::size_t nFitnessCriteria = goa->at(0)->getNStoredResults();
 				for(std::size_t i=0; i<nFitnessCriteria; i++) {
-- 
2.43.0


From 20c7fc2d27d0e796b090d04c1272da799d38eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 85/87] fix: adaption and adaptor property loggers start each
 run without data of earlier runs

---
 include/geneva/GPluggableOptimizationMonitors.hpp | 5 +++++
 src/geneva/GPluggableOptimizationMonitors.cpp     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/geneva/GPluggableOptimizationMonitors.hpp b/include/geneva/GPluggableOptimizationMonitors.hpp
index 101b49e..fe21ffb 100644
--- a/include/geneva/GPluggableOptimizationMonitors.hpp
+++ b/include/geneva/GPluggableOptimizationMonitors.hpp
@@ -1827,6 +1827,11 @@ private:
 					std::filesystem::rename(m_fileName, newFileName);
 				}
 
+				// Data of earlier runs is not part of the new file
+				m_adaptorPropertyStore.clear();
+				m_maxIteration = 0;
+				m_nIterationsRecorded = 0;
+
 				// Make sure the progress plotter has the desired size
 				m_gpd.setCanvasDimensions(m_canvasDimensions);
 
diff --git a/src/geneva/GPluggableOptimizationMonitors.cpp b/src/geneva/GPluggableOptimizationMonitors.cpp
index 9941d38..2abd818 100644
--- a/src/geneva/GPluggableOptimizationMonitors.cpp
+++ b/src/geneva/GPluggableOptimizationMonitors.cpp
@@ -1597,6 +1597,11 @@ void GNAdpationsLogger::informationFunction_(
 				std::filesystem::rename(m_fileName, newFileName);
 			}
 
+			// Data of earlier runs is not part of the new file
+			m_nAdaptionsStore.clear();
+			m_maxIteration = 0;
+			m_nIterationsRecorded = 0;
+
 			// Make sure the progress plotter has the desired size
 			m_gpd.setCanvasDimensions(m_canvasDimensions);
 
-- 
2.43.0


From 239abce85ff7fafda43f32dbbbee094c01b09620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 86/87] fix: place holders of formulas with and without index
 find their values

---
 include/common/GFormulaParserT.hpp | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/include/common/GFormulaParserT.hpp b/include/common/GFormulaParserT.hpp
index b28b1d3..d18ee18 100644
--- a/include/common/GFormulaParserT.hpp
+++ b/include/common/GFormulaParserT.hpp
@@ -729,26 +729,27 @@ private:
 		for (cit = vm.begin(); cit != vm.end(); ++cit) {
 			key = cit->first;
 
-			if (1 == (cit->second).size()) { // Try just the key
-				value = Gem::Common::to_string((cit->second).at(0));
-				re = boost::xpressive::as_xpr("{{" + key + "}}");
-				formula = boost::xpressive::regex_replace(formula, re, value);
-
-			} else if ((cit->second).size() > 1) { // Try key[0], key[1] --> you may use formulas with place holders sin({{x[2]}})
-				std::size_t cnt = 0;
-				typename std::vector<fp_type>::const_iterator v_cit;
-				for (v_cit = (cit->second).begin(); v_cit != (cit->second).end(); ++v_cit) {
-					value = Gem::Common::to_string(*v_cit);
-					re = boost::xpressive::as_xpr("{{" + key + "[" + Gem::Common::to_string(cnt++) + "]" + "}}");
-					formula = boost::xpressive::regex_replace(formula, re, value);
-				}
-			} else { // The vector is empty
+			if ((cit->second).empty()) {
 				throw gemfony_exception(
 					g_error_streamer(DO_LOG, time_and_place)
 						<< "In GFormulaParserT::replacePlaceHolders(): Error!" << std::endl
 						<< "Vector is empty!" << std::endl
 				);
 			}
+
+			// Try just the key -- this is the first value
+			value = Gem::Common::to_string((cit->second).front());
+			re = boost::xpressive::as_xpr("{{" + key + "}}");
+			formula = boost::xpressive::regex_replace(formula, re, value);
+
+			// Try key[0], key[1] --> you may use formulas with place holders sin({{x[2]}})
+			std::size_t cnt = 0;
+			typename std::vector<fp_type>::const_iterator v_cit;
+			for (v_cit = (cit->second).begin(); v_cit != (cit->second).end(); ++v_cit) {
+				value = Gem::Common::to_string(*v_cit);
+				re = boost::xpressive::as_xpr("{{" + key + "[" + Gem::Common::to_string(cnt++) + "]" + "}}");
+				formula = boost::xpressive::regex_replace(formula, re, value);
+			}
 		}
 
 		return formula;
-- 
2.43.0


From ad7c342d0a35fca68ebda05212767b51a9ce6579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:58 +0000
Subject: [PATCH 87/87] fix: the code of a formula with numbers can be printed

---
 include/common/GFormulaParserT.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/common/GFormulaParserT.hpp b/include/common/GFormulaParserT.hpp
index d18ee18..c3f7600 100644
--- a/include/common/GFormulaParserT.hpp
+++ b/include/common/GFormulaParserT.hpp
@@ -973,8 +973,13 @@ private:
 		}
 
 		std::cout << "Code: ";
-		for (auto it: code_) {
-			std::cout << static_cast<std::size_t>(boost::get<byte_code>(it)) << " " << std::flush;
+		for (auto const & entry: code_) {
+			// Entries are either instructions or floating point values
+			if (auto const * instruction_ptr = boost::get<byte_code>(&entry)) {
+				std::cout << static_cast<std::size_t>(*instruction_ptr) << " " << std::flush;
+			} else {
+				std::cout << boost::get<fp_type>(entry) << " " << std::flush;
+			}
 		}
 		std::cout << std::endl;
 	}
-- 
2.43.0

