From f9a3d40507f98db075b52c3e0e8bceb37c9f441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 01/17] fix: ignore a 'done' message from a worker with no
 current job (null dereference)

---
 src/handlers/broker_handler.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index f84f791..5f74ceb 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -280,6 +280,11 @@ void broker_handler::process_worker_done(
 
 	request_ptr current = queue_->get_current_request(worker);
 
+	if (current == nullptr) {
+		logger_->error("Got 'done' message from worker {} which has no job assigned", worker->get_description());
+		return;
+	}
+
 	if (message.at(1) != current->data.get_job_id()) {
 		logger_->error("Got 'done' message from worker {} with mismatched job id - {} (message) vs. {} (worker)",
 			worker->get_description(),
-- 
2.43.0


From 0db58637068c19438ab96e2042214ee85096c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 02/17] fix: skip 'eval' messages too short to contain a header
 terminator (out of range access)

---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 5f74ceb..e58d505 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -92,6 +92,12 @@ void broker_handler::process_client_eval(
 	// Then let client know that we are alive and well
 	respond(message_container(broker_connect::KEY_CLIENTS, identity, {"ack"}));
 
+	// There must be a job identification and a terminated (possibly empty) list of headers
+	if (message.size() < 3) {
+		logger_->warn("Unexpected end of message from frontend. Skipped.");
+		return;
+	}
+
 	// Get job identification and parse headers
 	std::string job_id = message.at(1);
 	request::headers_t headers;
-- 
2.43.0


From 3d116759090feb5cd6fc2c8d3c7cc1899e8806eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 03/17] fix: do not throw on header values that are not valid
 numbers

---
 src/worker.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/worker.cpp b/src/worker.cpp
index 1935cbb..65a4296 100644
--- a/src/worker.cpp
+++ b/src/worker.cpp
@@ -1,5 +1,6 @@
 #include "worker.h"
 #include "helpers/string_to_hex.h"
+#include <stdexcept>
 
 bool header_matcher::match(const std::string &value)
 {
@@ -71,8 +72,14 @@ public:
 	 * Constructor.
 	 * @param my_value Base value for comparison. Will be converted to @a std::size_t type using std::stoul.
 	 */
-	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(std::stoul(my_value))
+	count_matcher(std::string my_value) : header_matcher(my_value), my_count_(0)
 	{
+		try {
+			my_count_ = std::stoul(my_value);
+		} catch (const std::logic_error &) {
+			// not a valid number, the worker does not offer any usable count
+			my_count_ = 0;
+		}
 	}
 
 	/** Destructor. */
@@ -89,7 +96,12 @@ public:
 
 bool count_matcher::match(const std::string &value)
 {
-	return my_count_ >= std::stoul(value);
+	try {
+		return my_count_ >= std::stoul(value);
+	} catch (const std::logic_error &) {
+		// not a valid number, so it cannot be matched
+		return false;
+	}
 }
 
 worker::worker(
-- 
2.43.0


From 549a4f17281d8450c1d53169fcbd866560c04b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 04/17] fix: ignore messages without any data frames (uncaught
 out_of_range)

---
 src/handlers/broker_handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index e58d505..26c873b 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -63,6 +63,12 @@ broker_handler::broker_handler(std::shared_ptr<const broker_config> config,
 
 void broker_handler::on_request(const message_container &message, const response_cb &respond)
 {
+	// A message without any frames contains no command
+	if (message.data.empty()) {
+		logger_->warn("Received an empty message. Skipped.");
+		return;
+	}
+
 	if (message.key == broker_connect::KEY_WORKERS) {
 		auto worker = workers_->find_worker_by_identity(message.identity);
 
-- 
2.43.0


From 1b8b6b6f439b65f2b41cc2b2d4019e496b8c32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 05/17] fix: do not process a message that could not be
 received completely

---
 src/reactor/reactor.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 95b8dd1..47d1d08 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -89,10 +89,10 @@ void reactor::start_loop()
 				if (i < pollitem_names.size()) {
 					// message came from a registered socket, fill in its key
 					received_msg.key = pollitem_names.at(i);
-					sockets_.at(received_msg.key)->receive_message(received_msg);
-
-					// messages from sockets must go through a handler
-					process_message(received_msg);
+					if (sockets_.at(received_msg.key)->receive_message(received_msg)) {
+						// messages from sockets must go through a handler
+						process_message(received_msg);
+					}
 				} else {
 					// message from the asynchronous handler socket
 					zmq::message_t zmessage;
-- 
2.43.0


From f89484ebee6b9338dfd51a20d609f10f6e3d4129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 06/17] fix: do not send a worker the job it already works on
 when it registers (single queue)

---
 src/queuing/single_queue_manager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1d4d87c..1c3c825 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -81,7 +81,8 @@ public:
         workers_.push_back(worker);
 
         if (current_request != nullptr) {
-            return current_request;
+            // the worker is already processing a request, there is nothing to be sent
+            return nullptr;
         }
 
         return assign_request(worker);
-- 
2.43.0


From dfa3ff19c6052ddbd761525cad869434a5ae8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 07/17] fix: give the worker another queued job after an
 internal error

---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 26c873b..90eb1a7 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -333,7 +333,10 @@ void broker_handler::process_worker_done(
 				failed_request->data.get_job_id(), "Job failed with '" + message.at(3) + "' and cannot be reassigned");
 		} else if (check_failure_count(failed_request, status_notifier, respond, message.at(3))) {
 			reassign_request(failed_request, respond);
-		} else {
+		}
+
+		// The worker is free (unless it got the same job again), so give it another job if there is one
+		if (queue_->get_current_request(worker) == nullptr) {
 			auto new_request = queue_->assign_request(worker);
 			if (new_request) {
 				send_request(worker, new_request, respond);
-- 
2.43.0


From 974be7aab5f3e84ca03eb0b74174ec23683c5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 08/17] fix: set liveness of new workers and avoid its
 underflow so that silent workers always expire

---
 src/handlers/broker_handler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 90eb1a7..142dc4d 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -233,6 +233,7 @@ void broker_handler::process_worker_init(
 
 	// Create a new worker with the basic information
 	auto new_worker = std::make_shared<worker>(identity, hwgroup, headers);
+	new_worker->liveness = config_->get_max_worker_liveness();
 	std::shared_ptr<request> current_request = nullptr;
 
 	// Load additional information
@@ -413,7 +414,9 @@ void broker_handler::process_timer(const message_container &message, const handl
 		worker_timers_[worker] += time;
 
 		if (worker_timers_[worker] > config_->get_worker_ping_interval()) {
-			worker->liveness -= 1;
+			if (worker->liveness > 0) {
+				worker->liveness -= 1;
+			}
 			worker_timers_[worker] = std::chrono::milliseconds(0);
 
 			if (worker->liveness <= 0) {
-- 
2.43.0


From 0a112b1ba3846d9544dc84e7b79abb0e941745ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 09/17] fix: forget the timer of an expired worker

---
 src/handlers/broker_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlers/broker_handler.cpp b/src/handlers/broker_handler.cpp
index 142dc4d..50614c4 100644
--- a/src/handlers/broker_handler.cpp
+++ b/src/handlers/broker_handler.cpp
@@ -432,6 +432,7 @@ void broker_handler::process_timer(const message_container &message, const handl
 		logger_->info("Worker {} expired", worker->get_description());
 
 		workers_->remove_worker(worker);
+		worker_timers_.erase(worker);
 		if (queue_->get_current_request(worker) != nullptr) {
 			queue_->get_current_request(worker)->failure_count += 1;
 		}
-- 
2.43.0


From 0430217f62a195355eac805a94d2d8f479c503c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 10/17] fix: always terminate multipart messages, even if there
 are no data frames

---
 src/reactor/reactor.cpp               | 5 +++--
 src/reactor/router_socket_wrapper.cpp | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 47d1d08..79f7123 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -170,7 +170,8 @@ void asynchronous_handler_wrapper::operator()(const message_container &message)
 {
 	reactor_socket_.send(unique_id_.data(), unique_id_.size(), ZMQ_SNDMORE);
 	reactor_socket_.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	reactor_socket_.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	reactor_socket_.send(
+		message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		reactor_socket_.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
@@ -214,7 +215,7 @@ void asynchronous_handler_wrapper::handler_thread()
 void asynchronous_handler_wrapper::send_response(zmq::socket_t &socket, const message_container &message)
 {
 	socket.send(message.key.data(), message.key.size(), ZMQ_SNDMORE);
-	socket.send(message.identity.data(), message.identity.size(), ZMQ_SNDMORE);
+	socket.send(message.identity.data(), message.identity.size(), message.data.empty() ? 0 : ZMQ_SNDMORE);
 
 	for (auto it = std::begin(message.data); it != std::end(message.data); ++it) {
 		socket.send(it->c_str(), it->size(), std::next(it) != std::end(message.data) ? ZMQ_SNDMORE : 0);
diff --git a/src/reactor/router_socket_wrapper.cpp b/src/reactor/router_socket_wrapper.cpp
index 91c4d3c..f072fd2 100644
--- a/src/reactor/router_socket_wrapper.cpp
+++ b/src/reactor/router_socket_wrapper.cpp
@@ -8,6 +8,10 @@ router_socket_wrapper::router_socket_wrapper(
 
 bool router_socket_wrapper::send_message(const message_container &source)
 {
+	// A message without data frames would leave an unterminated multipart message in the socket
+	if (source.data.empty()) {
+		return false;
+	}
 
 	try {
 		socket_.send(source.identity.c_str(), source.identity.size(), ZMQ_SNDMORE);
-- 
2.43.0


From 37ba99e125d6f16ae27957ac15ae4cb8f17574be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 11/17] fix: keep the order of jobs that arrived in the same
 millisecond or around a clock change

---
 src/queuing/single_queue_manager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/queuing/single_queue_manager.h b/src/queuing/single_queue_manager.h
index 1c3c825..366140d 100644
--- a/src/queuing/single_queue_manager.h
+++ b/src/queuing/single_queue_manager.h
@@ -91,7 +91,7 @@ public:
     request_ptr assign_request(worker_ptr worker) override
     {
         worker_jobs_[worker] = nullptr;
-        std::sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
+        std::stable_sort(jobs_.begin(), jobs_.end(), [this, worker] (const request_entry &a, const request_entry &b) {
             return comparator_->compare(a, b, worker);
         });
 
@@ -153,7 +153,7 @@ public:
             jobs_.push_back(request_entry{
                 .request = request,
                 .arrived_at = std::chrono::duration_cast<std::chrono::milliseconds>(
-                    std::chrono::system_clock::now().time_since_epoch()
+                    std::chrono::steady_clock::now().time_since_epoch()
                 ),
             });
         }
-- 
2.43.0


From 9b8e0c65fc905949ecd48cbc5ad5e5a6343312f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 12/17] fix: account for all the elapsed time in timer
 messages, not just for whole milliseconds of polling

---
 src/reactor/reactor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 79f7123..0a368cf 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -73,13 +73,16 @@ void reactor::start_loop()
 
 	termination_flag_.store(false);
 
+	auto last_tick = std::chrono::steady_clock::now();
+
 	// Enter the poll loop
 	while (!termination_flag_.load()) {
-		auto time_before_poll = std::chrono::system_clock::now();
 		zmq::poll(pollitems, std::chrono::milliseconds(100));
-		auto time_after_poll = std::chrono::system_clock::now();
 
-		auto elapsed_time = std::chrono::duration_cast<std::chrono::milliseconds>(time_after_poll - time_before_poll);
+		// Time since the last tick, including the time spent in handlers (the fraction is left for the next tick)
+		auto elapsed_time =
+			std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - last_tick);
+		last_tick += elapsed_time;
 
 		std::size_t i = 0;
 		for (auto item : pollitems) {
-- 
2.43.0


From b5c0362e40b027f950a78c87083bf5ce22d369f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 13/17] fix: percent-encode parameters of http requests

---
 src/helpers/curl.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index f223391..1b6eb18 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -7,6 +7,22 @@
 #endif
 
 
+/**
+ * Percent-encode a string so that it can be used in a http query.
+ * @param value string to be encoded
+ * @return encoded string
+ */
+static std::string url_encode(const std::string &value)
+{
+	std::unique_ptr<char, decltype(&curl_free)> escaped = {
+		curl_easy_escape(nullptr, value.c_str(), value.size()), curl_free};
+	if (!escaped) {
+		throw helpers::curl_exception("Cannot encode a http query");
+	}
+
+	return escaped.get();
+}
+
 std::string helpers::get_http_query(const curl_params &params)
 {
 	std::string result;
@@ -16,7 +32,7 @@ std::string helpers::get_http_query(const curl_params &params)
 			result += "&";
 		}
 
-		result += par.first + "=" + par.second;
+		result += url_encode(par.first) + "=" + url_encode(par.second);
 	}
 
 	return result;
-- 
2.43.0


From 6d50c8f8a17c67b1bb482ade3f20b1dfef3970f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 14/17] fix: report an error if curl cannot be initialized

---
 src/helpers/curl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/helpers/curl.cpp b/src/helpers/curl.cpp
index 1b6eb18..0635e72 100644
--- a/src/helpers/curl.cpp
+++ b/src/helpers/curl.cpp
@@ -68,6 +68,10 @@ std::string helpers::curl_get(const std::string &url,
 
 	// get curl handle
 	std::unique_ptr<CURL, decltype(&curl_easy_cleanup)> curl = {curl_easy_init(), curl_easy_cleanup};
+	if (!curl) {
+		throw curl_exception("Cannot initialize curl");
+	}
+
 	if (curl.get()) {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url_query.c_str());
@@ -126,6 +130,10 @@ std::string helpers::curl_post(const std::string &url,
 
 	// get curl handle
 	std::unique_ptr<CURL, decltype(&curl_easy_cleanup)> curl = {curl_easy_init(), curl_easy_cleanup};
+	if (!curl) {
+		throw curl_exception("Cannot initialize curl");
+	}
+
 	if (curl.get()) {
 		// destination address
 		curl_easy_setopt(curl.get(), CURLOPT_URL, url.c_str());
-- 
2.43.0


From f3bb5796b49c0fa5a32b4509b29aafc322ffc621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 15/17] fix: initialize the notifier port

---
 src/config/notifier_config.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/notifier_config.h b/src/config/notifier_config.h
index 48b906b..ef3af52 100644
--- a/src/config/notifier_config.h
+++ b/src/config/notifier_config.h
@@ -17,7 +17,7 @@ public:
 	/**
 	 * Port on which frontend runs.
 	 */
-	std::uint16_t port;
+	std::uint16_t port = 0;
 
 	/**
 	 * Username which is used in HTTP authentication.
-- 
2.43.0


From 0eae8b4b29a6d8bc22ddcef36ee13a51b0374621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:12 +0000
Subject: [PATCH 16/17] fix: do not lose a termination request made before the
 loop is entered

---
 src/reactor/reactor.cpp | 2 --
 src/reactor/reactor.h   | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reactor/reactor.cpp b/src/reactor/reactor.cpp
index 0a368cf..082a641 100644
--- a/src/reactor/reactor.cpp
+++ b/src/reactor/reactor.cpp
@@ -71,8 +71,6 @@ void reactor::start_loop()
 	pollitems.push_back(
 		zmq_pollitem_t{.socket = (void *) async_handler_socket_, .fd = 0, .events = ZMQ_POLLIN, .revents = 0});
 
-	termination_flag_.store(false);
-
 	auto last_tick = std::chrono::steady_clock::now();
 
 	// Enter the poll loop
diff --git a/src/reactor/reactor.h b/src/reactor/reactor.h
index 0117860..dcd52fe 100644
--- a/src/reactor/reactor.h
+++ b/src/reactor/reactor.h
@@ -216,7 +216,7 @@ private:
 	/**
 	 * Flag used to tell the reactor to terminate the main loop
 	 */
-	std::atomic<bool> termination_flag_;
+	std::atomic<bool> termination_flag_{false};
 };
 
 #endif // RECODEX_BROKER_REACTOR_H
-- 
2.43.0


From 8fbc2b1de2f6b2c9a02c76ddab6545c4fec29c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:58 +0000
Subject: [PATCH 17/17] fix: accept a log file name without a directory

The directory part of such a name is empty, and creating an empty directory
fails, so the broker refused to start.
---
 src/broker_core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broker_core.cpp b/src/broker_core.cpp
index 2903f04..e0da5ff 100644
--- a/src/broker_core.cpp
+++ b/src/broker_core.cpp
@@ -90,7 +90,7 @@ void broker_core::log_init()
 	// Try to create target directory for logs
 	auto path = fs::path(log_conf.log_path);
 	try {
-		if (!fs::is_directory(path)) {
+		if (!path.empty() && !fs::is_directory(path)) {
 			fs::create_directories(path);
 		}
 	} catch (fs::filesystem_error &e) {
-- 
2.43.0

