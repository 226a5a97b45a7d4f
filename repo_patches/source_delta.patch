From d50c7df4c83e09821c0d25d5b474146f720cf46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:44 +0000
Subject: [PATCH 01/54] fix: ring priorities above INT_MAX no longer wrap to
 negative values

---
 src/ringbuf.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 2590974..5aa30e4 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -89,9 +89,11 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	_dropcnt  = 0;
 	_timesource = &default_timesource;
 
-	_prio = opts.prio;
-	if (_prio > PRIORITY_CEILING)
+	// Clamp before converting to int (options use unsigned priority)
+	if (opts.prio > PRIORITY_CEILING)
 		_prio = PRIORITY_CEILING;
+	else
+		_prio = opts.prio;
 
 	// Compute the desired capacity.
 	// This field is used as a mask for advancing head and tail indexes
-- 
2.43.0


From 889a6273feaf1b778a246836e79f9a0e264b8c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:40 +0000
Subject: [PATCH 02/54] fix: flush and timesource requests that time out on a
 full ring no longer consume a sequence number

---
 src/flush.cc      | 3 +--
 src/timesource.cc | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/flush.cc b/src/flush.cc
index c593adb..38d3aeb 100644
--- a/src/flush.cc
+++ b/src/flush.cc
@@ -55,7 +55,6 @@ bool timeout(uint64_t &to, uint64_t usec)
 // records out of this ring will ack the flush record.
 static bool do_flush(ringbuf *ring, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -67,7 +66,7 @@ static bool do_flush(ringbuf *ring, uint64_t to_usec)
 	// Push the flush reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_FLUSH);
 	ring->push_commit(r);
 
diff --git a/src/timesource.cc b/src/timesource.cc
index 9cd84cd..f3b17db 100644
--- a/src/timesource.cc
+++ b/src/timesource.cc
@@ -57,7 +57,6 @@ extern bool timeout(uint64_t &to, uint64_t usec);
 // records out of this ring will ack the ts change record.
 static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec)
 {
-	uint64_t seq = ring->inc_seqnum();
 	uint64_t to = 0;
 
 	// Wait for some room in the ringbuf
@@ -69,7 +68,7 @@ static bool do_change_timesource(ringbuf *ring, timesource *ts, uint64_t to_usec
 	// Push the timesource change reccord
 	record *r = ring->push_begin();
 	r->timestamp = ring->timestamp();
-	r->seqnum    = seq;
+	r->seqnum    = ring->inc_seqnum();
 	r->special(internal::SPR_TIMESOURCE_CHANGE, (uint64_t) ts);
 	ring->push_commit(r);
 
-- 
2.43.0


From e2d6833c627aa0591e02ea7d7d65fb3766f19521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:12 +0000
Subject: [PATCH 03/54] fix: reorder buffer with capacity 1 no longer overflows

---
 src/engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 99ec9e1..7feef3a 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -384,9 +384,10 @@ void engine::do_flush_tso(unsigned int size)
 // Emergency TSO flush.
 // Called when TSO gets full and the engine must flush it.
 // We only flush half of it to avoid flushing records out-of-order.
+// At least one record must be flushed to make room for the next one.
 void engine::flush_full_tso()
 {
-	unsigned int size  = _tso.size() / 2;
+	unsigned int size  = (_tso.size() + 1) / 2;
 
 	if (_internal_area->test(internal::TSOFULLMARK)) {
 		tsobuf::entry te = {};
-- 
2.43.0


From 78b3b2b4f65ff0e8a12a973f4463d5390cf66ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:40 +0000
Subject: [PATCH 04/54] fix: writers blocked on a full ring are always woken up
 by the engine

---
 src/engine.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index 7feef3a..f877737 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -474,16 +474,19 @@ void engine::process_rings_tso()
 
 	// Commit all changes
 	for (i = 0; i < _ring_index.count; i++) {
-		if (!_ring_index(i)->lastrec)
-			continue;
-
 		ringbuf::pop_iterator &it = _ring_index(i)->pit;
 		if (hogl_unlikely(!it.valid()))
 			continue;
-		it.rewind(_ring_index(i)->lastrec);
-		it.commit(ringbuf::NOBARRIER);
+
+		if (_ring_index(i)->lastrec) {
+			it.rewind(_ring_index(i)->lastrec);
+			it.commit(ringbuf::NOBARRIER);
+			_ring_index(i)->lastrec = 0;
+		}
+
+		// Must be done even if nothing was released in this pass.
+		// The writer may have decided to wait just before the previous commit.
 		it.ring()->unblock();
-		_ring_index(i)->lastrec = 0;
 	}
 }
 
-- 
2.43.0


From 6c4b14626ff9312b6146b6e03161f4be4af67e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 05/54] fix: no false drop reports when a ring moves to another
 engine

---
 include/hogl/detail/ringbuf.hpp | 5 +++++
 src/engine.cc                   | 6 ++++--
 src/ringbuf.cc                  | 2 ++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 37c9067..4f4fa06 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -109,6 +109,11 @@ protected:
 	// R/O access by the writer
 	vo_uint         _head;
 
+	// Sequence number of the next record to be consumed.
+	// Used by the engine for detecting dropped records. It lives here because
+	// a ring can be registered with another engine later (ie default ring).
+	uint64_t        _next_seqnum;
+
 	/**
  	 * Get a pointer the record with a specific index 
  	 * @param i record index.
diff --git a/src/engine.cc b/src/engine.cc
index f877737..b4c7a70 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -218,7 +218,7 @@ void engine::rebuild_ring_index()
 		ringbuf *ring = it->second;
 		ni(i)->pit.ring(ring);
 		ni(i)->lastrec = 0;
-		ni(i)->seqnum    = 0;
+		ni(i)->seqnum    = ring->_next_seqnum;
 
 		ring_index::entry *re = oi(ring);
 		if (re) {
@@ -287,7 +287,7 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 
 void engine::flush_record(unsigned int i, record *r)
 {
-	const ringbuf *ring = _ring_index(i)->pit.ring();
+	ringbuf *ring = _ring_index(i)->pit.ring();
 
 	if (r->special()) {
 		// Process special record
@@ -310,6 +310,8 @@ void engine::flush_record(unsigned int i, record *r)
 		_output.process(d);
 	}
 
+	ring->_next_seqnum = r->seqnum + 1;
+
 	_stats.recs_out++;
 }
 
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 5aa30e4..43ddc00 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -87,6 +87,7 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	_flags    = opts.flags;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_next_seqnum = 0;
 	_timesource = &default_timesource;
 
 	// Clamp before converting to int (options use unsigned priority)
@@ -159,6 +160,7 @@ void ringbuf::reset(void)
 	_head = _capacity;
 	_seqnum   = 0;
 	_dropcnt  = 0;
+	_next_seqnum = 0;
 	unlock();
 }
 
-- 
2.43.0


From 3102bad64f25c5a6c73dc3ca57bd76be150a6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 06/54] fix: flush requests are acknowledged only after the
 output has been flushed

---
 src/engine.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index b4c7a70..6b7326f 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -297,6 +297,11 @@ void engine::flush_record(unsigned int i, record *r)
 			break;
 
 		case internal::SPR_FLUSH:
+			// Everything up to this record must be in the output
+			// stream before the caller is let go.
+			_output.flush();
+			break;
+
 		default:
 			break;
 		};
-- 
2.43.0


From 8bc582e224b8154d9f33f5369b68334b2c0aed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 07/54] fix: new rings cannot miss a concurrent timesource
 change

---
 src/engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine.cc b/src/engine.cc
index 6b7326f..b249847 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -661,9 +661,10 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 
 	ringbuf *nr = new ringbuf(name, opts);
 	nr->hold();
-	nr->timesource(_timesource);
 
 	pthread_mutex_lock(&_ring_mutex);
+	// Must be done under the lock, otherwise we may race with the timesource change.
+	nr->timesource(_timesource);
 	s = _ring_map.insert(ring_map::value_type(name, nr));
 	s.first->second->hold();
 	pthread_mutex_unlock(&_ring_mutex);
-- 
2.43.0


From ed9c67f7e5e23fab12afcdbcd22878dccb42068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 08/54] fix: hexdump with zero line width no longer loops
 forever

---
 src/format-basic.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index b6dc737..65cb344 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -68,19 +68,20 @@ format_basic::format_basic(const char *fields) :
 
 static void do_hexdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t n, const hogl::arg_xdump::format& xf)
 {
-	unsigned int offset;
-	for (offset = 0; offset < n; offset += xf.line_width) {
+	// Zero line width means single line
+	unsigned int offset, line_width = xf.line_width ? xf.line_width : n;
+	for (offset = 0; offset < n; offset += line_width) {
 		sb.printf("\n\t%03d: ", offset);
 
 		unsigned int i;
-		for (i = 0; i < xf.line_width; i++) {
+		for (i = 0; i < line_width; i++) {
 			if ((i + offset) < n)
 				sb.printf("%02x ", data[offset + i]);
 			else
 				sb.push_back("   ");
 		}
 		sb.push_back("  ");
-		for (i = 0; i < xf.line_width && ((i + offset) < n); i++) {
+		for (i = 0; i < line_width && ((i + offset) < n); i++) {
 			uint8_t b = data[offset + i];
 			sb.push_back(isprint(b) ? b : '.');
 		}
-- 
2.43.0


From 85111dd2d6c32757e64bf1937a196e3d3bc1c43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:26 +0000
Subject: [PATCH 09/54] fix: dumps that did not fit into the record are no
 longer printed from past the record data

---
 src/format-basic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index 65cb344..5004352 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -150,6 +150,10 @@ static void do_xdump(hogl::ostrbuf &sb, const uint8_t *data, uint32_t len)
 {
 	const arg_xdump::format& xf = *(const arg_xdump::format *) data;
 
+	// Record had no room for the dump (or it is damaged)
+	if (len < sizeof(arg_xdump::format) || !xf.byte_width)
+		return;
+
 	const uint8_t *ptr = data + sizeof(arg_xdump::format);
 	len = (len - sizeof(arg_xdump::format)) / xf.byte_width;
 
-- 
2.43.0


From 71e6efdcb1aa55eedb454818dedfb640eebae666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:36 +0000
Subject: [PATCH 10/54] fix: null global strings no longer terminate the
 process when formatted

---
 src/format-basic.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/format-basic.cc b/src/format-basic.cc
index 5004352..64a967c 100644
--- a/src/format-basic.cc
+++ b/src/format-basic.cc
@@ -521,6 +521,8 @@ static const char* get_arg_str(const record& r, unsigned int type, unsigned int
 		ptr = r.get_arg_val32(i);
 	else
 		ptr = r.get_arg_val64(i);
+	if (!ptr)
+		return "null";
 	return (const char *) ptr;
 }
 
-- 
2.43.0


From c6602fdcd5020613bb1bd18a305f87970607aa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:25 +0000
Subject: [PATCH 11/54] fix: masks read from streams contain one rule per line

---
 src/mask.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mask.cc b/src/mask.cc
index eb43b80..730de63 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -29,8 +29,9 @@
 #include <stdarg.h>
 
 #include <map>
+#include <istream>
+#include <ostream>
 #include <string>
-#include <sstream>
 #include <regex>
 
 #include "hogl/detail/mask.hpp"
@@ -115,13 +116,12 @@ mask& mask::operator<< (const std::string &str)
 
 std::istream& operator>> (std::istream &s, mask &m)
 {
-	std::stringbuf sb;
+	std::string str;
 
 	// Read lines from the stream and feed them into the mask
-	while (s.good()) {
-		sb.str("");
-		s.get(sb);
-		m << sb.str();
+	while (std::getline(s, str)) {
+		if (!str.empty())
+			m << str;
 	}
 
 	return s;
-- 
2.43.0


From 302f7f332435554ecfd6d11f552e06514968f109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:25 +0000
Subject: [PATCH 12/54] fix: assigning a mask to itself no longer uses freed
 memory

---
 src/mask.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mask.cc b/src/mask.cc
index 730de63..3fca728 100644
--- a/src/mask.cc
+++ b/src/mask.cc
@@ -183,6 +183,9 @@ mask::mask(mask &m)
 
 void mask::operator=(const mask &m)
 {
+	if (this == &m)
+		return;
+
 	delete _list;
 	_list = new data_list(*m._list);
 }
-- 
2.43.0


From 215dc4cc33845a48e20b71152e9ced28e3cff319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:31 +0000
Subject: [PATCH 13/54] fix: masks are applied to new areas under the area lock

---
 src/engine.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/engine.cc b/src/engine.cc
index b249847..59b839e 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -624,13 +624,14 @@ area *engine::add_area(const char *name, const char **sections)
 	s = _area_map.insert(area_map::value_type(name, na));
 	a = s.first->second;
 	_stats.areas_added++;
-	pthread_mutex_unlock(&_area_mutex);
-
 	if (s.second != false) {
 		// New area.
-		// Apply current mask before returning the area to the caller.
+		// Apply current mask before anybody else can see it.
 		_mask.apply(a);
+	}
+	pthread_mutex_unlock(&_area_mutex);
 
+	if (s.second != false) {
 		hogl::post(internal_area(), internal::AREA_DEBUG,
 			"new area %s(%p): number-of-sections %u", a->name(), a, a->count());
 
-- 
2.43.0


From 173f6776cac9e1a49b79befaf39613c50428ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:32 +0000
Subject: [PATCH 14/54] fix: rings picked up while the engine was about to
 remove them stay registered

---
 src/engine.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index 59b839e..d5051cb 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -272,6 +272,13 @@ void engine::kill_orphan(unsigned int i, ringbuf *ring)
 	// This is not critical. We don't want to stall the engine 
 	// thread just to cleanup an orphan.
 	if (!pthread_mutex_trylock(&_ring_mutex)) {
+		// Somebody may have picked this ring up (and posted to it)
+		// before we got the lock.
+		if (!ring->orphan() || !ring->empty()) {
+			pthread_mutex_unlock(&_ring_mutex);
+			return;
+		}
+
 		_ring_map.erase(ring->name());
 
 		// Invalidate index. It will be rebuilt next time we
-- 
2.43.0


From 98a3f1895bd805fb2b236f4b19ba3281d794895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 15/54] fix: partial and interrupted writes no longer lose data

---
 include/hogl/detail/ostrbuf-fd.hpp | 13 +++++++++++++
 src/ostrbuf-fd.cc                  | 30 +++++++++++++++++++++++++++++-
 src/output-file.cc                 |  4 ++--
 3 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/ostrbuf-fd.hpp b/include/hogl/detail/ostrbuf-fd.hpp
index 8fd80dd..5788f32 100644
--- a/include/hogl/detail/ostrbuf-fd.hpp
+++ b/include/hogl/detail/ostrbuf-fd.hpp
@@ -32,6 +32,9 @@
 #ifndef HOGL_DETAIL_OSTRBUF_FD_HPP
 #define HOGL_DETAIL_OSTRBUF_FD_HPP
 
+#include <sys/types.h>
+#include <sys/uio.h>
+
 #include <hogl/detail/ostrbuf.hpp>
 
 __HOGL_PRIV_NS_OPEN__
@@ -59,6 +62,16 @@ public:
 	// Explicitly close the file descriptor
 	void close(); 
 
+	/**
+	 * Write all data to the file descriptor.
+	 * Unlike the system call it continues after interrupted and partial writes.
+	 * @param fd file descriptor
+	 * @param iov pointer to the iovec
+	 * @param iovcnt number of entries in the iovec
+	 * @return number of bytes written or -1 on error
+	 */
+	static ssize_t write_all(int fd, const struct iovec *iov, int iovcnt);
+
 	/**
 	 * Constructor.
 	 * @param fd file descriptor
diff --git a/src/ostrbuf-fd.cc b/src/ostrbuf-fd.cc
index bf8737f..dcdea81 100644
--- a/src/ostrbuf-fd.cc
+++ b/src/ostrbuf-fd.cc
@@ -40,6 +40,34 @@
 __HOGL_PRIV_NS_OPEN__
 namespace hogl {
 
+ssize_t ostrbuf_fd::write_all(int fd, const struct iovec *iov, int iovcnt)
+{
+	size_t total = 0;
+	size_t done  = 0; // Number of bytes of the first entry that have been written
+
+	while (iovcnt) {
+		ssize_t r;
+		if (done)
+			r = ::write(fd, (const uint8_t *) iov->iov_base + done, iov->iov_len - done);
+		else
+			r = ::writev(fd, iov, iovcnt);
+		if (r < 0) {
+			if (errno == EINTR)
+				continue;
+			return -1;
+		}
+
+		total += r;
+		done  += r;
+		while (iovcnt && done >= iov->iov_len) {
+			done -= iov->iov_len;
+			iov++; iovcnt--;
+		}
+	}
+
+	return total;
+}
+
 void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 {
 	if (failed())
@@ -63,7 +91,7 @@ void ostrbuf_fd::do_flush(const uint8_t *data, size_t len)
 	}
 
 	if (i) {
-		int r = ::writev(_fd, iov, i);
+		ssize_t r = write_all(_fd, iov, i);
 		if (r < 0)
 			ostrbuf::failure(strerror(errno));
 	}
diff --git a/src/output-file.cc b/src/output-file.cc
index 0eea4de..5c5dca7 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -75,7 +75,7 @@ private:
 		}
 
 		if (i) {
-			int r = _of.writev(iov, i);
+			ssize_t r = _of.writev(iov, i);
 			if (r < 0)
 				ostrbuf::failure(strerror(errno));
 		}
@@ -310,7 +310,7 @@ ssize_t output_file::writev(const struct iovec *iov, int iovcnt)
 
 	pthread_mutex_lock(&_write_mutex);
 
-	n = ::writev(_fd, iov, iovcnt);
+	n = ostrbuf_fd::write_all(_fd, iov, iovcnt);
 	if (n > 0) {
 		_size += n;
 		if (_size >= _max_size && !_rotate_pending) {
-- 
2.43.0


From 044c776467d433f28137d99925f0be04e77bb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:32 +0000
Subject: [PATCH 16/54] fix: nothing is written to file and stdio outputs after
 they failed

---
 src/ostrbuf-stdio.cc | 2 +-
 src/output-file.cc   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ostrbuf-stdio.cc b/src/ostrbuf-stdio.cc
index 8a73c90..33c1d74 100644
--- a/src/ostrbuf-stdio.cc
+++ b/src/ostrbuf-stdio.cc
@@ -48,7 +48,7 @@ void ostrbuf_stdio::do_flush(const uint8_t *data, size_t len)
 		fwrite(_data, 1, _size, _file);
 
 	// Flush un-buffered data
-	if (len)
+	if (len && !ferror(_file))
 		fwrite(data, 1, len, _file);
 
 	if (ferror(_file))
diff --git a/src/output-file.cc b/src/output-file.cc
index 5c5dca7..f1cb4a5 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -57,6 +57,9 @@ private:
 
 	void do_flush(const uint8_t *data, size_t len)
 	{
+		if (failed())
+			return;
+
 		struct iovec iov[2];
 		unsigned int i = 0;
 
-- 
2.43.0


From 1e0cfc21d9867b83b070e6409c27ac6a31747f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:24 +0000
Subject: [PATCH 17/54] fix: file rotation thread no longer misses wakeups

---
 src/output-file.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index f1cb4a5..d0bcbf1 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -424,14 +424,14 @@ void output_file::thread_loop()
 	pthread_mutex_lock(&_rotate_mutex);
 
 	while (1) {
-		pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
+		// Signals may arrive before we get here or while we are rotating
+		while (!_killed && !_rotate_pending)
+			pthread_cond_wait(&_rotate_cond, &_rotate_mutex);
 		if (_killed)
 			break;
 
-		if (_rotate_pending) {
-			do_rotate();
-			_rotate_pending = false;
-		}
+		do_rotate();
+		_rotate_pending = false;
 	}
 
 	pthread_mutex_unlock(&_rotate_mutex);
-- 
2.43.0


From 84df0d4c381ad2f652fcedfb1f2ae9c071a166ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:21 +0000
Subject: [PATCH 18/54] fix: failed rotation no longer skips file indexes

---
 src/output-file.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index d0bcbf1..47aec85 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -346,6 +346,7 @@ void output_file::do_rotate()
 {
 	int ofd = _fd;
 
+	unsigned int oindex = _name_index;
 	_name_index++;
 	if (_name_index >= _max_count)
 		_name_index = 0;
@@ -355,6 +356,8 @@ void output_file::do_rotate()
 	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
 	if (nfd < 0) {
 		// Retry later. Let the writer thread wake us up again.
+		_name_index = oindex;
+		update_name();
 		return;
 	}
 
@@ -367,6 +370,8 @@ void output_file::do_rotate()
 	if (nsb.failed()) {
 		// Failed to write. Retry later.
 		close(nfd);
+		_name_index = oindex;
+		update_name();
 		return;
 	}
 
-- 
2.43.0


From 75ecbf725cc8482842e917fff9ffc64a6e6606c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:21 +0000
Subject: [PATCH 19/54] fix: switching file names no longer skips the first
 index or truncates the current file

---
 include/hogl/output-file.hpp |  1 +
 src/output-file.cc           | 14 ++++++++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/hogl/output-file.hpp b/include/hogl/output-file.hpp
index 8989b79..ef85356 100644
--- a/include/hogl/output-file.hpp
+++ b/include/hogl/output-file.hpp
@@ -129,6 +129,7 @@ private:
 	std::string     _name_sufx;   /// File name suffix
 	unsigned int    _name_index;  /// Current file index
 	unsigned int    _index_width; /// Number of digits in the file index
+	bool            _name_switch; /// Name was switched, the next chunk uses current index
 
 	size_t          _max_size;    /// Max size in bytes
 	unsigned int    _max_count;   /// Max number of files
diff --git a/src/output-file.cc b/src/output-file.cc
index 47aec85..645aee6 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -249,6 +249,7 @@ void output_file::init_name(const char *filename)
 output_file::output_file(const char *filename, format &fmt, const options &opts) :
 		output(fmt),
 		_max_size(opts.max_size), _max_count(opts.max_count), _mode(opts.perms),
+		_name_switch(false),
 		_fd(-1), _size(0),
 		_running(false), _killed(false),
 		_rotate_pending(false), _rotate_schedparam(opts.schedparam)
@@ -347,10 +348,12 @@ void output_file::do_rotate()
 	int ofd = _fd;
 
 	unsigned int oindex = _name_index;
-	_name_index++;
-	if (_name_index >= _max_count)
-		_name_index = 0;
-	update_name();
+	if (!_name_switch) {
+		_name_index++;
+		if (_name_index >= _max_count)
+			_name_index = 0;
+		update_name();
+	}
 
 	// Open a new chunk
 	int nfd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
@@ -375,6 +378,8 @@ void output_file::do_rotate()
 		return;
 	}
 
+	_name_switch = false;
+
 	// Swap the fd
 	pthread_mutex_lock(&_write_mutex);
 	_fd   = nfd;
@@ -454,6 +459,7 @@ bool output_file::switch_name(const char *filename)
 
 	// Reinit filename bits (sufx, etc)
 	init_name(filename);
+	_name_switch = true;
 
 	// Trigger rotation
 	_rotate_pending = true;
-- 
2.43.0


From 9f6f1065c73a962fbcc93e4a830eeaf6fd08301d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 20/54] fix: file rotation thread is started after everything
 it uses has been initialized

---
 src/output-file.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 645aee6..07f90d4 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -258,13 +258,6 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	pthread_mutex_init(&_rotate_mutex, NULL);
 	pthread_cond_init(&_rotate_cond, NULL);
 
-	// Start helper thread
-	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
-	if (err) {
-		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
-		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
-	}
-
 	init_name(filename);
 
 	_fd = open(_name.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, _mode);
@@ -280,6 +273,15 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	output::header(_name.c_str());
 
 	update_link();
+
+	// Start helper thread.
+	// Must be done last because it uses everything initialized above.
+	int err = pthread_create(&_rotate_thread, NULL, thread_entry, (void *) this);
+	if (err) {
+		fmt::fprintf(stderr, "hogl::output_file: failed to start helper thread. %d\n", err);
+		close(_fd);
+		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
+	}
 }
 
 output_file::~output_file()
@@ -409,7 +411,9 @@ void *output_file::thread_entry(void *_self)
 	output_file *self = (output_file *) _self;
 
 	std::ostringstream ss;
+	pthread_mutex_lock(&self->_rotate_mutex);
 	ss << "hogl::output_file helper (" << self->_symlink << ")";
+	pthread_mutex_unlock(&self->_rotate_mutex);
 
 	platform::set_thread_title(ss.str().c_str());
 
-- 
2.43.0


From 391e4623500cee95d41ce38f50272c683438efdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 21/54] fix: header of the first file cannot end up in the next
 one

---
 src/output-file.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 07f90d4..545f398 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -270,7 +270,9 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 	output::init(new ostrbuf_file(*this, opts.buffer_capacity));
 
 	// Write format header
+	// and make sure it gets into this file even if it is rotated right away
 	output::header(_name.c_str());
+	output::flush();
 
 	update_link();
 
-- 
2.43.0


From 750d6c66ba160fdd566b67b05e4d57a34579afba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 22/54] fix: file index is read correctly when the suffix
 matches part of it

---
 src/output-file.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index 545f398..3cc7a58 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -174,8 +174,12 @@ unsigned int output_file::read_link()
 
 	// Validate and strip suffix
 	if (_name_sufx.size()) {
-		pos = str.find(_name_sufx);
-		if (_name_sufx.size() && pos == str.npos) {
+		if (str.size() < _name_sufx.size()) {
+			// Ignore, same as below.
+			return 0;
+		}
+		pos = str.size() - _name_sufx.size();
+		if (str.compare(pos, str.npos, _name_sufx) != 0) {
 			// Suffix does not match.
 			// Ignore, we'll fix it during update.
 			return 0;
-- 
2.43.0


From 3abb8c6d6ab24af939b8581786d6d430599e9f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:05 +0000
Subject: [PATCH 23/54] fix: symlinks of files with relative names in other
 directories are not dangling

---
 include/hogl/output-file.hpp |  5 +++++
 src/output-file.cc           | 30 ++++++++++++++++++++++++++----
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/include/hogl/output-file.hpp b/include/hogl/output-file.hpp
index ef85356..4054aea 100644
--- a/include/hogl/output-file.hpp
+++ b/include/hogl/output-file.hpp
@@ -162,6 +162,11 @@ private:
  	 */
 	void update_name();
 
+	/**
+ 	 * Length of the directory part of a relative symlink name
+ 	 */
+	size_t link_dir() const;
+
 	/**
  	 * Update symlink to the current file
  	 */
diff --git a/src/output-file.cc b/src/output-file.cc
index 3cc7a58..b7150f0 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -125,6 +125,16 @@ void output_file::update_name()
 	_name = ss.str();
 }
 
+// Length of the directory part of a relative symlink name.
+// Zero for absolute names and for names without the directory.
+size_t output_file::link_dir() const
+{
+	if (_symlink[0] == '/')
+		return 0;
+	size_t pos = _symlink.rfind('/');
+	return pos == _symlink.npos ? 0 : pos + 1;
+}
+
 // Update symlink.
 // Creates a temp symlink that points to the new file and renames it
 // on top of the old symlink.
@@ -133,10 +143,16 @@ void output_file::update_link()
 	std::string link = _symlink + "$";
 	remove(link.c_str());
 
-	int err = symlink(_name.c_str(), link.c_str());
+	// Relative targets are resolved from the directory of the symlink
+	std::string target = _name;
+	size_t dir = link_dir();
+	if (dir && _name.compare(0, dir, _symlink, 0, dir) == 0)
+		target = _name.substr(dir);
+
+	int err = symlink(target.c_str(), link.c_str());
 	if (err < 0)
 		fmt::fprintf(stderr, "hogl::output_file: failed to create symlink %s -> %s. %s(%d)\n",
-			_name.c_str(), _symlink.c_str(), strerror(errno), errno);
+			target.c_str(), _symlink.c_str(), strerror(errno), errno);
 
 	rename(link.c_str(), _symlink.c_str());
 }
@@ -162,15 +178,21 @@ unsigned int output_file::read_link()
 
 	size_t pos;
 
+	// Relative targets do not include the directory
+	std::string pref = _name_pref;
+	size_t dir = link_dir();
+	if (str.compare(0, pref.size(), pref) != 0 && dir && pref.size() >= dir)
+		pref = pref.substr(dir);
+
 	// Validate and strip prefix
-	pos = str.find(_name_pref);
+	pos = str.find(pref);
 	if (pos != 0) {
 		// Prefix does not match.
 		// Looks like the link is pointing to something else.
 		// Ignore, we'll fix it during update.
 		return 0;
 	}
-	str = str.substr(_name_pref.size());
+	str = str.substr(pref.size());
 
 	// Validate and strip suffix
 	if (_name_sufx.size()) {
-- 
2.43.0


From 445de85c73d9467b6ef6ff834522efd771e44fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 24/54] fix: engine thread cannot wait for the default ring
 while that is being flushed

---
 src/engine.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index d5051cb..644ea9e 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -131,6 +131,12 @@ engine::engine(output &out, const engine::options &opts) :
 		fmt::fprintf(stderr, "hogl::engine: failed to create engine thread. %d\n", err);
 		throw std::runtime_error("hogl::engine: failed to create engine thread");
 	}
+
+	// Wait for the thread to apply its scheduler params.
+	// Failures are logged, and the default ring must not be needed for that once
+	// the application can wait for this engine with that ring locked (see flush()).
+	while (!_running)
+		usleep(100);
 }
 
 engine::~engine()
-- 
2.43.0


From 9c81d32b0b360365b58046bdd208e71b68c40793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 25/54] fix: CPU affinity masks beyond 31 CPUs, out-of-range
 lists and empty masks

---
 src/schedparam.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/schedparam.cc b/src/schedparam.cc
index 3f15ad3..8c05d09 100644
--- a/src/schedparam.cc
+++ b/src/schedparam.cc
@@ -151,7 +151,7 @@ struct cpumask {
 static int parse_cpulist(const std::string& str, cpumask& mask)
 {
 	const char *p = str.c_str();
-	unsigned int a, b;
+	unsigned long a, b;
 	do {
 		if (!isdigit(*p)) return EINVAL;
 
@@ -179,14 +179,16 @@ static int parse_cpumask(const std::string& str, cpumask& mask)
 	const char *sptr = str.c_str();
 	char *eptr = nullptr;
 
+	if (str.empty()) return EINVAL;
+
 	errno = 0;
 	unsigned long long m = std::strtoull(sptr, &eptr, 0);
 	if (errno) 
 		return errno;
 	if (eptr != sptr + str.size())
 		return EINVAL;
-	for (unsigned int i=0; i < mask.ncpus; i++)
-		if (m & (1<<i)) mask.set(i);
+	for (unsigned int i=0; i < mask.ncpus && i < 64; i++)
+		if (m & (1ULL << i)) mask.set(i);
 	return 0;
 }
 
-- 
2.43.0


From 1eb2ab7e06b7cefb3777167cdddcf2ea950755cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 26/54] fix: C API returns zero when an output cannot be opened

---
 src/c-api.cc | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/c-api.cc b/src/c-api.cc
index d2ad174..a93bab2 100644
--- a/src/c-api.cc
+++ b/src/c-api.cc
@@ -27,6 +27,8 @@
 #include <stdarg.h>
 #include <string.h>
 
+#include <exception>
+
 #include "hogl/detail/args.hpp"
 #include "hogl/format-basic.hpp"
 #include "hogl/output-file.hpp"
@@ -194,23 +196,35 @@ extern "C" hogl_output_t hogl_new_output_file(const char *name, hogl_format_t _f
 					_opts->schedparam.cpu_affinity ? _opts->schedparam.cpu_affinity : "");
 	}
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_file *out = new hogl::output_file(name, *fmt, opts);
-	return out;
+	try {
+		hogl::output_file *out = new hogl::output_file(name, *fmt, opts);
+		return out;
+	} catch (const std::exception &e) {
+		return 0;
+	}
 }
 
 
 extern "C" hogl_output_t hogl_new_output_plainfile(const char *name, hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_plainfile *out = new hogl::output_plainfile(name, *fmt);
-	return out;
+	try {
+		hogl::output_plainfile *out = new hogl::output_plainfile(name, *fmt);
+		return out;
+	} catch (const std::exception &e) {
+		return 0;
+	}
 }
 
 extern "C" hogl_output_t hogl_new_output_pipe(const char *cmd, hogl_format_t _fmt)
 {
 	hogl::format *fmt = (hogl::format *) _fmt;
-	hogl::output_pipe *out = new hogl::output_pipe(cmd, *fmt);
-	return out;
+	try {
+		hogl::output_pipe *out = new hogl::output_pipe(cmd, *fmt);
+		return out;
+	} catch (const std::exception &e) {
+		return 0;
+	}
 }
 
 extern "C" void hogl_delete_output(hogl_output_t _out)
-- 
2.43.0


From e8abbce273309e0dfeab37335504bb603f8b7cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:16 +0000
Subject: [PATCH 27/54] fix: C API posts long long, char, bool and null string
 arguments like C++

---
 include/hogl/c-api/post.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/hogl/c-api/post.h b/include/hogl/c-api/post.h
index c10119b..c63186e 100644
--- a/include/hogl/c-api/post.h
+++ b/include/hogl/c-api/post.h
@@ -59,7 +59,7 @@
 static inline void __hogl_strarg(struct hogl_arg *arg, const char *str)
 {
 	arg->type = HOGL_ARG_CSTR;
-	arg->len  = strlen(str);
+	arg->len  = str ? strlen(str) : 0;
 	arg->val  = (unsigned long) str;
 }
 
@@ -124,6 +124,22 @@ do {									\
 			un.s64 = *(int8_t *)__hogl_p;					\
 			args[i].type = HOGL_ARG_INT32;				\
 		} else								\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), unsigned long long)) {\
+			un.u64 = *(unsigned long long *)__hogl_p;	\
+			args[i].type = HOGL_ARG_UINT64;			\
+		} else							\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), long long)) {\
+			un.s64 = *(long long *)__hogl_p;		\
+			args[i].type = HOGL_ARG_INT64;			\
+		} else							\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), char)) {\
+			un.s64 = *(char *)__hogl_p;			\
+			args[i].type = HOGL_ARG_INT32;			\
+		} else							\
+		if (__builtin_types_compatible_p (typeof(__hogl_x), _Bool)) {\
+			un.u64 = *(_Bool *)__hogl_p;			\
+			args[i].type = HOGL_ARG_UINT32;			\
+		} else							\
 		if (__builtin_types_compatible_p (typeof(__hogl_x), void *)) {	\
 			un.u64 = (unsigned long) __hogl_x;			\
 			args[i].type = HOGL_ARG_POINTER;			\
-- 
2.43.0


From bc9be6d20f4a9477575879782e3fbbb7d52da3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 28/54] fix: binary format of a null global string does not
 crash

---
 src/format-raw.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/format-raw.cc b/src/format-raw.cc
index 7b7e2b9..ba799ef 100644
--- a/src/format-raw.cc
+++ b/src/format-raw.cc
@@ -60,6 +60,7 @@ private:
 	template <typename T>
 	void add_str(const char *str)
 	{
+		if (!str) str = "null";
 		add_str<T>(str, strlen(str));
 	}
 
-- 
2.43.0


From 82b32b774ddba0135cc8bd6a2000b28afaca4857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:26 +0000
Subject: [PATCH 29/54] fix: empty global strings of binary logs are not
 converted to null

---
 tools/raw-parser.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index dda1b62..2469efe 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -82,11 +82,20 @@ void raw_parser::read_args(hogl::record &r)
 			return;
 
 		case arg::GSTR:
-			// Remap GSTR to CSTR.
-			// Since the length is known it might be useful for the formatter.
-			r.clear_arg_type(i);
-			r.set_arg_type(i, hogl::arg::CSTR);
-			// fall through
+			n = read_str<uint16_t>((char *) r.argval + offset, "gstr-arg");
+			if (n == 1) {
+				// Empty GSTR stays what it is (empty CSTR stands for null).
+				r.set_arg_val64(i, (uint64_t) ((char *) r.argval + offset));
+			} else {
+				// Remap GSTR to CSTR.
+				// Since the length is known it might be useful for the formatter.
+				r.clear_arg_type(i);
+				r.set_arg_type(i, hogl::arg::CSTR);
+				r.set_arg_data(i, offset, n - 1);
+			}
+			offset += n;
+			break;
+
 		case arg::CSTR:
 			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
 			r.set_arg_data(i, offset, n - 1);
-- 
2.43.0


From e910aec237c78b7ded4a4bfe1915dffa53fb6a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:40 +0000
Subject: [PATCH 30/54] fix: lengths in binary logs are checked against the
 record buffer

---
 tools/raw-parser.cc  | 18 ++++++++++++------
 tools/raw-parser.hpp | 29 +++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/tools/raw-parser.cc b/tools/raw-parser.cc
index 2469efe..fc58fd3 100644
--- a/tools/raw-parser.cc
+++ b/tools/raw-parser.cc
@@ -25,6 +25,7 @@
 */
 
 #include <stdlib.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <errno.h>
 #include <dlfcn.h>
@@ -82,7 +83,7 @@ void raw_parser::read_args(hogl::record &r)
 			return;
 
 		case arg::GSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "gstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, args_room(offset), "gstr-arg");
 			if (n == 1) {
 				// Empty GSTR stays what it is (empty CSTR stands for null).
 				r.set_arg_val64(i, (uint64_t) ((char *) r.argval + offset));
@@ -97,7 +98,7 @@ void raw_parser::read_args(hogl::record &r)
 			break;
 
 		case arg::CSTR:
-			n = read_str<uint16_t>((char *) r.argval + offset, "cstr-arg");
+			n = read_str<uint16_t>((char *) r.argval + offset, args_room(offset), "cstr-arg");
 			r.set_arg_data(i, offset, n - 1);
 			offset += n;
 			break;
@@ -105,9 +106,9 @@ void raw_parser::read_args(hogl::record &r)
 		case arg::XDUMP:
 		case arg::RAW:
 			if (_ver == V1)
-				n = read_blob<uint16_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint16_t>((char *) r.argval + offset, args_room(offset), "raw-arg");
 			else
-				n = read_blob<uint32_t>((char *) r.argval + offset, "raw-arg");
+				n = read_blob<uint32_t>((char *) r.argval + offset, args_room(offset), "raw-arg");
 
 			r.set_arg_data(i, offset, n);
 			offset += n;
@@ -130,7 +131,12 @@ raw_parser::raw_parser(hogl::rdbuf &in, unsigned int ver, unsigned int max_recor
 
 	// Allocate nicely aligned buffer for the dummy record 
 	// we're going to populate with data read from the file.
-	int err = posix_memalign((void **)&_record, 64, max_record_size);
+	_record    = 0;
+	_ring_name = 0;
+	unsigned long size = std::max<unsigned long>(max_record_size, sizeof(hogl::record));
+	_args_size = size - offsetof(hogl::record, argval);
+
+	int err = posix_memalign((void **)&_record, 64, size);
 	if (err) {
 		_error << "init: failed to allocate record buffer. "
 			<< strerror(errno) << "(" <<  errno << ")";
@@ -180,7 +186,7 @@ static bool valid_name(const char *str)
 
 void raw_parser::read_name(char *str, const char *stage)
 {
-	read_str<uint8_t>(str, stage);
+	read_str<uint8_t>(str, raw_area::MAX_NAME_LEN, stage);
 
 	if (_failed) return;
 
diff --git a/tools/raw-parser.hpp b/tools/raw-parser.hpp
index 1177e8b..5c44e76 100644
--- a/tools/raw-parser.hpp
+++ b/tools/raw-parser.hpp
@@ -71,6 +71,14 @@ private:
 
 	unsigned int       _ver;
 
+	unsigned long      _args_size;   // room for argument values and data in the record buffer
+
+	// Room for argument data at offset
+	unsigned long args_room(unsigned long offset) const
+	{
+		return offset < _args_size ? _args_size - offset : 0;
+	}
+
 	// Read uint from the input stream
 	template <typename T>
 	T read_uint(const char *stage = "")
@@ -84,9 +92,9 @@ private:
 		return v;
 	}
 
-	// Read a blob from the input stream
+	// Read a blob of up to room bytes from the input stream
 	template <typename T>
-	unsigned long read_blob(char *data, const char *stage = "")
+	unsigned long read_blob(char *data, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
@@ -94,6 +102,12 @@ private:
 		if (_failed || !len)
 			return 0;
 
+		if (len > room) {
+			_error << "format: no room for " << len << " bytes @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
 		_failed = ! _in.read(data, len);
 		if (_failed) {
 			_error << "input: failed to read blob @ " << stage;
@@ -104,13 +118,20 @@ private:
 
 	// Read a string from the input stream
 	// Strings are guarantied to be null-terminated
+	// and take up to room bytes including the null-terminator.
 	// Returns string length including the null-terminator.
 	template <typename T>
-	unsigned long read_str(char *str, const char *stage = "")
+	unsigned long read_str(char *str, unsigned long room, const char *stage = "")
 	{
 		if (_failed) return 0;
 
-		unsigned long len = read_blob<T>(str, stage);
+		if (!room) {
+			_error << "format: no room for a string @ " << stage;
+			_failed = true;
+			return 0;
+		}
+
+		unsigned long len = read_blob<T>(str, room - 1, stage);
 
 		if (_failed) return 0;
 
-- 
2.43.0


From 1b43a5a475ee7688bf3e418149ed8d533bd69090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:40 +0000
Subject: [PATCH 31/54] fix: valid records after foreign bytes are found even
 if those look like a long record

---
 tools/cook.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/cook.cc b/tools/cook.cc
index 3bbbc07..4819da5 100644
--- a/tools/cook.cc
+++ b/tools/cook.cc
@@ -99,7 +99,11 @@ static bool reprocess(const std::string& infile, unsigned int flags, size_t offs
 		if (min_valid_recs && nrecs >= min_valid_recs)
 			return true; // done with input
 
-		if (parser.error().find_first_of("format:") == 0)
+		if (parser.error().compare(0, 7, "format:") == 0)
+			return false; // retry @ different offset
+
+		// Most likely hit the EOF because of the bogus length 
+		if (!nrecs && parser.error().compare(0, 6, "input:") == 0)
 			return false; // retry @ different offset
 	}
 
-- 
2.43.0


From 2dbb35af0939a08e055ecf6b7c14834f035f35ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:32 +0000
Subject: [PATCH 32/54] fix: hogl-recover does not lose records with equal
 timestamps

---
 tools/recovery-engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.hpp b/tools/recovery-engine.hpp
index dc049ec..dfdb315 100644
--- a/tools/recovery-engine.hpp
+++ b/tools/recovery-engine.hpp
@@ -59,7 +59,7 @@ private:
 		}
 	};
 
-	typedef std::set<record_entry, record_sorter> record_set;
+	typedef std::multiset<record_entry, record_sorter> record_set;
 	typedef std::map<uint64_t, area*> area_map;
 	typedef std::map<uint64_t, timesource*> timesource_map;
 	typedef std::map<uint64_t, ostrbuf *>   ostrbuf_map;
-- 
2.43.0


From 38eb783e967ae61e5bba3e0f62239420ee219fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:32 +0000
Subject: [PATCH 33/54] fix: hogl-recover remaps global strings in all
 arguments

---
 tools/recovery-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 7eef43e..2328982 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -311,7 +311,7 @@ void recovery_engine::fixup_records(ringbuf *ring)
 		r->area = fixup_area(r->area);
 
 		unsigned int i;
-		for (i=0; i < 8; i++) {
+		for (i=0; i < record::NARGS; i++) {
 			unsigned int type = r->get_arg_type(i);
 			switch (type) {
 			case arg::GSTR:
-- 
2.43.0


From d867d33e1fa2b7e7edf302bb98b878db8ef8cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:32 +0000
Subject: [PATCH 34/54] fix: hogl-recover --all does not skip records in the
 first and last slot of the ring

---
 tools/recovery-engine.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 2328982..9d1001f 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -166,9 +166,8 @@ public:
 			return false;
 
 		if (reset) {
-			// Reset head/tail for dumping the entire ring
-			r->_head = 0;
-			r->_tail = r->_capacity;
+			// Reset head for dumping the entire ring (from the oldest to the newest record)
+			r->_head = r->_tail;
 		}
 
 		return true;
-- 
2.43.0


From fe30f5a983a5003842c50cce5187ad4f0d9d2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 35/54] fix: hogl-recover does not crash on damaged structures

---
 tools/coredump.cc        | 19 +++++++++++++++++--
 tools/coredump.hpp       |  3 +++
 tools/recovery-engine.cc | 39 +++++++++++++++++++++++++++++----------
 3 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index 51e78ab..be1e441 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -277,17 +277,32 @@ coredump::~coredump()
 void* coredump::remap(const void *ptr, unsigned long n)
 {
 	uint64_t start = (uint64_t) ptr;
-	uint64_t end   = start + n;
 
 	section_set::const_iterator it;
 	for (it = sections.begin(); it != sections.end(); ++it) {
 		const section *s = *it;
-		if (start >= s->vma && end <= (s->vma + s->size))
+		if (start >= s->vma && n <= s->size && start - s->vma <= s->size - n)
 			return s->addr + (start - s->vma);
 	}
 	return 0;
 }
 
+char* coredump::remap_str(const void *ptr)
+{
+	uint64_t start = (uint64_t) ptr;
+
+	section_set::const_iterator it;
+	for (it = sections.begin(); it != sections.end(); ++it) {
+		const section *s = *it;
+		if (start >= s->vma && start < (s->vma + s->size)) {
+			char *str = (char *) s->addr + (start - s->vma);
+			if (memchr(str, 0, s->size - (start - s->vma)))
+				return str;
+		}
+	}
+	return 0;
+}
+
 } // namespace hogl
 __HOGL_PRIV_NS_CLOSE__
 
diff --git a/tools/coredump.hpp b/tools/coredump.hpp
index 15eb296..33f2012 100644
--- a/tools/coredump.hpp
+++ b/tools/coredump.hpp
@@ -86,6 +86,9 @@ public:
 
 	void* remap(const void *ptr, unsigned long n = 0);
 
+	// Same as above for null-terminated strings
+	char* remap_str(const void *ptr);
+
 private:
 	void load(bfd *b);
 	void load_section(coredump::section *s);
diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 9d1001f..129618b 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -84,7 +84,7 @@ public:
 		if (!a->count() || a->count() > 256*1024)
 			return 0;
 
-		a->_name = (char *) core.remap(a->_name);
+		a->_name = core.remap_str(a->_name);
 		if (!a->_name)
 			return 0;
 
@@ -95,7 +95,7 @@ public:
 
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = (const char *) core.remap((void *) a->_section[i]);
+			a->_section[i] = core.remap_str(a->_section[i]);
 			if (a->_section[i]) continue;
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
@@ -125,7 +125,7 @@ public:
 
 		timesource_validator *ts = (timesource_validator *) ptr;
 
-		ts->_name = (char *) core.remap(ts->_name);
+		ts->_name = core.remap_str(ts->_name);
                 if (!ts->_name)
                         return 0;
 		return ts;
@@ -150,21 +150,29 @@ public:
 			return false;
 
 		// Record size of more than 1MB is definitely insane
-		if (!r->record_size() || r->record_size() > 1024*1024)
+		if (r->_rec_shift > 20 || r->record_size() < sizeof(record))
 			return false;
  
-		if (r->record_tailroom() > r->record_size())
+		if (r->record_tailroom() > r->record_size() - record::header_size())
+			return false;
+
+		// Capacity is a mask (see ringbuf)
+		unsigned long capacity = r->_capacity + 1UL;
+		if (capacity & r->_capacity)
 			return false;
 
 		if (r->_head > r->_capacity || r->_tail > r->_capacity)
 			return false;
 
-		r->_name    = (char *)    core.remap(r->_name);
-		r->_rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * r->capacity());
+		char    *name    = core.remap_str(r->_name);
+		uint8_t *rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * capacity);
 
-		if (!r->_name || !r->_rec_top)
+		if (!name || !rec_top)
 			return false;
 
+		r->_name    = name;
+		r->_rec_top = rec_top;
+
 		if (reset) {
 			// Reset head for dumping the entire ring (from the oldest to the newest record)
 			r->_head = r->_tail;
@@ -315,9 +323,20 @@ void recovery_engine::fixup_records(ringbuf *ring)
 			switch (type) {
 			case arg::GSTR:
 				if (arg::is_32bit(arg::GSTR))
-					r->argval[i].u32 = (uint64_t) _core.remap((void *) (uint64_t) r->get_arg_val32(i));
+					r->argval[i].u32 = (uint64_t) _core.remap_str((void *) (uint64_t) r->get_arg_val32(i));
 				else
-					r->argval[i].u64 = (uint64_t) _core.remap((void *) r->get_arg_val64(i));
+					r->argval[i].u64 = (uint64_t) _core.remap_str((void *) r->get_arg_val64(i));
+				break;
+			case arg::CSTR:
+			case arg::XDUMP:
+			case arg::RAW:
+				// Drop the data that is not inside of the record, and strings that are not terminated
+				{
+					uint64_t end = (uint64_t) r->argval[i].data.offset + r->argval[i].data.len;
+					if (end > ring->record_tailroom() || (type == arg::CSTR && r->argval[i].data.len &&
+							(end == ring->record_tailroom() || ((char *) r->argval)[end])))
+						r->set_arg_data(i, 0, 0);
+				}
 				break;
 			default:
 				break;
-- 
2.43.0


From 7e03aca693be920c186f15d00312b39f8c98c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 36/54] fix: hogl-recover handles several areas with default
 sections

---
 tools/recovery-engine.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 129618b..6c4c5c5 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -95,11 +95,15 @@ public:
 
 		unsigned int i;
 		for (i=0; i < a->count(); ++i) {
-			a->_section[i] = core.remap_str(a->_section[i]);
-			if (a->_section[i]) continue;
+			const char *name = core.remap_str(a->_section[i]);
+			if (name) {
+				a->_section[i] = name;
+				continue;
+			}
 
 			// Section name not found, likely because it was set to default (ie mmaped from hogl.so)
 			// in which case we can just point all sections to the default names.
+			// The same goes for the default names that were already remapped for another area.
 			// Otherwise set to a dummy string to avoid segfaults in the optimized header formats.
 
 			if (i == 0 && a->count() == 6) {
-- 
2.43.0


From 2cb79be9225d72c35c5c21e037e36e4e515512f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:38 +0000
Subject: [PATCH 37/54] fix: hogl-recover does not modify sound structures
 through bogus ones

---
 tools/coredump.cc        | 17 +++++++++++++++++
 tools/coredump.hpp       |  7 +++++++
 tools/recovery-engine.cc | 10 +++++-----
 3 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/tools/coredump.cc b/tools/coredump.cc
index be1e441..3f1d3b8 100644
--- a/tools/coredump.cc
+++ b/tools/coredump.cc
@@ -268,6 +268,12 @@ coredump::~coredump()
 		sections.erase(it);
 	}
 
+	// Release copies
+	while (!_copies.empty()) {
+		free(_copies.front());
+		_copies.pop_front();
+	}
+
 	if (_core_bfd)
 		bfd_close(_core_bfd);
 	if (_exec_bfd)
@@ -287,6 +293,17 @@ void* coredump::remap(const void *ptr, unsigned long n)
 	return 0;
 }
 
+void* coredump::copy(const void *ptr, unsigned long n)
+{
+	void *src = remap(ptr, n);
+	void *dst = src ? malloc(n) : 0;
+	if (dst) {
+		memcpy(dst, src, n);
+		_copies.push_back(dst);
+	}
+	return dst;
+}
+
 char* coredump::remap_str(const void *ptr)
 {
 	uint64_t start = (uint64_t) ptr;
diff --git a/tools/coredump.hpp b/tools/coredump.hpp
index 33f2012..1e00fa3 100644
--- a/tools/coredump.hpp
+++ b/tools/coredump.hpp
@@ -86,6 +86,11 @@ public:
 
 	void* remap(const void *ptr, unsigned long n = 0);
 
+	// Same as above but returns a copy that can be modified without
+	// messing up other objects that (partially) overlap with a bogus one.
+	// Copies are released by the destructor.
+	void* copy(const void *ptr, unsigned long n);
+
 	// Same as above for null-terminated strings
 	char* remap_str(const void *ptr);
 
@@ -95,6 +100,8 @@ private:
 	void coalesce_and_load_sections();
 	static void add_section(bfd *b, asection *sect, void *_self);
 
+	std::list<void *> _copies;
+
 	bfd *_core_bfd;
 	bfd *_exec_bfd;
 };
diff --git a/tools/recovery-engine.cc b/tools/recovery-engine.cc
index 6c4c5c5..255f028 100644
--- a/tools/recovery-engine.cc
+++ b/tools/recovery-engine.cc
@@ -89,7 +89,7 @@ public:
 			return 0;
 
 		// Fixup section names
-		a->_section = (const char **) core.remap(a->_section, sizeof(char *) * a->count());
+		a->_section = (const char **) core.copy(a->_section, sizeof(char *) * a->count());
 		if (!a->_section)
 			return 0;
 
@@ -169,7 +169,7 @@ public:
 			return false;
 
 		char    *name    = core.remap_str(r->_name);
-		uint8_t *rec_top = (uint8_t *) core.remap(r->_rec_top, r->record_size() * capacity);
+		uint8_t *rec_top = (uint8_t *) core.copy(r->_rec_top, r->record_size() * capacity);
 
 		if (!name || !rec_top)
 			return false;
@@ -248,7 +248,7 @@ hogl::timesource* recovery_engine::fixup_timesource(const void *ptr)
 	// ** Note that we update the map even if validator fails,
 	// since there is no point in trying to validate that timesource
 	// over and over again.
-	timesource *ts = timesource_validator::fixup(_core, _core.remap(ptr, sizeof(hogl::timesource)));
+	timesource *ts = timesource_validator::fixup(_core, _core.copy(ptr, sizeof(hogl::timesource)));
 	_timesources.insert(timesource_map::value_type((uint64_t) ptr, ts));
 
 	return ts;
@@ -269,7 +269,7 @@ hogl::ostrbuf* recovery_engine::fixup_ostrbuf(const void *ptr)
 	// ** Note that we update the map even if validator fails,
 	// since there is no point in trying to validate that ostrbuf
 	// over and over again.
-	ostrbuf *sb = ostrbuf_validator::fixup(_core, _core.remap(ptr, sizeof(hogl::ostrbuf)));
+	ostrbuf *sb = ostrbuf_validator::fixup(_core, _core.copy(ptr, sizeof(hogl::ostrbuf)));
 	_outbufs.insert(ostrbuf_map::value_type((uint64_t) ptr, sb));
 
 	return sb;
@@ -293,7 +293,7 @@ hogl::area* recovery_engine::fixup_area(const void *ptr)
 	// since there is no point in trying to validate that area
 	// over and over again. 
 	// The format handler can deal with busted areas.
-	area *a = area_validator::fixup(_core, _core.remap(ptr, sizeof(hogl::area)));
+	area *a = area_validator::fixup(_core, _core.copy(ptr, sizeof(hogl::area)));
 	_areas.insert(area_map::value_type((uint64_t) ptr, a));
 
 	return a;
-- 
2.43.0


From cdf7b5225a93fd00afd6b80293677947152c7e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 38/54] fix: hogl-grep computes exact deltas

Doubles cannot hold nanoseconds since the epoch, deltas were off by up to
hundreds of nanoseconds.
---
 tools/hogl-grep | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index cb3ad45..b8a65d0 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -40,10 +40,10 @@ import sys, argparse, subprocess, re
 # (257) is a delta nanoseconds
 
 ts_fmt = [
-    re.compile('^([0-9]*.[0-9]*) \([0-9]*\) (.*)'),
-    re.compile('^([0-9]*\.[0-9]*) (.*)') ]
+    re.compile(r'^([0-9]*)\.([0-9]*) \([0-9]*\) (.*)'),
+    re.compile(r'^([0-9]*)\.([0-9]*) (.*)') ]
 
-ts_last = 0
+ts_last = None
 
 def process_rec(rec, out):
     global ts_last
@@ -56,11 +56,12 @@ def process_rec(rec, out):
         print('invalid timestamp [ {} ]'.format(rec))
         sys.exit(1)
 
-    ts = int(float(m.group(1)) * 1000000000) # to nsec
-    if ts_last == 0:
+    # to nsec (floats are not precise enough)
+    ts = int(m.group(1) or '0') * 1000000000 + int(m.group(2).ljust(9, '0')[:9])
+    if ts_last is None:
         ts_last = ts
 
-    out.write('{} ({}) {}\n'.format(m.group(1), ts - ts_last, m.group(2)))
+    out.write('{}.{} ({}) {}\n'.format(m.group(1), m.group(2), ts - ts_last, m.group(3)))
     ts_last = ts
     return True
 
-- 
2.43.0


From cf01d6f1d370d8b8966dbc8bbacf030e47285f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 39/54] fix: hogl-grep can write to a file

The file was opened in binary mode but text is written to it.
---
 tools/hogl-grep | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index b8a65d0..1481bf5 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -82,7 +82,7 @@ if __name__=='__main__':
     # Open log output file
     out = sys.stdout
     if args.output:
-        out = open(args.output, 'wb')
+        out = open(args.output, 'w')
 
     # Filter log file using external grep.
     # 'grep' is much faster at this.
-- 
2.43.0


From b84a79eb583b812779cfc7f554fb2fa70758c67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 40/54] fix: hogl-grep accepts several log files

grep puts the names of the files in front of the lines then.
---
 tools/hogl-grep | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hogl-grep b/tools/hogl-grep
index 1481bf5..87372de 100755
--- a/tools/hogl-grep
+++ b/tools/hogl-grep
@@ -89,13 +89,13 @@ if __name__=='__main__':
     # Iterate over log records (one line at a time)
 
     if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline()
            if rec == '': break
            process_rec(rec, out)
     else:
-       grep = subprocess.Popen([args.grep] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h'] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline().decode()
            if rec == '': break
-- 
2.43.0


From 7aff34035ffdba56cc1dd00f1de924f5c9227b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 41/54] fix: hogl-trace accepts several log files

grep puts the names of the files in front of the lines then, and all records
were taken for unsupported ones.
---
 tools/hogl-trace | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index 3f9af0f..733a3ac 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -135,13 +135,13 @@ if __name__=='__main__':
     # Iterate over log records (one line at a time)
 
     if (sys.version_info.major, sys.version_info.minor) > (3,6):
-       grep = subprocess.Popen([args.grep, args.regex] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, text=True, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline()
            if rec == '': break
            process_rec(rec, out)
     else:
-       grep = subprocess.Popen([args.grep, args.regex] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
+       grep = subprocess.Popen([args.grep, '-h', args.regex] + args.input, stdin=None, stdout=subprocess.PIPE, bufsize=1)
        while True:
            rec = grep.stdout.readline().decode()
            if rec == '': break
-- 
2.43.0


From 8025b2fd89074064cb7031820476e2e861363f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 42/54] fix: hogl-trace converts timestamps exactly

Microseconds were off by one because of rounding errors.
---
 tools/hogl-trace | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index 733a3ac..a197797 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -42,7 +42,9 @@ def convert_rec(rec):
     # ['00000028363.625193560', '(197)', 'TID:2749', 'AREA:TRACE', 'category', 'name', 'PID']
 
     ## Timestamp is always first (and must be timespec)
-    ts_trace = int(float(evt[0]) * 1000000) # convert timestamp into usec
+    # Convert timestamp into usec (floats are not precise enough)
+    sec, _, nsec = evt[0].partition('.')
+    ts_trace = int(sec) * 1000000 + int(nsec.ljust(6, '0')[:6])
 
     # Generate event skeleton
     # See Chrome Trace Event Format for detailed description of the fields
-- 
2.43.0


From 0e79ef62b17a3fd840e3351ab38dd7e2ee52e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 43/54] fix: hogl-trace does not cut off values that contain
 separators

---
 tools/hogl-trace | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index a197797..c9e825e 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -30,7 +30,7 @@ import sys, argparse, re, json, subprocess
 # Convert record into the trace event
 def convert_rec(rec):
     # Split the record into --> <evt> # [attrs] # [args]
-    s = rec.strip().split('#') + [' ', ' ']
+    s = rec.strip().split('#', 2) + [' ', ' ']
 
     evt  = s[0].split()
     attr = s[1].split()
@@ -84,14 +84,14 @@ def convert_rec(rec):
     # Add / override attrs (if any)
     try:
         for a in attr:
-            s = a.split(':'); event[s[0]] = s[1]
+            s = a.split(':', 1); event[s[0]] = s[1]
     except Exception as e:
         raise Exception('failed to parse event attrs {}\n\texpected space-separated attr:value pairs'.format(attr))
 
     # Add args (if any)
     try:
         for a in args:
-            s = a.split(':'); event['args'][s[0]] = s[1]
+            s = a.split(':', 1); event['args'][s[0]] = s[1]
     except Exception as e:
         raise Exception('failed to parse event args {}\n\texpected space-separated arg:value pairs'.format(args))
 
-- 
2.43.0


From 7a2ac0febe0b0a352ff3cabb3427afa23aa62aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:00 +0000
Subject: [PATCH 44/54] fix: hogl-trace warnings do not end up in the trace

---
 tools/hogl-trace | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hogl-trace b/tools/hogl-trace
index c9e825e..0b9b4ab 100755
--- a/tools/hogl-trace
+++ b/tools/hogl-trace
@@ -102,7 +102,7 @@ def process_rec(rec, out):
     try:
         event = convert_rec(rec)
     except Exception as e:
-        print('warn: unsupported record format:\n\t{}\n\t{}'.format(rec[:-1], e))
+        print('warn: unsupported record format:\n\t{}\n\t{}'.format(rec[:-1], e), file=sys.stderr)
         return
 
     out.write(out.sep); out.sep = ','
-- 
2.43.0


From 69479e283001d678884680fd81110b2714152c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:11 +0000
Subject: [PATCH 45/54] fix: output-file ignores links that do not name one of
 its chunks

---
 src/output-file.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/output-file.cc b/src/output-file.cc
index b7150f0..95a7b07 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -163,9 +163,9 @@ void output_file::update_link()
 unsigned int output_file::read_link()
 {
 	unsigned int len = _symlink.size() + _index_width + 1;
-	char cstr[len];
+	char cstr[len + 1];
 
-	ssize_t rlen = readlink(_symlink.c_str(), cstr, len);
+	ssize_t rlen = readlink(_symlink.c_str(), cstr, len + 1);
 	if (rlen < 0) {
 		if (errno == ENOENT)
 			return 0;
@@ -174,6 +174,12 @@ unsigned int output_file::read_link()
 		return 0;
 	}
 
+	if (rlen > (ssize_t) len) {
+		// Target is longer than any of our names (and probably truncated).
+		// Ignore, we'll fix it during update.
+		return 0;
+	}
+
 	std::string str(cstr, rlen);
 
 	size_t pos;
@@ -209,6 +215,11 @@ unsigned int output_file::read_link()
 		str = str.substr(0, pos);
 	}
 
+	if (str.empty() || str.find_first_not_of("0123456789") != str.npos) {
+		// Not an index. Ignore, we'll fix it during update.
+		return 0;
+	}
+
 	// Convert to integer
 	unsigned long index = strtoul(str.c_str(), NULL, 10);
 	if (index == ULONG_MAX) {
-- 
2.43.0


From 5d817315a6082cc86ec2e826243f11e626ef990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:12 +0000
Subject: [PATCH 46/54] fix: activate refuses a default ring that is not both
 shared and immortal

---
 src/default-engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/default-engine.cc b/src/default-engine.cc
index 336be86..d0561aa 100644
--- a/src/default-engine.cc
+++ b/src/default-engine.cc
@@ -64,7 +64,7 @@ void activate(output &out, const engine::options &engine_opts)
 
 	// Default ringbuf must be shared and immortal.
 	// We check here because user app is allowed to replace default options.
-	if (!default_ring.immortal() && !default_ring.shared())
+	if (!default_ring.immortal() || !default_ring.shared())
 		throw std::logic_error("hogl::activate default ring properties not valid");
 
 	// Initialize default engine
-- 
2.43.0


From 170300728b71b0d16b0f597b2a1042bcc32aeca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 47/54] fix: rings whose storage cannot be allocated are
 refused

---
 include/hogl/detail/ringbuf.hpp |  2 +-
 src/engine.cc                   | 10 +++++++-
 src/ringbuf.cc                  | 44 ++++++++++++++++++---------------
 3 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/include/hogl/detail/ringbuf.hpp b/include/hogl/detail/ringbuf.hpp
index 4f4fa06..3699145 100644
--- a/include/hogl/detail/ringbuf.hpp
+++ b/include/hogl/detail/ringbuf.hpp
@@ -121,7 +121,7 @@ protected:
  	 */
 	record* get_record(unsigned int i)
 	{
-		return (record *) (_rec_top + (i << _rec_shift));
+		return (record *) (_rec_top + ((size_t) i << _rec_shift));
 	}
 
 	/**
diff --git a/src/engine.cc b/src/engine.cc
index 644ea9e..71d2499 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -35,6 +35,7 @@
 #include <string>
 #include <map>
 #include <algorithm>
+#include <new>
 #include <stdexcept>
 
 #include "hogl/detail/internal.hpp"
@@ -673,7 +674,14 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 {
 	std::pair<ring_map::iterator, bool> s;
 
-	ringbuf *nr = new ringbuf(name, opts);
+	ringbuf *nr;
+	try {
+		nr = new ringbuf(name, opts);
+	} catch (const std::bad_alloc &) {
+		hogl::post(internal_area(), internal::ERROR,
+			"failed to add ring %s. not enough memory.", name);
+		return 0;
+	}
 	nr->hold();
 
 	pthread_mutex_lock(&_ring_mutex);
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index 43ddc00..e975a39 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -29,6 +29,7 @@
 #include <stdlib.h>
 #include <unistd.h>
 
+#include <new>
 #include <stdexcept>
 
 #include "hogl/detail/ringbuf.hpp"
@@ -49,7 +50,7 @@ extern timesource default_timesource;
 void* ringbuf::operator new(size_t s)
 {
 	void *m = NULL;
-	if (posix_memalign(&m, 64, s) < 0)
+	if (posix_memalign(&m, 64, s))
 		throw std::bad_alloc();
 	return m;
 }
@@ -61,19 +62,13 @@ void ringbuf::operator delete(void *p)
 }
 
 // Round up to a power of two and return the exponent
-static unsigned int __roundup_log2(unsigned int v)
+static unsigned int __roundup_log2(uint64_t v)
 {
 	unsigned int i;
-	for (i=0; (1U << i) < v; i++);
+	for (i=0; (UINT64_C(1) << i) < v; i++);
 	return i;
 }
 
-// Round up to a power of two
-static unsigned int __roundup_power2(unsigned int size)
-{
-	return (1 << __roundup_log2(size));
-}
-
 /**
  * Allocate ringbuf with specified options
  */
@@ -99,31 +94,40 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	// Compute the desired capacity.
 	// This field is used as a mask for advancing head and tail indexes
 	// hence the decrement. ie tail = ((tail + 1) & capacity).
-	_capacity = __roundup_power2(opts.capacity);
-	_capacity--;
-
-	_tail = 0;
-	_head = _capacity;
+	unsigned int cap_shift = __roundup_log2(opts.capacity);
 
 	// Adjust record tail room and compute record size and shift for indexing
 	if (opts.record_tailroom > record::argval_size())
 		_rec_tailroom = opts.record_tailroom - record::argval_size();
 	else
 		_rec_tailroom = 0;
-	_rec_shift    = __roundup_log2(sizeof(record) + _rec_tailroom);
+	_rec_shift    = __roundup_log2((uint64_t) sizeof(record) + _rec_tailroom);
+
+	// Number of records and their size must fit into 32 bits,
+	// and total size must not overflow.
+	if (cap_shift > 31 || _rec_shift > 30 || (SIZE_MAX >> _rec_shift >> cap_shift) == 0) {
+		free(_name);
+		throw std::bad_alloc();
+	}
+
 	_rec_tailroom = record_size() - record::header_size();
 
+	_capacity = (1U << cap_shift) - 1;
+	_tail = 0;
+	_head = _capacity;
+
 	// At this point this->record_size() and this->capacity() functions
 	// return correct values. Use them below.
 
 	// Allocate record buffers
 	_rec_top = 0;
-	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), capacity() * record_size());
-	if (err && !_rec_top) {
-		_capacity = 0;
-		return;
+	size_t size = (size_t) capacity() << _rec_shift;
+	err = posix_memalign((void **) &_rec_top, sysconf(_SC_PAGESIZE), size);
+	if (err) {
+		free(_name);
+		throw std::bad_alloc();
 	}
-	memset(_rec_top, 0, capacity() * record_size());
+	memset(_rec_top, 0, size);
 
 	// Init ringbuf mutex.
 	// Enable priority inherintance.
-- 
2.43.0


From 34bc174f798703993b598a6eb4a8f39f061b21d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 48/54] fix: engine that cannot create its thread does not leak
 the internal area

---
 src/engine.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine.cc b/src/engine.cc
index 71d2499..b55c1a6 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -130,6 +130,7 @@ engine::engine(output &out, const engine::options &opts) :
 	err = pthread_create(&_thread, NULL, entry, (void *)this);
 	if (err) {
 		fmt::fprintf(stderr, "hogl::engine: failed to create engine thread. %d\n", err);
+		delete _internal_area;
 		throw std::runtime_error("hogl::engine: failed to create engine thread");
 	}
 
-- 
2.43.0


From ead709e8cc2304bc23344c6589df5e84333fac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 49/54] fix: C file output that cannot be created does not leak
 its scheduler params

---
 src/c-api.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c-api.cc b/src/c-api.cc
index a93bab2..06c7a5b 100644
--- a/src/c-api.cc
+++ b/src/c-api.cc
@@ -200,6 +200,8 @@ extern "C" hogl_output_t hogl_new_output_file(const char *name, hogl_format_t _f
 		hogl::output_file *out = new hogl::output_file(name, *fmt, opts);
 		return out;
 	} catch (const std::exception &e) {
+		if (_opts)
+			delete opts.schedparam;
 		return 0;
 	}
 }
-- 
2.43.0


From baf3b2a41627a351311bb45f43ca7ac2c4473fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:46 +0000
Subject: [PATCH 50/54] fix: output-file waits for its helper thread to apply
 scheduler params

---
 src/output-file.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/output-file.cc b/src/output-file.cc
index 95a7b07..8427029 100644
--- a/src/output-file.cc
+++ b/src/output-file.cc
@@ -321,6 +321,11 @@ output_file::output_file(const char *filename, format &fmt, const options &opts)
 		close(_fd);
 		throw std::runtime_error("hogl::output_file: failed to start helper thread.");
 	}
+
+	// Wait for the thread to apply its scheduler params.
+	// Failures are logged, and by the time it gets to run the engine may be gone otherwise.
+	while (!_running)
+		usleep(100);
 }
 
 output_file::~output_file()
-- 
2.43.0


From e759ab2fc2be6ddbf7bc712cd409ef3c18618236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:45 +0000
Subject: [PATCH 51/54] fix: overriding default_timesource constructs and
 destroys it twice

---
 src/default-timesource.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/default-timesource.cc b/src/default-timesource.cc
index 198e4c5..4afb9a3 100644
--- a/src/default-timesource.cc
+++ b/src/default-timesource.cc
@@ -28,6 +28,8 @@
 
 #include <time.h>
 
+#include <new>
+
 #if defined(__QNXNTO__)
 #include <sys/neutrino.h>
 #include <sys/syspage.h>
@@ -76,9 +78,23 @@ static hogl::timestamp clock_monotonic(const hogl::timesource *)
 timesource monotonic_timesource("clock_monotonic", clock_monotonic);
 
 /**
- * Default timesource instance
+ * Default timesource instance.
+ * The weak symbol is just storage. If it was the object itself, an application that overrides it
+ * would get its own timesource constructed and destroyed for the second time by this file.
  */
-timesource hogl_weak_symbol default_timesource("clock_realtime", clock_realtime);
+struct default_timesource_storage {
+	alignas(timesource) uint8_t data[sizeof(timesource)];
+};
+default_timesource_storage hogl_weak_symbol default_timesource;
+
+static struct default_timesource_init {
+	default_timesource_init()
+	{
+		timesource *ts = reinterpret_cast<timesource *>(&default_timesource);
+		if (!ts->name())
+			new (ts) timesource("clock_realtime", clock_realtime);
+	}
+} default_timesource_init;
 
 } // namespace hogl
 __HOGL_PRIV_NS_CLOSE__
-- 
2.43.0


From dbf0cb4b7ddc43e3a866fe03f36f8335851ff448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 52/54] fix: timestamps in timespec format are compared and
 converted incorrectly

---
 include/hogl/detail/timestamp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hogl/detail/timestamp.hpp b/include/hogl/detail/timestamp.hpp
index 9a36536..8055fc4 100644
--- a/include/hogl/detail/timestamp.hpp
+++ b/include/hogl/detail/timestamp.hpp
@@ -54,11 +54,11 @@ private:
 		uint64_t u64;
 		struct {
 		#if __BYTE_ORDER == __LITTLE_ENDIAN
-			uint32_t sec;
 			uint32_t nsec;
+			uint32_t sec;
 		#else
-			uint32_t nsec;
 			uint32_t sec;
+			uint32_t nsec;
 		#endif
 		} u32;
 	} _v;
@@ -117,7 +117,7 @@ public:
 
 	uint64_t to_nsec() const
 	{
-		return _v.u32.sec * nsec_per_sec + _v.u32.nsec;
+		return (uint64_t) _v.u32.sec * nsec_per_sec + _v.u32.nsec;
 	}
 #else
 	// This version stores timestamp in nanoseconds which means 
-- 
2.43.0


From 0442fbebe6ed513fe1ecda88f98baefebd96d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:52 +0000
Subject: [PATCH 53/54] fix: dumping an engine while its mask is changed reads
 freed memory

---
 include/hogl/detail/engine.hpp | 4 ++--
 src/engine.cc                  | 8 ++++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/hogl/detail/engine.hpp b/include/hogl/detail/engine.hpp
index da357ae..72b3e08 100644
--- a/include/hogl/detail/engine.hpp
+++ b/include/hogl/detail/engine.hpp
@@ -202,9 +202,9 @@ public:
 	const options& get_options() const { return _opts; }
 
 	/**
- 	 * Get current mask
+ 	 * Get current mask (a copy, it may be changed at any time)
  	 */
-	const mask& get_mask() const { return _mask; }
+	mask get_mask() const;
 
 	/**
 	 * Add log area.
diff --git a/src/engine.cc b/src/engine.cc
index b55c1a6..a058668 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -785,6 +785,14 @@ void engine::list_rings(string_list &l) const
 	pthread_mutex_unlock(&_ring_mutex);
 }
 
+mask engine::get_mask() const
+{
+	pthread_mutex_lock(&_area_mutex);
+	mask m(_mask);
+	pthread_mutex_unlock(&_area_mutex);
+	return m;
+}
+
 void engine::apply_mask(const mask &m)
 {
 	pthread_mutex_lock(&_area_mutex);
-- 
2.43.0


From 4d0d8c735929c07c7d544f7f0b4d449540748ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:53 +0000
Subject: [PATCH 54/54] fix: a ring whose mutex cannot be initialised leaked
 its storage and was not refused by add_ring

---
 src/engine.cc  | 4 ++++
 src/ringbuf.cc | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/engine.cc b/src/engine.cc
index a058668..3f8c897 100644
--- a/src/engine.cc
+++ b/src/engine.cc
@@ -682,6 +682,10 @@ ringbuf *engine::add_ring(const char *name, const ringbuf::options &opts)
 		hogl::post(internal_area(), internal::ERROR,
 			"failed to add ring %s. not enough memory.", name);
 		return 0;
+	} catch (const std::runtime_error &e) {
+		hogl::post(internal_area(), internal::ERROR,
+			"failed to add ring %s. %s", name, e.what());
+		return 0;
 	}
 	nr->hold();
 
diff --git a/src/ringbuf.cc b/src/ringbuf.cc
index e975a39..fe2449e 100644
--- a/src/ringbuf.cc
+++ b/src/ringbuf.cc
@@ -141,12 +141,19 @@ ringbuf::ringbuf(const char *name, const options &opts) :
 	err = pthread_mutex_init(&_mutex, &mattr);
 	if (err) {
 		fmt::fprintf(stderr, "hogl::ring: failed to init ring mutex. err %u\n", err);
+		pthread_mutexattr_destroy(&mattr);
+		free(_rec_top);
+		free(_name);
 		throw std::runtime_error("hogl::ring: failed to init ring mutex.");
 	}
 
 	err = pthread_mutex_init(&_block_mutex, &mattr);
 	if (err) {
 		fmt::fprintf(stderr, "hogl::ring: failed to init ring block mutex. err %u\n", err);
+		pthread_mutex_destroy(&_mutex);
+		pthread_mutexattr_destroy(&mattr);
+		free(_rec_top);
+		free(_name);
 		throw std::runtime_error("hogl::ring: failed to init ring block mutex.");
 	}
 
-- 
2.43.0

