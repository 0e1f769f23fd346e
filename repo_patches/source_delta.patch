From 25c04a45c1f63ff08e7104b959dce02495e5f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 01/77] fix: compare ids and keys without overflow or
 truncation

Differences of 64 bit ids were truncated to int by most callers and wrapped
above INT64_MAX, and memtable page search expected exactly 1.
---
 monotone/engine/io/comparator.h | 10 +++++-----
 monotone/runtime/runtime/misc.h |  5 +++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/monotone/engine/io/comparator.h b/monotone/engine/io/comparator.h
index 53a83b0..f9ecbd5 100644
--- a/monotone/engine/io/comparator.h
+++ b/monotone/engine/io/comparator.h
@@ -26,12 +26,12 @@ comparator_init(Comparator* self)
 	self->unused = 0;
 }
 
-hot static inline int64_t
+hot static inline int
 compare(Comparator* self, Event* a, Event* b)
 {
 	unused(self);
-	// compare by [id, key]
-	int64_t diff = a->id - b->id;
+	// compare by [id, key], returns -1, 0 or 1
+	int diff = compare_u64(a->id, b->id);
 	if (likely(diff != 0))
 		return diff;
 	if (a->key_size == 0 && b->key_size == 0)
@@ -43,6 +43,6 @@ compare(Comparator* self, Event* a, Event* b)
 		size = b->key_size;
 	int rc = memcmp(a->data, b->data, size);
 	if (rc == 0)
-		return (int64_t)a->key_size - (int64_t)b->key_size;
-	return rc;
+		rc = (int)a->key_size - (int)b->key_size;
+	return (rc > 0) - (rc < 0);
 }
diff --git a/monotone/runtime/runtime/misc.h b/monotone/runtime/runtime/misc.h
index 3b747eb..2bcf0cb 100644
--- a/monotone/runtime/runtime/misc.h
+++ b/monotone/runtime/runtime/misc.h
@@ -13,8 +13,9 @@
 // Monotone Commercial License.
 //
 
-always_inline static inline int64_t
+always_inline static inline int
 compare_u64(uint64_t a, uint64_t b)
 {
-	return (int64_t)a - (int64_t)b;
+	// returns -1, 0 or 1
+	return (a > b) - (a < b);
 }
-- 
2.43.0


From 4e3772fff103099189f2d1c5ec57611045db1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:15 +0000
Subject: [PATCH 02/77] fix: keep the right subtree when a memtable page is
 split

---
 monotone/engine/io/memtable.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index f904dbe..9442baa 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -273,8 +273,16 @@ memtable_set(Memtable* self, Event* event)
 	auto prev = memtable_insert(self, page, &page_split, event);
 	if (page_split)
 	{
-		// update split page
-		rbtree_set(&self->tree, &page->node, -1, &page_split->node);
+		// add split page right after the page
+		auto next = page->node.r;
+		if (next)
+		{
+			while (next->l)
+				next = next->l;
+			rbtree_set(&self->tree, next, 1, &page_split->node);
+		} else {
+			rbtree_set(&self->tree, &page->node, -1, &page_split->node);
+		}
 		self->count_pages++;
 	}
 	return prev;
-- 
2.43.0


From 5c83bf487f440b8c57790f5a3cdb7cb889633a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 03/77] fix: do not count the event key twice in event_size()

The size covered key_size bytes past the event: log and partition records
carried foreign bytes and with wal_crc the checksum changed afterwards.
---
 monotone/engine/io/event.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/io/event.h b/monotone/engine/io/event.h
index 9f3435a..4807cc7 100644
--- a/monotone/engine/io/event.h
+++ b/monotone/engine/io/event.h
@@ -49,7 +49,8 @@ event_is_delete(Event* self)
 always_inline hot static inline int
 event_size(Event* self)
 {
-	return sizeof(Event) + self->key_size + self->data_size;
+	// data size includes the key
+	return sizeof(Event) + self->data_size;
 }
 
 always_inline hot static inline uint8_t*
-- 
2.43.0


From 8d002ae6bee7b1db3fdcdfa72debfe2fe48f01f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 04/77] fix: count the first lock reference in lockage

A nested lock of the same thread was released completely by its first
unlock, so a cursor lost its partition after the thread wrote to it.
---
 monotone/engine/engine/lockage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 65a56d1..1466c7f 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -79,7 +79,7 @@ lockage_lock(Lockage* self, LockType type)
 		if (lock->locker == 0)
 		{
 			lock->locker = pthread_id;
-			lock->locker_refs = 0;
+			lock->locker_refs = 1;
 			break;
 		}
 		lock->pending++;
-- 
2.43.0


From 3c985848c582fca0e959785b25016adaf2c6f147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 05/77] fix: continue with the next page or region when a seek
 key is past the found one

---
 monotone/engine/io/memtable_iterator.h |  6 +++-
 monotone/engine/io/part_iterator.h     | 39 ++++++++++++++++----------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 64a9581..2eee78a 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -40,9 +40,13 @@ memtable_iterator_open(MemtableIterator* self,
 	bool match = memtable_seek(memtable, key, &self->page, &self->page_pos);
 	if (self->page_pos >= self->page->events_count)
 	{
+		// key is greater than the page max, continue with the next page
+		auto next = rbtree_next(&memtable->tree, &self->page->node);
 		self->page     = NULL;
 		self->page_pos = 0;
-		return false;
+		if (next == NULL)
+			return false;
+		self->page = container_of(next, MemtablePage, node);
 	}
 	self->current = self->page->events[self->page_pos];
 
diff --git a/monotone/engine/io/part_iterator.h b/monotone/engine/io/part_iterator.h
index 3bc134e..a5b6100 100644
--- a/monotone/engine/io/part_iterator.h
+++ b/monotone/engine/io/part_iterator.h
@@ -38,6 +38,24 @@ part_iterator_open_region(PartIterator* self, Event* event)
 	                             event);
 }
 
+hot static inline void
+part_iterator_next_region(PartIterator* self)
+{
+	// read next region, if current region has no more events
+	for (;;)
+	{
+		if (likely(region_iterator_has(&self->region_iterator)))
+			break;
+
+		index_iterator_next(&self->index_iterator);
+		self->current = index_iterator_at(&self->index_iterator);
+		if (unlikely(self->current == NULL))
+			break;
+
+		part_iterator_open_region(self, NULL);
+	}
+}
+
 hot static inline bool
 part_iterator_open(PartIterator* self, Part* part, Event* event)
 {
@@ -53,7 +71,11 @@ part_iterator_open(PartIterator* self, Part* part, Event* event)
 		return false;
 
 	reader_open(&self->reader, part);
-	return part_iterator_open_region(self, event);
+	bool match = part_iterator_open_region(self, event);
+
+	// key can be greater than the last event of the region
+	part_iterator_next_region(self);
+	return match;
 }
 
 hot static inline bool
@@ -76,20 +98,7 @@ part_iterator_next(PartIterator* self)
 
 	// iterate over current region
 	region_iterator_next(&self->region_iterator);
-
-	for (;;)
-	{
-		if (likely(region_iterator_has(&self->region_iterator)))
-			break;
-
-		// read next region
-		index_iterator_next(&self->index_iterator);
-		self->current = index_iterator_at(&self->index_iterator);
-		if (unlikely(self->current == NULL))
-			break;
-
-		part_iterator_open_region(self, NULL);
-	}
+	part_iterator_next_region(self);
 }
 
 static inline void
-- 
2.43.0


From 79adfa433f7fcc2396eaad7d7ccab97f723fd1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:51 +0000
Subject: [PATCH 06/77] fix: keep cursor position on insert, replace, split and
 rollback

Memtable iterators stepped back on an insert at their position, forward on a
replace before it, and were lost by a page split or a removed event.
---
 monotone/engine/io/memtable.c          | 36 ++++++++++---------
 monotone/engine/io/memtable_iterator.h | 49 +++++++++++++++++---------
 2 files changed, 51 insertions(+), 34 deletions(-)

diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 9442baa..442999c 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -182,17 +182,6 @@ range_search(Ref self, RangeTree* tree, Ref key, bool* match)
 }
 #endif
 
-hot static inline void
-memtable_sync(Memtable* self, MemtablePage* page, MemtablePage* split, int pos)
-{
-	// sync iterators
-	list_foreach(&self->iterators)
-	{
-		auto it = list_at(MemtableIterator, link);
-		memtable_iterator_sync(it, page, split, pos);
-	}
-}
-
 hot static inline Event*
 memtable_insert(Memtable*      self,
                 MemtablePage*  page,
@@ -208,9 +197,11 @@ memtable_insert(Memtable*      self,
 		page->events[pos] = event;
 
 		// update iterators
-		if (self->iterators_count > 0)
-			memtable_sync(self, page, NULL, pos);
-
+		list_foreach(&self->iterators)
+		{
+			auto it = list_at(MemtableIterator, link);
+			memtable_iterator_sync_replace(it, page, pos);
+		}
 		return prev;
 	}
 	if (pos < 0)
@@ -243,8 +234,11 @@ memtable_insert(Memtable*      self,
 	atomic_u64_inc(&self->count);
 
 	// update iterators
-	if (self->iterators_count > 0)
-		memtable_sync(self, l, r, pos);
+	list_foreach(&self->iterators)
+	{
+		auto it = list_at(MemtableIterator, link);
+		memtable_iterator_sync_insert(it, l, r, ref, pos);
+	}
 
 	*page_split = r;
 	return NULL;
@@ -291,7 +285,8 @@ memtable_set(Memtable* self, Event* event)
 void
 memtable_unset(Memtable* self, Event* event)
 {
-	assert(self->count_pages > 0);
+	if (unlikely(self->count_pages == 0))
+		return;
 
 	// search page
 	auto page = memtable_search_page(self, event);
@@ -318,6 +313,13 @@ memtable_unset(Memtable* self, Event* event)
 		if (size > 0)
 			memmove(&page->events[pos], &page->events[pos + 1], size);
 	}
+
+	// update iterators
+	list_foreach(&self->iterators)
+	{
+		auto it = list_at(MemtableIterator, link);
+		memtable_iterator_sync_remove(it, page, pos);
+	}
 }
 
 Event*
diff --git a/monotone/engine/io/memtable_iterator.h b/monotone/engine/io/memtable_iterator.h
index 2eee78a..37659a6 100644
--- a/monotone/engine/io/memtable_iterator.h
+++ b/monotone/engine/io/memtable_iterator.h
@@ -135,35 +135,50 @@ memtable_iterator_init(MemtableIterator* self)
 }
 
 static inline void
-memtable_iterator_sync(MemtableIterator* self,
-                       MemtablePage*     page,
-                       MemtablePage*     page_split,
-                       int               pos)
+memtable_iterator_sync_replace(MemtableIterator* self,
+                               MemtablePage*     page,
+                               int               pos)
 {
 	if (self->page != page || !self->current)
 		return;
 
-	// replace
+	// update current page event pointer on replace
 	if (self->page_pos == pos)
-	{
-		// update current page event pointer on replace
 		self->current = self->page->events[self->page_pos];
+}
+
+static inline void
+memtable_iterator_sync_insert(MemtableIterator* self,
+                              MemtablePage*     page,
+                              MemtablePage*     page_split,
+                              MemtablePage*     page_insert,
+                              int               pos)
+{
+	if (self->page != page || !self->current)
 		return;
-	}
 
-	// insert
-	if (page_split)
+	// follow current event to the split page
+	int size_split = self->memtable->size_split;
+	if (page_split && self->page_pos >= size_split)
 	{
-		if (self->page_pos >= page->events_count)
-		{
-			self->page = page_split;
-			self->page_pos = self->page_pos - page->events_count;
-		}
+		self->page = page_split;
+		self->page_pos -= size_split;
 	}
 
 	// move position, if key was inserted before it
-	if (pos <= self->page_pos)
+	if (self->page == page_insert && pos <= self->page_pos)
 		self->page_pos++;
+}
 
-	self->current = self->page->events[self->page_pos];
+static inline void
+memtable_iterator_sync_remove(MemtableIterator* self,
+                              MemtablePage*     page,
+                              int               pos)
+{
+	if (self->page != page || !self->current)
+		return;
+
+	// move position, if key was removed before it
+	if (pos < self->page_pos)
+		self->page_pos--;
 }
-- 
2.43.0


From 06b76be008a94bdd4df1464cbbcd08a3edf5c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:29 +0000
Subject: [PATCH 07/77] fix: report an event larger than the memory page as an
 error

heap_allocate() returned NULL, which was dereferenced, and the rollback of a
write that failed before its event was created passed NULL to memtable_unset().
---
 monotone/engine/engine/write.c | 1 +
 monotone/runtime/lib/heap.h    | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index dad5893..ebf63e3 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -34,6 +34,7 @@ engine_rollback(Engine* self, Log* log)
 			if (pos->prev)
 				memtable_set(ref->part->memtable, pos->prev);
 			else
+			if (pos->event)
 				memtable_unset(ref->part->memtable, pos->event);
 			engine_unlock(self, ref, LOCK_ACCESS);
 		}
diff --git a/monotone/runtime/lib/heap.h b/monotone/runtime/lib/heap.h
index 7f0434c..7ec86b1 100644
--- a/monotone/runtime/lib/heap.h
+++ b/monotone/runtime/lib/heap.h
@@ -54,13 +54,14 @@ heap_used(Heap* self)
 }
 
 hot static inline void*
-heap_allocate(Heap* self, int size)
+heap_allocate(Heap* self, size_t size)
 {
-	if (unlikely(size > self->memory_mgr->page_size))
-		return NULL;
+	if (unlikely(self->memory_mgr->page_size < 0 ||
+	             size > (size_t)self->memory_mgr->page_size))
+		error("mm: allocation size exceeds the page size");
 	Page* page;
 	if (unlikely(self->list == NULL ||
-	             (self->memory_mgr->page_size - self->list_tail->used) < size))
+	             (size_t)(self->memory_mgr->page_size - self->list_tail->used) < size))
 	{
 		page = memory_mgr_pop(self->memory_mgr);
 		if (self->list == NULL)
-- 
2.43.0


From 539111be38da0f5e59a58b59ec76e642b52e7ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:22 +0000
Subject: [PATCH 08/77] fix: wait for memory outside of the partition locks

In the block mode a writer waited for a free page while holding its partition,
so the refresh that had to free the memory could never complete. Waiters were
also not woken up when freed pages were not cached, and a failed mmap() was
counted as a used page.
---
 monotone/engine/engine/write.c     | 18 ++++++++--
 monotone/runtime/lib/memory_mgr.h  | 54 +++++++++++++++++++-----------
 monotone/runtime/runtime/runtime.c |  1 +
 monotone/runtime/runtime/runtime.h |  1 +
 4 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index ebf63e3..da8a94f 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -72,11 +72,12 @@ engine_commit(Engine* self, Log* log)
 	log_reset(log);
 }
 
-hot void
-engine_write(Engine* self, EventArg* events, int count)
+hot static bool
+engine_write_try(Engine* self, EventArg* events, int count)
 {
 	Log log;
 	log_init(&log);
+	mn_runtime.memory_wait = false;
 
 	Exception e;
 	if (enter(&e))
@@ -131,11 +132,24 @@ engine_write(Engine* self, EventArg* events, int count)
 	{
 		engine_rollback(self, &log);
 		log_free(&log);
+
+		// memory limit is reached, retry after the locks are released
+		// to allow refresh to free the memory
+		if (mn_runtime.memory_wait)
+			return false;
 		rethrow();
 	}
 
 	engine_commit(self, &log);
 	log_free(&log);
+	return true;
+}
+
+hot void
+engine_write(Engine* self, EventArg* events, int count)
+{
+	while (! engine_write_try(self, events, count))
+		memory_mgr_wait(global()->memory_mgr);
 }
 
 void
diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index 89dd37a..c78bee6 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -121,6 +121,25 @@ memory_mgr_pop_cache(MemoryMgr* self)
 	return page;
 }
 
+static inline bool
+memory_mgr_is_limit(MemoryMgr* self)
+{
+	if (!self->limit || self->free_list)
+		return false;
+	uint64_t used = self->count * (uint64_t)self->page_size;
+	return used >= self->limit_wm;
+}
+
+static inline void
+memory_mgr_wait(MemoryMgr* self)
+{
+	// wait for free page
+	mutex_lock(&self->lock);
+	while (memory_mgr_is_limit(self))
+		cond_var_wait(&self->cond_var, &self->lock);
+	mutex_unlock(&self->lock);
+}
+
 static inline Page*
 memory_mgr_pop(MemoryMgr* self)
 {
@@ -133,26 +152,15 @@ memory_mgr_pop(MemoryMgr* self)
 		return page;
 	}
 
-	if (self->limit)
+	if (unlikely(memory_mgr_is_limit(self)))
 	{
-		uint64_t used = self->count * (uint64_t)self->page_size;
-		if (unlikely(used >= self->limit_wm))
-		{
-			self->limit_hits++;
-			if (self->limit_error)
-			{
-				mutex_unlock(&self->lock);
-				error("mm: memory limit reached");
-			}
-
-			// wait for free page
-			while (! self->free_list)
-				cond_var_wait(&self->cond_var, &self->lock);
-
-			auto page = memory_mgr_pop_cache(self);
-			mutex_unlock(&self->lock);
-			return page;
-		}
+		self->limit_hits++;
+
+		// in the block mode caller must release its locks, wait for
+		// a free page using memory_mgr_wait() and retry
+		mn_runtime.memory_wait = !self->limit_error;
+		mutex_unlock(&self->lock);
+		error("mm: memory limit reached");
 	}
 
 	self->count++;
@@ -161,7 +169,13 @@ memory_mgr_pop(MemoryMgr* self)
 	Page* page;
 	page = vfs_mmap(-1, sizeof(Page) + self->page_size);
 	if (unlikely(page == NULL))
+	{
+		mutex_lock(&self->lock);
+		self->count--;
+		cond_var_broadcast(&self->cond_var);
+		mutex_unlock(&self->lock);
 		error_system();
+	}
 	page->used = 0;
 	page->next = NULL;
 	return page;
@@ -177,11 +191,11 @@ memory_mgr_push(MemoryMgr* self, Page* page, Page* page_tail, int count)
 		page_tail->next = self->free_list;
 		self->free_list = page;
 		self->free_list_count += count;
-		cond_var_broadcast(&self->cond_var);
 		page = NULL;
 	} else {
 		self->count -= count;
 	}
+	cond_var_broadcast(&self->cond_var);
 	mutex_unlock(&self->lock);
 
 	while (page)
diff --git a/monotone/runtime/runtime/runtime.c b/monotone/runtime/runtime/runtime.c
index f976534..f7c0e77 100644
--- a/monotone/runtime/runtime/runtime.c
+++ b/monotone/runtime/runtime/runtime.c
@@ -22,4 +22,5 @@ runtime_init(Context* context)
 	exception_mgr_init(&mn_runtime.exception_mgr);
 	error_init(&mn_runtime.error, context->log, context->log_arg);
 	mn_runtime.context = context;
+	mn_runtime.memory_wait = false;
 }
diff --git a/monotone/runtime/runtime/runtime.h b/monotone/runtime/runtime/runtime.h
index 9567a3a..7a50ce8 100644
--- a/monotone/runtime/runtime/runtime.h
+++ b/monotone/runtime/runtime/runtime.h
@@ -28,6 +28,7 @@ struct Runtime
 	ExceptionMgr exception_mgr;
 	Error        error;
 	Context*     context;
+	bool         memory_wait;
 };
 
 extern __thread Runtime mn_runtime;
-- 
2.43.0


From 42f4352af14c74b03556891e7a4be39b1d633398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 09/77] fix: handle incompressible regions and decompression
 size mismatch

---
 monotone/runtime/lib/compression_lz4.c  |  7 +++-
 monotone/runtime/lib/compression_zstd.c | 51 +++++++++++++++----------
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/monotone/runtime/lib/compression_lz4.c b/monotone/runtime/lib/compression_lz4.c
index 196af80..d8d2a4a 100644
--- a/monotone/runtime/lib/compression_lz4.c
+++ b/monotone/runtime/lib/compression_lz4.c
@@ -136,8 +136,13 @@ compression_lz4_decompress(Compression* ptr,
 			compression_lz4_error(rc);
 		buf_advance(buf, dst_size);
 		pos += src_size;
+
+		// no progress
+		if (unlikely(dst_size == 0 && src_size == 0))
+			error("lz4: decompression failed");
 	}
-	assert(buf_size(buf) == data_size_uncompressed);
+	if (unlikely(buf_size(buf) != data_size_uncompressed))
+		error("lz4: decompression failed");
 }
 
 CompressionIf compression_lz4 =
diff --git a/monotone/runtime/lib/compression_zstd.c b/monotone/runtime/lib/compression_zstd.c
index 9c799a5..0bafaf1 100644
--- a/monotone/runtime/lib/compression_zstd.c
+++ b/monotone/runtime/lib/compression_zstd.c
@@ -48,6 +48,31 @@ compression_zstd_free(Compression* ptr)
 	mn_free(self);
 }
 
+hot static void
+compression_zstd_write(CompressionZstd* self, Buf* buf,
+                       ZSTD_inBuffer*   in,
+                       ZSTD_EndDirective mode)
+{
+	for (;;)
+	{
+		ZSTD_outBuffer out;
+		out.dst  = buf->position;
+		out.size = buf_size_unused(buf);
+		out.pos  = 0;
+
+		size_t rc;
+		rc = ZSTD_compressStream2(self->ctx, &out, in, mode);
+		if (unlikely(ZSTD_isError(rc)))
+			error("zstd: compression failed: %s", ZSTD_getErrorName(rc));
+		buf_advance(buf, out.pos);
+
+		// complete, unless there is data left to write or flush
+		if (in->pos == in->size && rc == 0)
+			break;
+		buf_reserve(buf, buf_size_unused(buf) + ZSTD_CStreamOutSize());
+	}
+}
+
 hot static void
 compression_zstd_compress(Compression* ptr, Buf* buf, int level,
                           int          argc,
@@ -58,15 +83,11 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 	if (level > 0)
 		ZSTD_CCtx_setParameter(self->ctx, ZSTD_c_compressionLevel, level);
 
+	// incompressible data can take more space, than the source
 	size_t size = 0;
 	for (int i = 0; i < argc; i++)
 		size += buf_size(argv[i]);
-	buf_reserve(buf, size);
-
-	ZSTD_outBuffer out;
-	out.dst  = buf->position;
-	out.size = buf_size_unused(buf);
-	out.pos  = 0;
+	buf_reserve(buf, ZSTD_compressBound(size));
 
 	for (int i = 0; i < argc; i++)
 	{
@@ -74,23 +95,14 @@ compression_zstd_compress(Compression* ptr, Buf* buf, int level,
 		in.src   = argv[i]->start;
 		in.size  = buf_size(argv[i]);
 		in.pos   = 0;
-
-		ssize_t rc;
-		rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_continue);
-		assert(rc == 0);
-		unused(rc);
+		compression_zstd_write(self, buf, &in, ZSTD_e_continue);
 	}
 
 	ZSTD_inBuffer in;
 	in.src   = NULL;
 	in.size  = 0;
 	in.pos   = 0;
-	ssize_t rc;
-	rc = ZSTD_compressStream2(self->ctx, &out, &in, ZSTD_e_end);
-	assert(rc == 0);
-	unused(rc);
-
-	buf_advance(buf, out.pos);
+	compression_zstd_write(self, buf, &in, ZSTD_e_end);
 }
 
 hot static void
@@ -102,11 +114,10 @@ compression_zstd_decompress(Compression* ptr,
 {
 	unused(ptr);
 	buf_reserve(buf, data_size_uncompressed);
-	ssize_t rc;
+	size_t rc;
 	rc = ZSTD_decompress(buf->start, data_size_uncompressed, data, data_size);
-	if (unlikely(ZSTD_isError(rc)))
+	if (unlikely(ZSTD_isError(rc) || rc != (size_t)data_size_uncompressed))
 		error("zstd: decompression failed");
-	assert(rc == data_size_uncompressed);
 	buf_advance(buf, data_size_uncompressed);
 }
 
-- 
2.43.0


From 05041197b41d6b2762fbdbac239cd007e030f3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 10/77] fix: reject encrypted region without iv and tag

---
 monotone/runtime/lib/encryption_aes.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/lib/encryption_aes.c b/monotone/runtime/lib/encryption_aes.c
index 1129514..003c697 100644
--- a/monotone/runtime/lib/encryption_aes.c
+++ b/monotone/runtime/lib/encryption_aes.c
@@ -118,9 +118,10 @@ encryption_aes_decrypt(Encryption* ptr,
 	if (unlikely(str_size(key) != 32))
 		error("aes: encryption key must be 256bit");
 
-	buf_reserve(buf, data_size);
-
 	// [iv, tag, encrypted data]
+	if (unlikely(data_size < 32))
+		error("aes: decryption failed");
+	buf_reserve(buf, data_size);
 	uint8_t* iv  = data;
 	uint8_t* tag = data + 16;
 	data += 32;
-- 
2.43.0


From d109abbd9a97a49ce759b019eb52f518755e8c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:34 +0000
Subject: [PATCH 11/77] fix: verify region crc on read

---
 monotone/engine/io/reader.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/io/reader.h b/monotone/engine/io/reader.h
index 5be2947..a5ac120 100644
--- a/monotone/engine/io/reader.h
+++ b/monotone/engine/io/reader.h
@@ -107,6 +107,14 @@ reader_execute(Reader* self, IndexRegion* index_region)
 	}
 	Buf* origin = &self->buf;
 
+	// check region crc, if it was calculated
+	if (index_region->crc != 0)
+	{
+		uint32_t crc = crc32(0, origin->start, buf_size(origin));
+		if (unlikely(crc != index_region->crc))
+			error("read: region crc mismatch");
+	}
+
 	// decrypt region
 	if (self->encryption)
 	{
-- 
2.43.0


From c6948e89465e593a4615d7db3377352223f2449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 12/77] fix: keep data and files consistent when a refresh
 fails

---
 monotone/engine/engine/refresh.c | 111 ++++++++++++++++++++++++-------
 monotone/engine/engine/refresh.h |   1 +
 monotone/engine/io/part.c        |  21 ++++++
 monotone/engine/io/part.h        |   2 +
 4 files changed, 111 insertions(+), 24 deletions(-)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index db6e5c0..b49e103 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -30,6 +30,7 @@ refresh_init(Refresh* self, Engine* engine)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->pending        = false;
 	self->engine         = engine;
 	merger_init(&self->merger);
 }
@@ -49,6 +50,7 @@ refresh_reset(Refresh* self)
 	self->memtable       = NULL;
 	self->storage_origin = NULL;
 	self->storage        = NULL;
+	self->pending        = false;
 	merger_reset(&self->merger);
 }
 
@@ -104,11 +106,22 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	if (self->storage == NULL)
 		self->storage = self->storage_origin;
 
+	// finilize file rename, if it failed before
+	part_complete(self->origin);
+
 	// rotate memtable
 	mutex_lock(&engine->lock);
 	ref_lock(ref, LOCK_ACCESS);
 
-	self->memtable = part_memtable_rotate(self->origin);
+	// previous refresh failed, repeat it using already rotated memtable
+	// first
+	Memtable* memtable;
+	part_memtable(self->origin, &memtable);
+	self->pending = memtable->count > 0;
+	if (self->pending)
+		self->memtable = memtable;
+	else
+		self->memtable = part_memtable_rotate(self->origin);
 
 	ref_unlock(ref, LOCK_ACCESS);
 	mutex_unlock(&engine->lock);
@@ -131,6 +144,43 @@ refresh_merge(Refresh* self)
 	self->merger.part = NULL;
 }
 
+static void
+refresh_complete(Refresh* self)
+{
+	auto origin = self->origin;
+	auto part   = self->part;
+
+	// new partition becomes visible only after its file is completed and
+	// old file is removed, memtable (and its wal) is in use until then
+	Exception e;
+
+	// crash case 1
+	error_injection(error_refresh_1);
+
+	// step 1. rename new partition file as completed
+	if (enter(&e)) {
+		part_rename(part, ID_INCOMPLETE, ID_COMPLETE);
+	}
+	if (leave(&e))
+	{
+		part_delete_nothrow(part, ID_INCOMPLETE);
+		rethrow();
+	}
+
+	// crash case 2
+	error_injection(error_refresh_2);
+
+	// step 2. remove old partition file (it remains open)
+	if (enter(&e)) {
+		part_delete(origin, ID);
+	}
+	if (leave(&e))
+	{
+		part_delete_nothrow(part, ID_COMPLETE);
+		rethrow();
+	}
+}
+
 static void
 refresh_apply(Refresh* self)
 {
@@ -171,35 +221,22 @@ refresh_end(Refresh* self)
 	auto origin = self->origin;
 	auto part   = self->part;
 
-	// free memtable memory
+	// free memtable memory and old partition
 	memtable_free(self->memtable);
 	self->memtable = NULL;
-
-	// crash case 1
-	error_injection(error_refresh_1);
-
-	// step 1. rename new partition file as completed
-	part_rename(part, ID_INCOMPLETE, ID_COMPLETE);
-
-	// crash case 2
-	error_injection(error_refresh_2);
-
-	// step 2. remove old partition file
-	file_close(&origin->file);
-	part_delete(origin, ID);
-	part_free(origin);
 	self->origin = NULL;
+	part_free(origin);
+	self->part = NULL;
 
 	// crash case 3
 	error_injection(error_refresh_3);
 
 	// step 3. rename new partition
 	part_rename(part, ID_COMPLETE, ID);
-	self->part = NULL;
 }
 
-void
-refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+static bool
+refresh_run_next(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 {
 	// step 1. find partition and take the service lock
 	//         match storage
@@ -212,7 +249,7 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	//           do nothing if partition storage not changed
 	//
 	if (! refresh_begin(self, min, storage, if_exists))
-		return;
+		return false;
 
 	Exception e;
 	if (enter(&e))
@@ -221,17 +258,43 @@ refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		// file with the memtable
 		refresh_merge(self);
 
-		// step 3. replace existing partition with the new one
+		// step 3. complete new partition file and remove existing
+		refresh_complete(self);
+
+		// step 4. replace existing partition with the new one
 		refresh_apply(self);
 
-		// step 4. finilize and cleanup
+		// step 5. finilize and cleanup
 		refresh_end(self);
 	}
 
+	if (leave(&e))
+	{
+		// allow to schedule refresh again
+		if (self->origin)
+		{
+			mutex_lock(&self->engine->lock);
+			self->origin->refresh = false;
+			mutex_unlock(&self->engine->lock);
+		}
+		if (self->part)
+			part_free(self->part);
+		self->part = NULL;
+		engine_unlock(self->engine, self->ref, LOCK_SERVICE);
+		refresh_reset(self);
+		rethrow();
+	}
+
 	// complete
 	engine_unlock(self->engine, self->ref, LOCK_SERVICE);
 	self->ref = NULL;
+	return self->pending;
+}
 
-	if (leave(&e))
-		rethrow();
+void
+refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
+{
+	// run again, if it was the repeat of the previous one
+	while (refresh_run_next(self, min, storage, if_exists))
+		refresh_reset(self);
 }
diff --git a/monotone/engine/engine/refresh.h b/monotone/engine/engine/refresh.h
index 071db07..141c9b9 100644
--- a/monotone/engine/engine/refresh.h
+++ b/monotone/engine/engine/refresh.h
@@ -23,6 +23,7 @@ struct Refresh
 	Memtable* memtable;
 	Storage*  storage_origin;
 	Storage*  storage;
+	bool      pending;
 	Merger    merger;
 	Engine*   engine;
 };
diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 8e673a5..9898bc2 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -149,6 +149,25 @@ part_delete(Part* self, int state)
 		fs_unlink("%s", path);
 }
 
+void
+part_delete_nothrow(Part* self, int state)
+{
+	char path[PATH_MAX];
+	id_path(&self->id, self->source, state, path);
+	vfs_unlink(path);
+}
+
+void
+part_complete(Part* self)
+{
+	// finilize rename of the completed partition file, in case if it
+	// failed without crash
+	char path[PATH_MAX];
+	id_path(&self->id, self->source, ID, path);
+	if (part_has(self, ID) && !fs_exists("%s", path))
+		part_rename(self, ID_COMPLETE, ID);
+}
+
 void
 part_rename(Part* self, int from, int to)
 {
@@ -181,6 +200,7 @@ part_upload(Part* self)
 	assert(self->cloud);
 
 	// in case previous attempt failed without crash
+	part_complete(self);
 	part_delete(self, ID_CLOUD_INCOMPLETE);
 
 	// create incomplete cloud file (index dump)
@@ -202,6 +222,7 @@ part_offload(Part* self, bool from_storage)
 		// remove data file
 		file_close(&self->file);
 		part_delete(self, ID);
+		part_delete(self, ID_COMPLETE);
 		return;
 	}
 
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 1908e1e..5c67d2a 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -40,6 +40,8 @@ void part_free(Part*);
 void part_open(Part*, int, bool);
 void part_create(Part*, int);
 void part_delete(Part*, int);
+void part_delete_nothrow(Part*, int);
+void part_complete(Part*);
 void part_rename(Part*, int, int);
 void part_download(Part*);
 void part_upload(Part*);
-- 
2.43.0


From 427cebfa32667256092186795499a3eaf2138e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 13/77] fix: allow to schedule refresh again after it failed

---
 monotone/engine/engine/op.c | 43 +++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 2d3e9ab..0b70084 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -575,6 +575,20 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 	return false;
 }
 
+static void
+engine_refresh_unset(Engine* self, uint64_t min)
+{
+	// allow to schedule partition refresh again
+	control_lock_shared();
+	guard(control_unlock_guard, NULL);
+
+	mutex_lock(&self->lock);
+	auto slice = mapping_match(&self->mapping, min);
+	if (slice)
+		ref_of(slice)->part->refresh = false;
+	mutex_unlock(&self->lock);
+}
+
 void
 engine_rebalance(Engine* self, Refresh* refresh)
 {
@@ -586,10 +600,19 @@ engine_rebalance(Engine* self, Refresh* refresh)
 		uint64_t min;
 		if (! engine_rebalance_next(self, &min, &storage))
 			break;
-		if (str_empty(&storage))
-			engine_drop(self, min, true, ID|ID_CLOUD);
-		else
-			engine_refresh(self, refresh, min, &storage, true);
+		Exception e;
+		if (enter(&e))
+		{
+			if (str_empty(&storage))
+				engine_drop(self, min, true, ID|ID_CLOUD);
+			else
+				engine_refresh(self, refresh, min, &storage, true);
+		}
+		if (leave(&e))
+		{
+			engine_refresh_unset(self, min);
+			rethrow();
+		}
 	}
 }
 
@@ -605,9 +628,11 @@ engine_checkpoint(Engine* self)
 	while (slice)
 	{
 		auto ref = ref_of(slice);
-		if (!ref->part->refresh && heap_used(&ref->part->memtable->heap) > 0)
+		auto part = ref->part;
+		if (!part->refresh &&
+		    (heap_used(&part->memtable_a.heap) > 0 ||
+		     heap_used(&part->memtable_b.heap) > 0))
 		{
-			auto part = ref->part;
 			service_refresh(self->service, part);
 			part->refresh = true;
 		}
@@ -714,7 +739,11 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 		}
 	}
 	if (leave(&e))
-	{ }
+	{
+		// partition was not refreshed
+		if (req && req->id != UINT64_MAX)
+			engine_refresh_unset(self, req->id);
+	}
 
 	if (req)
 		service_req_free(req);
-- 
2.43.0


From 5b3d67c2eb2b5c359c235214139539e1ebcee05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 14/77] fix: do not refresh or drop a partition under the
 cursor of the same thread

---
 monotone/engine/engine/lockage.h |  7 +++++++
 monotone/engine/engine/op.c      | 11 ++++++++++-
 monotone/engine/engine/ref.h     |  6 ++++++
 monotone/engine/engine/refresh.c | 10 ++++++++++
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 1466c7f..3733c86 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -59,6 +59,13 @@ lockage_set(Lockage* self, Mutex* mutex, CondVar* cond_var)
 	self->cond_var = cond_var;
 }
 
+static inline bool
+lockage_is_locker(Lockage* self, LockType type)
+{
+	// mutex must be always taken before this call
+	return pthread_equal(pthread_self(), self->locks[type].locker);
+}
+
 static inline void
 lockage_lock(Lockage* self, LockType type)
 {
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 0b70084..4bf5443 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -189,9 +189,18 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 
 	// get access lock
 	mutex_lock(&self->lock);
-	ref_lock(ref, LOCK_ACCESS);
+	bool in_use = ref_is_locker(ref, LOCK_ACCESS);
+	if (likely(! in_use))
+		ref_lock(ref, LOCK_ACCESS);
 	mutex_unlock(&self->lock);
 
+	// partition is being read by the same thread
+	if (unlikely(in_use))
+	{
+		engine_unlock(self, ref, LOCK_SERVICE);
+		error("drop: partition '%" PRIu64 "' is in use by cursor", min);
+	}
+
 	// delete partition file on storage or cloud
 	Exception e;
 	if (enter(&e))
diff --git a/monotone/engine/engine/ref.h b/monotone/engine/engine/ref.h
index 6b98917..d9353d8 100644
--- a/monotone/engine/engine/ref.h
+++ b/monotone/engine/engine/ref.h
@@ -64,3 +64,9 @@ ref_unlock(Ref* self, LockType type)
 {
 	lockage_unlock(&self->lockage, type);
 }
+
+static inline bool
+ref_is_locker(Ref* self, LockType type)
+{
+	return lockage_is_locker(&self->lockage, type);
+}
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index b49e103..dc98efb 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -68,6 +68,16 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		return false;
 	}
 
+	// ensure partition is not being read by the same thread
+	mutex_lock(&engine->lock);
+	bool in_use = ref_is_locker(ref, LOCK_ACCESS);
+	mutex_unlock(&engine->lock);
+	if (unlikely(in_use))
+	{
+		engine_unlock(engine, ref, LOCK_SERVICE);
+		error("refresh: partition '%" PRIu64 "' is in use by cursor", min);
+	}
+
 	// ensure partition is offloaded
 	if (part_has(ref->part, ID_CLOUD))
 	{
-- 
2.43.0


From ebb03320c93ef0f62e8b05957b455b61ce08c321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 15/77] fix: recover partitions left with more than one
 incomplete file

---
 monotone/engine/engine/engine_recover.c | 90 +++++++++++++++----------
 1 file changed, 54 insertions(+), 36 deletions(-)

diff --git a/monotone/engine/engine/engine_recover.c b/monotone/engine/engine/engine_recover.c
index 5a6f1b4..c0c4588 100644
--- a/monotone/engine/engine/engine_recover.c
+++ b/monotone/engine/engine/engine_recover.c
@@ -112,6 +112,53 @@ engine_recover_storage(Engine* self, Storage* storage)
 	}
 }
 
+static void
+engine_recover_incomplete(Engine* self, Storage* storage)
+{
+	unused(self);
+
+	// remove incomplete files left after a crash or an error, they can
+	// be present together with any other state
+	//
+	// crash case 1 (refresh, with or without parent)
+	// crash case 4 (download)
+	//
+	//   there is no complete state for download, cloud file not
+	//   removed after download (only prior to refresh)
+	//
+	// crash case 5 (upload)
+	//
+	list_foreach_safe(&storage->list)
+	{
+		auto part = list_at(Part, link);
+
+		if (part_has(part, ID_INCOMPLETE))
+		{
+			part_delete(part, ID_INCOMPLETE);
+			part_unset(part, ID_INCOMPLETE);
+		}
+
+		if (part_has(part, ID_CLOUD_INCOMPLETE))
+		{
+			part_delete(part, ID_CLOUD_INCOMPLETE);
+			part_unset(part, ID_CLOUD_INCOMPLETE);
+		}
+
+		// crash case 2
+		if (part_has(part, ID) && part_has(part, ID_COMPLETE))
+		{
+			part_delete(part, ID_COMPLETE);
+			part_unset(part, ID_COMPLETE);
+		}
+
+		if (part->state == ID_NONE)
+		{
+			storage_remove(storage, part);
+			part_free(part);
+		}
+	}
+}
+
 static void
 engine_recover_validate(Engine* self, Storage* storage)
 {
@@ -128,25 +175,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 
 		// crash recovery cases (see refresh)
 
-		// crash case 1 (without parent)
-		case ID_INCOMPLETE:
-			storage_remove(storage, part);
-			part_delete(part, ID_INCOMPLETE);
-			part_free(part);
-			break;
-
-		// crash case 1 (with parent)
-		case ID | ID_INCOMPLETE:
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
-		// crash case 2
-		case ID | ID_COMPLETE:
-			part_delete(part, ID_COMPLETE);
-			part_unset(part, ID_COMPLETE);
-			break;
-
 		// crash case 3
 		case ID_COMPLETE:
 		{
@@ -174,23 +202,6 @@ engine_recover_validate(Engine* self, Storage* storage)
 			break;
 		}
 
-		// crash case 4
-		case ID_CLOUD | ID_INCOMPLETE:
-			// crash during download
-			//
-			// there is no complete state for download, cloud file not
-			// removed after download (only prior to refresh)
-			part_delete(part, ID_INCOMPLETE);
-			part_unset(part, ID_INCOMPLETE);
-			break;
-
-		// crash case 5
-		case ID | ID_CLOUD_INCOMPLETE:
-			// crash during upload
-			part_delete(part, ID_CLOUD_INCOMPLETE);
-			part_unset(part, ID_CLOUD_INCOMPLETE);
-			break;
-
 		default:
 			error("partition '%" PRIu64"' has unexpected state: %d",
 			      part->id.min, part->state);
@@ -211,6 +222,13 @@ engine_recover(Engine* self)
 		engine_recover_storage(self, storage);
 	}
 
+	// remove incomplete files
+	list_foreach(&storage_mgr->list)
+	{
+		auto storage = list_at(Storage, link);
+		engine_recover_incomplete(self, storage);
+	}
+
 	// validate partitions per storage
 	list_foreach(&storage_mgr->list)
 	{
-- 
2.43.0


From e09f64824df8d030c7e60b122ae4c06f09550421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 16/77] fix: truncate existing file on create

---
 monotone/runtime/runtime/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/runtime/file.h b/monotone/runtime/runtime/file.h
index 73b263b..c9ea462 100644
--- a/monotone/runtime/runtime/file.h
+++ b/monotone/runtime/runtime/file.h
@@ -83,7 +83,7 @@ static inline void
 file_create(File* self, const char* path)
 {
 	// create file
-	file_open_as(self, path, O_CREAT|O_RDWR, 0644);
+	file_open_as(self, path, O_CREAT|O_TRUNC|O_RDWR, 0644);
 }
 
 static inline void
-- 
2.43.0


From 74283a2634262bcb16159f6e1e0e93f26f4fbaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 17/77] fix: remove incomplete wal records after a crash or a
 failed write

---
 monotone/engine/wal/wal.c        | 30 ++++++++++++++
 monotone/engine/wal/wal_cursor.c |  7 ++++
 monotone/engine/wal/wal_file.h   | 71 ++++++++++++++++++++++++++++----
 3 files changed, 100 insertions(+), 8 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 80a32bf..29bea79 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -65,6 +65,10 @@ wal_rotate(Wal* self, uint64_t wm)
 	Exception e;
 	if (enter(&e))
 	{
+		// ensure that current file has only complete records
+		if (self->current)
+			wal_file_prepare(self->current);
+
 		file = wal_file_allocate(next_lsn);
 		wal_file_create(file);
 	}
@@ -166,6 +170,27 @@ wal_recover(Wal* self, char *path)
 	}
 }
 
+static void
+wal_recover_tail(WalFile* file)
+{
+	// find last complete record of the last file
+	Buf buf;
+	buf_init(&buf);
+	guard(buf_free, &buf);
+	uint64_t offset = 0;
+	while (wal_file_pread(file, offset, &buf))
+		offset += ((LogWrite*)buf.start)->size;
+
+	// remove incomplete record left after a crash, otherwise next writes
+	// will follow it
+	if (offset < file->file.size)
+	{
+		log("wal: file '%s' has incomplete record at offset %" PRIu64,
+		    str_of(&file->file.path), offset);
+		file_truncate(&file->file, offset);
+	}
+}
+
 void
 wal_open(Wal* self)
 {
@@ -188,7 +213,12 @@ wal_open(Wal* self)
 		uint64_t last = wal_id_max(&self->list);
 		self->current = wal_file_allocate(last);
 		wal_file_open(self->current);
+		wal_recover_tail(self->current);
 		file_seek_to_end(&self->current->file);
+
+		// lsn must not be less than the last file id, to keep files order
+		if (last > 0)
+			config_lsn_follow(last - 1);
 	} else
 	{
 		wal_rotate(self, 0);
diff --git a/monotone/engine/wal/wal_cursor.c b/monotone/engine/wal/wal_cursor.c
index c55cfb7..bf04a5c 100644
--- a/monotone/engine/wal/wal_cursor.c
+++ b/monotone/engine/wal/wal_cursor.c
@@ -103,6 +103,13 @@ wal_cursor_next(WalCursor* self)
 		if (id == UINT64_MAX)
 			break;
 
+		// only last file can be incomplete
+		if (var_int_of(&config()->wal_crc) && !config_online() &&
+		    self->file_offset != file->file.size)
+			error("wal: file '%s' is truncated at offset %" PRIu64,
+			      str_of(&file->file.path),
+			      self->file_offset);
+
 		// close previous file
 		wal_file_close(file);
 		wal_file_free(file);
diff --git a/monotone/engine/wal/wal_file.h b/monotone/engine/wal/wal_file.h
index f34ad1f..549d200 100644
--- a/monotone/engine/wal/wal_file.h
+++ b/monotone/engine/wal/wal_file.h
@@ -18,6 +18,7 @@ typedef struct WalFile WalFile;
 struct WalFile
 {
 	uint64_t id;
+	bool     rollback;
 	File     file;
 };
 
@@ -26,6 +27,7 @@ wal_file_allocate(uint64_t id)
 {
 	WalFile* self = mn_malloc(sizeof(WalFile));
 	self->id = id;
+	self->rollback = false;
 	file_init(&self->file);
 	return self;
 }
@@ -62,24 +64,71 @@ wal_file_close(WalFile* self)
 	file_close(&self->file);
 }
 
+static inline void
+wal_file_rollback(WalFile* self, uint64_t size)
+{
+	// remove incomplete record after a failed write, if that fails too it
+	// will be repeated before the next write
+	self->file.size = size;
+	self->rollback  = true;
+	if (vfs_truncate(self->file.fd, size) == -1)
+		return;
+	if (vfs_seek(self->file.fd, size) == -1)
+		return;
+	self->rollback = false;
+}
+
+static inline void
+wal_file_prepare(WalFile* self)
+{
+	if (likely(! self->rollback))
+		return;
+	file_truncate(&self->file, self->file.size);
+	self->rollback = false;
+}
+
 static inline void
 wal_file_write(WalFile* self, void* data, int data_size)
 {
-	file_write(&self->file, data, data_size);
-	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
-		file_sync(&self->file);
+	wal_file_prepare(self);
+	auto size = self->file.size;
+
+	Exception e;
+	if (enter(&e))
+	{
+		file_write(&self->file, data, data_size);
+		if (var_int_of(&config()->wal_sync_on_write) && config_sync())
+			file_sync(&self->file);
+	}
+	if (leave(&e))
+	{
+		wal_file_rollback(self, size);
+		rethrow();
+	}
 }
 
 static inline void
 wal_file_writev(WalFile* self, struct iovec* iov, int iovc)
 {
-	file_writev(&self->file, iov, iovc);
-	if (var_int_of(&config()->wal_sync_on_write) && config_sync())
-		file_sync(&self->file);
+	wal_file_prepare(self);
+	auto size = self->file.size;
+
+	Exception e;
+	if (enter(&e))
+	{
+		file_writev(&self->file, iov, iovc);
+		if (var_int_of(&config()->wal_sync_on_write) && config_sync())
+			file_sync(&self->file);
+	}
+	if (leave(&e))
+	{
+		wal_file_rollback(self, size);
+		rethrow();
+	}
 }
 
 static inline bool
-wal_file_eof(WalFile* self, uint32_t offset, uint32_t size)
+wal_file_eof(WalFile* self, uint64_t offset, uint64_t size)
 {
 	return (offset + size) > self->file.size;
 }
@@ -99,6 +148,11 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	file_pread_buf(&self->file, buf, size_header, offset);
 	uint32_t size = ((LogWrite*)(buf->start + start))->size;
 
+	if (unlikely(size < size_header))
+		error("wal: file '%s' is corrupted at offset %" PRIu64,
+		      str_of(&self->file.path),
+		      offset);
+
 	// check for eof
 	if (wal_file_eof(self, offset, size))
 		return false;
@@ -106,7 +160,8 @@ wal_file_pread(WalFile* self, uint64_t offset, Buf* buf)
 	// read body
 	uint32_t size_data;
 	size_data = size - size_header;
-	file_pread_buf(&self->file, buf, size_data, offset + size_header);
+	if (size_data > 0)
+		file_pread_buf(&self->file, buf, size_data, offset + size_header);
 
 	// check crc
 	if (var_int_of(&config()->wal_crc))
-- 
2.43.0


From d88ed442ca2b11f3e4ccf33724959a3894e7a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 18/77] fix: replay of a partition drop removes only its range
 and is not logged again

---
 monotone/engine/engine/op.c      | 93 ++++++++++++++++++++++++--------
 monotone/engine/engine/op.h      |  1 +
 monotone/engine/wal/log_drop.h   | 18 ++++++-
 monotone/main/main/main.c        |  4 +-
 monotone/runtime/config/global.h | 10 ++++
 5 files changed, 101 insertions(+), 25 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 4bf5443..0cf763b 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -246,18 +246,16 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 }
 
 static bool
-engine_drop_reference(Engine* self, uint64_t min)
+engine_drop_reference(Engine* self, uint64_t min, bool log_drop)
 {
 	// take exclusive control lock
 	control_lock_exclusive();
+	guard(control_unlock_guard, NULL);
 
 	// find partition = min
 	auto slice = mapping_match(&self->mapping, min);
 	if (! slice)
-	{
-		control_unlock();
 		return true;
-	}
 	auto ref = ref_of(slice);
 	auto part = ref->part;
 
@@ -265,27 +263,15 @@ engine_drop_reference(Engine* self, uint64_t min)
 	if (part->state != ID_NONE)
 	{
 		// retry truncate
-		control_unlock();
 		return false;
 	}
 
-	// remove partition from mapping
-	mapping_remove(&self->mapping, slice);
-
-	// remove partition from storage
-	auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
-	storage_remove(storage, part);
-
-	control_unlock();
-
-	// free
-	ref_free(ref);
-
-	// wal write
-	if (var_int_of(&config()->wal))
+	// wal write, drop must be logged before any following write to the
+	// same range
+	if (log_drop && var_int_of(&config()->wal))
 	{
 		LogDrop drop;
-		log_drop_init(&drop, min);
+		log_drop_init(&drop, slice->min, slice->max);
 		auto rotate_ready = wal_write_op(self->wal, &drop.write);
 
 		// schedule wal rotation
@@ -293,6 +279,15 @@ engine_drop_reference(Engine* self, uint64_t min)
 			service_rotate(self->service);
 	}
 
+	// remove partition from mapping
+	mapping_remove(&self->mapping, slice);
+
+	// remove partition from storage
+	auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
+	storage_remove(storage, part);
+
+	// free
+	ref_free(ref);
 	return true;
 }
 
@@ -312,7 +307,7 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 
 			// try to drop partition mapping, or retry drop if
 			// partition still has files
-			if (engine_drop_reference(self, min))
+			if (engine_drop_reference(self, min, true))
 				break;
 		}
 
@@ -323,6 +318,62 @@ engine_drop(Engine* self, uint64_t min, bool if_exists, int mask)
 	engine_drop_file(self, min, if_exists, false, mask);
 }
 
+static void
+engine_drop_replay_memtable(Memtable* memtable, uint64_t min, uint64_t max)
+{
+	// remove events of the dropped range
+	Buf list;
+	buf_init(&list);
+	guard(buf_free, &list);
+
+	MemtableIterator it;
+	memtable_iterator_init(&it);
+	memtable_iterator_open(&it, memtable, NULL, false);
+	for (; memtable_iterator_has(&it); memtable_iterator_next(&it))
+	{
+		auto event = memtable_iterator_at(&it);
+		if (event->id >= min && event->id <= max)
+			buf_write(&list, &event, sizeof(event));
+	}
+
+	auto pos = (Event**)list.start;
+	auto end = (Event**)list.position;
+	for (; pos < end; pos++)
+		memtable_unset(memtable, *pos);
+}
+
+void
+engine_drop_replay(Engine* self, LogDrop* drop)
+{
+	uint64_t lsn = drop->write.lsn;
+	uint64_t min = drop->id;
+	uint64_t max = log_drop_max(drop);
+
+	// events which were not refreshed before the restart can be recovered
+	// to partitions with a different range
+	auto slice = mapping_gte(&self->mapping, min);
+	while (slice && slice->min <= max)
+	{
+		auto next = mapping_next(&self->mapping, slice);
+		auto part = ref_of(slice)->part;
+
+		// skip if partition is a newer then the drop
+		if (part->state == ID_NONE || part->index.lsn < lsn)
+		{
+			if (slice->min == min && slice->max == max)
+			{
+				// drop is already logged
+				engine_drop_file(self, min, true, false, ID|ID_CLOUD);
+				engine_drop_reference(self, min, false);
+			} else
+			{
+				engine_drop_replay_memtable(part->memtable, min, max);
+			}
+		}
+		slice = next;
+	}
+}
+
 void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
diff --git a/monotone/engine/engine/op.h b/monotone/engine/engine/op.h
index a4ab3db..fc12b90 100644
--- a/monotone/engine/engine/op.h
+++ b/monotone/engine/engine/op.h
@@ -17,6 +17,7 @@
 void engine_fill_nolock(Engine*, uint64_t, uint64_t);
 void engine_fill(Engine*, uint64_t, uint64_t);
 void engine_drop(Engine*, uint64_t, bool, int);
+void engine_drop_replay(Engine*, LogDrop*);
 void engine_drop_range(Engine*, uint64_t, uint64_t, int);
 
 // cloud
diff --git a/monotone/engine/wal/log_drop.h b/monotone/engine/wal/log_drop.h
index 55f8254..5d6e8a2 100644
--- a/monotone/engine/wal/log_drop.h
+++ b/monotone/engine/wal/log_drop.h
@@ -19,10 +19,11 @@ struct LogDrop
 {
 	LogWrite write;
 	uint64_t id;
+	uint64_t max;
 } packed;
 
 static inline void
-log_drop_init(LogDrop* self, uint64_t id)
+log_drop_init(LogDrop* self, uint64_t id, uint64_t max)
 {
 	auto write = &self->write;
 	write->crc   = 0;
@@ -31,7 +32,20 @@ log_drop_init(LogDrop* self, uint64_t id)
 	write->count = 0;
 	write->size  = sizeof(LogDrop);
 	self->id     = id;
+	self->max    = max;
+	// max is logged only for partitions which do not match the interval
+	if (config_interval_of(id) == id && config_interval_max(id) == max)
+		write->size -= sizeof(self->max);
+
 	// calculate crc
 	if (var_int_of(&config()->wal_crc))
-		self->write.crc = crc32(self->write.crc, &id, sizeof(id));
+		self->write.crc = crc32(self->write.crc, &self->id, write->size - sizeof(LogWrite));
+}
+
+static inline uint64_t
+log_drop_max(LogDrop* self)
+{
+	if (self->write.size >= sizeof(LogDrop))
+		return self->max;
+	return config_interval_max(self->id);
 }
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 617b022..916573f 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -192,8 +192,7 @@ main_replay(Main* self)
 			break;
 		case LOG_DROP:
 		{
-			auto drop = (LogDrop*)write;
-			engine_drop(&self->engine, drop->id, true, ID|ID_CLOUD);
+			engine_drop_replay(&self->engine, (LogDrop*)write);
 			break;
 		}
 		default:
@@ -202,6 +201,7 @@ main_replay(Main* self)
 			break;
 		}
 
+		config_lsn_follow(write->lsn);
 		total += write->count;
 	}
 	log("wal: %.1f million records processed",
diff --git a/monotone/runtime/config/global.h b/monotone/runtime/config/global.h
index 3a246a9..1fa5bb6 100644
--- a/monotone/runtime/config/global.h
+++ b/monotone/runtime/config/global.h
@@ -64,6 +64,16 @@ config_interval_of(uint64_t time)
 	return time - (time % config_interval());
 }
 
+static inline uint64_t
+config_interval_max(uint64_t min)
+{
+	// interval is inclusive
+	uint64_t max = (min + config_interval()) - 1;
+	if (max < min)
+		max = UINT64_MAX;
+	return max;
+}
+
 static inline int
 config_workers(void)
 {
-- 
2.43.0


From 6505691afadac0a1eb5af45af763d33ead6d0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:24 +0000
Subject: [PATCH 19/77] fix: handle partitions up to the maximum id

---
 monotone/engine/engine/engine.c        |  3 +--
 monotone/engine/engine/engine_cursor.h |  7 ++++++-
 monotone/engine/engine/op.c            | 23 ++++++++++++++++++-----
 3 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index e459767..e4e1aea 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -139,9 +139,8 @@ engine_lock(Engine* self, uint64_t id, LockType lock,
 
 			// create one or more partitions using default interval
 
-			// interval is inclusive
 			auto min = config_interval_of(id);
-			auto max = (min + config_interval()) - 1;
+			auto max = config_interval_max(min);
 			engine_fill_nolock(self, min, max);
 
 			// retry search
diff --git a/monotone/engine/engine/engine_cursor.h b/monotone/engine/engine/engine_cursor.h
index 8907440..f28b508 100644
--- a/monotone/engine/engine/engine_cursor.h
+++ b/monotone/engine/engine/engine_cursor.h
@@ -98,13 +98,18 @@ engine_cursor_next(EngineCursor* self)
 	if (likely(part_cursor_has(&self->cursor)))
 		return;
 
-	uint64_t next_interval = self->ref->slice.max + 1;
+	uint64_t max = self->ref->slice.max;
 
 	// close previous partition
 	part_cursor_close(&self->cursor);
 	engine_unlock(self->engine, self->ref, LOCK_ACCESS);
 	self->ref = NULL;
 
+	// last possible partition
+	if (unlikely(max == UINT64_MAX))
+		return;
+	uint64_t next_interval = max + 1;
+
 	// open next partition
 	engine_cursor_open_part(self, next_interval, NULL);
 }
diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 0cf763b..97be2a5 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -102,10 +102,16 @@ engine_fill_nolock(Engine* self, uint64_t min, uint64_t max)
 					gap.max = slice->min - 1;
 				buf_write(&gaps, &gap, sizeof(gap));
 
+				// complete range
+				if (slice->max >= max)
+					break;
 				min = slice->max + 1;
 			} else
 			if (slice_in(slice, min))
 			{
+				// complete range
+				if (slice->max >= max)
+					break;
 				min = slice->max + 1;
 			}
 
@@ -145,6 +151,10 @@ engine_fill(Engine* self, uint64_t min, uint64_t max)
 static inline bool
 engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 {
+	// last partition was UINT64_MAX
+	if (*min == UINT64_MAX && *min_next == UINT64_MAX)
+		return false;
+
 	// get next reference >= min and <= max
 	auto ref = engine_lock(self, *min, LOCK_ACCESS, true, false);
 	if (ref == NULL)
@@ -155,7 +165,10 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	if (ref_min >= *min && ref_max <= max)
 	{
 		*min = ref_min;
-		*min_next = ref_max + 1;
+		if (unlikely(ref_max == UINT64_MAX))
+			*min_next = UINT64_MAX;
+		else
+			*min_next = ref_max + 1;
 		return true;
 	}
 	return false;
@@ -377,7 +390,7 @@ engine_drop_replay(Engine* self, LogDrop* drop)
 void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
-	uint64_t next;
+	uint64_t next = 0;
 	for (; engine_foreach(self, &min, &next, max); min = next)
 		engine_drop(self, min, true, mask);
 }
@@ -446,7 +459,7 @@ engine_download(Engine* self, uint64_t min,
 void
 engine_download_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
-	uint64_t next;
+	uint64_t next = 0;
 	for (; engine_foreach(self, &min, &next, max); min = next)
 		engine_download(self, min, true, if_cloud);
 }
@@ -516,7 +529,7 @@ engine_upload(Engine* self, uint64_t min,
 void
 engine_upload_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
-	uint64_t next;
+	uint64_t next = 0;
 	for (; engine_foreach(self, &min, &next, max); min = next)
 		engine_upload(self, min, true, if_cloud);
 }
@@ -546,7 +559,7 @@ void
 engine_refresh_range(Engine* self, Refresh* refresh, uint64_t min, uint64_t max,
                      Str* storage)
 {
-	uint64_t next;
+	uint64_t next = 0;
 	for (; engine_foreach(self, &min, &next, max); min = next)
 		engine_refresh(self, refresh, min, storage, true);
 }
-- 
2.43.0


From 68b03354bc14bb2a7125126a9f770edc2f8dbd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:35 +0000
Subject: [PATCH 20/77] fix: do not overflow log and print buffers on long
 messages

---
 monotone/runtime/runtime/buf.h    | 16 ++++++++++++++--
 monotone/runtime/runtime/logger.c |  7 ++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/monotone/runtime/runtime/buf.h b/monotone/runtime/runtime/buf.h
index 8939b85..c9597ec 100644
--- a/monotone/runtime/runtime/buf.h
+++ b/monotone/runtime/runtime/buf.h
@@ -145,8 +145,20 @@ buf_vprintf(Buf* self, const char* fmt, va_list args)
 {
 	char tmp[1024];
 	int  tmp_len;
-	tmp_len = vsnprintf(tmp, sizeof(tmp), fmt, args);
-	buf_write(self, tmp, tmp_len);
+	va_list args_copy;
+	va_copy(args_copy, args);
+	tmp_len = vsnprintf(tmp, sizeof(tmp), fmt, args_copy);
+	va_end(args_copy);
+	if (likely(tmp_len < (int)sizeof(tmp)))
+	{
+		buf_write(self, tmp, tmp_len);
+		return;
+	}
+
+	// data does not fit
+	buf_reserve(self, tmp_len + 1);
+	vsnprintf((char*)self->position, tmp_len + 1, fmt, args);
+	buf_advance(self, tmp_len);
 }
 
 static inline void
diff --git a/monotone/runtime/runtime/logger.c b/monotone/runtime/runtime/logger.c
index a888041..f6aad35 100644
--- a/monotone/runtime/runtime/logger.c
+++ b/monotone/runtime/runtime/logger.c
@@ -75,8 +75,9 @@ logger_write(Logger*     self,
 	// time
 	struct timeval tv;
 	gettimeofday(&tv, NULL);
+	struct tm tm;
 	len += strftime(buffer + len, sizeof(buffer) - len, "%d.%m.%y %H:%M:%S.",
-	                localtime(&tv.tv_sec));
+	                localtime_r(&tv.tv_sec, &tm));
 	len += snprintf(buffer + len, sizeof(buffer) - len, "%03d ",
 	                  (signed)tv.tv_usec / 1000);
 
@@ -86,6 +87,10 @@ logger_write(Logger*     self,
 
 	// message
 	len += vsnprintf(buffer + len, sizeof(buffer) - len, fmt, args);
+
+	// message can be truncated
+	if (unlikely(len > (int)sizeof(buffer) - 2))
+		len = sizeof(buffer) - 2;
 	len += snprintf(buffer + len, sizeof(buffer) - len, "\n");
 
 	// write
-- 
2.43.0


From 4b4ef5d4d380b7e7386e3de1346b25d764063ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 21/77] fix: do not overflow token backlog on a sequence of
 integers

---
 monotone/main/command/lex.c | 43 ++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 9f66620..1d5bb18 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -132,9 +132,35 @@ lex_keywords(Lex* self, bool on)
 	self->keywords = on;
 }
 
+static inline bool
+lex_skip(Lex* self)
+{
+	// skip white spaces and comments
+	for (;;)
+	{
+		while (self->pos < self->end && isspace(*self->pos))
+			self->pos++;
+		// eof
+		if (unlikely(self->pos == self->end))
+			return false;
+		if (*self->pos != '#')
+			break;
+		while (self->pos < self->end && *self->pos != '\n')
+			self->pos++;
+		// eof
+		if (self->pos == self->end)
+			return false;
+	}
+	return true;
+}
+
 static void
 lex_integer_mod(Lex* self, Token* value)
 {
+	// modificator can be only a keyword
+	if (!lex_skip(self) || !isalpha(*self->pos))
+		return;
+
 	Token tk;
 	lex_next(self, &tk);
 	switch (tk.id) {
@@ -209,21 +235,8 @@ lex_next(Lex* self, Token* tk)
 	tk->id = KEOF;
 
 	// skip white spaces and comments
-	for (;;)
-	{
-		while (self->pos < self->end && isspace(*self->pos))
-			self->pos++;
-		// eof
-		if (unlikely(self->pos == self->end))
-			return;
-		if (*self->pos != '#')
-			break;
-		while (self->pos < self->end && *self->pos != '\n')
-			self->pos++;
-		// eof
-		if (self->pos == self->end)
-			return;
-	}
+	if (! lex_skip(self))
+		return;
 
 	// symbols
 	if (*self->pos != '\"' &&
-- 
2.43.0


From 5b17c3db224e80b565daa6fcaac3463217997f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:45 +0000
Subject: [PATCH 22/77] fix: month and year duration modificators

---
 monotone/main/command/lex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 1d5bb18..539c8f2 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -187,10 +187,10 @@ lex_integer_mod(Lex* self, Token* value)
 		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 7 * 24 * 60 * 60 * 1000 * 1000;
+		value->integer *= 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
-- 
2.43.0


From 5e1db9db004dad893255249ce7328de63cd7b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:46 +0000
Subject: [PATCH 23/77] fix: escape strings in json

---
 monotone/runtime/lib/json.c | 89 ++++++++++++++++++++++++++++++++++---
 1 file changed, 82 insertions(+), 7 deletions(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index a1660f3..c2c5146 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -53,6 +53,57 @@ json_next(Json* self, int n)
 	return self->json[self->pos];
 }
 
+static inline void
+json_read_string(Json* self, char* pos, int size)
+{
+	auto data = &self->buf;
+	if (likely(! memchr(pos, '\\', size)))
+	{
+		encode_raw(data, pos, size);
+		return;
+	}
+
+	// unescape string
+	Buf buf;
+	buf_init(&buf);
+	guard(buf_free, &buf);
+	buf_reserve(&buf, size);
+
+	auto end = pos + size;
+	while (pos < end)
+	{
+		char symbol = *pos++;
+		if (symbol == '\\' && pos < end)
+		{
+			symbol = *pos++;
+			switch (symbol) {
+			case '"':
+			case '\\':
+				break;
+			case 'u':
+			{
+				// \u00XX (see json_export_string)
+				if ((end - pos) >= 4 && pos[0] == '0' && pos[1] == '0' &&
+				    isxdigit(pos[2]) &&
+				    isxdigit(pos[3]))
+				{
+					char code[3] = { pos[2], pos[3], 0 };
+					symbol = strtol(code, NULL, 16);
+					pos += 4;
+					break;
+				}
+				// fallthrough
+			}
+			default:
+				buf_write(&buf, "\\", 1);
+				break;
+			}
+		}
+		buf_write(&buf, &symbol, 1);
+	}
+	encode_raw(data, (char*)buf.start, buf_size(&buf));
+}
+
 hot static inline int
 json_read(Json* self, int skip)
 {
@@ -133,7 +184,7 @@ json_read(Json* self, int skip)
 				return -1;
 			// value
 			rc = json_read(self, 1);
-			if (unlikely(rc == -1))
+			if (unlikely(rc <= 0))
 				return -1;
 			count++;
 
@@ -176,7 +227,7 @@ json_read(Json* self, int skip)
 		if (unlikely(self->pos > self->json_size))
 			return -1;
 		int size = self->pos - offset - 1;
-		encode_raw(data, self->json + offset, size);
+		json_read_string(self, self->json + offset, size);
 		return token;
 	}
 	case 'n':
@@ -241,6 +292,7 @@ json_read(Json* self, int skip)
 		return token;
 fp:;
 		char* end;
+		errno = 0;
 		double real = strtod(self->json + self->pos, &end);
 		if (errno == ERANGE)
 			return -1;
@@ -266,11 +318,37 @@ json_parse(Json* self, Str* string)
 	self->pos       = 0;
 	int rc;
 	rc = json_read(self, 0);
-	if (unlikely(rc == -1))
+	if (unlikely(rc <= 0))
 		error("%s", "json parse error");
 	assert(self->buf.position <= self->buf.end);
 }
 
+static void
+json_export_string(Buf* data, char* value, int size)
+{
+	buf_write(data, "\"", 1);
+	auto end = value + size;
+	for (; value < end; value++)
+	{
+		if (*value == '"' || *value == '\\')
+		{
+			buf_write(data, "\\", 1);
+			buf_write(data, value, 1);
+		} else
+		if ((uint8_t)*value < 0x20)
+		{
+			char symbol[8];
+			int  symbol_len;
+			symbol_len = snprintf(symbol, sizeof(symbol), "\\u%04x", *value);
+			buf_write(data, symbol, symbol_len);
+		} else
+		{
+			buf_write(data, value, 1);
+		}
+	}
+	buf_write(data, "\"", 1);
+}
+
 static void
 json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 {
@@ -311,13 +389,10 @@ json_export_as(Buf* data, bool pretty, int deep, uint8_t** pos)
 	}
 	case MN_STRINGV0 ... MN_STRING32:
 	{
-		// todo: quouting
 		char* value;
 		int   size;
 		data_read_raw(pos, &value, &size);
-		buf_write(data, "\"", 1);
-		buf_write(data, value, size);
-		buf_write(data, "\"", 1);
+		json_export_string(data, value, size);
 		break;
 	}
 	case MN_ARRAYV0 ... MN_ARRAY32:
-- 
2.43.0


From 18b78f788da1fe9be71b261f0b94b8d0866dbb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:51 +0000
Subject: [PATCH 24/77] fix: replace config file atomically

---
 monotone/runtime/config/config.c | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index 9abde99..b1803e0 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -243,7 +243,7 @@ config_save_to(Config* self, const char* path)
 	File file;
 	file_init(&file);
 	guard(file_close, &file);
-	file_open_as(&file, path, O_CREAT|O_RDWR, 0600);
+	file_open_as(&file, path, O_CREAT|O_TRUNC|O_RDWR, 0600);
 	file_write_buf(&file, &text);
 
 	// sync
@@ -254,21 +254,11 @@ config_save_to(Config* self, const char* path)
 void
 config_save(Config* self, const char* path)
 {
-	// remove old saved config, if exists
-	Buf buf;
-	buf_init(&buf);
-	guard(buf_free, &buf);
-	if (fs_exists("%s.old", path))
-		fs_unlink("%s.old", path);
-
-	// save existing config as a old
-	fs_rename(path,  "%s.old", path);
-
-	// create config file
-	config_save_to(self, path);
-
-	// remove old config file
-	fs_unlink("%s.old", path);
+	// create new config file and atomically replace existing one
+	char path_new[PATH_MAX];
+	snprintf(path_new, sizeof(path_new), "%s.new", path);
+	config_save_to(self, path_new);
+	fs_rename(path_new, "%s", path);
 }
 
 void
@@ -288,7 +278,7 @@ config_open(Config* self, const char* path)
 	}
 
 	// create config file
-	config_save_to(self, path);
+	config_save(self, path);
 }
 
 void
-- 
2.43.0


From c2e02d02976152618cea769cebf5860e81320f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:56 +0000
Subject: [PATCH 25/77] fix: zero size read and write is not an error

---
 monotone/runtime/runtime/vfs.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/runtime/runtime/vfs.c b/monotone/runtime/runtime/vfs.c
index 79d9a6f..58029ad 100644
--- a/monotone/runtime/runtime/vfs.c
+++ b/monotone/runtime/runtime/vfs.c
@@ -105,6 +105,8 @@ vfs_truncate(int fd, uint64_t size)
 int64_t
 vfs_read(int fd, void* buf, uint64_t size)
 {
+	if (unlikely(size == 0))
+		return 0;
 	uint64_t n = 0;
 	do {
 		int r;
@@ -122,6 +124,8 @@ vfs_read(int fd, void* buf, uint64_t size)
 int64_t
 vfs_pread(int fd, uint64_t off, void* buf, uint64_t size)
 {
+	if (unlikely(size == 0))
+		return 0;
 	uint64_t n = 0;
 	do {
 		int r;
@@ -139,6 +143,8 @@ vfs_pread(int fd, uint64_t off, void* buf, uint64_t size)
 int64_t
 vfs_write(int fd, void* buf, uint64_t size)
 {
+	if (unlikely(size == 0))
+		return 0;
 	uint64_t n = 0;
 	do {
 		int r;
@@ -156,6 +162,8 @@ vfs_write(int fd, void* buf, uint64_t size)
 int64_t
 vfs_pwrite(int fd, void* buf, uint64_t size, uint64_t offset)
 {
+	if (unlikely(size == 0))
+		return 0;
 	uint64_t n = 0;
 	do {
 		int r;
-- 
2.43.0


From 1ce404044e7824674c14394f497c3f43db4fe3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 26/77] fix: report use before open and repeated open as an
 error

---
 monotone/main/api/monotone.c | 2 ++
 monotone/main/main/execute.c | 8 ++++++++
 monotone/main/main/main.c    | 2 +-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/monotone/main/api/monotone.c b/monotone/main/api/monotone.c
index d4688e4..4540937 100644
--- a/monotone/main/api/monotone.c
+++ b/monotone/main/api/monotone.c
@@ -156,6 +156,8 @@ monotone_write(monotone_t* self, monotone_event_t* events, int count)
 	int rc = 0;
 	Exception e;
 	if (enter(&e)) {
+		if (unlikely(! config_online()))
+			error("environment is not open");
 		engine_write(&self->main.engine, (EventArg*)events, count);
 	}
 	if (leave(&e)) {
diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 9cd65c5..1772e48 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -546,6 +546,14 @@ main_execute(Main* self, const char* command, char** result)
 	if (cmd == NULL)
 		return;
 
+	// only configuration can be changed before open
+	if (unlikely(!config_online() && cmd->type != CMD_SET &&
+	             cmd->type != CMD_SHOW))
+	{
+		cmd_free(cmd);
+		error("environment is not open");
+	}
+
 	// prepare for execution
 	auto execute = &cmds[cmd->type];
 	switch (execute->lock) {
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 916573f..964f094 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -118,7 +118,7 @@ static void
 main_deploy(Main* self, Str* directory)
 {
 	if (config_online())
-		log("environment is already open");
+		error("environment is already open");
 
 	// prepare random manager
 	random_open(&self->random);
-- 
2.43.0


From c1511fbba29fe8c0668227e1db159d5cc2f30a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:34 +0000
Subject: [PATCH 27/77] fix: keep wal files in the list if they cannot be
 removed

---
 monotone/engine/wal/wal.c | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 29bea79..2261d75 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -117,13 +117,25 @@ wal_gc(Wal* self, uint64_t snapshot)
 	{
 		char path[PATH_MAX];
 		uint64_t *ids = (uint64_t*)list.start;
-		int i = 0;
-		for (; i < list_count; i++)
+		int volatile i = 0;
+
+		Exception e;
+		if (enter(&e))
+		{
+			for (; i < list_count; i++)
+			{
+				snprintf(path, sizeof(path), "%s/wal/%020" PRIu64 ".wal",
+				         config_directory(),
+				         ids[i]);
+				fs_unlink("%s", path);
+			}
+		}
+		if (leave(&e))
 		{
-			snprintf(path, sizeof(path), "%s/wal/%020" PRIu64 ".wal",
-			         config_directory(),
-			         ids[i]);
-			fs_unlink("%s", path);
+			// file was not removed, files must be removed in order
+			for (; i < list_count; i++)
+				wal_id_add(&self->list, ids[i]);
+			rethrow();
 		}
 	}
 }
-- 
2.43.0


From 86ff79976d8a2e68310647131cf091710ea79f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:19 +0000
Subject: [PATCH 28/77] fix: do not remove wal files with records of concurrent
 writes

---
 monotone/engine/engine/op.c    |  5 +++--
 monotone/engine/engine/write.c | 17 +++++++++++++++++
 monotone/engine/io/memtable.c  |  7 +++++++
 monotone/engine/io/memtable.h  |  1 +
 4 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 97be2a5..f25b2c4 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -723,8 +723,9 @@ engine_gc(Engine* self)
 	control_lock_shared();
 	guard(control_unlock_guard, NULL);
 
-	// get minimum lsn currently used by any memtable
-	uint64_t lsn_min = UINT64_MAX;
+	// get minimum lsn currently used by any memtable, concurrent writes
+	// can only have a greater lsn
+	uint64_t lsn_min = config_lsn() + 1;
 	mutex_lock(&self->lock);
 
 	auto slice = mapping_min(&self->mapping);
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index da8a94f..485ed62 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -72,6 +72,20 @@ engine_commit(Engine* self, Log* log)
 	log_reset(log);
 }
 
+hot static inline void
+engine_write_follow(Log* log)
+{
+	// set lower bound for the lsn of the following wal write
+	uint64_t lsn = config_lsn() + 1;
+	auto pos = log_first(log);
+	auto end = log_end(log);
+	for (; pos < end; pos++)
+	{
+		Ref* ref = pos->ref;
+		memtable_follow_min(ref->part->memtable, lsn);
+	}
+}
+
 hot static bool
 engine_write_try(Engine* self, EventArg* events, int count)
 {
@@ -113,6 +127,9 @@ engine_write_try(Engine* self, EventArg* events, int count)
 		// wal write
 		if (var_int_of(&config()->wal))
 		{
+			// prevent wal gc of the record until commit
+			engine_write_follow(&log);
+
 			// wal write error test case
 			error_injection(error_wal);
 
diff --git a/monotone/engine/io/memtable.c b/monotone/engine/io/memtable.c
index 442999c..ee99ea2 100644
--- a/monotone/engine/io/memtable.c
+++ b/monotone/engine/io/memtable.c
@@ -364,3 +364,10 @@ memtable_follow(Memtable* self, uint64_t lsn)
 	if (lsn > atomic_u64_of(&self->lsn_max))
 		atomic_u64_set(&self->lsn_max, lsn);
 }
+
+void
+memtable_follow_min(Memtable* self, uint64_t lsn)
+{
+	if (lsn < atomic_u64_of(&self->lsn_min))
+		atomic_u64_set(&self->lsn_min, lsn);
+}
diff --git a/monotone/engine/io/memtable.h b/monotone/engine/io/memtable.h
index 1a66d06..49c2169 100644
--- a/monotone/engine/io/memtable.h
+++ b/monotone/engine/io/memtable.h
@@ -46,3 +46,4 @@ void   memtable_unset(Memtable*, Event*);
 Event* memtable_max(Memtable*);
 bool   memtable_seek(Memtable*, Event*, MemtablePage**, int*);
 void   memtable_follow(Memtable*, uint64_t);
+void   memtable_follow_min(Memtable*, uint64_t);
-- 
2.43.0


From 948df551ebc539a3048bbf68c15b3c65391cc9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 29/77] fix: assign serial ids after every existing event

---
 monotone/engine/engine/engine.c   | 33 +++++++++++++++++--------------
 monotone/engine/engine/write.c    | 10 ++++++++--
 monotone/runtime/config/var.h     | 11 ++++++++---
 monotone/runtime/runtime/atomic.h |  6 ++++++
 4 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index e4e1aea..cc9b188 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -78,25 +78,28 @@ engine_close(Engine* self)
 void
 engine_set_serial(Engine* self)
 {
-	auto slice = mapping_max(&self->mapping);
-	if (! slice)
-		return;
-	auto ref  = ref_of(slice);
-	auto part = ref->part;
-
 	bool     serial_set = false;
 	uint64_t serial = 0;
-	if (part->state != ID_NONE && part->index.regions > 0)
-	{
-		serial = index_max(&part->index, &part->index_data);
-		serial_set = true;
-	}
 
-	auto max = memtable_max(part->memtable);
-	if (max && max->id >= serial)
+	// find last partition with events, since partitions
+	// could be empty
+	auto slice = mapping_max(&self->mapping);
+	for (; slice && !serial_set; slice = mapping_prev(&self->mapping, slice))
 	{
-		serial = max->id;
-		serial_set = true;
+		auto ref  = ref_of(slice);
+		auto part = ref->part;
+		if (part->state != ID_NONE && part->index.regions > 0)
+		{
+			serial = index_max(&part->index, &part->index_data);
+			serial_set = true;
+		}
+
+		auto max = memtable_max(part->memtable);
+		if (max && max->id >= serial)
+		{
+			serial = max->id;
+			serial_set = true;
+		}
 	}
 
 	if (serial_set)
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index 485ed62..a376630 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -105,8 +105,14 @@ engine_write_try(Engine* self, EventArg* events, int count)
 				error("event key size limit is 255 bytes");
 
 			// set serial
-			if (arg->id == UINT64_MAX && config_serial())
-				arg->id = config_ssn_next();
+			if (config_serial())
+			{
+				if (arg->id == UINT64_MAX)
+					arg->id = config_ssn_next();
+				else
+				if (! (arg->flags & MN_DELETE))
+					config_ssn_follow(arg->id + 1);
+			}
 
 			// prepare log record
 			auto op = log_add(&log);
diff --git a/monotone/runtime/config/var.h b/monotone/runtime/config/var.h
index 21f6ad1..fe32f39 100644
--- a/monotone/runtime/config/var.h
+++ b/monotone/runtime/config/var.h
@@ -108,9 +108,14 @@ static inline void
 var_int_follow(Var* self, uint64_t value)
 {
 	assert(self->type == VAR_INT || self->type == VAR_BOOL);
-	// todo: cas loop
-	if (value > atomic_u64_of(&self->integer))
-		atomic_u64_set(&self->integer, value);
+	for (;;)
+	{
+		auto current = atomic_u64_of(&self->integer);
+		if (value <= current)
+			break;
+		if (atomic_u64_cas(&self->integer, current, value))
+			break;
+	}
 }
 
 static inline uint64_t
diff --git a/monotone/runtime/runtime/atomic.h b/monotone/runtime/runtime/atomic.h
index da7d22f..3e7038e 100644
--- a/monotone/runtime/runtime/atomic.h
+++ b/monotone/runtime/runtime/atomic.h
@@ -64,6 +64,12 @@ atomic_u64_dec(atomic_u64* self)
 	return __sync_fetch_and_sub(self, 1);
 }
 
+static inline bool
+atomic_u64_cas(atomic_u64* self, uint64_t from, uint64_t to)
+{
+	return __sync_bool_compare_and_swap(self, from, to);
+}
+
 static inline uint64_t
 atomic_u64_set(atomic_u64* self, uint64_t value)
 {
-- 
2.43.0


From b8de557ce3c383c18d6aee838511f19fe79f54b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:04 +0000
Subject: [PATCH 30/77] fix: s3 digest buffer size, error message and range
 size check

---
 monotone/cloud/s3/s3_op.c      | 6 +++++-
 monotone/cloud/s3/s3_request.c | 8 ++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/monotone/cloud/s3/s3_op.c b/monotone/cloud/s3/s3_op.c
index 4573625..68e7148 100644
--- a/monotone/cloud/s3/s3_op.c
+++ b/monotone/cloud/s3/s3_op.c
@@ -67,7 +67,7 @@ s3_op_upload_cb(void* ptr, size_t len, size_t nmemb, void* arg)
 
 	int rc = vfs_read(upload->file->fd, ptr, size);
 	if (rc == -1)
-		return 0;
+		return CURL_READFUNC_ABORT;
 
 	upload->file_offset += size;
 	return size;
@@ -164,6 +164,10 @@ s3_op_read(S3Io*    self,
 		.url[0]           = 0
 	};
 	s3_request_execute(&req);
+
+	// ensure that only requested range is returned
+	if (unlikely((uint32_t)buf_size(buf) != size))
+		error("s3: unexpected range size");
 }
 
 void
diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index e9da4e8..9e96bf8 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -25,7 +25,7 @@
 
 static void
 s3_request_encode_base64(uint8_t digest_raw[20],
-                         uint8_t digest[28])
+                         uint8_t digest[29])
 {
 	static const char* const chars =
 	"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
@@ -117,7 +117,7 @@ s3_request_prepare(S3Request* self)
 	      digest, NULL);
 
 	// encode MAC using base64
-	uint8_t digest_base64[28];
+	uint8_t digest_base64[29];
 	s3_request_encode_base64(digest, digest_base64);
 
 	// prepare authorization header field
@@ -161,7 +161,7 @@ s3_request_debug_cb(CURL*         handle,
 	    str_size(&config->name),
 	    str_of(&config->name),
 	    prefix,
-	    data_size, data);
+	    (int)data_size, data);
 	return 0;
 }
 
@@ -255,7 +255,7 @@ error:;
 	{
 		long http_code = 0;
 		curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &http_code);
-		error("s3: HTTP %d (%s)",
+		error("s3 %.*s: HTTP %d (%s)",
 		      str_size(&config->name),
 		      str_of(&config->name),
 		      (int)http_code,
-- 
2.43.0


From efe0e357e429a64bd13df221feee58aa878237ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 31/77] fix: alter storage with unknown cloud has no effect

---
 monotone/engine/storage/storage_mgr.c | 36 +++++++++++++++------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index 4dd6773..d4709b7 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -256,6 +256,7 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 		return;
 	}
 	bool is_empty = (storage->list_count == 0);
+	Cloud* cloud = NULL;
 
 	if (mask & SOURCE_CRC)
 	{
@@ -295,7 +296,21 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 				      str_of(&source->name));
 		}
 
-		if (storage->cloud)
+		// attach new cloud before making any changes
+		if (! str_empty(&source->cloud))
+		{
+			cloud = cloud_mgr_find(self->cloud_mgr, &source->cloud);
+			if (! cloud)
+				error("storage '%.*s': cloud '%.*s' not exists",
+				      str_size(&source->name),
+				      str_of(&source->name),
+				      str_size(&source->cloud),
+				      str_of(&source->cloud));
+			if (cloud != storage->cloud)
+				cloud_attach(cloud, storage->source);
+		}
+
+		if (storage->cloud && cloud != storage->cloud)
 			cloud_detach(storage->cloud, storage->source);
 	}
 
@@ -305,26 +320,15 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 	if (mask & SOURCE_CLOUD)
 	{
 		if (storage->cloud)
-		{
 			cloud_unref(storage->cloud);
-			storage->cloud = NULL;
-		}
+		if (cloud)
+			cloud_ref(cloud);
+		storage->cloud = cloud;
 
 		list_foreach(&storage->list)
 		{
 			auto part = list_at(Part, link);
-			part->cloud = NULL;
-		}
-
-		storage_set_cloud(self, storage, true);
-
-		if (storage->cloud)
-		{
-			list_foreach(&storage->list)
-			{
-				auto part = list_at(Part, link);
-				part->cloud = storage->cloud;
-			}
+			part->cloud = cloud;
 		}
 	}
 }
-- 
2.43.0


From c0928a57f678f8746eb98ba1b08fc84f29f58b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:49 +0000
Subject: [PATCH 32/77] fix: validate cloud config on alter

---
 monotone/cloud/cloud/cloud_mgr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/monotone/cloud/cloud/cloud_mgr.c b/monotone/cloud/cloud/cloud_mgr.c
index 0b9b22c..fda12bc 100644
--- a/monotone/cloud/cloud/cloud_mgr.c
+++ b/monotone/cloud/cloud/cloud_mgr.c
@@ -159,6 +159,12 @@ cloud_mgr_alter(CloudMgr* self, CloudConfig* config, int mask, bool if_exists)
 		return;
 	}
 
+	// validate new cloud config by creating a temporary cloud object
+	auto config_new = cloud_config_copy(cloud->config);
+	guard(cloud_config_free, config_new);
+	cloud_config_alter(config_new, config, mask);
+	cloud_free(cloud_allocate(cloud->iface, config_new));
+
 	// update and save cloud config
 	cloud_config_alter(cloud->config, config, mask);
 	cloud_mgr_save(self);
-- 
2.43.0


From aeb9b8ba758f355bb1c7907462d37b17735ba0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 33/77] fix: sync files of the mock cloud

---
 monotone/cloud/cloud/mock.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 2286a67..85fd3c0 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -103,6 +103,10 @@ mock_download(Cloud* self, Source* source, Id* id)
 	file_create(&file, path_to);
 	file_write_buf(&file, &buf);
 
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
+
 	// crash case 4
 	error_injection(error_download);
 
@@ -141,6 +145,10 @@ mock_upload(Cloud* self, Source* source, Id* id)
 	guard(file_close, &file);
 	file_create(&file, path_to);
 	file_write_buf(&file, &buf);
+
+	// sync
+	if (source->sync && config_sync())
+		file_sync(&file);
 }
 
 static void
-- 
2.43.0


From c5c8b38bb25e2bf3a1875ac9a54996b109af8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 34/77] fix: restore variable if SET fails to save config

---
 monotone/main/main/execute.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/monotone/main/main/execute.c b/monotone/main/main/execute.c
index 1772e48..ca0124d 100644
--- a/monotone/main/main/execute.c
+++ b/monotone/main/main/execute.c
@@ -134,6 +134,17 @@ execute_set(Executable* self)
 			      str_of(name));
 	}
 
+	// keep previous value
+	uint64_t prev = 0;
+	Str      prev_string;
+	str_init(&prev_string);
+	guard(str_free, &prev_string);
+	if (var->type == VAR_STRING)
+		str_copy(&prev_string, &var->string);
+	else
+	if (var->type != VAR_DATA)
+		prev = var_int_of(var);
+
 	// set value
 	auto value = &cmd->value;
 	switch (var->type) {
@@ -173,9 +184,22 @@ execute_set(Executable* self)
 	}
 	}
 
-	// rewrite config file
-	if (config_online() && !var_is(var, VAR_E))
+	if (!config_online() || var_is(var, VAR_E))
+		return;
+
+	// rewrite config file, restore previous value on error
+	Exception e;
+	if (enter(&e)) {
 		control_save_config();
+	}
+	if (leave(&e))
+	{
+		if (var->type == VAR_STRING)
+			var_string_set(var, &prev_string);
+		else
+			var_int_set(var, prev);
+		rethrow();
+	}
 }
 
 static void
-- 
2.43.0


From eefd048d0bc16b5f10fd30bea66fd59633ef65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:11 +0000
Subject: [PATCH 35/77] fix: report too large integers in commands as an error

---
 monotone/main/command/lex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 539c8f2..cd7a6c0 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -266,7 +266,10 @@ lex_next(Lex* self, Token* tk)
 			}
 			if (! isdigit(*self->pos))
 				break;
-			tk->integer = (tk->integer * 10) + *self->pos - '0';
+			uint64_t digit = *self->pos - '0';
+			if (unlikely(tk->integer > (UINT64_MAX - digit) / 10))
+				error("integer is too large");
+			tk->integer = (tk->integer * 10) + digit;
 			self->pos++;
 		}
 
-- 
2.43.0


From 71a2cd102aaa317dc191c74ab2e7cba939d7de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:22 +0000
Subject: [PATCH 36/77] fix: return lz4 context to its own cache

---
 monotone/runtime/lib/compression_mgr.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/compression_mgr.c b/monotone/runtime/lib/compression_mgr.c
index 395d88f..c04765a 100644
--- a/monotone/runtime/lib/compression_mgr.c
+++ b/monotone/runtime/lib/compression_mgr.c
@@ -33,6 +33,11 @@ compression_mgr_free(CompressionMgr* self)
 	cache_reset(&self->cache_zstd);
 	cache_free(&self->cache_zstd);
 
+	list_foreach_safe(&self->cache_lz4.list)
+	{
+		auto ref = list_at(Compression, link);
+		compression_free(ref);
+	}
 	cache_reset(&self->cache_lz4);
 	cache_free(&self->cache_lz4);
 }
@@ -67,7 +72,7 @@ compression_mgr_push(CompressionMgr* self, Compression* compression)
 	}
 	if (compression->iface->id == COMPRESSION_LZ4)
 	{
-		cache_push(&self->cache_zstd, &compression->link);
+		cache_push(&self->cache_lz4, &compression->link);
 		return;
 	}
 	abort();
-- 
2.43.0


From 8602b5c1ecbbef77299e6e8ce38f8a92a63145d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:14 +0000
Subject: [PATCH 37/77] fix: failed validation of the first event crashed
 rollback

---
 monotone/engine/engine/write.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index a376630..e6a9720 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -24,6 +24,10 @@
 static void
 engine_rollback(Engine* self, Log* log)
 {
+	// failed before the first event
+	if (log->write.count == 0)
+		return;
+
 	auto pos   = log_last(log);
 	auto first = log_first(log);
 	while (pos >= first)
-- 
2.43.0


From 2ad03c60fdc418fd09e64a172254151bc718d654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:08 +0000
Subject: [PATCH 38/77] fix: completed file of a failed refresh was left behind
 and survived later moves

---
 monotone/engine/io/part.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 9898bc2..3d1cba5 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -161,10 +161,13 @@ void
 part_complete(Part* self)
 {
 	// finilize rename of the completed partition file, in case if it
-	// failed without crash
+	// failed without crash, or remove completed file which was left by a
+	// failed refresh
 	char path[PATH_MAX];
 	id_path(&self->id, self->source, ID, path);
-	if (part_has(self, ID) && !fs_exists("%s", path))
+	if (!part_has(self, ID) || fs_exists("%s", path))
+		part_delete(self, ID_COMPLETE);
+	else
 		part_rename(self, ID_COMPLETE, ID);
 }
 
-- 
2.43.0


From 3c3b1e5ec3df089a8c78f2665c863a1eb4434678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:06 +0000
Subject: [PATCH 39/77] fix: log truncated by recovery was not synced

---
 monotone/engine/wal/wal.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 2261d75..4520174 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -200,6 +200,8 @@ wal_recover_tail(WalFile* file)
 		log("wal: file '%s' has incomplete record at offset %" PRIu64,
 		    str_of(&file->file.path), offset);
 		file_truncate(&file->file, offset);
+		if (config_sync())
+			file_sync(&file->file);
 	}
 }
 
-- 
2.43.0


From a729163c3595c7b116a54ed15034e63f365ab399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:27 +0000
Subject: [PATCH 40/77] fix: same storage could be used by several pipeline
 tiers, rename made it unopenable

---
 monotone/engine/storage/pipeline.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/storage/pipeline.c b/monotone/engine/storage/pipeline.c
index 7c89b76..c1fe112 100644
--- a/monotone/engine/storage/pipeline.c
+++ b/monotone/engine/storage/pipeline.c
@@ -108,10 +108,13 @@ pipeline_alter_validate(List* configs)
 			break;
 
 		// cannot use same storage
-		auto next = container_of(_i->next, TierConfig, link);
-		if (str_compare(&config->name, &next->name))
-			error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
-			      str_of(&config->name));
+		for (auto pos = _i->next; pos != configs; pos = pos->next)
+		{
+			auto next = container_of(pos, TierConfig, link);
+			if (str_compare(&config->name, &next->name))
+				error("pipeline: tier '%.*s' is duplicated", str_size(&config->name),
+				      str_of(&config->name));
+		}
 
 		// ensure conditions are set to use next
 		if (tier_config_terminal(config))
-- 
2.43.0


From 98d78903b39dc313ada26d3ecb3c4e9fe1c2ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:06 +0000
Subject: [PATCH 41/77] fix: drop kept the file left by a failed refresh,
 dropped events returned after a restart

---
 monotone/engine/engine/op.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index f25b2c4..6a56344 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -233,6 +233,11 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 			{
 				part_offload(part, true);
 				part_unset(part, ID);
+			} else
+			{
+				// remove file left by a failed refresh, it
+				// would be recovered on restart
+				part_delete(part, ID_COMPLETE);
 			}
 		}
 
-- 
2.43.0


From d95f1dd286abd30e075a012b7fa7bfacf69df262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:40 +0000
Subject: [PATCH 42/77] fix: replay of a drop removed an empty partition
 created after it

---
 monotone/engine/engine/op.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 6a56344..292aba0 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -378,7 +378,9 @@ engine_drop_replay(Engine* self, LogDrop* drop)
 		// skip if partition is a newer then the drop
 		if (part->state == ID_NONE || part->index.lsn < lsn)
 		{
-			if (slice->min == min && slice->max == max)
+			// partition with an empty file was created after the drop
+			bool created = part->state != ID_NONE && part->index.lsn == 0;
+			if (slice->min == min && slice->max == max && !created)
 			{
 				// drop is already logged
 				engine_drop_file(self, min, true, false, ID|ID_CLOUD);
-- 
2.43.0


From d4a3e6ca4fc4d0a58b1fd07286783bc751652842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 43/77] fix: range commands skipped a last partition holding
 only the maximum id

---
 monotone/engine/engine/op.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 292aba0..efa1b10 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -149,10 +149,10 @@ engine_fill(Engine* self, uint64_t min, uint64_t max)
 }
 
 static inline bool
-engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
+engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t* max)
 {
-	// last partition was UINT64_MAX
-	if (*min == UINT64_MAX && *min_next == UINT64_MAX)
+	// range is complete
+	if (*min > *max)
 		return false;
 
 	// get next reference >= min and <= max
@@ -162,12 +162,15 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t max)
 	uint64_t ref_min = ref->slice.min;
 	uint64_t ref_max = ref->slice.max;
 	engine_unlock(self, ref, LOCK_ACCESS);
-	if (ref_min >= *min && ref_max <= max)
+	if (ref_min >= *min && ref_max <= *max)
 	{
 		*min = ref_min;
 		if (unlikely(ref_max == UINT64_MAX))
+		{
+			// last partition
 			*min_next = UINT64_MAX;
-		else
+			*max = 0;
+		} else
 			*min_next = ref_max + 1;
 		return true;
 	}
@@ -398,7 +401,7 @@ void
 engine_drop_range(Engine* self, uint64_t min, uint64_t max, int mask)
 {
 	uint64_t next = 0;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_drop(self, min, true, mask);
 }
 
@@ -467,7 +470,7 @@ void
 engine_download_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next = 0;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_download(self, min, true, if_cloud);
 }
 
@@ -537,7 +540,7 @@ void
 engine_upload_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 {
 	uint64_t next = 0;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_upload(self, min, true, if_cloud);
 }
 
@@ -567,7 +570,7 @@ engine_refresh_range(Engine* self, Refresh* refresh, uint64_t min, uint64_t max,
                      Str* storage)
 {
 	uint64_t next = 0;
-	for (; engine_foreach(self, &min, &next, max); min = next)
+	for (; engine_foreach(self, &min, &next, &max); min = next)
 		engine_refresh(self, refresh, min, storage, true);
 }
 
-- 
2.43.0


From 0d14a233170c8e23803b34a3823fa201abd05bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 44/77] fix: move and refresh of a partition without a file
 failed on a storage with cloud

---
 monotone/engine/engine/op.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index efa1b10..21a48f9 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -507,8 +507,10 @@ engine_upload(Engine* self, uint64_t min,
 	// ensure partition file exists locally
 	if (! part_has(part, ID))
 	{
+		// nothing to upload
 		engine_unlock(self, ref, LOCK_SERVICE);
-		error("upload: partition '%" PRIu64 "' file does not exist locally", min);
+		if (! if_cloud)
+			error("upload: partition '%" PRIu64 "' file does not exist locally", min);
 		return;
 	}
 
-- 
2.43.0


From cea10210e58441931308cc44479fd5a54db25c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:58 +0000
Subject: [PATCH 45/77] fix: incorrect file left by a failed download made the
 database unopenable

---
 monotone/engine/io/part.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 3d1cba5..1b4fbce 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -192,8 +192,19 @@ part_download(Part* self)
 	// download partition file locally
 	cloud_download(self->cloud, self->source, &self->id);
 
-	// open
-	part_open(self, ID, false);
+	// open and validate, partition index is same as of the cloud file
+	Index index;
+	Exception e;
+	if (enter(&e)) {
+		index_open(&self->file, self->source, &self->id, ID, &index);
+	}
+	if (leave(&e))
+	{
+		// remove incorrect file, it would be recovered on restart
+		file_close(&self->file);
+		part_delete_nothrow(self, ID);
+		rethrow();
+	}
 }
 
 void
-- 
2.43.0


From 5b4dcdc4108dff3e7e298e0db38e42ec6d205245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:41 +0000
Subject: [PATCH 46/77] fix: local file was dropped in favour of a cloud object
 after its removal failed

---
 monotone/engine/engine/op.c           | 13 +++++++++++--
 monotone/engine/storage/storage_mgr.c |  2 +-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 21a48f9..7087c2a 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -223,10 +223,18 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 	{
 		if (mask & ID_CLOUD)
 		{
-			if (part_has(part, ID_CLOUD))
+			if (part_has(part, ID_CLOUD|ID_CLOUD_INCOMPLETE))
 			{
+				// cloud object might be already removed even if the
+				// request fails, local file must not be dropped in
+				// favour of it
+				if (part_has(part, ID))
+				{
+					part_unset(part, ID_CLOUD);
+					part_set(part, ID_CLOUD_INCOMPLETE);
+				}
 				part_offload(part, false);
-				part_unset(part, ID_CLOUD);
+				part_unset(part, ID_CLOUD|ID_CLOUD_INCOMPLETE);
 			}
 		}
 
@@ -529,6 +537,7 @@ engine_upload(Engine* self, uint64_t min,
 	mutex_lock(&self->lock);
 	ref_lock(ref, LOCK_ACCESS);
 
+	part_unset(part, ID_CLOUD_INCOMPLETE);
 	part_set(part, ID_CLOUD);
 
 	ref_unlock(ref, LOCK_ACCESS);
diff --git a/monotone/engine/storage/storage_mgr.c b/monotone/engine/storage/storage_mgr.c
index d4709b7..a66701e 100644
--- a/monotone/engine/storage/storage_mgr.c
+++ b/monotone/engine/storage/storage_mgr.c
@@ -290,7 +290,7 @@ storage_mgr_alter(StorageMgr* self, Source* source, int mask, bool if_exists)
 		list_foreach(&storage->list)
 		{
 			auto part = list_at(Part, link);
-			if (part_has(part, ID_CLOUD))
+			if (part_has(part, ID_CLOUD|ID_CLOUD_INCOMPLETE))
 				error("storage '%.*s': some partitions are still remain on the cloud",
 				      str_size(&source->name),
 				      str_of(&source->name));
-- 
2.43.0


From df7dcefee84ab9c52214c2d5406149aa77e3515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:51 +0000
Subject: [PATCH 47/77] fix: forget destination of a skipped pipeline tier

---
 monotone/engine/engine/op.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 7087c2a..205cd00 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -656,7 +656,11 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
 			if (part->refresh)
+			{
+				// forget the destination of the skipped tier
+				str_free(storage);
 				continue;
+			}
 			part->refresh = true;
 
 			*min = part->id.min;
-- 
2.43.0


From 1157badc325e204994f063eb610104e0ce5f0d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:44 +0000
Subject: [PATCH 48/77] fix: do not expire partitions created in the future

---
 monotone/engine/engine/op.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 205cd00..773a428 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -609,8 +609,10 @@ engine_rebalance_tier_next(Tier* tier)
 		auto part = storage_oldest(tier->storage);
 		if (! part)
 			return NULL;
+		// partition can be created in the future, if the clock has been set back
 		auto now = time_us();
-		if ((now - part->time_create) >= (uint64_t)tier->config->duration)
+		if (now >= part->time_create &&
+		    (now - part->time_create) >= (uint64_t)tier->config->duration)
 			return part;
 	}
 
-- 
2.43.0


From 672e97edce807e8ec97d1a578fac389be69f6811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:16 +0000
Subject: [PATCH 49/77] fix: remove storage metrics of dropped partitions

---
 monotone/engine/engine/op.c       | 2 ++
 monotone/engine/storage/storage.h | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 773a428..4eef250 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -256,7 +256,9 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 		{
 			// unset storage metrics before droping the reference
 			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
+			mutex_lock(&self->lock);
 			storage_remove_metrics(storage, part);
+			mutex_unlock(&self->lock);
 			index_init(&part->index);
 			buf_reset(&part->index_data);
 		}
diff --git a/monotone/engine/storage/storage.h b/monotone/engine/storage/storage.h
index 91256eb..7af4652 100644
--- a/monotone/engine/storage/storage.h
+++ b/monotone/engine/storage/storage.h
@@ -78,8 +78,8 @@ storage_add_metrics(Storage* self, Part* part)
 static inline void
 storage_remove_metrics(Storage* self, Part* part)
 {
-	if (part->state == ID_NONE)
-		return;
+	// index is empty if the partition has no file, partition state can be
+	// already reset by the drop
 	self->size   -= part->index.size_regions;
 	self->events -= part->index.events;
 }
-- 
2.43.0


From 5d5370b82db6d5631044957037c17d59b968568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:08 +0000
Subject: [PATCH 50/77] fix: unset refresh flag without exception context

---
 monotone/engine/engine/op.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 4eef250..bdde73a 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -680,15 +680,17 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 static void
 engine_refresh_unset(Engine* self, uint64_t min)
 {
-	// allow to schedule partition refresh again
+	// allow to schedule partition refresh again (can be called without
+	// active exception context)
 	control_lock_shared();
-	guard(control_unlock_guard, NULL);
 
 	mutex_lock(&self->lock);
 	auto slice = mapping_match(&self->mapping, min);
 	if (slice)
 		ref_of(slice)->part->refresh = false;
 	mutex_unlock(&self->lock);
+
+	control_unlock();
 }
 
 void
-- 
2.43.0


From e57ad51280b0f1d203eb80c7106dd79147ccc501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:21 +0000
Subject: [PATCH 51/77] fix: do not drop the only copy of a partition on
 concurrent refresh

---
 monotone/engine/engine/op.c      | 43 ++++++++++++++++++++++----------
 monotone/engine/engine/refresh.c | 10 +++++++-
 monotone/engine/engine/refresh.h |  3 ++-
 3 files changed, 41 insertions(+), 15 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index bdde73a..81a4cf8 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -179,7 +179,7 @@ engine_foreach(Engine* self, uint64_t* min, uint64_t* min_next, uint64_t* max)
 
 static bool
 engine_drop_file(Engine* self, uint64_t min, bool if_exists,
-                 bool    cloud_drop_local,
+                 bool    automatic,
                  int     mask)
 {
 	// find the original partition
@@ -194,9 +194,17 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 
 	// execute automatic drop only, if file is on cloud and allowed
 	// by the partition source
-	if (cloud_drop_local)
-	{
-		if (!part->source->cloud_drop_local || !part_has(part, ID_CLOUD))
+	//
+	// on cloud, only if there is a local file (it could be dropped by a
+	// concurrent operation)
+	if (automatic)
+	{
+		bool allowed;
+		if (mask == ID)
+			allowed = part->source->cloud_drop_local && part_has(part, ID_CLOUD);
+		else
+			allowed = part_has(part, ID);
+		if (! allowed)
 		{
 			engine_unlock(self, ref, LOCK_SERVICE);
 			return false;
@@ -561,15 +569,20 @@ void
 engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
                bool if_exists)
 {
-	// download partition from cloud, if necessary
-	engine_download(self, min, if_exists, true);
+	for (;;)
+	{
+		// download partition from cloud, if necessary
+		engine_download(self, min, if_exists, true);
 
-	// drop partition from cloud
-	engine_drop(self, min, if_exists, ID_CLOUD);
+		// drop partition from cloud
+		engine_drop_file(self, min, if_exists, true, ID_CLOUD);
 
-	// refresh partition
-	refresh_reset(refresh);
-	refresh_run(refresh, min, storage, if_exists);
+		// refresh partition, repeat if it has been uploaded by a
+		// concurrent operation
+		refresh_reset(refresh);
+		if (refresh_run(refresh, min, storage, if_exists))
+			break;
+	}
 
 	// upload partition back to cloud
 	engine_upload(self, min, true, true);
@@ -825,11 +838,15 @@ engine_service(Engine* self, Refresh* refresh, ServiceFilter filter, bool wait)
 				engine_drop_file(self, req->id, true, true, ID);
 				break;
 			case ACTION_DROP_ON_CLOUD:
-				engine_drop(self, req->id, true, ID_CLOUD);
+				engine_drop_file(self, req->id, true, true, ID_CLOUD);
 				break;
 			case ACTION_REFRESH:
 				refresh_reset(refresh);
-				refresh_run(refresh, req->id, NULL, true);
+				if (! refresh_run(refresh, req->id, NULL, true))
+				{
+					// partition has been uploaded by a concurrent operation
+					engine_refresh(self, refresh, req->id, NULL, true);
+				}
 				break;
 			case ACTION_DOWNLOAD:
 				engine_download(self, req->id, true, true);
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index dc98efb..6afdae2 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -31,6 +31,7 @@ refresh_init(Refresh* self, Engine* engine)
 	self->storage_origin = NULL;
 	self->storage        = NULL;
 	self->pending        = false;
+	self->on_cloud       = false;
 	self->engine         = engine;
 	merger_init(&self->merger);
 }
@@ -51,6 +52,7 @@ refresh_reset(Refresh* self)
 	self->storage_origin = NULL;
 	self->storage        = NULL;
 	self->pending        = false;
+	self->on_cloud       = false;
 	merger_reset(&self->merger);
 }
 
@@ -81,7 +83,10 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	// ensure partition is offloaded
 	if (part_has(ref->part, ID_CLOUD))
 	{
+		self->on_cloud = ref->part->cloud != NULL;
 		engine_unlock(engine, ref, LOCK_SERVICE);
+		if (self->on_cloud)
+			return false;
 		error("refresh: partition '%" PRIu64 "' must be dropped from the cloud first", min);
 	}
 
@@ -301,10 +306,13 @@ refresh_run_next(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	return self->pending;
 }
 
-void
+bool
 refresh_run(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 {
 	// run again, if it was the repeat of the previous one
 	while (refresh_run_next(self, min, storage, if_exists))
 		refresh_reset(self);
+
+	// return false, if partition must be dropped from the cloud first
+	return !self->on_cloud;
 }
diff --git a/monotone/engine/engine/refresh.h b/monotone/engine/engine/refresh.h
index 141c9b9..f4a042f 100644
--- a/monotone/engine/engine/refresh.h
+++ b/monotone/engine/engine/refresh.h
@@ -24,6 +24,7 @@ struct Refresh
 	Storage*  storage_origin;
 	Storage*  storage;
 	bool      pending;
+	bool      on_cloud;
 	Merger    merger;
 	Engine*   engine;
 };
@@ -31,4 +32,4 @@ struct Refresh
 void refresh_init(Refresh*, Engine*);
 void refresh_free(Refresh*);
 void refresh_reset(Refresh*);
-void refresh_run(Refresh*, uint64_t, Str*, bool);
+bool refresh_run(Refresh*, uint64_t, Str*, bool);
-- 
2.43.0


From e933049dbcf953feed9966188cb0c48a477d5b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:08 +0000
Subject: [PATCH 52/77] fix: repeat upload on a closed reused connection

---
 monotone/cloud/s3/s3_io.h      |  1 +
 monotone/cloud/s3/s3_op.c      | 16 ++++++++++++++++
 monotone/cloud/s3/s3_request.c |  7 +++++++
 monotone/cloud/s3/s3_request.h |  1 +
 4 files changed, 25 insertions(+)

diff --git a/monotone/cloud/s3/s3_io.h b/monotone/cloud/s3/s3_io.h
index a4f4cd1..513d9a2 100644
--- a/monotone/cloud/s3/s3_io.h
+++ b/monotone/cloud/s3/s3_io.h
@@ -16,6 +16,7 @@
 typedef struct S3Io S3Io;
 
 typedef size_t (*S3Function)(void* ptr, size_t len, size_t nmemb, void* arg);
+typedef int    (*S3Seek)(void* arg, int64_t offset, int origin);
 
 struct S3Io
 {
diff --git a/monotone/cloud/s3/s3_op.c b/monotone/cloud/s3/s3_op.c
index 68e7148..84893d9 100644
--- a/monotone/cloud/s3/s3_op.c
+++ b/monotone/cloud/s3/s3_op.c
@@ -73,6 +73,21 @@ s3_op_upload_cb(void* ptr, size_t len, size_t nmemb, void* arg)
 	return size;
 }
 
+static int
+s3_op_upload_seek_cb(void* arg, curl_off_t offset, int origin)
+{
+	S3Upload* upload = arg;
+
+	if (origin != SEEK_SET || offset < 0)
+		return CURL_SEEKFUNC_CANTSEEK;
+
+	if (vfs_seek(upload->file->fd, offset) == -1)
+		return CURL_SEEKFUNC_FAIL;
+
+	upload->file_offset = offset;
+	return CURL_SEEKFUNC_OK;
+}
+
 void
 s3_op_upload(S3Io* self, Source* source, Id* id, File* file)
 {
@@ -87,6 +102,7 @@ s3_op_upload(S3Io* self, Source* source, Id* id, File* file)
 		.io               = self,
 		.on_read          = s3_op_upload_cb,
 		.on_write         = NULL,
+		.on_seek          = s3_op_upload_seek_cb,
 		.arg              = &upload,
 		.source           = source,
 		.id               = id,
diff --git a/monotone/cloud/s3/s3_request.c b/monotone/cloud/s3/s3_request.c
index 9e96bf8..2b20f86 100644
--- a/monotone/cloud/s3/s3_request.c
+++ b/monotone/cloud/s3/s3_request.c
@@ -222,6 +222,13 @@ s3_request_execute(S3Request* self)
 		curl_easy_setopt(curl, CURLOPT_READDATA, self->arg);
 	}
 
+	// request can be sent again, if reused connection has been closed
+	if (self->on_seek)
+	{
+		curl_easy_setopt(curl, CURLOPT_SEEKFUNCTION, self->on_seek);
+		curl_easy_setopt(curl, CURLOPT_SEEKDATA, self->arg);
+	}
+
 	if (self->on_write)
 	{
 		curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, self->on_write);
diff --git a/monotone/cloud/s3/s3_request.h b/monotone/cloud/s3/s3_request.h
index 8310820..aab1b43 100644
--- a/monotone/cloud/s3/s3_request.h
+++ b/monotone/cloud/s3/s3_request.h
@@ -20,6 +20,7 @@ struct S3Request
 	S3Io*       io;
 	S3Function  on_read;
 	S3Function  on_write;
+	S3Seek      on_seek;
 	void*       arg;
 	Source*     source;
 	Id*         id;
-- 
2.43.0


From d6ca5d1857b864cd0b500cfd1ca7e8298ce0cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:07 +0000
Subject: [PATCH 53/77] fix: tolerate parallel creation of the mock cloud
 directory

---
 monotone/cloud/cloud/mock.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/monotone/cloud/cloud/mock.c b/monotone/cloud/cloud/mock.c
index 85fd3c0..2a07770 100644
--- a/monotone/cloud/cloud/mock.c
+++ b/monotone/cloud/cloud/mock.c
@@ -68,7 +68,10 @@ mock_mkdir(Source* source)
 	if (! fs_exists("%s", path))
 	{
 		log("mock: new directory '%s'", path);
-		fs_mkdir(0755, "%s", path);
+		// directory can be created by a parallel operation
+		int rc = vfs_mkdir(path, 0755);
+		if (unlikely(rc == -1 && errno != EEXIST))
+			error_system();
 	}
 }
 
-- 
2.43.0


From 0ad4d5b8ee64cce247830c5214dbc147c58a626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:21 +0000
Subject: [PATCH 54/77] fix: read atomic counters without modifying them

---
 monotone/runtime/runtime/atomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/monotone/runtime/runtime/atomic.h b/monotone/runtime/runtime/atomic.h
index 3e7038e..e5aeed0 100644
--- a/monotone/runtime/runtime/atomic.h
+++ b/monotone/runtime/runtime/atomic.h
@@ -19,7 +19,7 @@ typedef volatile uint64_t atomic_u64;
 static inline uint32_t
 atomic_u32_of(atomic_u32* self)
 {
-	return __sync_fetch_and_add(self, 0);
+	return __atomic_load_n(self, __ATOMIC_SEQ_CST);
 }
 
 static inline uint32_t
@@ -43,7 +43,7 @@ atomic_u32_set(atomic_u32* self, uint32_t value)
 static inline uint64_t
 atomic_u64_of(atomic_u64* self)
 {
-	return __sync_fetch_and_add(self, 0);
+	return __atomic_load_n(self, __ATOMIC_SEQ_CST);
 }
 
 static inline uint64_t
-- 
2.43.0


From 33c0290281c6d476f973eca92a947601f0b0012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:21 +0000
Subject: [PATCH 55/77] fix: change state of a dropped partition under the lock
 used by SHOW

---
 monotone/engine/engine/op.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 81a4cf8..1066ea8 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -238,11 +238,15 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 				// favour of it
 				if (part_has(part, ID))
 				{
+					mutex_lock(&self->lock);
 					part_unset(part, ID_CLOUD);
 					part_set(part, ID_CLOUD_INCOMPLETE);
+					mutex_unlock(&self->lock);
 				}
 				part_offload(part, false);
+				mutex_lock(&self->lock);
 				part_unset(part, ID_CLOUD|ID_CLOUD_INCOMPLETE);
+				mutex_unlock(&self->lock);
 			}
 		}
 
@@ -251,7 +255,9 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 			if (part_has(part, ID))
 			{
 				part_offload(part, true);
+				mutex_lock(&self->lock);
 				part_unset(part, ID);
+				mutex_unlock(&self->lock);
 			} else
 			{
 				// remove file left by a failed refresh, it
@@ -266,9 +272,9 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 			auto storage = storage_mgr_find(&self->storage_mgr, &part->source->name);
 			mutex_lock(&self->lock);
 			storage_remove_metrics(storage, part);
-			mutex_unlock(&self->lock);
 			index_init(&part->index);
 			buf_reset(&part->index_data);
+			mutex_unlock(&self->lock);
 		}
 	}
 
-- 
2.43.0


From cba2a67748311b56a9eeec2325530f1fb0c52998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:21 +0000
Subject: [PATCH 56/77] fix: partition refresh flag is shared between writers
 and rebalance

---
 monotone/engine/engine/op.c      | 10 +++++-----
 monotone/engine/engine/refresh.c |  2 +-
 monotone/engine/engine/write.c   |  2 +-
 monotone/engine/io/part.h        |  4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 1066ea8..e729f71 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -678,13 +678,13 @@ engine_rebalance_next(Engine* self, uint64_t* min, Str* storage)
 		{
 			// mark partition for refresh to avoid concurrent rebalance
 			// calls for the same partition
-			if (part->refresh)
+			if (atomic_u32_of(&part->refresh))
 			{
 				// forget the destination of the skipped tier
 				str_free(storage);
 				continue;
 			}
-			part->refresh = true;
+			atomic_u32_set(&part->refresh, true);
 
 			*min = part->id.min;
 			mutex_unlock(&self->lock);
@@ -706,7 +706,7 @@ engine_refresh_unset(Engine* self, uint64_t min)
 	mutex_lock(&self->lock);
 	auto slice = mapping_match(&self->mapping, min);
 	if (slice)
-		ref_of(slice)->part->refresh = false;
+		atomic_u32_set(&ref_of(slice)->part->refresh, false);
 	mutex_unlock(&self->lock);
 
 	control_unlock();
@@ -752,12 +752,12 @@ engine_checkpoint(Engine* self)
 	{
 		auto ref = ref_of(slice);
 		auto part = ref->part;
-		if (!part->refresh &&
+		if (!atomic_u32_of(&part->refresh) &&
 		    (heap_used(&part->memtable_a.heap) > 0 ||
 		     heap_used(&part->memtable_b.heap) > 0))
 		{
 			service_refresh(self->service, part);
-			part->refresh = true;
+			atomic_u32_set(&part->refresh, true);
 		}
 		slice = mapping_next(&self->mapping, slice);
 	}
diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index 6afdae2..1b652fc 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -289,7 +289,7 @@ refresh_run_next(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		if (self->origin)
 		{
 			mutex_lock(&self->engine->lock);
-			self->origin->refresh = false;
+			atomic_u32_set(&self->origin->refresh, false);
 			mutex_unlock(&self->engine->lock);
 		}
 		if (self->part)
diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index e6a9720..8f3c74b 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -64,7 +64,7 @@ engine_commit(Engine* self, Log* log)
 			if (part_refresh_ready(part))
 			{
 				service_refresh(self->service, part);
-				part->refresh = true;
+				atomic_u32_set(&part->refresh, true);
 			}
 
 			engine_unlock(self, ref, LOCK_ACCESS);
diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 5c67d2a..7562ecc 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -21,7 +21,7 @@ struct Part
 	int         state;
 	uint64_t    time_create;
 	uint64_t    time_refresh;
-	bool        refresh;
+	atomic_u32  refresh;
 	Memtable*   memtable;
 	Memtable    memtable_a;
 	Memtable    memtable_b;
@@ -109,7 +109,7 @@ part_memtable_rotate(Part* self)
 static inline bool
 part_refresh_ready(Part* self)
 {
-	if (self->refresh)
+	if (atomic_u32_of(&self->refresh))
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-- 
2.43.0


From 040c063b33f69f47d9b237a7f9af76dfda7d9db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 57/77] fix: read default compression under the control lock

---
 monotone/main/command/parse_storage.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/monotone/main/command/parse_storage.c b/monotone/main/command/parse_storage.c
index fc98805..8170234 100644
--- a/monotone/main/command/parse_storage.c
+++ b/monotone/main/command/parse_storage.c
@@ -188,13 +188,18 @@ parse_storage_create(Lex* self)
 	uuid_generate(&uuid, global()->random);
 	source_set_uuid(config, &uuid);
 
-	// set default compression
-	auto default_compression = &config()->compression.string;
-	if (! str_empty(default_compression))
+	// set default compression (can be changed by a concurrent SET)
 	{
-		source_set_compression(config, &config()->compression.string);
-		auto level = var_int_of(&config()->compression_level);
-		source_set_compression_level(config, level);
+		control_lock_shared();
+		guard(control_unlock_guard, NULL);
+
+		auto default_compression = &config()->compression.string;
+		if (! str_empty(default_compression))
+		{
+			source_set_compression(config, &config()->compression.string);
+			auto level = var_int_of(&config()->compression_level);
+			source_set_compression_level(config, level);
+		}
 	}
 
 	// [(options)]
-- 
2.43.0


From 235a079e46bd035f44070887a77acecd3a9bbf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 58/77] fix: avoid signed overflow when reading a large JSON
 integer

---
 monotone/runtime/lib/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/runtime/lib/json.c b/monotone/runtime/lib/json.c
index c2c5146..529dfab 100644
--- a/monotone/runtime/lib/json.c
+++ b/monotone/runtime/lib/json.c
@@ -270,7 +270,7 @@ json_read(Json* self, int skip)
 		if (self->json[start] == '.')
 			goto fp;
 
-		int64_t value = 0;
+		uint64_t value = 0;
 		while (self->pos < self->json_size)
 		{
 			// float
-- 
2.43.0


From 5b118753794584f012b48b0fbef5496254860483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:47 +0000
Subject: [PATCH 59/77] fix: free the command when its text ends in a bad token

---
 monotone/main/command/parse.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/monotone/main/command/parse.c b/monotone/main/command/parse.c
index 964c54e..da8725d 100644
--- a/monotone/main/command/parse.c
+++ b/monotone/main/command/parse.c
@@ -22,6 +22,13 @@
 #include <monotone_engine.h>
 #include <monotone_command.h>
 
+static void
+parse_cleanup(Cmd* cmd)
+{
+	if (cmd)
+		cmd_free(cmd);
+}
+
 Cmd*
 parse(Lex* self)
 {
@@ -171,12 +178,9 @@ parse(Lex* self)
 	}
 
 	// eof
+	guard(parse_cleanup, cmd);
 	if (! lex_if(self, KEOF, NULL))
-	{
-		if (cmd)
-			cmd_free(cmd);
 		error("unexpected clause at the end of command");
-	}
-
+	unguard();
 	return cmd;
 }
-- 
2.43.0


From 4ef8e18530caa792cbedea81781f84077ce07a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:26 +0000
Subject: [PATCH 60/77] fix: memory limit does not apply to the events replayed
 on open

---
 monotone/main/main/main.c         | 5 +++++
 monotone/runtime/lib/memory_mgr.h | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 964f094..bb77f4e 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -238,7 +238,12 @@ main_start(Main* self, const char* directory)
 	if (var_int_of(&config()->wal))
 	{
 		wal_open(&self->wal);
+
+		// memory limit does not apply to the events which have been
+		// accepted before the restart
+		memory_mgr_set_limit(&self->memory_mgr, false);
 		main_replay(self);
+		memory_mgr_set_limit(&self->memory_mgr, var_int_of(&config()->mm_limit));
 	}
 
 	// restore serial number
diff --git a/monotone/runtime/lib/memory_mgr.h b/monotone/runtime/lib/memory_mgr.h
index c78bee6..4844774 100644
--- a/monotone/runtime/lib/memory_mgr.h
+++ b/monotone/runtime/lib/memory_mgr.h
@@ -74,6 +74,14 @@ memory_mgr_set(MemoryMgr* self, int page_size,
 		error("mm: unrecognized memory limit behaviour");
 }
 
+static inline void
+memory_mgr_set_limit(MemoryMgr* self, bool limit)
+{
+	mutex_lock(&self->lock);
+	self->limit = limit;
+	mutex_unlock(&self->lock);
+}
+
 static inline void
 memory_mgr_reset(MemoryMgr* self)
 {
-- 
2.43.0


From 39d22162a8714621e413053a01ab9df7a49601b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:03 +0000
Subject: [PATCH 61/77] fix: service command of a cursor owner does not wait
 for a worker waiting for the cursor

---
 monotone/engine/engine/engine.c  | 7 +++++++
 monotone/engine/engine/lockage.h | 7 +++++++
 monotone/engine/engine/ref.h     | 6 ++++++
 3 files changed, 20 insertions(+)

diff --git a/monotone/engine/engine/engine.c b/monotone/engine/engine/engine.c
index cc9b188..dec0b37 100644
--- a/monotone/engine/engine/engine.c
+++ b/monotone/engine/engine/engine.c
@@ -158,6 +158,13 @@ engine_lock(Engine* self, uint64_t id, LockType lock,
 
 	// take the reference locks
 	auto ref = ref_of(slice);
+
+	// do not wait for a service operation, which has to wait for the
+	// cursor of the same thread to complete
+	if (lock == LOCK_SERVICE && ref_is_locker(ref, LOCK_ACCESS) &&
+	    ref_is_busy(ref, LOCK_SERVICE))
+		error("partition '%" PRIu64 "' is in use by cursor", slice->min);
+
 	ref_lock(ref, lock);
 
 	// shared engine lock is kept until the reference
diff --git a/monotone/engine/engine/lockage.h b/monotone/engine/engine/lockage.h
index 3733c86..2aa1989 100644
--- a/monotone/engine/engine/lockage.h
+++ b/monotone/engine/engine/lockage.h
@@ -66,6 +66,13 @@ lockage_is_locker(Lockage* self, LockType type)
 	return pthread_equal(pthread_self(), self->locks[type].locker);
 }
 
+static inline bool
+lockage_is_busy(Lockage* self, LockType type)
+{
+	// mutex must be always taken before this call
+	return self->locks[type].locker != 0 && !lockage_is_locker(self, type);
+}
+
 static inline void
 lockage_lock(Lockage* self, LockType type)
 {
diff --git a/monotone/engine/engine/ref.h b/monotone/engine/engine/ref.h
index d9353d8..35c9130 100644
--- a/monotone/engine/engine/ref.h
+++ b/monotone/engine/engine/ref.h
@@ -70,3 +70,9 @@ ref_is_locker(Ref* self, LockType type)
 {
 	return lockage_is_locker(&self->lockage, type);
 }
+
+static inline bool
+ref_is_busy(Ref* self, LockType type)
+{
+	return lockage_is_busy(&self->lockage, type);
+}
-- 
2.43.0


From 150bd6045ea1500658f606aa41cc2621503ac3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:49 +0000
Subject: [PATCH 62/77] fix: validate storage and cursor before a refresh drops
 the cloud file

---
 monotone/engine/engine/op.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index e729f71..a207aa6 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -571,10 +571,33 @@ engine_upload_range(Engine* self, uint64_t min, uint64_t max, bool if_cloud)
 		engine_upload(self, min, true, if_cloud);
 }
 
+static void
+engine_refresh_validate(Engine* self, uint64_t min, Str* storage)
+{
+	// ensure refresh is possible before making any changes to the
+	// partition cloud file
+	control_lock_shared();
+	guard(control_unlock_guard, NULL);
+
+	if (storage && !storage_mgr_find(&self->storage_mgr, storage))
+		error("refresh: storage '%.*s' not found", str_size(storage),
+		      str_of(storage));
+
+	// partition is being read by the same thread
+	mutex_lock(&self->lock);
+	auto slice  = mapping_match(&self->mapping, min);
+	bool in_use = slice && ref_is_locker(ref_of(slice), LOCK_ACCESS);
+	mutex_unlock(&self->lock);
+	if (unlikely(in_use))
+		error("refresh: partition '%" PRIu64 "' is in use by cursor", min);
+}
+
 void
 engine_refresh(Engine* self, Refresh* refresh, uint64_t min, Str* storage,
                bool if_exists)
 {
+	engine_refresh_validate(self, min, storage);
+
 	for (;;)
 	{
 		// download partition from cloud, if necessary
-- 
2.43.0


From 29a670374697760f9750d69c3c8bf5153256e7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:22 +0000
Subject: [PATCH 63/77] fix: replay of a partition drop does not depend on a
 later change of the interval

---
 monotone/engine/wal/log_drop.h   | 17 ++++++++++++++---
 monotone/main/main/main.c        |  4 ++++
 monotone/runtime/config/config.c |  1 +
 monotone/runtime/config/config.h |  1 +
 4 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/monotone/engine/wal/log_drop.h b/monotone/engine/wal/log_drop.h
index 5d6e8a2..e4e947e 100644
--- a/monotone/engine/wal/log_drop.h
+++ b/monotone/engine/wal/log_drop.h
@@ -22,6 +22,15 @@ struct LogDrop
 	uint64_t max;
 } packed;
 
+static inline uint64_t
+log_drop_max_default(uint64_t id)
+{
+	uint64_t max = (id + var_int_of(&config()->wal_interval)) - 1;
+	if (max < id)
+		max = UINT64_MAX;
+	return max;
+}
+
 static inline void
 log_drop_init(LogDrop* self, uint64_t id, uint64_t max)
 {
@@ -33,8 +42,10 @@ log_drop_init(LogDrop* self, uint64_t id, uint64_t max)
 	write->size  = sizeof(LogDrop);
 	self->id     = id;
 	self->max    = max;
-	// max is logged only for partitions which do not match the interval
-	if (config_interval_of(id) == id && config_interval_max(id) == max)
+	// max is logged only for partitions which do not match the interval the
+	// directory was created with, current interval can be changed before the
+	// record is replayed
+	if (log_drop_max_default(id) == max)
 		write->size -= sizeof(self->max);
 
 	// calculate crc
@@ -47,5 +58,5 @@ log_drop_max(LogDrop* self)
 {
 	if (self->write.size >= sizeof(LogDrop))
 		return self->max;
-	return config_interval_max(self->id);
+	return log_drop_max_default(self->id);
 }
diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index bb77f4e..8aa5fdf 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -217,6 +217,10 @@ main_start(Main* self, const char* directory)
 	str_set_cstr(&path, directory);
 	main_deploy(self, &path);
 
+	// remember interval of the drop records
+	if (var_int_of(&config()->wal_interval) == 0)
+		var_int_set(&config()->wal_interval, config_interval());
+
 	// welcome
 	log("");
 	log("monotone.");
diff --git a/monotone/runtime/config/config.c b/monotone/runtime/config/config.c
index b1803e0..77f34c7 100644
--- a/monotone/runtime/config/config.c
+++ b/monotone/runtime/config/config.c
@@ -115,6 +115,7 @@ config_prepare(Config* self)
 		{ "clouds",                  VAR_DATA,   VAR_C|VAR_H,          &self->clouds,                  NULL,        0                },
 		{ "storages",                VAR_DATA,   VAR_C|VAR_H,          &self->storages,                NULL,        0                },
 		{ "pipeline",                VAR_DATA,   VAR_C|VAR_H,          &self->pipeline,                NULL,        0                },
+		{ "wal_interval",            VAR_INT,    VAR_C|VAR_H,          &self->wal_interval,            NULL,        0                },
 		// testing
 		{ "error_refresh_1",         VAR_BOOL,   VAR_H|VAR_R|VAR_E,    &self->error_refresh_1,         NULL,        false            },
 		{ "error_refresh_2",         VAR_BOOL,   VAR_H|VAR_R|VAR_E,    &self->error_refresh_2,         NULL,        false            },
diff --git a/monotone/runtime/config/config.h b/monotone/runtime/config/config.h
index c1a6f8e..c58b579 100644
--- a/monotone/runtime/config/config.h
+++ b/monotone/runtime/config/config.h
@@ -52,6 +52,7 @@ struct Config
 	Var  clouds;
 	Var  storages;
 	Var  pipeline;
+	Var  wal_interval;
 	// testing
 	Var  error_refresh_1;
 	Var  error_refresh_2;
-- 
2.43.0


From 4d0a33f44ddb8b7d0799a97b960b2c8b69f50183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:36 +0000
Subject: [PATCH 64/77] fix: concurrent writes of several partitions do not
 deadlock

---
 monotone/engine/engine/write.c | 62 ++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index 8f3c74b..e6c937e 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -90,9 +90,61 @@ engine_write_follow(Log* log)
 	}
 }
 
+static int
+engine_write_compare(const void* a, const void* b)
+{
+	uint64_t l = *(uint64_t*)a;
+	uint64_t r = *(uint64_t*)b;
+	return (l > r) - (l < r);
+}
+
+static void
+engine_write_lock(Engine* self, EventArg* events, int count, Buf* locks)
+{
+	// partitions must be always locked in the order of their ids, to avoid
+	// a deadlock between concurrent writes of several partitions
+	int i = 1;
+	while (i < count && events[i - 1].id <= events[i].id)
+		i++;
+	if (likely(i >= count))
+		return;
+
+	Buf ids;
+	buf_init(&ids);
+	guard(buf_free, &ids);
+	for (i = 0; i < count; i++)
+		buf_write(&ids, &events[i].id, sizeof(events[i].id));
+	qsort(ids.start, count, sizeof(uint64_t), engine_write_compare);
+
+	buf_reserve(locks, sizeof(Ref*) * count);
+	Ref* last = NULL;
+	for (i = 0; i < count; i++)
+	{
+		// lock each partition once
+		auto id = ((uint64_t*)ids.start)[i];
+		if (last && slice_in(&last->slice, id))
+			continue;
+		last = engine_lock(self, id, LOCK_ACCESS, false, true);
+		buf_write(locks, &last, sizeof(last));
+	}
+}
+
+static void
+engine_write_unlock(Engine* self, Buf* locks)
+{
+	auto pos = (Ref**)locks->start;
+	auto end = (Ref**)locks->position;
+	for (; pos < end; pos++)
+		engine_unlock(self, *pos, LOCK_ACCESS);
+	buf_free(locks);
+}
+
 hot static bool
 engine_write_try(Engine* self, EventArg* events, int count)
 {
+	Buf locks;
+	buf_init(&locks);
+
 	Log log;
 	log_init(&log);
 	mn_runtime.memory_wait = false;
@@ -117,6 +169,14 @@ engine_write_try(Engine* self, EventArg* events, int count)
 				if (! (arg->flags & MN_DELETE))
 					config_ssn_follow(arg->id + 1);
 			}
+		}
+
+		// lock partitions
+		engine_write_lock(self, events, count, &locks);
+
+		for (int i = 0; i < count; i++)
+		{
+			auto arg = &events[i];
 
 			// prepare log record
 			auto op = log_add(&log);
@@ -158,6 +218,7 @@ engine_write_try(Engine* self, EventArg* events, int count)
 	if (leave(&e))
 	{
 		engine_rollback(self, &log);
+		engine_write_unlock(self, &locks);
 		log_free(&log);
 
 		// memory limit is reached, retry after the locks are released
@@ -168,6 +229,7 @@ engine_write_try(Engine* self, EventArg* events, int count)
 	}
 
 	engine_commit(self, &log);
+	engine_write_unlock(self, &locks);
 	log_free(&log);
 	return true;
 }
-- 
2.43.0


From 359eff9b6824a228d14095d2dac98efb49aa31ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:09 +0000
Subject: [PATCH 65/77] fix: partition remains readable when its file cannot be
 removed

---
 monotone/engine/io/part.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/monotone/engine/io/part.c b/monotone/engine/io/part.c
index 1b4fbce..ecaedc9 100644
--- a/monotone/engine/io/part.c
+++ b/monotone/engine/io/part.c
@@ -233,10 +233,11 @@ part_offload(Part* self, bool from_storage)
 	// remove from storage
 	if (from_storage)
 	{
-		// remove data file
-		file_close(&self->file);
-		part_delete(self, ID);
+		// remove data file, keep it open until it is removed since
+		// partition remains readable in case of error
 		part_delete(self, ID_COMPLETE);
+		part_delete(self, ID);
+		file_close(&self->file);
 		return;
 	}
 
-- 
2.43.0


From 440e94527680586cd21d71ef27f206ad03a0aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:09 +0000
Subject: [PATCH 66/77] fix: refresh after a failed one frees the memory of
 rolled back writes

---
 monotone/engine/engine/refresh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index 1b652fc..f95d2a0 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -132,7 +132,7 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 	// first
 	Memtable* memtable;
 	part_memtable(self->origin, &memtable);
-	self->pending = memtable->count > 0;
+	self->pending = memtable->count > 0 || heap_used(&memtable->heap) > 0;
 	if (self->pending)
 		self->memtable = memtable;
 	else
-- 
2.43.0


From dc0f374ec1fd29766195102354a911ad0ad9ecc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:45 +0000
Subject: [PATCH 67/77] fix: files are not inherited by programs started by the
 application

The lock of the environment directory is held by an open descriptor. A child
process started while the environment was open kept the lock after the
environment was closed, and it could not be opened again.
---
 monotone/runtime/runtime/vfs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monotone/runtime/runtime/vfs.c b/monotone/runtime/runtime/vfs.c
index 58029ad..1faa44d 100644
--- a/monotone/runtime/runtime/vfs.c
+++ b/monotone/runtime/runtime/vfs.c
@@ -41,7 +41,9 @@ vfs_rmdir(const char* path)
 int
 vfs_open(const char* path, int flags, int mode)
 {
-	return open(path, flags, mode);
+	// files (and directory lock) are not inherited by the programs
+	// started by the application
+	return open(path, flags|O_CLOEXEC, mode);
 }
 
 int
-- 
2.43.0


From 246dcb290a0b413213577607be92e8be85271f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:45 +0000
Subject: [PATCH 68/77] fix: close the directory when the environment is in use
 by another process

Each refused open left an open descriptor behind.
---
 monotone/main/main/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/monotone/main/main/main.c b/monotone/main/main/main.c
index 8aa5fdf..e1e9295 100644
--- a/monotone/main/main/main.c
+++ b/monotone/main/main/main.c
@@ -144,7 +144,11 @@ main_deploy(Main* self, Str* directory)
 	// get exclusive directory lock
 	file_open_directory(&self->lock_directory, str_of(directory));
 	if (! file_lock(&self->lock_directory))
+	{
+		// allow to retry
+		file_close(&self->lock_directory);
 		error("in use by another process");
+	}
 
 	// read or create config file
 	char path[PATH_MAX];
-- 
2.43.0


From 527dd5af9f443e4fdbd899d1ef632ea20ffbe738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:48 +0000
Subject: [PATCH 69/77] fix: release the partition when a refresh fails to
 complete the previous rename

---
 monotone/engine/engine/refresh.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/monotone/engine/engine/refresh.c b/monotone/engine/engine/refresh.c
index f95d2a0..e6c78c8 100644
--- a/monotone/engine/engine/refresh.c
+++ b/monotone/engine/engine/refresh.c
@@ -122,7 +122,15 @@ refresh_begin(Refresh* self, uint64_t min, Str* storage, bool if_exists)
 		self->storage = self->storage_origin;
 
 	// finilize file rename, if it failed before
-	part_complete(self->origin);
+	Exception e;
+	if (enter(&e)) {
+		part_complete(self->origin);
+	}
+	if (leave(&e))
+	{
+		engine_unlock(engine, ref, LOCK_SERVICE);
+		rethrow();
+	}
 
 	// rotate memtable
 	mutex_lock(&engine->lock);
-- 
2.43.0


From eb417f19fd085df45c7437a28baaf6f515fed27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:08 +0000
Subject: [PATCH 70/77] fix: sync the log file before the next one is created

---
 monotone/engine/wal/wal.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/monotone/engine/wal/wal.c b/monotone/engine/wal/wal.c
index 4520174..835a941 100644
--- a/monotone/engine/wal/wal.c
+++ b/monotone/engine/wal/wal.c
@@ -65,9 +65,15 @@ wal_rotate(Wal* self, uint64_t wm)
 	Exception e;
 	if (enter(&e))
 	{
-		// ensure that current file has only complete records
+		// ensure that current file has only complete records, and that
+		// they are on disk before the next file is there, only the last
+		// file can be incomplete after a crash
 		if (self->current)
+		{
 			wal_file_prepare(self->current);
+			if (var_int_of(&config()->wal_sync_on_rotate) && config_sync())
+				file_sync(&self->current->file);
+		}
 
 		file = wal_file_allocate(next_lsn);
 		wal_file_create(file);
@@ -90,11 +96,9 @@ wal_rotate(Wal* self, uint64_t wm)
 	wal_id_add(&self->list, next_lsn);
 	mutex_unlock(&self->lock);
 
-	// sync and close prev file
+	// close prev file
 	if (file_prev)
 	{
-		if (var_int_of(&config()->wal_sync_on_rotate) && config_sync())
-			file_sync(&file_prev->file);
 		wal_file_close(file_prev);
 		wal_file_free(file_prev);
 	}
-- 
2.43.0


From ce4ce13f2beed1d17dc83ddfa2d7dfa265dd879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:09 +0000
Subject: [PATCH 71/77] fix: reject write batches which do not fit the log
 record

---
 monotone/engine/engine/write.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/engine/write.c b/monotone/engine/engine/write.c
index e6c937e..ffe780d 100644
--- a/monotone/engine/engine/write.c
+++ b/monotone/engine/engine/write.c
@@ -152,6 +152,7 @@ engine_write_try(Engine* self, EventArg* events, int count)
 	Exception e;
 	if (enter(&e))
 	{
+		size_t size_limit = INT32_MAX - sizeof(LogWrite);
 		for (int i = 0; i < count; i++)
 		{
 			auto arg = &events[i];
@@ -160,6 +161,13 @@ engine_write_try(Engine* self, EventArg* events, int count)
 			if (unlikely(arg->key_size > UINT8_MAX))
 				error("event key size limit is 255 bytes");
 
+			// validate batch size (log record size)
+			auto size = sizeof(Event) + arg->key_size;
+			if (unlikely(size > size_limit ||
+			             arg->value_size > size_limit - size))
+				error("write batch size limit is 2GiB");
+			size_limit -= size + arg->value_size;
+
 			// set serial
 			if (config_serial())
 			{
-- 
2.43.0


From d2aa6ed9c156f0c181dd4bc67a774f3c519462bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 72/77] fix: keep 64-bit storage settings

source_set_refresh_wm(), source_set_region_size() and
source_set_compression_level() truncated the value to int, settings of
2 GiB and above were changed by CREATE and ALTER STORAGE.
---
 monotone/cloud/cloud/source.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/monotone/cloud/cloud/source.h b/monotone/cloud/cloud/source.h
index 6178ddf..cca4928 100644
--- a/monotone/cloud/cloud/source.h
+++ b/monotone/cloud/cloud/source.h
@@ -127,13 +127,13 @@ source_set_crc(Source* self, bool value)
 }
 
 static inline void
-source_set_refresh_wm(Source* self, int value)
+source_set_refresh_wm(Source* self, int64_t value)
 {
 	self->refresh_wm = value;
 }
 
 static inline void
-source_set_region_size(Source* self, int value)
+source_set_region_size(Source* self, int64_t value)
 {
 	self->region_size = value;
 }
@@ -146,7 +146,7 @@ source_set_compression(Source* self, Str* value)
 }
 
 static inline void
-source_set_compression_level(Source* self, int value)
+source_set_compression_level(Source* self, int64_t value)
 {
 	self->compression_level = value;
 }
-- 
2.43.0


From e58ff17c14d210e0ef94cfaa66b23cdb717f0979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 73/77] fix: do not truncate refresh_wm and region_size to 32
 bits

With a refresh_wm of 4 GiB every write scheduled a refresh, with a
region_size of 4 GiB every event got a region of its own. Regions are
limited by their 32-bit header.
---
 monotone/engine/io/part.h   | 2 +-
 monotone/engine/io/writer.c | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/io/part.h b/monotone/engine/io/part.h
index 7562ecc..5150ab7 100644
--- a/monotone/engine/io/part.h
+++ b/monotone/engine/io/part.h
@@ -113,5 +113,5 @@ part_refresh_ready(Part* self)
 		return false;
 	if (! self->source->refresh_wm)
 		return false;
-	return heap_used(&self->memtable->heap) > (uint32_t)self->source->refresh_wm;
+	return heap_used(&self->memtable->heap) > (uint64_t)self->source->refresh_wm;
 }
diff --git a/monotone/engine/io/writer.c b/monotone/engine/io/writer.c
index 824bdd0..e97091d 100644
--- a/monotone/engine/io/writer.c
+++ b/monotone/engine/io/writer.c
@@ -63,7 +63,12 @@ writer_is_region_limit(Writer* self)
 {
 	if (unlikely(! region_writer_started(&self->region_writer)))
 		return true;
-	return region_writer_size(&self->region_writer) >= (uint32_t)self->source->region_size;
+
+	// region header uses 32-bit size and offsets
+	uint64_t limit = self->source->region_size;
+	if (unlikely(limit > 512 * 1024 * 1024))
+		limit = 512 * 1024 * 1024;
+	return region_writer_size(&self->region_writer) >= limit;
 }
 
 static inline void
-- 
2.43.0


From b5553f4f441ea4cea544c57b7f85085aba380b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 74/77] fix: recognize the min time unit

The keyword had a wrong length: 'min' was refused and 'mi' meant minutes.
---
 monotone/main/command/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index cd7a6c0..6a516c6 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -44,7 +44,7 @@ static Keyword keywords[] =
 	{ KSEC,        "sec",          3},
 	{ KSEC,        "second",       6},
 	{ KSEC,        "seconds",      7},
-	{ KMIN,        "min",          2},
+	{ KMIN,        "min",          3},
 	{ KMIN,        "minute",       6},
 	{ KMIN,        "minutes",      7},
 	{ KHOUR,       "hr",           2},
-- 
2.43.0


From 5eeca3795e0766c13705e25bb97fd8f0f4d0f501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:15 +0000
Subject: [PATCH 75/77] fix: refuse quantities which do not fit

A number with a unit was multiplied without an overflow check, and
options above INT64_MAX became negative.
---
 monotone/main/command/lex.c        | 37 +++++++++++++++++-------------
 monotone/main/command/parse_misc.h |  4 ++++
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/monotone/main/command/lex.c b/monotone/main/command/lex.c
index 6a516c6..407373d 100644
--- a/monotone/main/command/lex.c
+++ b/monotone/main/command/lex.c
@@ -161,6 +161,7 @@ lex_integer_mod(Lex* self, Token* value)
 	if (!lex_skip(self) || !isalpha(*self->pos))
 		return;
 
+	uint64_t mod = 1;
 	Token tk;
 	lex_next(self, &tk);
 	switch (tk.id) {
@@ -169,58 +170,62 @@ lex_integer_mod(Lex* self, Token* value)
 		// do nothing (default resolution)
 		break;
 	case KMSEC:
-		value->integer *= 1000ULL;
+		mod = 1000ULL;
 		break;
 	case KSEC:
-		value->integer *= 1000ULL * 1000;
+		mod = 1000ULL * 1000;
 		break;
 	case KMIN:
-		value->integer *= 60ULL * 1000 * 1000;
+		mod = 60ULL * 1000 * 1000;
 		break;
 	case KHOUR:
-		value->integer *= 60ULL * 60 * 1000 * 1000;
+		mod = 60ULL * 60 * 1000 * 1000;
 		break;
 	case KDAY:
-		value->integer *= 24ULL * 60 * 60 * 1000 * 1000;
+		mod = 24ULL * 60 * 60 * 1000 * 1000;
 		break;
 	case KWEEK:
-		value->integer *= 7ULL * 24 * 60 * 60 * 1000 * 1000;
+		mod = 7ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KMONTH:
-		value->integer *= 30ULL * 24 * 60 * 60 * 1000 * 1000;
+		mod = 30ULL * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	case KYEAR:
-		value->integer *= 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
+		mod = 12ULL * 30 * 24 * 60 * 60 * 1000 * 1000;
 		break;
 	// units
 	case KKB:
-		value->integer *= 1000ULL;
+		mod = 1000ULL;
 		break;
 	case KKIB:
-		value->integer *= 1024ULL;
+		mod = 1024ULL;
 		break;
 	case KMB:
-		value->integer *= 1000ULL * 1000;
+		mod = 1000ULL * 1000;
 		break;
 	case KMIB:
-		value->integer *= 1024ULL * 1024;
+		mod = 1024ULL * 1024;
 		break;
 	case KGB:
-		value->integer *= 1000ULL * 1000 * 1000;
+		mod = 1000ULL * 1000 * 1000;
 		break;
 	case KGIB:
-		value->integer *= 1024ULL * 1024 * 1024;
+		mod = 1024ULL * 1024 * 1024;
 		break;
 	case KTB:
-		value->integer *= 1000ULL * 1000 * 1000 * 1000;
+		mod = 1000ULL * 1000 * 1000 * 1000;
 		break;
 	case KTIB:
-		value->integer *= 1024ULL * 1024 * 1024 * 1024;
+		mod = 1024ULL * 1024 * 1024 * 1024;
 		break;
 	default:
 		lex_push(self, &tk);
 		break;
 	}
+
+	if (unlikely(value->integer > UINT64_MAX / mod))
+		error("integer is too large");
+	value->integer *= mod;
 }
 
 void
diff --git a/monotone/main/command/parse_misc.h b/monotone/main/command/parse_misc.h
index 276b552..d290140 100644
--- a/monotone/main/command/parse_misc.h
+++ b/monotone/main/command/parse_misc.h
@@ -54,6 +54,10 @@ parse_int(Lex* self, Token* name, int64_t* value)
 		error("%.*s 'integer' expected", str_size(&name->string),
 		      str_of(&name->string));
 
+	if (unlikely(tk.integer > INT64_MAX))
+		error("%.*s integer is too large", str_size(&name->string),
+		      str_of(&name->string));
+
 	*value = tk.integer;
 }
 
-- 
2.43.0


From 7802dad4dacf860f39c814656e5655e503b983e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:27 +0000
Subject: [PATCH 76/77] fix: drop kept the file left by a failed download, it
 came back as a second copy

---
 monotone/engine/engine/op.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index a207aa6..62df700 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -260,9 +260,10 @@ engine_drop_file(Engine* self, uint64_t min, bool if_exists,
 				mutex_unlock(&self->lock);
 			} else
 			{
-				// remove file left by a failed refresh, it
-				// would be recovered on restart
+				// remove files left by a failed refresh or
+				// download, they would be recovered on restart
 				part_delete(part, ID_COMPLETE);
+				part_delete(part, ID);
 			}
 		}
 
-- 
2.43.0


From c071b4c119828de45a561f39a6ad9558ffff78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:14:38 +0000
Subject: [PATCH 77/77] fix: drop replay left empty partitions and could remove
 a newer empty one on the next open

---
 monotone/engine/engine/op.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/monotone/engine/engine/op.c b/monotone/engine/engine/op.c
index 62df700..c209818 100644
--- a/monotone/engine/engine/op.c
+++ b/monotone/engine/engine/op.c
@@ -416,6 +416,14 @@ engine_drop_replay(Engine* self, LogDrop* drop)
 			} else
 			{
 				engine_drop_replay_memtable(part->memtable, min, max);
+
+				// next refresh contains the drop
+				memtable_follow(part->memtable, lsn);
+
+				// partition was recovered for the dropped events only
+				if (part->state == ID_NONE && atomic_u64_of(&part->memtable->count) == 0 &&
+				    slice->min >= min && slice->max <= max)
+					engine_drop_reference(self, slice->min, false);
 			}
 		}
 		slice = next;
-- 
2.43.0

