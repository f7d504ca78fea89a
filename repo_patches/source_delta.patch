From 7d35aaba03017604c64ca7bbdd8eebb518c52903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 01/34] fix: keep a table alive and findable while connections
 use it

---
 src/core/db.cpp               | 54 +++++++++++++++++++++++------------
 src/core/db.h                 |  1 +
 src/core/http_parse_cache.cpp | 26 ++++++++++++-----
 3 files changed, 55 insertions(+), 26 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3a01b23..1b6c416 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -259,24 +259,27 @@ void db_entry_actually_delete(cache_entry* entry) {
 void db_table_actually_delete(db_table* entry) {
 	DEBUG("[#] Cleaning up table due to refcount == 0\n");
 
-	//Remove table from database
+	//Remove table from database (unless the name has since been taken by a new table)
 	khiter_t k = kh_get(table, db.tables, entry->hash);
-	if (k != kh_end(db.tables)) {
+	if (k != kh_end(db.tables) && kh_value(db.tables, k) == entry) {
 		kh_del(table, db.tables, k);
 	}
 
+	//Clear key hash table
+	kh_destroy(entry, entry->cache_hash_set);
+
 	//Free key
 	free(entry->key);
 	free(entry);
 }
 
-static void db_table_deref(db_table* entry, bool actually_delete = false) {
+static void db_table_deref(db_table* entry) {
 	DEBUG("[#] Decrementing table refcount - was: %d\n", entry->refs);
 	assert(entry->refs > 0);
 	entry->refs--;
 	 
-	//Actually clean up the entry
-	if (entry->refs == 0 && (actually_delete || entry->deleted)) {
+	//Actually clean up the entry (a table holding keys always has a reference)
+	if (entry->refs == 0) {
 		//Remove table from hash set
 		db_table_actually_delete(entry);
 	}
@@ -641,7 +644,7 @@ static bool db_load_from_save(){
 					continue;
 				}
 				if(table != NULL){
-					db_table_deref(table, true);
+					db_table_deref(table);
 					table = NULL;
 				}
 				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
@@ -694,7 +697,7 @@ static bool db_load_from_save(){
 	}
 
 	if(table != NULL){
-		db_table_deref(table, true);
+		db_table_deref(table);
 		table = NULL;
 	}
 
@@ -1019,6 +1022,25 @@ struct db_table* db_table_get_write(char* name, int length) {
 	return table;
 }
 
+/**
+Get the table currently known by the name of table (which may have been deleted since it was looked up).
+
+The reference to table is exchanged for one to the returned table. Returns NULL if there is no such table.
+*/
+struct db_table* db_table_refresh(struct db_table* table, bool write) {
+	if (!table->deleted) {
+		return table;
+	}
+
+	int length = table->key_length;
+	char* name = (char*)malloc(length + 1);
+	memcpy(name, table->key, length);
+	name[length] = 0;
+	db_table_deref(table);
+
+	return write ? db_table_get_write(name, length) : db_table_get_read(name, length);
+}
+
 void db_entry_handle_softdelete(cache_entry* entry, khiter_t k) {
 	//It is possible when over-writing for this to be called twice.
 	if(entry->deleted) return;
@@ -1197,18 +1219,13 @@ bool db_entry_handle_delete(cache_entry* entry) {
 	return db_entry_handle_delete(entry, k);
 }
 
-void db_delete_table_entry(db_table* table, khiter_t k, bool actually_delete = true) {
-	// Clear key hash table
-	kh_destroy(entry, table->cache_hash_set);
-
-	// If not fully de-refed remove now, not later
-	if (table->refs != 0) {
-		assert(k != kh_end(db.tables));
-		kh_del(table, db.tables, k);
-	}
+void db_delete_table_entry(db_table* table, khiter_t k) {
+	// Remove now, connections may still hold the (empty) table
+	assert(k != kh_end(db.tables));
+	kh_del(table, db.tables, k);
 
 	//Remove reference holding table open
-	db_table_deref(table, actually_delete);
+	db_table_deref(table);
 }
 
 
@@ -1269,8 +1286,7 @@ bool db_entry_handle_delete(cache_entry* entry, khiter_t k) {
 		entry->table->deleted = true;
 		k = kh_get(table, db.tables, entry->table->hash);
 		assert (k != kh_end(db.tables));
-		db_delete_table_entry(entry->table, k, true);
-		entry->table = NULL;
+		db_delete_table_entry(entry->table, k);
 		return true;
 	}
 	return false;
diff --git a/src/core/db.h b/src/core/db.h
index c0e12e4..824010d 100644
--- a/src/core/db.h
+++ b/src/core/db.h
@@ -60,6 +60,7 @@ void db_close();
 /* Lookup Table in Database */
 struct db_table* db_table_get_read(char* name, int length);
 struct db_table* db_table_get_write(char* name, int length);
+struct db_table* db_table_refresh(struct db_table* table, bool write);
 
 /* Lookup Cache Entry in Table */
 struct cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length);
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 2edf4be..0493ff3 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -67,9 +67,18 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 
 	DEBUG("[#%d] Request key: \"%s\" (%d)\n", connection->client_sock, key, n);
 
-	struct cache_entry* entry;
+	struct cache_entry* entry = NULL;
+
+	//The table may have been deleted since it was looked up
+	if (REQUEST_IS(connection->method, REQUEST_HTTPGET) || REQUEST_IS(connection->method, REQUEST_HTTPHEAD) || REQUEST_IS(connection->method, REQUEST_HTTPPUT) || REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
+		connection->cache.target.table.table = db_table_refresh(connection->cache.target.table.table, REQUEST_IS(connection->method, REQUEST_HTTPPUT));
+	}
+
 	//TODO: memcpy always?
-	if (REQUEST_IS(connection->method, REQUEST_HTTPGET) || REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) {
+	if (connection->cache.target.table.table == NULL) {
+		free(key);
+	}
+	else if (REQUEST_IS(connection->method, REQUEST_HTTPGET) || REQUEST_IS(connection->method, REQUEST_HTTPHEAD)) {
 		//db_entry_get_read will free key if necessary
 		entry = db_entry_get_read(connection->cache.target.table.table, key, n);
 	}
@@ -110,7 +119,9 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		db_target_setup(&connection->cache.target.key, entry, REQUEST_IS(connection->method, REQUEST_HTTPPUT));
 	}
 	else{
-		db_table_close(connection->cache.target.table.table);
+		if (connection->cache.target.table.table != NULL) {
+			db_table_close(connection->cache.target.table.table);
+		}
 		connection->cache.target.key.entry = NULL;
 		connection->cache.target.key.fd = -1;
 	}
@@ -388,6 +399,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			}
 			
 			//Router: Table level
+			if (connection->cache.target.table.table != NULL) {
+				//The table may have been deleted since it was looked up
+				connection->cache.target.table.table = db_table_refresh(connection->cache.target.table.table, false);
+			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
 				assert(connection->input.read_position == connection->input.write_position);
 
@@ -546,10 +561,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 				rbuf_copyn(&connection->input, key, length);
 				cache_entry* entry = db_entry_get_delete(connection->cache.target.table.table, key, length);
 				if (entry != NULL) {
-					if (db_entry_handle_delete(entry))
-					{
-						connection->cache.target.table.table = NULL;
-					}
+					db_entry_handle_delete(entry);
 					db_entry_deref(entry, false);
 				}
 			}
-- 
2.43.0


From d986ebb3eeda8571349a3b705462dd8c16f9cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 02/34] fix: deletes that meet an upload or another delete of
 the same key

---
 src/core/db.cpp               | 20 ++++++++++----------
 src/core/http_parse_cache.cpp |  9 ++++++++-
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 1b6c416..4bfd5e6 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -851,10 +851,6 @@ void db_target_entry_close(cache_target* target) {
 		if (target->fd != db.fd_blockfile && target->fd >= 0) {
 			assert(target->fd > 0 || (settings.daemon_mode && target->fd >= 0));
 			close_fd(target->fd, "file descriptor (cache file)");
-
-			if(target->entry->writing){
-				db_entry_delete(target->entry);
-			}
 		}
 
 		target->fd = -1;
@@ -1327,15 +1323,14 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 		//Else: We are going to use a block, and the entry is currently a block
 	}
 
-	//Update database counters
-	if (entry->block == -2)
+	//Update database counters (a deleted entry is no longer counted)
+	if (!entry->deleted)
 	{
-		db.db_size_bytes += data_length;
-		entry->block = -1; // must be file
+		db.db_size_bytes += data_length - entry->data_length;
 	}
-	else
+	if (entry->block == -2)
 	{
-		db.db_size_bytes += data_length - entry->data_length;
+		entry->block = -1; // must be file
 	}
 	
 	entry->data_length = data_length;
@@ -1343,6 +1338,11 @@ void db_target_write_allocate(struct cache_target* target, uint32_t data_length)
 	db_target_open(target, true);
 
 	if (IS_SINGLE_FILE(entry)) {
+		//Deleted before the file existed, there is nobody else to remove it
+		if (entry->deleted) {
+			db_entry_delete(entry);
+		}
+
 		//Lengthen file to required size
 		if (ftruncate(target->fd, data_length)<0) {
 			PWARN("File truncation failed (fd: %d, length: %d)", target->fd, data_length);
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 0493ff3..d674a28 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -387,7 +387,10 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 						return res ? registered_write : close_connection;
 					}
 					if (REQUEST_IS(connection->method, REQUEST_HTTPDELETE)) {
-						db_entry_handle_delete(connection->cache.target.key.entry);
+						//May have been deleted or replaced since it was looked up
+						if (!connection->cache.target.key.entry->deleted) {
+							db_entry_handle_delete(connection->cache.target.key.entry);
+						}
 
 						return http_write_response(connection, HTTPTEMPLATE_FULLHTTP200DELETED);
 					}
@@ -556,6 +559,10 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 			break;
 
 		case HEADER_XDELETE:
+			if (REQUEST_IS(connection->method, REQUEST_HTTPPURGE | REQUEST_CACHE_LEVELTABLE) && connection->cache.target.table.table != NULL) {
+				//The table may have been deleted since it was looked up
+				connection->cache.target.table.table = db_table_refresh(connection->cache.target.table.table, false);
+			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPURGE | REQUEST_CACHE_LEVELTABLE) && connection->cache.target.table.table != NULL) {
 				char* key = (char*)malloc(length);
 				rbuf_copyn(&connection->input, key, length);
-- 
2.43.0


From 32c1625e1ae4777a16c7c685b1e039899ea8f9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 03/34] fix: deleting a table must count its keys and not touch
 freed entries

---
 src/core/db.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 4bfd5e6..3113e0d 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1235,8 +1235,9 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 		if (kh_exist(table->cache_hash_set, ke)) {
 			cache_entry* ce = kh_val(table->cache_hash_set, ke);
 			if (!ce->deleted) {
+				//Frees ce when it is not in use
 				db_entry_handle_softdelete(ce, ke);
-				db_entry_cleanup(ce);
+				db.db_keys--;
 			}
 		}
 	}
-- 
2.43.0


From 34bc49b3b402ae5a13f279ea25e7290075670dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 04/34] fix: loading a save must not leak blocks, lose names or
 overflow on long ones

---
 src/core/db.cpp | 68 ++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 50 insertions(+), 18 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 3113e0d..2c1e57c 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -571,9 +571,6 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	k = kh_put(entry, table->cache_hash_set, entry->hash, &ret);
 	kh_value(table->cache_hash_set, k) = entry;
 
-	//Refs
-	db_entry_incref(entry, false);
-
 	assert(!entry->deleted);
 	db.db_size_bytes += entry->data_length;
 }
@@ -595,15 +592,46 @@ static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t
 	return entry;
 }
 
+/*
+Copy the name (anything up to the end of the line) out of a line of the index
+*/
+static char* db_load_name(const char* line, int line_length, int offset, int* length){
+	if(line[line_length - 1] == '\n') line_length--;
+
+	*length = line_length > offset ? line_length - offset : 0;
+	char* name = (char*)malloc(*length + 1);
+	memcpy(name, line + offset, *length);
+	name[*length] = 0;
+	return name;
+}
+
+/*
+Free every block which is not used by a loaded entry
+*/
+static void db_load_free_blocks(){
+	uint32_t blocks = db.blocks_exist;
+	bool* used = (bool*)calloc(blocks + 1, sizeof(bool));
+
+	for(cache_entry* entry = db.lru_head; entry != NULL; entry = entry->lru_next){
+		if(entry->block >= 0) used[entry->block] = true;
+	}
+	for(uint32_t i = 0; i < blocks; i++){
+		if(!used[i]) db_block_free(i);
+	}
+
+	free(used);
+}
+
 static bool db_load_from_save(){
-	char buffer[MAX_PATH], buffer2[2048];
+	char buffer[MAX_PATH];
 	char *bp = NULL;
+	char *name;
 	bool ret = false;
 	size_t len = 0;
-	uint32_t u1, u2, u3, u4;
+	uint32_t u2, u3, u4;
 	db_table* table = NULL;
 	cache_entry* entry;
-	int d1;
+	int d1, name_offset, name_length;
 	ssize_t read;
 
 	snprintf(buffer, sizeof(buffer), "%s/index.save", db.path_root);
@@ -632,22 +660,15 @@ static bool db_load_from_save(){
         if(read <= 2 || bp[1] != ':') continue;
 		switch(bp[0]){
 			case 'f':
-				if(sscanf(bp, "f:%u", &u1) != 1){
-					WARN("Free block parsing error\n");
-					continue;
-				}
-				db_block_free(u1);
+				//Every block that is not used by an entry is freed once the block file is open
 			break;
 			case 't':
-				if(sscanf(bp, "t:%s", buffer2) != 1){
-					WARN("Table parsing error\n");
-					continue;
-				}
 				if(table != NULL){
 					db_table_deref(table);
 					table = NULL;
 				}
-				table = db_table_get_write(strdup(buffer2), strlen(buffer2));
+				name = db_load_name(bp, read, 2, &name_length);
+				table = db_table_get_write(name, name_length);
 				entry = NULL;
 				break;
 			case 'b':
@@ -656,13 +677,20 @@ static bool db_load_from_save(){
 					WARN("File entry must be after table\n");
 					continue;
 				}
-				if(sscanf(bp+1, ":%d:%u:%u:%u:%s", &d1, &u2, &u3, &u4, buffer2) != 5){
+				name_offset = 0;
+				if(sscanf(bp+1, ":%d:%u:%u:%u:%n", &d1, &u2, &u3, &u4, &name_offset) != 4 || name_offset == 0){
 					WARN("Entry parsing error\n");
 					continue;
 				}
 			
 				//>block, ce->data_length, ce->expires, ce->it
-				entry = db_load_from_save_entry(table, strdup(buffer2), strlen(buffer2), d1, u2, u3, u4);
+				name = db_load_name(bp, read, name_offset + 1, &name_length);
+				entry = db_load_from_save_entry(table, name, name_length, d1, u2, u3, u4);
+
+				// New files must not take the name of one that is in the save
+				if(u4 >= nextit){
+					nextit = u4 + 1;
+				}
 
 				if(d1 < 0){
 					// Test file existance
@@ -670,6 +698,7 @@ static bool db_load_from_save(){
 					
 					if( access( buffer, F_OK ) == -1 ) {
 						DEBUG("skipping as file %s does not exist\n", buffer);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -677,6 +706,7 @@ static bool db_load_from_save(){
 					// Test size of blockfile
 					if(d1 >= db.blocks_exist){
 						DEBUG("skipping as block %d does not exist\n", d1);
+						free(entry->key);
 						free(entry);
 						continue;
 					}
@@ -780,6 +810,8 @@ bool db_open(const char* path) {
 			db_block_free((uint32_t)(i / BLOCK_LENGTH));
 		}
 		db.blocks_free = db.blocks_exist;
+	} else {
+		db_load_free_blocks();
 	}
 
 	return true;
-- 
2.43.0


From 488ed26e3ba55392e2c50deb1550acbdd31b1946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 05/34] fix: a new index must not be seen with an older block
 file

---
 src/core/db.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 2c1e57c..e9ee0d7 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1523,8 +1523,10 @@ static pid_t db_index_flush(bool copyOnWrite){
 	assert(temp > 0);
 
 	// execute the renames of tmp files to actual
-	rename(buffer, buffer2);
-	rename(buffer3, buffer4);
+	// the index goes last, it must never be seen with an older block file
+	if(rename(buffer3, buffer4) == 0){
+		rename(buffer, buffer2);
+	}
 	unlink(buffer3);
 	unlink(buffer);
 
-- 
2.43.0


From 5f52fe1d6d3df640e57019dc0cf3782ca5cda342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 06/34] fix: sizes above 2GB when lengthening the block file
 and evicting

---
 src/core/db.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index e9ee0d7..bb1965a 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -183,7 +183,7 @@ void db_lru_hit(cache_entry* entry) {
 }
 
 static void db_block_size() {
-	if (ftruncate(db.fd_blockfile, db.blocks_exist*BLOCK_LENGTH) < 0) {
+	if (ftruncate(db.fd_blockfile, ((off64_t)db.blocks_exist) * BLOCK_LENGTH) < 0) {
 		PWARN("File truncation failed (length: %d)", db.blocks_exist);
 	}
 }
@@ -312,8 +312,8 @@ void db_entry_incref(cache_entry* entry, bool table = true) {
 		db_table_incref(entry->table);
 }
 
-void db_lru_cleanup_percent(int* bytes_to_remove) {
-	int debug_bytes = *bytes_to_remove;
+void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
+	int64_t debug_bytes = *bytes_to_remove;
 	while (db.lru_head != NULL && *bytes_to_remove > 0) {
 		cache_entry* l = db.lru_head;
 
@@ -334,7 +334,7 @@ void db_lru_cleanup_percent(int* bytes_to_remove) {
 		}
 	}
 	
-	DEBUG("[#] LRU attempted to remove %d bytes, %d bytes remaining\n", debug_bytes, *bytes_to_remove);
+	DEBUG("[#] LRU attempted to remove %ld bytes, %ld bytes remaining\n", (long)debug_bytes, (long)*bytes_to_remove);
 }
 
 static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
@@ -446,20 +446,21 @@ void db_lru_gc() {
 	DEBUG("Starting %s\n", do_lru?"LRU GC":"Expiration Cursor");
 	if (do_lru)
 	{
-		int bytes_to_remove;
+		int64_t bytes_to_remove = 0;
 		bool full_cycle;
 		int i = 0;
 		
 		//Do 5 iterations, or one full cycle of expirations
 		do
 		{
-			bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
 			full_cycle = db_expire_cursor();
 			i++;
 		} while (!full_cycle && i < 5);
 		
-		//Apply LRU
-		bytes_to_remove = (db.db_size_bytes - settings.max_size) + (settings.max_size * settings.db_lru_clear);
+		//Apply LRU (if expirations have not been enough)
+		if (db.db_size_bytes > settings.max_size) {
+			bytes_to_remove = (int64_t)(db.db_size_bytes - settings.max_size) + (int64_t)(settings.max_size * settings.db_lru_clear);
+		}
 		if (bytes_to_remove > 0) {
 			db_lru_cleanup_percent(&bytes_to_remove);
 		}
-- 
2.43.0


From 6ff60335115d5558af9d2df071ba47f2c4b02711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 07/34] fix: tables whose names collide stay findable and keep
 their files

---
 src/core/db.cpp | 112 ++++++++++++++++++++++--------------------------
 1 file changed, 52 insertions(+), 60 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index bb1965a..2c7ce7a 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -73,6 +73,9 @@ static pid_t db_index_flush(bool copyOnWrite = true);
 static char filename_buffer[MAX_PATH];
 static uint16_t nextit = 0;
 
+//The furthest any table was ever stored from the hash of its name (due to collisions)
+static uint32_t table_max_probe = 0;
+
 db_details* db_get_details() {
 	return &db;
 }
@@ -533,7 +536,7 @@ static uint32_t hash_string(const char* str, int length) {
 }
 
 static void get_key_path(cache_entry* e, char* out) {
-	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), e->table->hash, e->hash, e->it);
+	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), hash_string(e->table->key, e->table->key_length), e->hash, e->it);
 }
 
 
@@ -964,38 +967,37 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 }
 
 /**
-Get table entry, if it does not exist return NULL. Will free name parameter
+Find a table by name. A gap does not end the search, as tables which collided may have been deleted since.
 */
-struct db_table* db_table_get_read(char* name, int length) {
+static db_table* db_table_find(const char* name, int length) {
 	uint32_t hash = hash_string(name, length);
-	khiter_t k;
-	db_table* table;
-	bool while_condition;
 
-	//Open addressing for table hash collision
-	do
-	{
-		k = kh_get(table, db.tables, hash);
-		if (k == kh_end(db.tables)) {
-			table = NULL;
-			goto end;
-		}
+	for (uint32_t probe = 0; probe <= table_max_probe; probe++) {
+		khiter_t k = kh_get(table, db.tables, hash + probe);
+		if (k == kh_end(db.tables)) continue;
 
-		table = kh_value(db.tables, k);
+		db_table* table = kh_value(db.tables, k);
 		assert(table != NULL);
-		assert(table->hash == hash);
-		
-		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
-		if (while_condition)
-		{
-			hash++;
+		assert(table->hash == hash + probe);
+
+		if (table->key_length == length && strncmp(table->key, name, length) == 0) {
+			return table;
 		}
-	} while (while_condition);
+	}
 
-	db_table_incref(table);
+	return NULL;
+}
+
+/**
+Get table entry, if it does not exist return NULL. Will free name parameter
+*/
+struct db_table* db_table_get_read(char* name, int length) {
+	db_table* table = db_table_find(name, length);
+
+	if (table != NULL) {
+		db_table_incref(table);
+	}
 
-end:
 	free(name);
 	return table;
 }
@@ -1009,45 +1011,35 @@ Returns NULL in case of cache collision
 */
 struct db_table* db_table_get_write(char* name, int length) {
 	uint32_t hash = hash_string(name, length);
+	uint32_t probe = 0;
 	khiter_t k;
-	db_table* table;
 	int ret;
-	bool while_condition;
-	
-	//Open addressing for table hash collision
-	do
-	{
-		k = kh_get(table, db.tables, hash);
-		//Create table if not exists
-		if (k == kh_end(db.tables)) {
-			table = (db_table*)malloc(sizeof(db_table));
-			table->hash = hash;
-			table->key = name;
-			table->key_length = length;
-			table->refs = 1;
-			table->deleted = false;
-			table->cache_hash_set = kh_init(entry);
-
-			k = kh_put(table, db.tables, hash, &ret);
-			kh_value(db.tables, k) = table;
-			return table;
-		}
+	db_table* table = db_table_find(name, length);
 
-		table = kh_value(db.tables, k);
-		assert(table != NULL);
-		assert(table->hash == hash);
-	
-		//Check table key, cache key collision handling
-		while_condition = table->key_length != length || strncmp(table->key, name, length) != 0;
-		if (while_condition)
-		{
-			hash++;
-		}
-	} while (while_condition);
+	if (table != NULL) {
+		free(name);
+		db_table_incref(table);
+		return table;
+	}
 
-	free(name);
-	db_table_incref(table);
-	
+	//Create table as it does not exist, open addressing for table hash collision
+	while (kh_get(table, db.tables, hash + probe) != kh_end(db.tables)) {
+		probe++;
+	}
+	if (probe > table_max_probe) {
+		table_max_probe = probe;
+	}
+
+	table = (db_table*)malloc(sizeof(db_table));
+	table->hash = hash + probe;
+	table->key = name;
+	table->key_length = length;
+	table->refs = 1;
+	table->deleted = false;
+	table->cache_hash_set = kh_init(entry);
+
+	k = kh_put(table, db.tables, table->hash, &ret);
+	kh_value(db.tables, k) = table;
 	return table;
 }
 
-- 
2.43.0


From 8dc941211438a877dd1e7986099d4eee0097574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 08/34] fix: reject a request line without a URL that starts
 with / and fits the line

---
 src/core/http_parse_cache.cpp | 13 +++++++++++--
 src/core/http_parse_mon.cpp   |  7 +++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index d674a28..ff85df0 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -204,8 +204,11 @@ static inline state_action http_read_requeststartmethod(scache_connection* conne
 }
 
 static inline state_action http_read_requeststarturl1(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//The request line ends before the URL does, or the URL does not start with a /
+	if (*buffer == '\n' || (n == 0 && *buffer != '/')) {
+		RBUF_READMOVE(connection->input, n + 1);
+		return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
@@ -299,6 +302,12 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 
 static state_action http_read_requeststarturl2(scache_connection* connection, char* buffer, int n)
 {
+	//The request line ends before the URL does
+	if (*buffer == '\n') {
+		RBUF_READMOVE(connection->input, n + 1);
+		return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+	}
+
 	if (*buffer == ' ') {
 		bool temporary = http_key_lookup(connection, n);
 		RBUF_READMOVE(connection->input, n + 1);
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 759300f..d83c5aa 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -207,8 +207,11 @@ static inline state_action http_read_requeststartmethod_mon(scache_connection* c
 }
 
 static inline state_action http_mon_read_requeststarturl(scache_connection* connection, char* buffer, int n) {
-	//Assert: first char is a / (start of URL)
-	assert(n != 0 || *buffer == '/');
+	//The request line ends before the URL does, or the URL does not start with a /
+	if (*buffer == '\n' || (n == 0 && *buffer != '/')) {
+		RBUF_READMOVE(connection->input, n + 1);
+		return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
+	}
 
 	// search either for / (goto http_read_requeststarturl2) or " " goto next step
 	if (n != 0) {
-- 
2.43.0


From 11c469e82a7cc31a07aff8de0a4b594a319780a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 09/34] fix: list every key of a table once, whatever bucket it
 is in

---
 src/core/http_parse_cache.cpp |  2 --
 src/core/http_respond.cpp     | 59 ++++++++++++++---------------------
 2 files changed, 23 insertions(+), 38 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index ff85df0..53a8a17 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -416,8 +416,6 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				connection->cache.target.table.table = db_table_refresh(connection->cache.target.table.table, false);
 			}
 			if (REQUEST_IS(connection->method, REQUEST_HTTPGET)) {
-				assert(connection->input.read_position == connection->input.write_position);
-
 				if (!connection->cache.target.table.table) {
 					return http_write_response(connection, HTTPTEMPLATE_FULL404);
 				}
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index bd99f9b..a8a341d 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -16,6 +16,7 @@
 #include <unistd.h>
 #include <fcntl.h>
 #include <errno.h>
+#include <string>
 #define __STDC_FORMAT_MACROS 1
 #include <inttypes.h>
 #include "http.h"
@@ -27,7 +28,7 @@
 #include "http_parse.h"
 #include "http_respond.h"
 
-static void copy_to_outputbuffer(scache_connection* connection, char* header, int length) {
+static void copy_to_outputbuffer(scache_connection* connection, const char* header, int length) {
 	connection->output_buffer = connection->output_buffer_free = (char*)malloc(length);
 	memcpy(connection->output_buffer_free, header, length);
 	connection->output_length = length;
@@ -207,48 +208,34 @@ state_action http_respond_close_connection(scache_connection* connection) {
 state_action http_respond_listing(scache_connection* connection) {
 	DEBUG("[#%d] Sending listing response\n", connection->client_sock);
 
-	if (connection->cache.target.table.start > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.start = kh_end(connection->cache.target.table.table->cache_hash_set);
-		connection->cache.target.table.limit = 0;
-	}else if ((connection->cache.target.table.limit + connection->cache.target.table.start) > kh_end(connection->cache.target.table.table->cache_hash_set)) {
-		connection->cache.target.table.limit = kh_end(connection->cache.target.table.table->cache_hash_set) - (connection->cache.target.table.start + 1);
-	}
+	auto entries = connection->cache.target.table.table->cache_hash_set;
+	uint32_t start = connection->cache.target.table.start;
+	uint32_t limit = connection->cache.target.table.limit;
+	std::string keys;
 
-	if (connection->cache.target.table.limit > 0) {
-		cache_entry* entry = NULL;
-		int i = connection->cache.target.table.limit + connection->cache.target.table.start;
-		while (!kh_exist(connection->cache.target.table.table->cache_hash_set, i)) {
-			if (connection->cache.target.table.limit == 0) {
-				return close_connection;
-			}
-			connection->cache.target.table.limit--;
-			i--;
+	//All at once, any of the keys may be gone before they have been sent
+	for (khiter_t k = kh_end(entries); k != kh_begin(entries) && limit > 0; k--) {
+		if (!kh_exist(entries, k - 1)) {
+			continue;
 		}
-		entry = kh_val(connection->cache.target.table.table->cache_hash_set, i);
-
-		bool cleanup = false;
-		if (connection->cache.target.table.limit) {
-			connection->cache.target.table.limit--;
+		if (start > 0) {
+			start--;
+			continue;
 		}
-		else{
-			cleanup = true;
-		}
-
-		if (entry != NULL) {
-			//Returns the number of chars put into the buffer
-			connection->output_buffer = entry->key;
-			connection->output_length = entry->key_length;
-			CONNECTION_HANDLER(connection,  http_respond_listing_separator);
+		limit--;
 
-			if (cleanup) {
-				CONNECTION_HANDLER(connection,  http_respond_close_connection);
-			}
+		cache_entry* entry = kh_val(entries, k - 1);
+		keys.append(entry->key, entry->key_length);
+		keys.append("\r\n");
+	}
 
-			return continue_processing;
-		}
+	CONNECTION_HANDLER(connection,  http_respond_close_connection);
+	if (keys.empty()) {
+		return close_connection;
 	}
 
-	return close_connection;
+	copy_to_outputbuffer(connection, keys.data(), keys.size());
+	return continue_processing;
 }
 
 state_action http_respond_listingtotal(scache_connection* connection) {
-- 
2.43.0


From 01d403a27f184c5dc2d028ed4b1b3c1351936c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:21 +0000
Subject: [PATCH 10/34] fix: read buffer contents that roll over and numbers
 that do not fit

---
 src/core/http_parse.cpp       | 21 +++------------
 src/core/http_parse_cache.cpp |  4 +--
 src/core/read_buffer.cpp      | 51 ++++++++++++-----------------------
 src/core/read_buffer.h        |  8 +++++-
 4 files changed, 29 insertions(+), 55 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c86f097..c1389ee 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -28,16 +28,16 @@
 
 void skip_over_newlines(struct read_buffer* rb) {
 	char* buffer;
-	int end = rbuf_read_to_end(rb);
+	int end = rbuf_read_remaining(rb);
 
 	//Nothing to skip
 	if (end == 0) {
 		return;
 	}
 
-	//Iterate over buffer until the end of the buffer
-	buffer = RBUF_READPTR(rb);
+	//Iterate over buffer, including anything that has rolled over to the start
 	for (int i = 0; i < end; i++) {
+		buffer = RBUF_READPTR(rb);
 		if (*buffer != '\r' && *buffer != '\n') {
 			return;
 		}
@@ -46,21 +46,6 @@ void skip_over_newlines(struct read_buffer* rb) {
 #endif
 		rb->read_position++;
 		rbuf_debug_check(rb);
-		buffer++;
-	}
-
-	//Go over anything from the start
-	end = rbuf_read_remaining(rb) - end;
-	for (int i = 0; i < end; i++) {
-		if (*buffer != '\r' && *buffer != '\n') {
-			return;
-		}
-#ifdef DEBUG_BUILD
-		rbuf_debug_read_check(rb, 1);
-#endif
-		rb->read_position++;
-		rbuf_debug_check(rb);
-		buffer++;
 	}
 }
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 53a8a17..6f2b013 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -323,7 +323,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 	if (*buffer == ':') {
 		int bytes = buffer - RBUF_READ(connection->input);
 		if (bytes < 0) {
-			bytes = rbuf_read_to_end(&connection->input) + (buffer - RBUF_START(connection->input));
+			bytes = rbuf_read_contiguous(&connection->input) + (buffer - RBUF_START(connection->input));
 		}
 		DEBUG("[#%d] Found header of length %d\n", connection->client_sock, bytes);
 
@@ -697,7 +697,7 @@ state_action http_cache_handle_headers(scache_connection* connection) {
 
 state_action http_cache_handle_request_body(scache_connection* connection) {
 	DEBUG("[#%d] Handling STATE_REQUESTBODY\n", connection->client_sock);
-	int max_write = rbuf_read_to_end(&connection->input);
+	int max_write = rbuf_read_contiguous(&connection->input);
 	assert(max_write >= 0);
 	int to_write = connection->cache.target.key.end_position - connection->cache.target.key.position;
 	assert(to_write >= 0);
diff --git a/src/core/read_buffer.cpp b/src/core/read_buffer.cpp
index b381b1e..020940f 100644
--- a/src/core/read_buffer.cpp
+++ b/src/core/read_buffer.cpp
@@ -13,7 +13,7 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	assert(dest != NULL);
 	rbuf_debug_check(buffer);
 	assert(n <= BUFFER_SIZE);
-	int to_end = rbuf_read_to_end(buffer);
+	int to_end = rbuf_read_contiguous(buffer);
 
 	if (n == 0) {
 		//No bytes to be read
@@ -40,7 +40,6 @@ int rbuf_copyn(struct read_buffer* buffer, char* dest, int n) {
 	to_end = rbuf_read_remaining(buffer) - to_end;
 	if (to_end != 0) {
 		//Dont read more than needed
-		assert(to_end <= n);
 		if (to_end > n) {
 			to_end = n;
 		}
@@ -72,7 +71,7 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 	}
 
 	//Read the maximum we can / want
-	to_end = rbuf_read_to_end(buffer);
+	to_end = rbuf_read_contiguous(buffer);
 	if (n < to_end) {
 		to_end = n;
 	}
@@ -96,44 +95,23 @@ int rbuf_cmpn(struct read_buffer* buffer, const char* with, int n) {
 bool rbuf_strntol(struct read_buffer* buffer, int* output, int max)
 {
 	rbuf_debug_check(buffer);
-	int result = 0;
-	int n = rbuf_read_to_end(buffer);
+	int64_t result = 0;
+	int n = rbuf_read_remaining(buffer);
 	if (max != -1 && max < n) {
 		n = max;
-		max -= n;
 	}
 
-	char* buf = RBUF_READPTR(buffer);
-
-	//Handle forward
-	while (n--)
-	{
-		result *= 10;
-		int number = (*buf++) - '0';
-
-		if (number > 9 || number < 0) {
-			DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
+	for (int i = 0; i < n; i++) {
+		char c = buffer->buffer[(buffer->read_position + i) & (BUFFER_SIZE - 1)];
+		if (c < '0' || c > '9') {
+			DEBUG("Expected number got char %c\n", (unsigned char)c);
 			return false;
 		}
-		result += number;
-	}
 
-	if (max != 0) {
-		//How many after roll over?
-		n = rbuf_read_remaining(buffer) - n;
-		buf = RBUF_STARTPTR(buffer);
-
-		//Handle rollover
-		while (n--)
-		{
-			result *= 10;
-			int n = (*buf++) - '0';
-
-			if (n > 9 || n < 0) {
-				DEBUG("Expected number got char %c\n", (unsigned char)(*(buf - 1)));
-				return false;
-			}
-			result += n;
+		result = result * 10 + (c - '0');
+		if (result > INT32_MAX) {
+			DEBUG("Number is too large\n");
+			return false;
 		}
 	}
 
@@ -165,6 +143,11 @@ int rbuf_read_to_end(struct read_buffer* buffer) {
 		return BUFFER_SIZE - to_end;
 	}
 }
+int rbuf_read_contiguous(struct read_buffer* buffer) {
+	int remaining = rbuf_read_remaining(buffer);
+	int to_end = BUFFER_SIZE - (buffer->read_position & (BUFFER_SIZE - 1));
+	return remaining < to_end ? remaining : to_end;
+}
 int rbuf_write_remaining(struct read_buffer* buffer) {
 	rbuf_debug_check(buffer);
 	return RBUF_WRITELENPTR(buffer);
diff --git a/src/core/read_buffer.h b/src/core/read_buffer.h
index bf9e09c..32cb5ae 100644
--- a/src/core/read_buffer.h
+++ b/src/core/read_buffer.h
@@ -51,6 +51,12 @@ until the end (highest index)
 */
 int rbuf_read_to_end(struct read_buffer* buffer);
 
+/*
+Get the number of contiguous bytes remaining to be read,
+those that have rolled over excluded (even if the buffer is full)
+*/
+int rbuf_read_contiguous(struct read_buffer* buffer);
+
 /*
 Get the number of bytes that can be written until maximum
 capacity.
@@ -132,7 +138,7 @@ Move the write offset
 Helper to Iterate over circular buffer
 */
 #define RBUF_ITERATE(rb,n,buffer,end,ret,inner) do { \
-	end = rbuf_read_to_end(&rb); \
+	end = rbuf_read_contiguous(&rb); \
 	n = 0; \
 	if (end != 0) { \
 		buffer = RBUF_READ(rb); \
-- 
2.43.0


From 5ba10b2d5a21fae092358c26dcb1f1259f53824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 11/34] fix: header values that arrive in pieces or roll over
 the read buffer

---
 src/core/http_parse_cache.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 6f2b013..18face8 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -453,21 +453,13 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 }
 
 static state_action http_read_header_extraction(scache_connection* connection, char* buffer, int n) {
-	int temporary = 0;
-	if (*buffer == ' ' && !temporary) {
-		RBUF_READMOVE(connection->input, 1);
-	}
-	else if (*buffer == '\n' || *buffer == '\r') {
-		//We are going to have to skip another char if \r\n
-		if (*buffer == '\r') {
-			temporary = 2;
-		}
-		else{
-			temporary = 1;
+	if (*buffer == '\n') {
+		//The value ends before the \n or \r\n
+		int length = n;
+		if (n != 0 && connection->input.buffer[(uint16_t)(connection->input.read_position + n - 1) & (BUFFER_SIZE - 1)] == '\r') {
+			length--;
 		}
 
-		int length = buffer - RBUF_READ(connection->input);
-
 		switch (connection->state) {
 		case HEADER_CONTENTLENGTH:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
@@ -476,7 +468,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					WARN("Invalid Content-Length value provided");
 
 					//This is an INVALID request
-					RBUF_READMOVE(connection->input, length + temporary);
+					RBUF_READMOVE(connection->input, n + 1);
 					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
@@ -510,7 +502,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 						WARN("Invalid X-Ttl value provided");
 
 						//This is an INVALID request
-						RBUF_READMOVE(connection->input, length + temporary);
+						RBUF_READMOVE(connection->input, n + 1);
 						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 					}
 
@@ -532,7 +524,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					WARN("Invalid X-Limit value provided");
 
 					//This is an INVALID request
-					RBUF_READMOVE(connection->input, length + temporary);
+					RBUF_READMOVE(connection->input, n + 1);
 					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
@@ -552,7 +544,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 					WARN("Invalid X-Start value provided");
 
 					//This is an INVALID request
-					RBUF_READMOVE(connection->input, length + temporary);
+					RBUF_READMOVE(connection->input, n + 1);
 					return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 				}
 
@@ -585,7 +577,7 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 
 		connection->state = 1;
 		CONNECTION_HANDLER(connection,  http_cache_handle_headers);
-		RBUF_READMOVE(connection->input, length + temporary);
+		RBUF_READMOVE(connection->input, n + 1);
 		return needs_more_read;
 	}
 	
@@ -676,6 +668,12 @@ state_action http_cache_handle_headers_extract(scache_connection* connection) {
 	int end, n;
 	state_action ret = continue_processing;
 	DEBUG("[#%d] Handling HTTP Header extraction\n", connection->client_sock);
+
+	//Skip spaces before the value
+	while (rbuf_read_remaining(&connection->input) != 0 && *(RBUF_READ(connection->input)) == ' ') {
+		RBUF_READMOVE(connection->input, 1);
+	}
+
 	RBUF_ITERATE(connection->input, n, buffer, end, ret, http_read_header_extraction(connection, buffer, n));
 	return ret;
 }
-- 
2.43.0


From 5c7be787a37038564c8f1a58bf126c8b100ea181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 12/34] fix: upload bodies that roll over the read buffer or
 can not be stored

---
 src/core/http_parse_cache.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 18face8..560b176 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -711,10 +711,16 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 			// Write data
 			if(lseek64(connection->cache.target.key.fd, connection->cache.target.key.position, SEEK_SET) == -1) {
 				PWARN("[#%d] Failed to seek for PUT", connection->client_sock);
-				return http_write_response(connection, HTTPTEMPLATE_FULL404);				
+				return close_connection;
 			}
 			int read_bytes = write(connection->cache.target.key.fd, RBUF_READ(connection->input), to_write);
 
+			//The value can not be stored, the rest of the body can not be told apart from a request
+			if (read_bytes <= 0) {
+				PWARN("[#%d] Failed to write for PUT", connection->client_sock);
+				return close_connection;
+			}
+
 			//Handle the bytes written
 			DEBUG("[#%d] %d bytes to fd %d at position %u\n", connection->client_sock, read_bytes, connection->cache.target.key.fd, connection->cache.target.key.position);
 			RBUF_READMOVE(connection->input, read_bytes);
@@ -744,7 +750,7 @@ state_action http_cache_handle_request_body(scache_connection* connection) {
 		return http_write_response(connection, HTTPTEMPLATE_FULL200OK);
 	}
 
-	return continue_processing;
+	return needs_more_read;
 }
 
 void cache_destroy(scache_connection* connection){
-- 
2.43.0


From b0288f0bc07e1e7e35aa557b61d2e3f81a9fcba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 13/34] fix: requests received together or before the client
 shut down its side

---
 src/core/connection.cpp   |  6 +++---
 src/core/http.cpp         | 42 +++++++++++++++++++++++++--------------
 src/core/http_respond.cpp |  4 ++--
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index b4442a5..4605770 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -646,10 +646,10 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 
 					if(!do_close && (events[n].events & EPOLLRDHUP)){
 						connection->epollrdhup = true;
-						if(connection->epollin){
-							do_close = true;
-						}else{
+						if(!connection->epollin){
 							assert(connection->epollout);
+						}else if(!(events[n].events & EPOLLIN)){
+							do_close = true;
 						}
 					}
 
diff --git a/src/core/http.cpp b/src/core/http.cpp
index d50115a..9fd691a 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -43,6 +43,7 @@ return true to close the connection
 state_action http_read_handle(scache_connection* connection) {
 	int num;
 	int fd = connection->client_sock;
+	bool eof = false;
 
 	//Optimization
 	if (connection->input.write_position == connection->input.read_position) {
@@ -54,33 +55,44 @@ state_action http_read_handle(scache_connection* connection) {
 	if (num > 0) {
 		num = read(fd, RBUF_WRITE(connection->input), num);
 		if (num == 0) {
-			return close_connection;
+			//Anything received before it still needs to be handled
+			eof = true;
 		}
-		if (num < 0) {
-			num = errno;
-			if (num != EAGAIN && num != EWOULDBLOCK) {
-				DEBUG("[#%d] A socket error occured while reading: %d\n", fd, num);
+		else if (num < 0) {
+			if (errno != EAGAIN && errno != EWOULDBLOCK) {
+				DEBUG("[#%d] A socket error occured while reading: %d\n", fd, errno);
 				return close_connection;
 			}
 
-			DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, num);
-			return needs_more_read;
+			//There may still be bytes in the buffer (received together with the previous request)
+			DEBUG("[#%d] Needs more bytes, got errno %d\n", fd, errno);
+			if (rbuf_read_remaining(&connection->input) == 0) {
+				return needs_more_read;
+			}
 		}
-		
-		DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
+		else {
+			DEBUG("[#%d] Reading %d bytes from socket (write pos: %d, read pos: %d)\n", fd, num, connection->input.write_position, connection->input.read_position);
 
 
-		RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+			RBUF_WRITEMOVE(connection->input, (uint16_t)num);
+		}
 	}
 
-	state_action run;
-	int to_end = -1, to_end_old;
+	//Run handlers for as long as they use up input, or hand over to another
+	state_action run = needs_more_read;
+	int remaining;
+	state_action(*handler)(scache_connection* connection);
 	do {
 		if(!connection->epollin) break;
+		remaining = rbuf_read_remaining(&connection->input);
+		handler = connection->handler;
 		run = http_read_handle_state(connection);
-		to_end_old = to_end;
-		to_end = rbuf_read_remaining(&connection->input);
-	} while (run == needs_more_read && to_end != 0 && to_end != to_end_old);
+	} while (run == needs_more_read && (handler != connection->handler || remaining != rbuf_read_remaining(&connection->input)));
+
+	//Nothing more will be received
+	if (eof && connection->epollin) {
+		return close_connection;
+	}
 
 	//Handle buffer is full, not being processed
 	if (run != registered_write && run != close_connection && run != close_connection && num == 0 && rbuf_write_remaining(&connection->input) == 0) {
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index a8a341d..31d37f9 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -64,8 +64,8 @@ bool http_register_read(scache_connection* connection) {
 
 	bool res = connection_register_read(connection);
 
-	if (!connection_stop_soon() && rbuf_write_remaining(&connection->input)) {
-		http_read_handle(connection);
+	if (res && !connection_stop_soon() && http_read_handle(connection) == close_connection) {
+		return false;
 	}
 
 	return res;
-- 
2.43.0


From b26ff5fed1a152eec57b752eed61d8208d93d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 14/34] fix: what is left of a request that was answered must
 not run as another

---
 src/core/connection_structures.h |  3 ++-
 src/core/http.cpp                |  7 +++++++
 src/core/http.h                  |  1 +
 src/core/http_parse_cache.cpp    | 17 ++++++++++-------
 src/core/http_parse_mon.cpp      |  8 +++++---
 src/core/http_respond.cpp        |  4 ++++
 6 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/src/core/connection_structures.h b/src/core/connection_structures.h
index 9cf38c6..19e5578 100644
--- a/src/core/connection_structures.h
+++ b/src/core/connection_structures.h
@@ -49,7 +49,8 @@ struct scache_connection {
 	bool is_writing, // cache = cache for write, mon = is writing count values
 	     epollin,
 		 epollout,
-		 epollrdhup;
+		 epollrdhup,
+		 close_after_write; // response announced "Connection: Close"
 
 	connection_ctype ltype;
 
diff --git a/src/core/http.cpp b/src/core/http.cpp
index 9fd691a..84da972 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -173,6 +173,13 @@ void http_templates_init() {
 	}
 }
 
+/*
+Does the response announce that the connection will be closed?
+*/
+bool http_template_closes(int http_template) {
+	return strstr(http_templates[http_template], "Connection: Close") != NULL;
+}
+
 /* Where new connections land */
 void http_connection_handler(scache_connection* connection) {
 	if(connection->ltype == cache_connection){
diff --git a/src/core/http.h b/src/core/http.h
index 882720c..34ac4d0 100644
--- a/src/core/http.h
+++ b/src/core/http.h
@@ -105,6 +105,7 @@ int extern http_templates_length[NUMBER_OF_HTTPTEMPLATE];
 state_action http_read_handle(scache_connection* connection);
 state_action http_write_handle(scache_connection* connection);
 void http_templates_init();
+bool http_template_closes(int http_template);
 void http_connection_handler(scache_connection* connection);
 void http_cleanup(scache_connection* connection);
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 560b176..063d7ba 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -28,7 +28,7 @@
 extern int epfd;
 
 static state_action http_stats_after_eol(scache_connection* connection) {
-	connection->state = 0;
+	connection->state = 2;
 	CONNECTION_HANDLER(connection,  http_cache_handle_eolstats);
 	return needs_more_read;
 }
@@ -37,6 +37,7 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
+	connection->close_after_write = http_template_closes(http_template);
 	connection->state = 1;
 	return needs_more_read;
 }
@@ -45,6 +46,7 @@ static state_action http_write_response(scache_connection* connection, int http_
 	CONNECTION_HANDLER(connection,  http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
+	connection->close_after_write = http_template_closes(http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -58,7 +60,7 @@ static state_action http_headers_response_after_eol(scache_connection* connectio
 	return needs_more_read;
 }
 
-static bool http_key_lookup(scache_connection* connection, int n) {
+static state_action http_key_lookup(scache_connection* connection, int n) {
 	//Key request
 	//Copy the key from the buffer
 	char* key = (char*)malloc(sizeof(char)* (n + 1));
@@ -99,6 +101,7 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 	else
 	{
 		DEBUG("[#%d] Has request key but is not GET, HEAD, PUT or DELETE (binary: %x)\n", connection->client_sock, connection->method);
+		free(key);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 	}
 
@@ -126,13 +129,14 @@ static bool http_key_lookup(scache_connection* connection, int n) {
 		connection->cache.target.key.fd = -1;
 	}
 
-	return true;
+	connection->state = 0;
+	return needs_more_read;
 }
 
 static inline state_action http_read_requeststartmethod(scache_connection* connection, char* buffer, int n) {
 	//Check if this is never going to be valid, too long
 	if (n > LONGEST_REQMETHOD) {
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLLONGMETHOD);
 	}
 
@@ -309,11 +313,10 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 	}
 
 	if (*buffer == ' ') {
-		bool temporary = http_key_lookup(connection, n);
+		state_action ret = http_key_lookup(connection, n);
 		RBUF_READMOVE(connection->input, n + 1);
-		connection->state = 0;
 
-		return temporary ? needs_more_read : registered_write;
+		return ret;
 	}
 
 	return continue_processing;
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index d83c5aa..821bf2e 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -63,7 +63,8 @@ static state_action http_write_response_after_eol(scache_connection* connection,
 	CONNECTION_HANDLER(connection, http_handle_eolwritetoend);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
-	connection->state = 0;
+	connection->close_after_write = http_template_closes(http_template);
+	connection->state = 1;
 	return needs_more_read;
 }
 
@@ -71,6 +72,7 @@ static state_action http_write_response(scache_connection* connection, int http_
 	CONNECTION_HANDLER(connection,  http_respond_writeonly);
 	connection->output_buffer = http_templates[http_template];
 	connection->output_length = http_templates_length[http_template];
+	connection->close_after_write = http_template_closes(http_template);
 	connection->state = 0;
 	bool res = connection_register_write(connection);
 	return res?registered_write:close_connection;
@@ -167,7 +169,7 @@ static state_action http_headers_response_count(scache_connection* connection, i
 static inline state_action http_read_requeststartmethod_mon(scache_connection* connection, char* buffer, int n) {
 	//Check if this is never going to be valid, too long
 	if (n > LONGEST_REQMETHOD) {
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLLONGMETHOD);
 	}
 
@@ -242,7 +244,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 
 		DEBUG("[#%d] HTTP 404 Not Found for URL \"%s\" of length %d\n", connection->client_sock, key, n);
 		free(key);
-		return http_write_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
+		return http_headers_response_after_eol(connection, HTTPTEMPLATE_FULL404_PATHNOTFOUND);
 	}
 
 	return continue_processing;
diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index 31d37f9..de958bf 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -167,6 +167,10 @@ state_action http_respond_contentbody(scache_connection* connection) {
 state_action http_respond_writeonly(scache_connection* connection) {
 	assert(connection->epollout && !connection->epollin);
 	DEBUG("[#%d] Sending static response then closing\n", connection->client_sock);
+	if (connection->close_after_write) {
+		return close_connection;
+	}
+
 	//Static response, after witing, read next request
 	http_cleanup(connection);
 	assert(connection->ltype == cache_connection || connection->ltype == mon_connection);
-- 
2.43.0


From 690820f5b97b7c73ef0bd64012b38edb22297c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:39 +0000
Subject: [PATCH 15/34] fix: a URL that ends a read must not move past what was
 read

---
 src/core/http_parse_cache.cpp | 8 ++++----
 src/core/http_parse_mon.cpp   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 063d7ba..ff4122d 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -265,7 +265,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 					//Stats Command
 					DEBUG("[#%d] Request stats\n", connection->client_sock);
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					return http_stats_after_eol(connection);
 				}
 
@@ -275,7 +275,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				connection->cache.target.table.table = db_table_get_read(key, n - 1);
 				connection->cache.target.table.start = 0;
 				connection->cache.target.table.limit = DEFAULT_LISTING_LIMIT;
-				RBUF_READMOVE(connection->input, n + 1);
+				RBUF_READMOVE(connection->input, n);
 
 				//Else request for table/key
 				CONNECTION_HANDLER(connection, http_cache_handle_headers);
@@ -287,7 +287,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 				DEBUG("[#%d] Request admin url: \"%s\" (%d)\n", connection->client_sock, key, n);
 				if(n == 3 && strncmp(key, "gc", n	) == 0){
 					free(key);
-					RBUF_READMOVE(connection->input, n + 1);
+					RBUF_READMOVE(connection->input, n);
 					
 					//GC
 					db_lru_gc();
@@ -296,7 +296,7 @@ static inline state_action http_read_requeststarturl1(scache_connection* connect
 			}
 			
 			free(key);
-			RBUF_READMOVE(connection->input, n + 1);
+			RBUF_READMOVE(connection->input, n);
 			return http_write_response_after_eol(connection, HTTPTEMPLATE_FULLINVALIDMETHOD);
 		}
 	}
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 821bf2e..789206a 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -226,7 +226,7 @@ static inline state_action http_mon_read_requeststarturl(scache_connection* conn
 		char* key = (char*)malloc(sizeof(char) * (n + 1));
 		rbuf_copyn(&connection->input, key, n - 1);
 		key[n - 1] = 0;//Null terminate the key
-		RBUF_READMOVE(connection->input, n + 1);
+		RBUF_READMOVE(connection->input, n);
 
 		if(n == 1){ // URL: "/"
 			free(key);
-- 
2.43.0


From 05f77230e8ebbc0cd3125cea1182423a5cbc280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 16/34] fix: continue a response from where the socket stopped
 taking it

---
 src/core/connection.cpp | 4 ++++
 src/core/http.cpp       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 4605770..a6a8047 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -304,6 +304,9 @@ bool connection_remove(scache_connection* conn) {
 		WARN("connection not found");
 	}
 
+	//Anything that was not written
+	free(conn->output_buffer_free);
+
 	free(conn);
 	close_socket(fd);
 
@@ -719,6 +722,7 @@ void connection_cleanup_http(scache_connection* connection) {
 	connection->epollout = connection->epollin = false;
 
 	//Free up the connection if dynamically allocated
+	free(connection->output_buffer_free);
 	free(connection);
 }
 
diff --git a/src/core/http.cpp b/src/core/http.cpp
index 84da972..ba2437b 100644
--- a/src/core/http.cpp
+++ b/src/core/http.cpp
@@ -122,9 +122,13 @@ state_action http_write_handle(scache_connection* connection) {
 		//Send data
 		int num = write(connection->client_sock, connection->output_buffer, connection->output_length);
 		if (num < 0) {
+			if (errno == EAGAIN || errno == EWOULDBLOCK || errno == EINTR) {
+				return continue_processing;
+			}
 			//TODO: handle error
 			return close_connection;
 		}
+		connection->output_buffer += num;
 		connection->output_length -= num;
 
 		//Check if done
-- 
2.43.0


From 735a9bc1a423f17c1a859d3312d2a18a4f019341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:56 +0000
Subject: [PATCH 17/34] fix: every upload needs exactly one Content-Length

---
 src/core/db.cpp               |  1 +
 src/core/http_parse_cache.cpp | 18 +++++++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 2c7ce7a..caf1b4b 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1114,6 +1114,7 @@ cache_entry* db_entry_get_write(struct db_table* table, char* key, size_t length
 		assert(entry->hash == hash);
 		//If we are currently writing, then it will be mocked
 		if (entry->writing == true) {
+			free(key);
 			return NULL;
 		}
 
diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index ff4122d..8e31cc4 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -126,6 +126,8 @@ static state_action http_key_lookup(scache_connection* connection, int n) {
 			db_table_close(connection->cache.target.table.table);
 		}
 		connection->cache.target.key.entry = NULL;
+		connection->cache.target.key.position = 0;
+		connection->cache.target.key.end_position = 0;
 		connection->cache.target.key.fd = -1;
 	}
 
@@ -322,6 +324,16 @@ static state_action http_read_requeststarturl2(scache_connection* connection, ch
 	return continue_processing;
 }
 
+/*
+The number of bytes in the body of a PUT, as far as known from the headers
+*/
+static uint32_t http_put_length(scache_connection* connection) {
+	if (connection->cache.target.key.entry != NULL) {
+		return connection->cache.target.key.entry->data_length;
+	}
+	return connection->cache.target.key.end_position;
+}
+
 static state_action http_read_headers(scache_connection* connection, char* buffer, int n, uint32_t& temporary) {
 	if (*buffer == ':') {
 		int bytes = buffer - RBUF_READ(connection->input);
@@ -380,7 +392,7 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 			// Router: Entry / Key level
 			if (REQUEST_IS(connection->method, REQUEST_CACHE_LEVELKEY)) {
 				if (REQUEST_IS(connection->method, REQUEST_HTTPPUT)) {
-					if (connection->cache.target.key.entry != NULL && connection->cache.target.key.entry->data_length == 0) {
+					if (http_put_length(connection) == 0) {
 						DEBUG("[#%d] No valid content-length provided for PUT request\n", connection->client_sock);
 						return http_write_response(connection, HTTPTEMPLATE_FULLINVALIDCONTENTLENGTH);
 					}
@@ -467,8 +479,8 @@ static state_action http_read_header_extraction(scache_connection* connection, c
 		case HEADER_CONTENTLENGTH:
 			if (REQUEST_IS(connection->method, REQUEST_HTTPPUT | REQUEST_CACHE_LEVELKEY)) {
 				int content_length;
-				if (!rbuf_strntol(&connection->input, &content_length, length)) {
-					WARN("Invalid Content-Length value provided");
+				if (!rbuf_strntol(&connection->input, &content_length, length) || http_put_length(connection) != 0) {
+					WARN("Invalid (or repeated) Content-Length value provided");
 
 					//This is an INVALID request
 					RBUF_READMOVE(connection->input, n + 1);
-- 
2.43.0


From 5e6cc2f165e103ede6ea75f7b770baa0becff769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 18/34] fix: a stuck monitoring connection is closed once, and
 input while streaming dropped

---
 src/core/http_parse.cpp     |  3 +--
 src/core/http_parse_mon.cpp | 36 ++++++++++++++++++++----------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/core/http_parse.cpp b/src/core/http_parse.cpp
index c1389ee..daf73ba 100644
--- a/src/core/http_parse.cpp
+++ b/src/core/http_parse.cpp
@@ -98,8 +98,7 @@ state_action http_handle_eolwritetoend(scache_connection* connection) {
 }
 
 state_action http_discard_input(scache_connection* connection) {
-	//todo discard from readbuffer
 	connection_register_read(connection);
-	rbuf_read_to_end(&connection->input);
+	RBUF_READMOVE(connection->input, rbuf_read_remaining(&connection->input));
 	return continue_processing;
 }
\ No newline at end of file
diff --git a/src/core/http_parse_mon.cpp b/src/core/http_parse_mon.cpp
index 789206a..16d5060 100644
--- a/src/core/http_parse_mon.cpp
+++ b/src/core/http_parse_mon.cpp
@@ -381,7 +381,7 @@ void monitoring_destroy(scache_connection* connection){
 
 		if(mon_pending_tail == connection){
 			assert(connection->monitoring.next == NULL);
-			mon_tail = connection->monitoring.prev;
+			mon_pending_tail = connection->monitoring.prev;
 			if(mon_pending_head == NULL){
 				assert(mon_pending_tail == NULL);
 				// early exit we remvoed from both ends
@@ -459,9 +459,19 @@ bool monitoing_needs_to_run(){
 	return true;
 }
 
+/*
+Take the connection off its list and shut it down. There may be events left to handle for it, it is
+closed (and freed) by the event loop.
+*/
+static void monitoring_disconnect(scache_connection* conn){
+	monitoring_destroy(conn);
+	conn->monitoring.next = conn->monitoring.prev = NULL;
+	conn->is_writing = false;
+	shutdown(conn->client_sock, SHUT_RDWR);
+}
+
 void monitoring_check(){
 	scache_connection* conn;
-	int fd;
 	timeval current_time_copy = *(timeval*)&current_time;
 
 	// Every 5ms we will work down any nodes in mon_head that need to be notified
@@ -471,22 +481,19 @@ void monitoring_check(){
 
 		// Not yet time
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
-		
-		// move on
-		mon_head = conn->monitoring.next;
-		assert(conn != mon_head);
-		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
 
 		// If buffer wasnt cleared already, then we will need to disconnect
 		if(conn->output_buffer != NULL){
-			fd = conn->client_sock;
-			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", fd);
-			http_cleanup(conn);
-			connection_remove(conn);
-			close_socket(fd);
+			DEBUG("Failed to output buffer to monitoring connection, will close fd %d\n", conn->client_sock);
+			monitoring_disconnect(conn);
 			continue;
 		}
 
+		// move on
+		mon_head = conn->monitoring.next;
+		assert(conn != mon_head);
+		if(mon_head != NULL) mon_head->monitoring.prev = NULL;
+
 		// Move to end (tail)
 		if(mon_tail != conn){
 			mon_tail->monitoring.next = conn;
@@ -518,10 +525,7 @@ void monitoring_check(){
 		conn = mon_pending_tail;
 		if(timercmp(&conn->monitoring.scheduled, &current_time_copy, >)) break;
 
-		fd = conn->client_sock;		
-		http_cleanup(conn);
-		connection_remove(conn);
-		close_socket(fd);
+		monitoring_disconnect(conn);
 
 		assert(conn != mon_pending_tail);
 	}
-- 
2.43.0


From 0c4cea1b397d4c673b7b37dd64c32288e959342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:51 +0000
Subject: [PATCH 19/34] fix: collect on SIGUSR1 from the event loop, and notice
 any end of the flush child

---
 src/core/connection.cpp |  8 +++++---
 src/core/db.cpp         | 13 ++++++-------
 src/core/timer.cpp      |  4 +++-
 src/core/timer.h        |  1 +
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index a6a8047..35eae76 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -30,10 +30,8 @@
 #include "debug.h"
 #include "http.h"
 #include "settings.h"
-#ifdef DEBUG_BUILD
-/* For reference counting checks */
+#include "timer.h"
 #include "db.h"
-#endif
 
 /* Globals */
 listener_collection scache_listeners = { .listeners = NULL, .listener_count = 0 };
@@ -535,6 +533,10 @@ void connection_event_loop(void (*connection_handler)(scache_connection* connect
 		// Tight epoll wait loop
 		int nfds = 0;
 		do {
+			if(gc_requested){
+				gc_requested = 0;
+				db_lru_gc();
+			}
 			nfds = epoll_wait(epfd, events, NUM_EVENTS, 500);
 			if(nfds == -1){
 				if(errno == EINTR){
diff --git a/src/core/db.cpp b/src/core/db.cpp
index caf1b4b..14f0f8f 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -30,6 +30,7 @@ LRU
 #include <stdlib.h>
 #include <sys/wait.h>
 #include <unistd.h>
+#include <errno.h>
 #include <assert.h>
 #include "db.h"
 #include "debug.h"
@@ -424,13 +425,11 @@ bool db_expire_cursor() {
 static bool currently_flushing(int flags){
 	if(current_flush == 0) return false;
 	int status, w;
-	w = waitpid(current_flush, &status, flags);
-	if (w) {
-		if (WIFEXITED(status)) {
-			current_flush = 0;
-			return false;
-		}
-	} else if(w == -1) {
+	do {
+		w = waitpid(current_flush, &status, flags);
+	} while (w == -1 && errno == EINTR);
+	//Either it has exited just now, or it was reaped before
+	if (w != 0) {
 		current_flush = 0;
 		return false;
 	}
diff --git a/src/core/timer.cpp b/src/core/timer.cpp
index 5c833df..958ebc0 100644
--- a/src/core/timer.cpp
+++ b/src/core/timer.cpp
@@ -12,6 +12,7 @@
 #include "debug.h"
 
 volatile struct timeval current_time;
+volatile sig_atomic_t gc_requested = 0;
 static int mon_fd;
 
 static void timer_store_current_time()
@@ -55,7 +56,8 @@ static void child_handler(int signum)
 
 static void flush_handler(int signum)
 {
-	db_lru_gc();
+	// run by the event loop, the signal may interrupt it anywhere
+	gc_requested = 1;
 }
 
 void timer_setup(int evfd)
diff --git a/src/core/timer.h b/src/core/timer.h
index 4f720d5..4cf55a7 100644
--- a/src/core/timer.h
+++ b/src/core/timer.h
@@ -1,4 +1,5 @@
 volatile extern struct timeval current_time;
+volatile extern sig_atomic_t gc_requested;
 
 void timer_setup(int evfd);
 void timer_cleanup();
\ No newline at end of file
-- 
2.43.0


From e964aa33141fea61a0e375f183454c5eda1b010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:03 +0000
Subject: [PATCH 20/34] fix: deleting a table that has no keys yet must not
 drop the reference of its creator

---
 src/core/db.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 14f0f8f..948ccf3 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -1255,6 +1255,11 @@ void db_table_handle_delete(db_table* table, khiter_t k) {
 	assert(!table->deleted);
 	table->deleted = true;
 
+	//Only a table with keys has the reference released below
+	if (kh_size(table->cache_hash_set) == 0) {
+		db_table_incref(table);
+	}
+
 	//Delete keys from table
 	for (khiter_t ke = kh_begin(table->cache_hash_set); ke != kh_end(table->cache_hash_set); ++ke) {
 		if (kh_exist(table->cache_hash_set, ke)) {
-- 
2.43.0


From 4ec2bb515e1b8196a32c9868266f685a635a6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 21/34] fix: a value in a block must be copied to the socket,
 the block can be reused before it is read

---
 src/core/http_respond.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/http_respond.cpp b/src/core/http_respond.cpp
index de958bf..c662753 100644
--- a/src/core/http_respond.cpp
+++ b/src/core/http_respond.cpp
@@ -136,7 +136,19 @@ state_action http_respond_contentbody(scache_connection* connection) {
 	assert(temp >= 0);
 	if (temp != 0) {
 		off_t pos = connection->cache.target.key.position;
-		ssize_t bytes_sent = sendfile64(fd, connection->cache.target.key.fd, &pos, temp);
+		ssize_t bytes_sent;
+		if (IS_SINGLE_FILE(connection->cache.target.key.entry)) {
+			bytes_sent = sendfile64(fd, connection->cache.target.key.fd, &pos, temp);
+		}
+		else {
+			//The socket must not go on referring to the block, it can be reused before the client has read it
+			char buffer[BLOCK_LENGTH];
+			assert(temp <= sizeof(buffer));
+			bytes_sent = pread(connection->cache.target.key.fd, buffer, temp, pos);
+			if (bytes_sent > 0) {
+				bytes_sent = write(fd, buffer, bytes_sent);
+			}
+		}
 		if (bytes_sent == 0) {
 			DEBUG("[#%d] EOF Reached\r\n", fd);
 			return close_connection;
-- 
2.43.0


From eafd6421e39bce2bb33246ecfa3de9358a49fafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 22/34] fix: a save or a start must not use an incomplete copy
 of the block file

---
 src/core/db.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 948ccf3..76cd422 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -341,8 +341,9 @@ void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %ld bytes, %ld bytes remaining\n", (long)debug_bytes, (long)*bytes_to_remove);
 }
 
-static void force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
+static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
 	char buffer[8096];
+	struct stat st_from, st_to;
 	//TODO: reflink
 	/*int ret = link(fileThatExists, fileThatDoesNotExist);
 	char buffer[8096];
@@ -353,6 +354,9 @@ static void force_link(const char* fileThatExists, const char* fileThatDoesNotEx
 		printf("Executing %s\n", buffer);
 		system(buffer);
 	//}
+
+	//The exit status may be lost to the SIGCHLD handler, what matters is a complete copy
+	return stat(fileThatExists, &st_from) == 0 && stat(fileThatDoesNotExist, &st_to) == 0 && st_from.st_size == st_to.st_size;
 }
 
 static int db_expire_cursor_table(db_table* table) {
@@ -737,7 +741,9 @@ static bool db_load_from_save(){
 	// move over block file (via link to preserve save)
 	snprintf(buffer, sizeof(buffer), "%s/blockfile.db.save", db.path_root);
 	unlink(db.path_blockfile);
-	force_link(buffer, db.path_blockfile);
+	if(!force_link(buffer, db.path_blockfile)){
+		PFATAL("Unable to copy saved block file %s", buffer);
+	}
 
 	ret = true;
 close_fd:
@@ -1451,7 +1457,11 @@ static pid_t db_index_flush(bool copyOnWrite){
 	fdatasync(db.fd_blockfile);
 
 	// create a hard link from the currentl block file to ${blockfile}.temp
-	force_link(db.path_blockfile, buffer);
+	if(!force_link(db.path_blockfile, buffer)){
+		PWARN("Unable to flush index, unable to copy block file");
+		unlink(buffer);
+		return 0;
+	}
 
 	//If we are forking we can do so now
 	if(copyOnWrite){
-- 
2.43.0


From 4e4ee2dedb78f3cb13e3f41259a710ee50001720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 23/34] fix: closing a connection must not wait for a process
 writing a save

---
 src/core/connection.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 35eae76..7c3916f 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -450,6 +450,8 @@ end:
 
 void close_socket(int fd){
 	epoll_ctl(epfd, EPOLL_CTL_DEL, fd, NULL);
+	//A process writing a save may hold the socket too, the client must not wait for it
+	shutdown(fd, SHUT_RDWR);
 	close_fd(fd, "socket");
 }
 
-- 
2.43.0


From 898a5456f6993dccb7ec308eecefa0b3d66afebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 24/34] fix: a value in the last, incomplete block of the block
 file was lost by a restart

---
 src/core/db.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 76cd422..caccf12 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -655,7 +655,8 @@ static bool db_load_from_save(){
 		return ret;
 	}
 	off64_t size = lseek64(db.fd_blockfile, 0L, SEEK_END);
-	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
+	//The last block may be shorter (if the file could not be extended)
+	db.blocks_exist = (uint32_t)((size + BLOCK_LENGTH - 1) / BLOCK_LENGTH);
 
 	FILE* fp = fdopen(fd, "r");
 	if(fp == NULL){
@@ -796,7 +797,7 @@ bool db_open(const char* path) {
 			PFATAL("Failed to completely truncate blockfile %s", db.path_blockfile);
 		}
 	}
-	db.blocks_exist = (uint32_t)(size / BLOCK_LENGTH);
+	db.blocks_exist = (uint32_t)(will_black ? size / BLOCK_LENGTH : (size + BLOCK_LENGTH - 1) / BLOCK_LENGTH);
 	lseek64(db.fd_blockfile, 0L, SEEK_SET);
 
 	// Mark all blocks that already exist in the block file as non-allocated
-- 
2.43.0


From b45e11ea0d0bc949139617040b668fabcec25e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 25/34] fix: a block beyond the end of the block file must not
 be free

---
 src/core/db.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index caccf12..8c7fed6 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -815,6 +815,7 @@ bool db_open(const char* path) {
 			if(ftruncate(db.fd_blockfile, (size / BLOCK_LENGTH) * BLOCK_LENGTH) == -1){
 				PFATAL("Failed to truncate blockfile %s", db.path_blockfile);
 			}
+			size -= size % BLOCK_LENGTH;
 		}
 		for (off64_t i = 0; i < size; i += BLOCK_LENGTH) {
 			db_block_free((uint32_t)(i / BLOCK_LENGTH));
-- 
2.43.0


From 50a9c17dd28a023ef02490a13a29a43472d55318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 26/34] fix: a header line with nothing but colons must not end
 the headers

---
 src/core/http_parse_cache.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/http_parse_cache.cpp b/src/core/http_parse_cache.cpp
index 8e31cc4..d300782 100644
--- a/src/core/http_parse_cache.cpp
+++ b/src/core/http_parse_cache.cpp
@@ -383,6 +383,9 @@ static state_action http_read_headers(scache_connection* connection, char* buffe
 				return needs_more_read;
 			}
 		}
+
+		//Not a header of interest, but also not an empty line
+		temporary = 0;
 	}
 	else if (*buffer == '\n') {
 		RBUF_READMOVE(connection->input, n + 1);
-- 
2.43.0


From 8a881f2efbc5834cd3555b16429a22788f314e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 27/34] fix: a file name skipped because a file is left from a
 crash must not be given twice

---
 src/core/db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 8c7fed6..8f4d58b 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -847,7 +847,7 @@ int db_entry_open_create(struct cache_entry* e) {
 		}
 		// This will rollover -- and that's expected
 		// it ensures safety after saving
-		e->it++;
+		e->it = nextit++;
 	}
 	
 	return -1;
-- 
2.43.0


From b5fca23434fb80799e62057081ae4fb122f08ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 28/34] fix: the pid file of a daemon must hold its pid

---
 src/server/scache.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server/scache.cpp b/src/server/scache.cpp
index 6f1abc8..6e54494 100644
--- a/src/server/scache.cpp
+++ b/src/server/scache.cpp
@@ -103,6 +103,7 @@ static __pid_t fork_off() {
 		if (chdir("/")) PFATAL("chdir('/') failed.");
 
 		setsid();
+		npid = getpid();
 	}
 	else {
 
-- 
2.43.0


From 5d6a778b51ef2a8861bf91272119b4f493330185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 29/34] fix: signal handlers must not change errno of the
 interrupted code

---
 src/core/timer.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/core/timer.cpp b/src/core/timer.cpp
index 958ebc0..974a16e 100644
--- a/src/core/timer.cpp
+++ b/src/core/timer.cpp
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <signal.h>
 #include <stdio.h>
 #include <string.h>
@@ -30,6 +31,7 @@ static void timer_store_current_time()
 static void timer_handler(int signum)
 {
 	uint64_t u = 1;
+	int saved_errno = errno;
 
 	// time accurate to the nearest 5ms
 	timer_store_current_time();
@@ -38,20 +40,27 @@ static void timer_handler(int signum)
 	if(monitoing_needs_to_run()){
 		write(mon_fd, &u, sizeof(u));
 	}	
+
+	// the interrupted code may be about to look at it
+	errno = saved_errno;
 }
 
 static void child_handler(int signum)
 {
 	int wstat;
 	pid_t	pid;
+	int saved_errno = errno;
 
 	while (true) {
 		pid = waitpid (-1, &wstat, WNOHANG );
 		if (pid <= 0)
-			return;
+			break;
 			
 		db_handle_sigchld(pid);
 	}
+
+	// the interrupted code may be about to look at it
+	errno = saved_errno;
 }
 
 static void flush_handler(int signum)
-- 
2.43.0


From 1374d547e2294d066aaa8cf6cfe48a401423c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 30/34] fix: names that differ only after a NUL byte must not
 be taken for each other when their hashes are equal

---
 src/core/db.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 8f4d58b..4c570c6 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -935,14 +935,14 @@ cache_entry* db_entry_get_read(struct db_table* table, char* key, size_t length)
 
 	assert(!entry->deleted);
 
-	if (entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry->key_length != length) {
 			DEBUG("DB Key length does not match\n");
 		}
 		else{
-			if (strncmp(key, entry->key, length) != 0) {
+			if (memcmp(key, entry->key, length) != 0) {
 				DEBUG("String Keys dont match\n");
 			}
 		}
@@ -987,7 +987,7 @@ static db_table* db_table_find(const char* name, int length) {
 		assert(table != NULL);
 		assert(table->hash == hash + probe);
 
-		if (table->key_length == length && strncmp(table->key, name, length) == 0) {
+		if (table->key_length == length && memcmp(table->key, name, length) == 0) {
 			return table;
 		}
 	}
@@ -1176,7 +1176,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 	khiter_t k = kh_get(entry, table->cache_hash_set, hash);
 	cache_entry* entry = k == kh_end(table->cache_hash_set) ? NULL : kh_value(table->cache_hash_set, k);
 
-	if (entry == NULL || entry->key_length != length || strncmp(key, entry->key, length) != 0) {
+	if (entry == NULL || entry->key_length != length || memcmp(key, entry->key, length) != 0) {
 		DEBUG("[#] Unable to look up key: ");
 
 		if (entry == NULL) {
@@ -1187,7 +1187,7 @@ cache_entry* db_entry_get_delete(struct db_table* table, char* key, size_t lengt
 				DEBUG("DB Key length does not match\n");
 			}
 			else{
-				if (strncmp(key, entry->key, length)) {
+				if (memcmp(key, entry->key, length)) {
 					DEBUG("String Keys dont match\n");
 				}
 			}
-- 
2.43.0


From bde7565ec809ae5db0ef6f4322922f87bfbb992f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:38 +0000
Subject: [PATCH 31/34] fix: more clients than descriptors must not end the
 server

---
 src/core/connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/connection.cpp b/src/core/connection.cpp
index 7c3916f..420a2a1 100644
--- a/src/core/connection.cpp
+++ b/src/core/connection.cpp
@@ -381,7 +381,9 @@ static void* connection_handle_accept(void *arg)
 						if(errno == ENOTSOCK){
 							PFATAL("[#] accept() failed on fd %d of type %s", fd, connection_type_string(our_type));
 						} else if(errno == EMFILE){
-							PFATAL("[#] accept() too many open files on fd %d of type %s", fd, connection_type_string(our_type));
+							//The client stays in the backlog until a descriptor is free
+							PWARN("[#] accept() too many open files on fd %d of type %s", fd, connection_type_string(our_type));
+							usleep(10000);
 						} else {
 							WARN("[#] accept() failed on fd %d of type %s. Error: %s", fd, connection_type_string(our_type), strerror(errno));
 						}
-- 
2.43.0


From 4ba5f5315776f8bdc8e1608181b78c6dd00006c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:24 +0000
Subject: [PATCH 32/34] fix: the numbers in the names of files must not repeat
 while a save refers to them

They were kept in 16 bits: 65536 uploads after a save, the file of a value that
was replaced since could be created again under the name that the save has for
the old value, and after a crash the old entry was served from the new file.
---
 src/core/db.cpp          | 6 +++---
 src/core/db_structures.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index 4c570c6..c3cd425 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -72,7 +72,7 @@ static pid_t db_index_flush(bool copyOnWrite = true);
 
 //Buffers
 static char filename_buffer[MAX_PATH];
-static uint16_t nextit = 0;
+static uint32_t nextit = 0;
 
 //The furthest any table was ever stored from the hash of its name (due to collisions)
 static uint32_t table_max_probe = 0;
@@ -539,7 +539,7 @@ static uint32_t hash_string(const char* str, int length) {
 }
 
 static void get_key_path(cache_entry* e, char* out) {
-	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%d", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), hash_string(e->table->key, e->table->key_length), e->hash, e->it);
+	snprintf(out, MAX_PATH, "%s%c%c/%x%x_%u", db.path_single, DEC2ALPH(e->hash), DEC2ALPH(e->hash >> 8), hash_string(e->table->key, e->table->key_length), e->hash, e->it);
 }
 
 
@@ -582,7 +582,7 @@ static void db_load_from_save_insert(db_table* table, cache_entry* entry){
 	db.db_size_bytes += entry->data_length;
 }
 
-static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t length, int32_t block, uint32_t data_length, time_t expires, uint16_t it){
+static cache_entry* db_load_from_save_entry(db_table* table, char* key, uint16_t length, int32_t block, uint32_t data_length, time_t expires, uint32_t it){
 	assert(table->refs >= 1); //If not, it wouldnt be existing
 
 	uint32_t hash = hash_string(key, length);
diff --git a/src/core/db_structures.h b/src/core/db_structures.h
index df13efe..881ffa3 100644
--- a/src/core/db_structures.h
+++ b/src/core/db_structures.h
@@ -22,7 +22,7 @@ struct cache_entry
 	__time_t expires;
 	struct cache_entry* lru_next;
 	struct cache_entry* lru_prev;
-	uint16_t it;
+	uint32_t it;
 #ifdef DEBUG_BUILD
 	bool lru_found : 1;
 	bool lru_removed : 1;
-- 
2.43.0


From 16188d255df09a0e208bbee8351c0fcc33988b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:03 +0000
Subject: [PATCH 33/34] fix: a save must work whatever the name of its
 directory

The paths went into the command of cp as they are: with a space or another
character that the shell takes for itself no save was made, and keys were lost.
---
 src/core/db.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/core/db.cpp b/src/core/db.cpp
index c3cd425..a0653c6 100644
--- a/src/core/db.cpp
+++ b/src/core/db.cpp
@@ -341,8 +341,24 @@ void db_lru_cleanup_percent(int64_t* bytes_to_remove) {
 	DEBUG("[#] LRU attempted to remove %ld bytes, %ld bytes remaining\n", (long)debug_bytes, (long)*bytes_to_remove);
 }
 
+/*
+Append a path to a command, quoted so that the shell takes it as it is
+*/
+static void append_quoted(char* command, const char* path){
+	command += strlen(command);
+	*command++ = '\'';
+	for(; *path; path++){
+		if(*path == '\''){
+			memcpy(command, "'\\'", 3);
+			command += 3;
+		}
+		*command++ = *path;
+	}
+	strcpy(command, "'");
+}
+
 static bool force_link(const char* fileThatExists, const char* fileThatDoesNotExist){
-	char buffer[8096];
+	char buffer[MAX_PATH * 8 + 16];
 	struct stat st_from, st_to;
 	//TODO: reflink
 	/*int ret = link(fileThatExists, fileThatDoesNotExist);
@@ -350,7 +366,10 @@ static bool force_link(const char* fileThatExists, const char* fileThatDoesNotEx
 	if(ret != 0){
 		PWARN("Unable to hard link");*/
 		//Really bad! Temporary.
-		snprintf(buffer, sizeof(buffer), "cp %s %s", fileThatExists, fileThatDoesNotExist);
+		strcpy(buffer, "cp -- ");
+		append_quoted(buffer, fileThatExists);
+		strcat(buffer, " ");
+		append_quoted(buffer, fileThatDoesNotExist);
 		printf("Executing %s\n", buffer);
 		system(buffer);
 	//}
-- 
2.43.0


From 291e18d6727ef991788da4ebf059d2130c4d3c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:16 +0000
Subject: [PATCH 34/34] fix: listen only on what -b and -B say, IPv6 addresses
 among them

---
 src/core/settings.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/core/settings.cpp b/src/core/settings.cpp
index 11263ed..430c933 100644
--- a/src/core/settings.cpp
+++ b/src/core/settings.cpp
@@ -109,11 +109,18 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			}
 		case bind_parse_state::ipv6:
 		case bind_parse_state::ipv4:
-			if (optarg[i] == ':')
+			if (optarg[i] == 0 || optarg[i] == ',')
+			{
+				FATAL("No port in bind address %s", optarg_const);
+			}
+			if (optarg[i] == (state == bind_parse_state::ipv6 ? ']' : ':'))
 			{
 				optarg[i] = 0;
-				if (inet_pton(current->af, optarg + state_start, current->addr) < 0) {
-					PFATAL("Error parsing bind address");
+				if (inet_pton(current->af, optarg + state_start, current->addr) != 1) {
+					FATAL("Error parsing bind address %s", optarg_const);
+				}
+				if (state == bind_parse_state::ipv6 && optarg[++i] != ':') {
+					FATAL("No port in bind address %s", optarg_const);
 				}
 				state = bind_parse_state::port;
 				state_start = i + 1;
@@ -122,6 +129,9 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 		case bind_parse_state::unix_path:
 			if (optarg[i] == 0 || optarg[i] == ',')
 			{
+				if (i == state_start || i - state_start >= (int)sizeof(((struct sockaddr_un*)0)->sun_path)) {
+					FATAL("Bad path in bind address %s", optarg_const);
+				}
 				memcpy(current->addr, optarg + state_start, i - state_start);
 				current->port = 0;
 				if (optarg[i] == ',')
@@ -140,6 +150,10 @@ static void parse_binds(const char* optarg_const, scache_binds* target)
 			{
 				optarg[current->transparent ? (i - 1) : i] = 0;
 				current->port = atoi(optarg + state_start);
+				if (optarg[state_start + strspn(optarg + state_start, "0123456789")] != 0 || optarg[state_start] == 0
+					|| strlen(optarg + state_start) > 5 || current->port > 65535) {
+					FATAL("Bad port in bind address %s", optarg_const);
+				}
 				if (copy == ',')
 				{
 					current++;
-- 
2.43.0

