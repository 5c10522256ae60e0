From 9bba12b01d916de8e2b43745abe939c59766c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 01/18] fix: keep the previous value of a key when its update
 cannot be written

The previous index entry was flagged deleted (on disk and in memory) and
overwritten in memory before the new entry was appended: a failed append
lost the previous value. Append first.
---
 libzdb/index_set.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..3aa3aed 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -302,24 +302,24 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
-
-    // update memory state
-    index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
-
-    index_set_t updated = {
-        .entry = entry,
-        .id = set->id,
-    };
+    // the new entry is linked to the previous one, in order
+    // to keep track of the history
+    set->entry->flags = 0;
+    set->entry->parentid = previous->indexid;
+    set->entry->parentoff = previous->idxoffset;
 
-    // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
+    // append the data on the disk, before touching the previous entry:
+    // if this write fails, the previous value needs to stay available
+    if(index_append_entry_on_disk(root, set)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
         return NULL;
     }
 
-    return entry;
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    index_entry_delete_disk(root, previous);
+
+    // update memory state
+    return index_update_memory_handler_memkey(root, set, previous);
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-- 
2.43.0


From cea8d1c87b1c3314c5ea93612371a9f9fe4e5e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:38 +0000
Subject: [PATCH 02/18] fix: write the data file number in the index records of
 keys

The on-disk index record of an inserted key always said data file 0, so
HISTORY (and sequential reads of the library API) looked in the wrong file
once the data moved on to another file.
---
 libzdb/api.c        | 2 ++
 zdbd/commands_set.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..382dda3 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From 322c10f2ee22bc0f1759a1979852ee80ca047790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 03/18] fix: never resolve an out of range sequential key to
 the entry of another key

---
 libzdb/index_get.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..b36de88 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -28,8 +28,15 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     index_seqmap_t *seqmap = index_fileid_from_seq(index, key);
 
     // resolving relative offset
-    uint32_t relative = key - seqmap->seqid;
-    uint32_t offset = index_seq_offset(relative);
+    uint64_t relative = key - seqmap->seqid;
+    uint64_t offset = index_seq_offset(relative);
+
+    // key out of range: index offsets are 32 bits wide, anything
+    // further would be resolved to the entry of another key
+    if(key < seqmap->seqid || relative > UINT32_MAX || offset > UINT32_MAX) {
+        zdb_debug("[-] index: sequential get: key out of range\n");
+        return NULL;
+    }
 
     // reading index on disk
     index_item_t *item;
-- 
2.43.0


From db8a6c0bfd73d722d9b777bf9b8fbaa9e8f63011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 04/18] fix: keep a key available when flagging it deleted on
 disk fails

---
 libzdb/index.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..fd2b13d 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -539,10 +539,6 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // compute this object size on disk
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
-    // mark entry as deleted
-    // this affect the memory object (runtime)
-    entry->flags |= INDEX_ENTRY_DELETED;
-
     // (re-)open the expected index file, in read-write mode
     if((fd = index_open_file_readwrite(root, entry->indexid)) < 0)
         return 1;
@@ -561,7 +557,7 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     index_item_header_dump(index_transition);
 
     // update the flags
-    index_transition->flags = entry->flags;
+    index_transition->flags = entry->flags | INDEX_ENTRY_DELETED;
 
     // rollback to point to the entry again
     zdb_debug("[+] index: delete: overwriting key\n");
@@ -582,6 +578,12 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
 
     close(fd);
 
+    // mark entry as deleted
+    // this affect the memory object (runtime), it's done only now because
+    // if something failed before, the key is still there and needs to
+    // stay available
+    entry->flags |= INDEX_ENTRY_DELETED;
+
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, entry->indexid, 1);
 
-- 
2.43.0


From 2d0af273ad1235072f252a5c6c573ad15006f8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 05/18] fix: report an update of a sequential key which could
 not be written

---
 libzdb/index_set.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 3aa3aed..be01b31 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -340,16 +340,20 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
         return NULL;
     }
 
+    // since we added a new entry on the index, the next id needs
+    // to be incremented to skip this position in the futur
+    root->nextid += 1;
+    root->nextentry += 1;
+
     // overwrite original object
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
 
-    // since we added a new entry on the index, the next id needs
-    // to be incremented to skip this position in the futur
-    root->nextid += 1;
-    root->nextentry += 1;
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite on disk\n");
+        return NULL;
+    }
 
     // update statistics
     root->stats.datasize -= previous->length;
-- 
2.43.0


From 90225ae07c0e6296bb6a9dd96f4898d28f9cdab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:53 +0000
Subject: [PATCH 06/18] fix: drop the partially written entry when an append
 fails

---
 libzdb/data.c      | 10 ++++++++++
 libzdb/index_set.c | 11 ++++++++---
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 7e7aac3..c21a995 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -589,6 +589,14 @@ int data_check(data_root_t *root, size_t offset, fileid_t dataid) {
 
 
 
+// drop what was partially written by a failed insertion
+// a truncated entry would hide all the next ones when
+// reading the datafile sequentially
+static void data_insert_rollback(data_root_t *root, size_t offset) {
+    if(ftruncate(root->datafd, offset) < 0)
+        zdb_warnp("data: insert rollback: ftruncate");
+}
+
 // insert data to the datafile and return it's offset
 // size_t data_insert(data_root_t *root, unsigned char *data, uint32_t datalength, void *vid, uint8_t idlength, uint8_t flags, uint32_t crc) {
 size_t data_insert(data_root_t *root, data_request_t *source) {
@@ -614,6 +622,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, header, headerlength, 0, root)) {
         zdb_verbose("[-] data header: write failed\n");
+        data_insert_rollback(root, offset);
         free(header);
         return 0;
     }
@@ -622,6 +631,7 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
 
     if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {
         zdb_verbose("[-] data payload: write failed\n");
+        data_insert_rollback(root, offset);
         return 0;
     }
 
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index be01b31..f540b24 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -147,19 +147,24 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
 
     index_item_t *item = index_item_from_set(root, set);
 
-    // updating global previous
-    root->previous = curoffset;
-
     // writing data on the disk
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
 
+        // dropping what was partially written, a truncated entry would
+        // make all the next ones unreadable
+        if(ftruncate(root->indexfd, curoffset) < 0)
+            zdb_warnp("index_append_entry_on_disk: ftruncate");
+
         // it's easier to flag the entry as deleted than
         // removing it from the list
         entry->flags |= INDEX_ENTRY_DELETED;
         return 1;
     }
 
+    // updating global previous
+    root->previous = curoffset;
+
     return 0;
 }
 
-- 
2.43.0


From 05887bff5fd5f77c284f6aadf6fd5015eeec3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:25 +0000
Subject: [PATCH 07/18] fix: map each sequential id to the only index file
 which holds it

---
 libzdb/index_loader.c | 25 ++++++++++++-------------
 libzdb/index_seq.c    |  7 +++++++
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..0a1520d 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,7 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
 
     // reading the index, populating memory
     //
@@ -314,6 +313,17 @@ static size_t index_load_file(index_root_t *root) {
     // this file, starting from zero
     root->nextid = 0;
 
+    // checking if we are in sequential mode, we need to populate
+    // our mapping with the first key of this file (even if the file
+    // is empty, the next key inserted will be stored there)
+    //
+    // the set operation will update 'nextentry' counter
+    // we need to update seqid before inserting key
+    if(root->seqid) {
+        index_seqid_push(root, root->nextentry, root->indexid);
+        // index_seqid_dump(root);
+    }
+
     while(seeker < filebuf + fullsize) {
         index_entry_t *fresh = NULL;
 
@@ -337,17 +347,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..3c892f4 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,13 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // the previous file doesn't contain any entry, this id will be
+    // stored on the new file, each id needs to be mapped to a single file
+    if(root->seqid->length > 0 && root->seqid->seqmap[root->seqid->length - 1].seqid == id) {
+        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;
+        return;
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From 372e01a9bdf7bf846892eb0bdab3b14f06c7534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:36 +0000
Subject: [PATCH 08/18] fix: discard an incomplete last entry when loading an
 index file

---
 libzdb/index_loader.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 0a1520d..d740c66 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -329,6 +329,19 @@ static size_t index_load_file(index_root_t *root) {
 
         entry = (index_item_t *) seeker;
         off_t offset = seeker - filebuf;
+        size_t remain = fullsize - offset;
+
+        // the last entry can be incomplete if we were interrupted while
+        // writing it, that write was never confirmed, dropping it: next entries
+        // needs to be appended after the last complete entry
+        if(remain < sizeof(index_item_t) || remain < sizeof(index_item_t) + entry->idlength) {
+            zdb_danger("[-] %s: last entry incomplete, discarding it", root->indexfile);
+
+            if(!(root->status & INDEX_READ_ONLY) && ftruncate(root->indexfd, offset) < 0)
+                zdb_warnp("index: loader: ftruncate");
+
+            break;
+        }
 
         // create a gateway struct to fill our index memory
         // this is not nice (lot of copy) but make things more
-- 
2.43.0


From c25ee2a0410f2d30d678c99cb6ba53680c4605b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 09/18] fix: write the header of an index file found empty
 before using it

---
 libzdb/index_loader.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index d740c66..ba3a763 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -215,10 +215,11 @@ static size_t index_load_file(index_root_t *root) {
         // we could not read anything, which basicly means that
         // the file is empty, we probably just created it
         //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
-        // this is the initial index file we need to create
-        if(root->indexid > 0) {
+        // if the current indexid is not zero, we were probably interrupted
+        // while jumping to this new file, this will be the active file and
+        // entries can't be appended before the header, otherwise if index is
+        // zero, this is the initial index file we need to create
+        if(root->indexid > 0 && root->status & INDEX_READ_ONLY) {
             zdb_verbose("[+] index: discarding file\n");
             close(root->indexfd);
             return 0;
-- 
2.43.0


From 8032ee9ad076a5ffa6441ff949ccb40dfa902588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:52 +0000
Subject: [PATCH 10/18] fix: compare the whole password sent by the client

---
 zdbd/auth.c               |  6 ++----
 zdbd/commands_namespace.c | 12 ++++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/zdbd/auth.c b/zdbd/auth.c
index 0d4b947..587471d 100644
--- a/zdbd/auth.c
+++ b/zdbd/auth.c
@@ -8,10 +8,8 @@
 // check if user input (buffer with buffer length)
 // does match with expected password string, unified way
 int zdbd_password_check(char *input, int length, char *expected) {
-    char password[192];
-    sprintf(password, "%.*s", length, input);
-
-    if(strcmp(password, expected) == 0) {
+    // input is not a string, compare everything the user sent
+    if(length >= 0 && (size_t) length == strlen(expected) && memcmp(input, expected, length) == 0) {
         zdbd_debug("[+] password: access granted\n");
         return 1;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..79e1246 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -162,19 +162,15 @@ int command_select(redis_client_t *client) {
 
             // SELECT namespace password
             if(request->argc == 3) {
-                char password[256];
-
-                if(request->argv[2]->length > (ssize_t) sizeof(password) - 1) {
+                if(request->argv[2]->length > 255) {
                     redis_hardsend(client, "-Password too long");
                     return 1;
                 }
 
-                // copy password to a temporary variable
-                // to check password match using strcmp and no any strncmp
-                // to ensure we check exact password
-                sprintf(password, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
+                // ensure we check exact password
+                resp_object_t *user = request->argv[2];
 
-                if(strcmp(password, namespace->password) != 0) {
+                if(zdbd_password_check(user->buffer, user->length, namespace->password) == 0) {
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
-- 
2.43.0


From d227c6a7bdc19256b8079ea7fb02600118ad987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 11/18] fix: a challenge can be used only one time with SELECT

---
 zdbd/commands_namespace.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 79e1246..ba3caa5 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -210,8 +210,13 @@ int command_select(redis_client_t *client) {
                 zdbd_debug("[+] namespace: auth: expected hash: %s\n", expected);
 
                 resp_object_t *user = request->argv[3];
+                int granted = zdbd_password_check(user->buffer, user->length, expected);
 
-                if(zdbd_password_check(user->buffer, user->length, expected) == 0) {
+                // challenge can be used only one time
+                free(client->nonce);
+                client->nonce = NULL;
+
+                if(granted == 0) {
                     free(expected);
                     zdbd_debug("[-] namespace: auth: secure authentication denied\n");
                     redis_hardsend(client, "-Access denied");
-- 
2.43.0


From b9486f12629389d4cbc1712931a98ff430596a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 12/18] fix: match the whole command name, not only its first
 letters

---
 zdbd/commands.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..4ee20f8 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -22,6 +22,14 @@
 
 #define WAIT_MAX_TIMEOUT_MS   30 * 60 * 1000  // 30 min
 
+// check if the name requested is exactly that command
+static int command_match(resp_object_t *key, command_t *command) {
+    if((size_t) key->length != strlen(command->command))
+        return 0;
+
+    return (strncasecmp(key->buffer, command->command, key->length) == 0);
+}
+
 // ensure number of arguments and their validity
 static int real_command_args_validate(redis_client_t *client, int expected, int nullallowed) {
     if(client->request->argc != expected) {
@@ -184,7 +192,7 @@ int redis_dispatcher(redis_client_t *client) {
     zdbd_debug("[+] command: '%.*s' [+%d args]\n", key->length, (char *) key->buffer, request->argc - 1);
 
     for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
+        if(command_match(key, &commands_handlers[i])) {
             // save last command executed
             client->executed = &commands_handlers[i];
 
@@ -222,7 +230,7 @@ int command_wait(redis_client_t *client) {
 
     // checking if the requested command is supported
     for(unsigned int i = 0; i < sizeof(commands_handlers) / sizeof(command_t); i++) {
-        if(strncasecmp(key->buffer, commands_handlers[i].command, key->length) == 0) {
+        if(command_match(key, &commands_handlers[i])) {
             handler = &commands_handlers[i];
             break;
         }
-- 
2.43.0


From a6525afd43e4731a73517e3dbd90baa340f89135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 13/18] fix: keep room for the end of string of the longest
 argument

---
 zdbd/commands_namespace.c | 2 +-
 zdbd/commands_system.c    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index ba3caa5..6a38f6f 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -507,7 +507,7 @@ int command_nsset(redis_client_t *client) {
     if(!command_args_namespace(client, 1))
         return 1;
 
-    if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
         return 1;
 
     // limit size of the value
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..97bd20d 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -186,7 +186,7 @@ static int command_index_dirty(redis_client_t *client) {
     char *response;
 
     if(request->argc == 3) {
-        if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+        if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
             return 1;
 
         sprintf(subcommand, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
@@ -237,7 +237,7 @@ int command_index(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
@@ -349,7 +349,7 @@ int command_data(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From af20e50ada3a12a57d86e0dc8bc634b7fef599ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:34 +0000
Subject: [PATCH 14/18] fix: refuse an empty namespace name

---
 libzdb/namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..c47e907 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -365,6 +365,10 @@ int namespace_create(char *name) {
 }
 
 int namespace_valid_name(char *name) {
+    // an empty name would be the root directory of all namespaces
+    if(strlen(name) == 0)
+        return 0;
+
     if(strcmp(name, ".") == 0 || strcmp(name, "..") == 0)
         return 0;
 
-- 
2.43.0


From 47f41c10d0dfef39193987153c9ee421a9b3d1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:45 +0000
Subject: [PATCH 15/18] fix: refuse a negative argument length

---
 zdbd/redis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..92f6ceb 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -510,7 +510,7 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
     // real size is the length + 2 (\r\n)
     argument->size = argument->length + 2;
 
-    if(argument->length > REDIS_MAX_PAYLOAD) {
+    if(argument->length < 0 || argument->length > REDIS_MAX_PAYLOAD) {
         resp_discard(client, "Payload too big");
         return RESP_STATUS_DISCARD;
     }
-- 
2.43.0


From ed958108994a6624ff0eb88f4a431aa3a339fd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:36 +0000
Subject: [PATCH 16/18] fix: deny FLUSH when the namespace is protected against
 updates

---
 zdbd/commands_namespace.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 6a38f6f..c78f40a 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -648,6 +648,22 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    if(!client->writable) {
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
+    if(namespace->worm) {
+        redis_hardsend(client, "-Namespace is protected by worm mode");
+        return 1;
+    }
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
-- 
2.43.0


From eec790e60af6c5b3bf02b728a81fcddf562c1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 17/18] fix: deny KSCAN on a frozen namespace

---
 zdbd/commands_scan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..1f7c0cb 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -466,6 +466,9 @@ int command_kscan(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     resp_object_t *key = request->argv[1];
     list_t keys = list_init(NULL);
 
-- 
2.43.0


From b74c23b16367bd585414ebb53a712291965edeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:57 +0000
Subject: [PATCH 18/18] fix: check the key given to HISTORY and KEYCUR

---
 zdbd/commands_history.c | 16 ++++++++++++++--
 zdbd/commands_scan.c    |  5 +++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..a275a37 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -111,6 +111,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
         free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
@@ -152,6 +153,11 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
+    if(client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
@@ -176,7 +182,13 @@ int command_history(redis_client_t *client) {
         ekey.indexid = entry->parentid;
         ekey.offset = entry->parentoff;
 
-        index_item_t *item = index_item_get_disk(index, entry->indexid, entry->idxoffset, entry->idlength);
+        index_item_t *item;
+
+        if(!(item = index_item_get_disk(index, entry->indexid, entry->idxoffset, entry->idlength))) {
+            zdbd_debug("[-] command: history: cannot read index entry\n");
+            redis_hardsend(client, "-Internal Error");
+            return 1;
+        }
 
         return history_send(client, item, &ekey);
     }
@@ -211,7 +223,7 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 1f7c0cb..459b812 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -345,6 +345,11 @@ int command_keycur(redis_client_t *client) {
     index_root_t *index = client->ns->index;
     resp_object_t *key = request->argv[1];
 
+    if(key->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(!(entry = index_get(index, key->buffer, key->length))) {
         redis_hardsend(client, "-Key not found");
         return 1;
-- 
2.43.0

