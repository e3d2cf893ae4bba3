From 7bb74f53fc8ed61329d75e38e6cf5e9d5b0d4d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 01/44] fix: refuse to remove one of several files of a message
 from a read-only database

notmuch_database_remove_message on a read-only handle reported
NOTMUCH_STATUS_DUPLICATE_MESSAGE_ID ("this filename was removed") for a
message with several files, although nothing was removed and the
documentation promises NOTMUCH_STATUS_READ_ONLY_DATABASE.
---
 lib/database.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/database.cc b/lib/database.cc
index 737a3f3..62f75c9 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -1454,7 +1454,9 @@ notmuch_database_remove_message (notmuch_database_t *notmuch,
 							&message);
 
     if (status == NOTMUCH_STATUS_SUCCESS && message) {
-	if (notmuch_message_count_files (message) > 1) {
+	status = _notmuch_database_ensure_writable (notmuch);
+	if (status == NOTMUCH_STATUS_SUCCESS &&
+	    notmuch_message_count_files (message) > 1) {
 	    status = _notmuch_message_remove_filename (message, filename);
 	}
 	if (status == NOTMUCH_STATUS_SUCCESS)
-- 
2.43.0


From bd6e629001e3d918647ec325f772a4761ea69172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 02/44] fix: compare and store overlong referenced message IDs
 in their compressed form

A message with a Message-ID longer than NOTMUCH_MESSAGE_ID_MAX that
names itself in References or In-Reply-To was not recognised as its own
reference, so that a second document with the same id was created for
it, splitting its thread; re-indexing it later aborted with 'Message
with document ID of N has no thread ID'.  Replies to such messages were
not attached to them in the thread tree either.
---
 lib/add-message.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/add-message.cc b/lib/add-message.cc
index b16748f..ea51a14 100644
--- a/lib/add-message.cc
+++ b/lib/add-message.cc
@@ -24,6 +24,10 @@ parse_references (void *ctx,
     while (*refs) {
 	ref = _notmuch_message_id_parse (ctx, refs, &refs);
 
+	/* Messages with overlong IDs are stored under a compressed one. */
+	if (ref && strlen (ref) > NOTMUCH_MESSAGE_ID_MAX)
+	    ref = _notmuch_message_id_compressed (ctx, ref);
+
 	if (ref && strcmp (ref, message_id)) {
 	    g_hash_table_add (hash, ref);
 	    last_ref = ref;
@@ -239,6 +243,9 @@ _notmuch_database_link_message_to_parents (notmuch_database_t *notmuch,
     if (in_reply_to)
 	strict_message_id = _notmuch_message_id_parse_strict (message,
 							      in_reply_to);
+    if (strict_message_id && strlen (strict_message_id) > NOTMUCH_MESSAGE_ID_MAX)
+	strict_message_id = _notmuch_message_id_compressed (message,
+							    strict_message_id);
 
     in_reply_to_message_id = parse_references (message,
 					       this_message_id,
-- 
2.43.0


From 9e5feb86807af7e13f6ec740b4214a7e9fc1a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 03/44] fix: make property: queries find keys that start with a
 capital letter

Xapian inserts a ':' between a multi-letter term prefix and a term that
starts with a capital letter, but property terms are stored without it,
so that property:Key=value never matched anything.
---
 lib/prefix.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/prefix.cc b/lib/prefix.cc
index 06e2333..ebb04d7 100644
--- a/lib/prefix.cc
+++ b/lib/prefix.cc
@@ -48,7 +48,8 @@ prefix_t prefix_table[] = {
       NOTMUCH_FIELD_PROCESSOR },
     { "path",                   "P",            NOTMUCH_FIELD_EXTERNAL |
       NOTMUCH_FIELD_PROCESSOR | NOTMUCH_FIELD_STRIP_TRAILING_SLASH },
-    { "property",               "XPROPERTY",    NOTMUCH_FIELD_EXTERNAL },
+    { "property",               "XPROPERTY",    NOTMUCH_FIELD_EXTERNAL |
+      NOTMUCH_FIELD_PROCESSOR },
     /*
      * Unconditionally add ':' to reduce potential ambiguity with
      * overlapping prefixes and/or terms that start with capital
@@ -118,6 +119,17 @@ _notmuch_database_prefix (notmuch_database_t *notmuch, const char *name)
     return NULL;
 }
 
+/* Property terms are the prefix followed by "key=value" as is. The
+ * default processing by Xapian would insert a ':' before a key that
+ * starts with a capital letter or a ':', and never match such keys. */
+class PropertyFieldProcessor : public Xapian::FieldProcessor {
+public:
+    Xapian::Query operator() (const std::string & str)
+    {
+	return Xapian::Query (_find_prefix ("property") + str);
+    }
+};
+
 static void
 _setup_query_field_default (const prefix_t *prefix, notmuch_database_t *notmuch)
 {
@@ -141,6 +153,8 @@ _setup_query_field (const prefix_t *prefix, notmuch_database_t *notmuch)
 	    fp = (new QueryFieldProcessor (*notmuch->query_parser, notmuch))->release ();
 	else if (STRNCMP_LITERAL (prefix->name, "thread") == 0)
 	    fp = (new ThreadFieldProcessor (*notmuch->query_parser, notmuch))->release ();
+	else if (STRNCMP_LITERAL (prefix->name, "property") == 0)
+	    fp = (new PropertyFieldProcessor ())->release ();
 	else if (STRNCMP_LITERAL (prefix->name, "sexp") == 0)
 	    fp = (new SexpFieldProcessor (notmuch))->release ();
 	else
-- 
2.43.0


From 2545899e710b721b0f28346a01ad4006ae781ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 04/44] fix: keep every message of a thread reachable when
 replies form a cycle

Messages in a reply cycle that does not contain the thread's oldest
message, and messages whose References name one of their own
descendants, were attached below themselves and never shown.
---
 lib/thread.cc | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/thread.cc b/lib/thread.cc
index 60e9a66..ca25d9b 100644
--- a/lib/thread.cc
+++ b/lib/thread.cc
@@ -394,6 +394,30 @@ _thread_add_matched_message (notmuch_thread_t *thread,
     return 0;
 }
 
+/* Is 'candidate' the message 'root' itself, or one of the replies
+ * (direct or indirect) attached to it so far?  Attaching 'root' to
+ * such a message would make it unreachable from any top-level
+ * message. */
+static bool
+_is_in_subtree (notmuch_message_t *root, notmuch_message_t *candidate)
+{
+    bool found = (root == candidate);
+    notmuch_messages_t *replies;
+
+    if (found)
+	return true;
+
+    replies = notmuch_message_get_replies (root);
+    for (notmuch_messages_t *messages = replies;
+	 ! found && notmuch_messages_valid (messages);
+	 notmuch_messages_move_to_next (messages))
+	found = _is_in_subtree (notmuch_messages_get (messages), candidate);
+    if (replies)
+	notmuch_messages_destroy (replies);
+
+    return found;
+}
+
 static bool
 _parent_via_in_reply_to (notmuch_thread_t *thread, notmuch_message_t *message)
 {
@@ -407,7 +431,8 @@ _parent_via_in_reply_to (notmuch_thread_t *thread, notmuch_message_t *message)
     if (in_reply_to && (! EMPTY_STRING (in_reply_to)) &&
 	g_hash_table_lookup_extended (thread->message_hash,
 				      in_reply_to, NULL,
-				      (void **) &parent)) {
+				      (void **) &parent) &&
+	! _is_in_subtree (message, parent)) {
 	_notmuch_message_add_reply (parent, message);
 	return true;
     } else {
@@ -432,7 +457,8 @@ _parent_or_toplevel (notmuch_thread_t *thread, notmuch_message_t *message)
 	THREAD_DEBUG ("checking reference=%s", ref_node->string);
 	if ((g_hash_table_lookup_extended (thread->message_hash,
 					   ref_node->string, NULL,
-					   (void **) &new_parent))) {
+					   (void **) &new_parent)) &&
+	    ! _is_in_subtree (message, new_parent)) {
 	    size_t new_depth = _notmuch_message_get_thread_depth (new_parent);
 	    THREAD_DEBUG ("got depth %lu", new_depth);
 	    if (new_depth > max_depth || ! parent) {
-- 
2.43.0


From ff9841743efc946653ed77b58bc6390e7c8ed0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 05/44] fix: forget an abandoned atomic section when a database
 is reopened

Otherwise the next sections of the handle were not atomic, and an end
without a begin was not refused.
---
 lib/open.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/open.cc b/lib/open.cc
index 463e38b..aeab96b 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -871,6 +871,10 @@ notmuch_database_reopen (notmuch_database_t *notmuch,
 	    }
 	}
 
+	/* An atomic section that was open is abandoned. */
+	notmuch->atomic_nesting = 0;
+	notmuch->atomic_dirty = false;
+
 	_load_database_state (notmuch);
     } catch (const Xapian::Error &error) {
 	if (! notmuch->exception_reported) {
-- 
2.43.0


From 4689976575167ef08b97f56cc4ef33433a42a635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 06/44] fix: refuse properties that are too long to be stored
 instead of aborting

---
 lib/message-property.cc | 8 +++++---
 lib/notmuch.h           | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/message-property.cc b/lib/message-property.cc
index 7f52034..166a8d1 100644
--- a/lib/message-property.cc
+++ b/lib/message-property.cc
@@ -107,15 +107,17 @@ _notmuch_message_modify_property (notmuch_message_t *message, const char *key, c
 	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
     }
 
+    if (term)
+	talloc_free (term);
+
+    if (private_status == NOTMUCH_PRIVATE_STATUS_TERM_TOO_LONG)
+	return NOTMUCH_STATUS_ILLEGAL_ARGUMENT;
     if (private_status)
 	return COERCE_STATUS (private_status,
 			      "Unhandled error modifying message property");
     if (! _notmuch_message_frozen (message))
 	_notmuch_message_sync (message);
 
-    if (term)
-	talloc_free (term);
-
     return NOTMUCH_STATUS_SUCCESS;
 }
 
diff --git a/lib/notmuch.h b/lib/notmuch.h
index 4e2b0fa..db5c7b3 100644
--- a/lib/notmuch.h
+++ b/lib/notmuch.h
@@ -2086,7 +2086,8 @@ notmuch_message_get_property (notmuch_message_t *message, const char *key, const
  * Add a (key,value) pair to a message
  *
  * @returns
- * - NOTMUCH_STATUS_ILLEGAL_ARGUMENT: *key* may not contain an '=' character.
+ * - NOTMUCH_STATUS_ILLEGAL_ARGUMENT: *key* may not contain an '=' character,
+ *   and *key* and *value* together may not be too long to be stored.
  * - NOTMUCH_STATUS_NULL_POINTER: Neither *key* nor *value* may be NULL.
  * - NOTMUCH_STATUS_SUCCESS: No error occurred.
  * @since libnotmuch 4.4 (notmuch 0.23)
@@ -2100,7 +2101,8 @@ notmuch_message_add_property (notmuch_message_t *message, const char *key, const
  * It is not an error to remove a non-existent (key,value) pair
  *
  * @returns
- * - NOTMUCH_STATUS_ILLEGAL_ARGUMENT: *key* may not contain an '=' character.
+ * - NOTMUCH_STATUS_ILLEGAL_ARGUMENT: *key* may not contain an '=' character,
+ *   and *key* and *value* together may not be too long to be stored.
  * - NOTMUCH_STATUS_NULL_POINTER: Neither *key* nor *value* may be NULL.
  * - NOTMUCH_STATUS_SUCCESS: No error occurred.
  * @since libnotmuch 4.4 (notmuch 0.23)
-- 
2.43.0


From 325a687ff0253a5fa4961b26736121a179f591a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 07/44] fix: count messages like a search when excluded
 messages are kept or flagged

---
 lib/query.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/query.cc b/lib/query.cc
index 1c60c12..5a881ba 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -726,10 +726,14 @@ _notmuch_query_count_documents (notmuch_query_t *query, const char *type, unsign
 	final_query = Xapian::Query (Xapian::Query::OP_AND,
 				     mail_query, query->xapian_query);
 
-	exclude_query = _notmuch_exclude_tags (query);
+	/* Count what a search would return */
+	if (query->omit_excluded == NOTMUCH_EXCLUDE_TRUE ||
+	    query->omit_excluded == NOTMUCH_EXCLUDE_ALL) {
+	    exclude_query = _notmuch_exclude_tags (query);
 
-	final_query = Xapian::Query (Xapian::Query::OP_AND_NOT,
-				     final_query, exclude_query);
+	    final_query = Xapian::Query (Xapian::Query::OP_AND_NOT,
+					 final_query, exclude_query);
+	}
 
 	enquire.set_weighting_scheme (Xapian::BoolWeight ());
 	enquire.set_docid_order (Xapian::Enquire::ASCENDING);
-- 
2.43.0


From 4d85fccae13665a7422959631d32a951b5986336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 08/44] fix: consider only messages when expanding the subquery
 of a field

The subquery of (thread (of ...)), thread:{...} and similar may be a
negation, which ghost messages satisfy as well; their threads do not
belong into the result.
---
 lib/query.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/query.cc b/lib/query.cc
index 5a881ba..7e432db 100644
--- a/lib/query.cc
+++ b/lib/query.cc
@@ -846,7 +846,11 @@ _notmuch_query_expand (notmuch_database_t *notmuch, const char *field, Xapian::Q
 	Xapian::MSet mset;
 
 	enquire.set_weighting_scheme (Xapian::BoolWeight ());
-	enquire.set_query (subquery);
+	/* Only messages count, not the ghosts (or directories) a
+	 * negated query also matches */
+	enquire.set_query (Xapian::Query (Xapian::Query::OP_AND,
+					  Xapian::Query (std::string (_find_prefix ("type")) + "mail"),
+					  subquery));
 
 	mset = enquire.get_mset (0, notmuch->xapian_db->get_doccount ());
 
-- 
2.43.0


From f85861e979cfc8cc4f08a9f083e55bf4dc4e107c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 09/44] fix: keep a trailing slash in fields that are not paths

tag:"a/" and the like looked for the term without the slash.
---
 lib/regexp-fields.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/regexp-fields.cc b/lib/regexp-fields.cc
index 3a77526..ce2f073 100644
--- a/lib/regexp-fields.cc
+++ b/lib/regexp-fields.cc
@@ -240,7 +240,8 @@ RegexpFieldProcessor::operator() (const std::string & str)
 	    std::string query_str;
 	    std::string term;
 
-	    if (str.length () > 1 && str.at (str.size () - 1) == '/')
+	    if ((options & NOTMUCH_FIELD_STRIP_TRAILING_SLASH) &&
+		str.length () > 1 && str.at (str.size () - 1) == '/')
 		query_str = str.substr (0, str.size () - 1);
 	    else
 		query_str = str;
-- 
2.43.0


From a25bf97f181056302f332f665052fa26672b5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 10/44] fix: do not lower-case starts-with arguments in boolean
 fields

Tags, folders and so on are recorded as they are, so
(tag (starts-with INB)) has to look for upper case.
---
 lib/parse-sexp.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/parse-sexp.cc b/lib/parse-sexp.cc
index 9cadbc1..0ca1b23 100644
--- a/lib/parse-sexp.cc
+++ b/lib/parse-sexp.cc
@@ -251,8 +251,11 @@ _sexp_parse_wildcard (notmuch_database_t *notmuch,
 	return NOTMUCH_STATUS_BAD_QUERY_SYNTAX;
     }
 
-    output = Xapian::Query (Xapian::Query::OP_WILDCARD,
-			    term_prefix + Xapian::Unicode::tolower (match));
+    /* Boolean fields are matched (and recorded) as is */
+    if (! (parent && (parent->flags & SEXP_FLAG_BOOLEAN)))
+	match = Xapian::Unicode::tolower (match);
+
+    output = Xapian::Query (Xapian::Query::OP_WILDCARD, term_prefix + match);
     return NOTMUCH_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 8d8fff0b5bfeefc19ff0d505a57de6056ca73592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:33 +0000
Subject: [PATCH 11/44] fix: check that a saved s-expression is a non-empty
 list

A saved query whose text is () or a bare atom made the search for a
macro dereference a null pointer.
---
 lib/parse-sexp.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/parse-sexp.cc b/lib/parse-sexp.cc
index 0ca1b23..3aa8aa8 100644
--- a/lib/parse-sexp.cc
+++ b/lib/parse-sexp.cc
@@ -400,7 +400,8 @@ maybe_apply_macro (notmuch_database_t *notmuch, const _sexp_prefix_t *parent,
     _sexp_binding_t *new_env = NULL;
     notmuch_status_t status = NOTMUCH_STATUS_SUCCESS;
 
-    if (sx->list->ty != SEXP_VALUE || strcmp (sx->list->val, "macro") != 0) {
+    if (sx->ty != SEXP_LIST || ! sx->list ||
+	sx->list->ty != SEXP_VALUE || strcmp (sx->list->val, "macro") != 0) {
 	status = NOTMUCH_STATUS_IGNORED;
 	goto DONE;
     }
-- 
2.43.0


From a9182cb68ec8a6f26b8a942598ba6dce433d5a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 12/44] fix: apply tag changes to all matching messages with
 s-expression queries

The condition added to skip messages that already have the requested
tags demanded that every single change be needed, instead of any of
them, and did not escape the tag names.
---
 notmuch-tag.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/notmuch-tag.c b/notmuch-tag.c
index 71ff06b..c52b976 100644
--- a/notmuch-tag.c
+++ b/notmuch-tag.c
@@ -88,6 +88,26 @@ _optimize_tag_query_infix (void *ctx, const char *orig_query_string,
     return query_string;
 }
 
+/* Escape the characters special within a quoted s-expression string */
+static char *
+_escape_sexp_string (void *ctx, const char *str)
+{
+    char *ret = talloc_size (ctx, 2 * strlen (str) + 1);
+    char *out = ret;
+
+    if (! ret)
+	return NULL;
+
+    for (; *str; str++) {
+	if (*str == '"' || *str == '\\')
+	    *out++ = '\\';
+	*out++ = *str;
+    }
+    *out = '\0';
+
+    return ret;
+}
+
 static char *
 _optimize_tag_query (void *ctx, const char *orig_query_string,
 		     notmuch_query_syntax_t stx,
@@ -102,15 +122,15 @@ _optimize_tag_query (void *ctx, const char *orig_query_string,
     if (tag_op_list_size (list) == 0)
 	return talloc_strdup (ctx, orig_query_string);
 
-    query_string = talloc_asprintf (ctx, "(and %s", orig_query_string);
+    query_string = talloc_asprintf (ctx, "(and %s (or", orig_query_string);
     for (size_t i = 0; i < tag_op_list_size (list) && query_string; i++) {
 	query_string = talloc_asprintf_append_buffer (
 	    query_string, tag_op_list_isremove (list, i) ? " (tag \"%s\")" : " (not (tag \"%s\"))",
-	    tag_op_list_tag (list, i));
+	    _escape_sexp_string (ctx, tag_op_list_tag (list, i)));
     }
 
     if (query_string)
-	query_string = talloc_strdup_append_buffer (query_string, ")");
+	query_string = talloc_strdup_append_buffer (query_string, "))");
 
     return query_string;
 }
-- 
2.43.0


From 6885559b7bec16a27d26659370272a05e6478d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 13/44] fix: never overwrite another file when renaming for
 maildir flags

---
 lib/message.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/message.cc b/lib/message.cc
index 46638f8..b78ae7b 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -2072,6 +2072,12 @@ notmuch_message_tags_to_maildir_flags (notmuch_message_t *message)
 	if (strcmp (filename, filename_new)) {
 	    int err;
 	    notmuch_status_t new_status;
+	    struct stat st;
+
+	    /* There may be another file (a copy, or one of another
+	     * message) with that name, which must not be lost. */
+	    if (lstat (filename_new, &st) == 0)
+		continue;
 
 	    err = rename (filename, filename_new);
 	    if (err)
-- 
2.43.0


From 25efd7de3bfc7f2d8b725af5206aec313d42b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:16 +0000
Subject: [PATCH 14/44] fix: notice that a directory was replaced by a file

---
 notmuch-new.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 4a53e3e..a9ba81d 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -679,7 +679,10 @@ add_files (notmuch_database_t *notmuch,
 	       strcmp (notmuch_filenames_get (db_subdirs), entry->d_name) <= 0) {
 	    const char *filename = notmuch_filenames_get (db_subdirs);
 
-	    if (strcmp (filename, entry->d_name) < 0) {
+	    /* A name that is still there counts as removed when it
+	     * no longer names a directory. */
+	    if (strcmp (filename, entry->d_name) < 0 ||
+		dirent_type (path, entry) != S_IFDIR) {
 		char *absolute = talloc_asprintf (state->removed_directories,
 						  "%s/%s", path, filename);
 		if (state->debug)
-- 
2.43.0


From ef134900c9622dcf65fc18b33c0ed65f95951e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:20 +0000
Subject: [PATCH 15/44] fix: date:..until also finds messages filed under date
 0

DBL_MIN is the smallest positive double, so that open ranges left out
messages without a usable Date header.
---
 lib/parse-time-vrp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/parse-time-vrp.cc b/lib/parse-time-vrp.cc
index 6b07970..f42acdc 100644
--- a/lib/parse-time-vrp.cc
+++ b/lib/parse-time-vrp.cc
@@ -29,7 +29,7 @@ _notmuch_date_strings_to_query (Xapian::valueno slot,
 				const std::string &begin, const std::string &end,
 				Xapian::Query &output, std::string &msg)
 {
-    double from = DBL_MIN, to = DBL_MAX;
+    double from = -DBL_MAX, to = DBL_MAX;
     time_t parsed_time, now;
     std::string str;
 
@@ -84,7 +84,7 @@ ParseTimeRangeProcessor::operator() (const std::string &begin, const std::string
 Xapian::Query
 DateFieldProcessor::operator() (const std::string & str)
 {
-    double from = DBL_MIN, to = DBL_MAX;
+    double from = -DBL_MAX, to = DBL_MAX;
     time_t parsed_time, now;
 
     /* Use the same 'now' for begin and end. */
-- 
2.43.0


From af857068f66248359c94e60bb67c5965689a5217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 16/44] fix: restore: skip lines about messages that are not in
 the database

A properties line with an unknown message-id dereferenced NULL, and a
message known only by reference (a ghost) was treated as present, so that
its tags and properties were set although it is not in the database.
---
 notmuch-restore.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 1cce004..b875737 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -57,6 +57,29 @@ process_config_line (notmuch_database_t *notmuch, const char *line)
     return ret;
 }
 
+/* Find the message with the given id. A ghost (known only because other
+ * messages refer to it) does not count as a message; like for an
+ * unknown id, *message is NULL then. */
+static notmuch_status_t
+find_message (notmuch_database_t *notmuch, const char *message_id,
+	      notmuch_message_t **message)
+{
+    notmuch_status_t status;
+    notmuch_bool_t is_ghost;
+
+    status = notmuch_database_find_message (notmuch, message_id, message);
+    if (status || *message == NULL)
+	return status;
+
+    status = notmuch_message_get_flag_st (*message, NOTMUCH_MESSAGE_FLAG_GHOST, &is_ghost);
+    if (status || is_ghost) {
+	notmuch_message_destroy (*message);
+	*message = NULL;
+    }
+
+    return status;
+}
+
 static int
 process_properties_line (notmuch_database_t *notmuch, const char *line)
 {
@@ -78,8 +101,15 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     }
 
     if (print_status_database ("notmuch restore", notmuch,
-			       notmuch_database_find_message (notmuch, id, &message)))
+			       find_message (notmuch, id, &message)))
+	goto DONE;
+
+    if (message == NULL) {
+	fprintf (stderr, "Warning: cannot restore properties of missing message: %s\n", id);
+	/* As for tags, this is not a fatal error. */
+	ret = EXIT_SUCCESS;
 	goto DONE;
+    }
 
     if (print_status_database ("notmuch restore", notmuch,
 			       notmuch_message_remove_all_properties (message, NULL)))
@@ -139,7 +169,7 @@ tag_message (unused (void *ctx),
     notmuch_message_t *message = NULL;
     int ret = 0;
 
-    status = notmuch_database_find_message (notmuch, message_id, &message);
+    status = find_message (notmuch, message_id, &message);
     if (status) {
 	fprintf (stderr, "Error applying tags to message %s: %s\n",
 		 message_id, notmuch_status_to_string (status));
-- 
2.43.0


From d8c9dfb0e587bf68fb1d1cd17d35aef65ac65ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 17/44] fix: restore: leave tags alone unless --include=tags is
 in effect

With --include=properties the tag lines of the input were applied too.
---
 notmuch-restore.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index b875737..a66a241 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -452,8 +452,10 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	if (ret < 0)
 	    break;
 
-	ret = tag_message (line_ctx, notmuch, query_string,
-			   tag_ops, flags);
+	/* ret is 0 here */
+	if (include & DUMP_INCLUDE_TAGS)
+	    ret = tag_message (line_ctx, notmuch, query_string,
+			       tag_ops, flags);
 	if (ret)
 	    break;
 
-- 
2.43.0


From 0e033d1fc1640dce7810fd71b22afdff5b523e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 18/44] fix: restore: take the format from the header of the
 dump

The batch-tag format does not encode parentheses in message-ids, so a dump
whose first message-id contains one was read as a sup dump.
---
 notmuch-restore.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index a66a241..553d8dc 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -367,6 +367,16 @@ notmuch_restore_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	    goto DONE;
 	}
 
+	/* The header written by notmuch-dump names the format; in
+	 * particular message-ids in batch-tag format can contain
+	 * parentheses. */
+	if (input_format == DUMP_FORMAT_AUTO) {
+	    if (STRNCMP_LITERAL (line, "#notmuch-dump batch-tag:") == 0)
+		input_format = DUMP_FORMAT_BATCH_TAG;
+	    else if (STRNCMP_LITERAL (line, "#notmuch-dump sup:") == 0)
+		input_format = DUMP_FORMAT_SUP;
+	}
+
 	if ((include & DUMP_INCLUDE_CONFIG) && line_len >= 2 && line[0] == '#' && line[1] == '@') {
 	    ret = process_config_line (notmuch, line + 2);
 	    if (ret)
-- 
2.43.0


From f4c0e3896998c6433881a0927572783f61ef8f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 19/44] fix: restore: do not read behind a property without a
 value

A last token without '=' has off equal to tok_len, and its length was
computed as -1.
---
 notmuch-restore.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notmuch-restore.c b/notmuch-restore.c
index 553d8dc..cf36333 100644
--- a/notmuch-restore.c
+++ b/notmuch-restore.c
@@ -120,7 +120,7 @@ process_properties_line (notmuch_database_t *notmuch, const char *line)
     while ((tok = strtok_len_c (tok + tok_len, delim, &tok_len)) != NULL) {
 	char *key, *value;
 	size_t off = strcspn (tok, "=");
-	if (off > tok_len) {
+	if (off >= tok_len) {
 	    fprintf (stderr, "unparsable token %s\n", tok);
 	    goto DONE;
 	}
-- 
2.43.0


From 6fb104519dbac46848097acb472192cb86d9b38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:13 +0000
Subject: [PATCH 20/44] fix: create: complete a database whose creation was cut
 short

If the first command was stopped between creating the Xapian database and
committing the features to it, every later one failed with "Operation
requires a database upgrade".
---
 lib/open.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/open.cc b/lib/open.cc
index aeab96b..6396743 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -359,6 +359,21 @@ _trial_open (const char *xapian_path, char **message_ptr)
     return NOTMUCH_STATUS_SUCCESS;
 }
 
+/* A process creating a database may have been stopped after creating
+ * the Xapian database, but before committing the version and features
+ * to it. What it leaves is no notmuch database yet. */
+static bool
+_creation_unfinished (const char *xapian_path)
+{
+    try {
+	Xapian::Database db (xapian_path);
+
+	return db.get_lastdocid () == 0 && db.get_metadata ("version").empty ();
+    } catch (const Xapian::Error &error) {
+	return false;
+    }
+}
+
 notmuch_status_t
 _notmuch_choose_xapian_path (void *ctx, const char *database_path,
 			     const char **xapian_path, char **message_ptr)
@@ -785,7 +800,8 @@ notmuch_database_create_with_config (const char *database_path,
     }
 
     status = _trial_open (notmuch->xapian_path, &message);
-    if (status == NOTMUCH_STATUS_SUCCESS) {
+    if (status == NOTMUCH_STATUS_SUCCESS &&
+	! _creation_unfinished (notmuch->xapian_path)) {
 	notmuch_database_destroy (notmuch);
 	notmuch = NULL;
 	status = NOTMUCH_STATUS_DATABASE_EXISTS;
-- 
2.43.0


From 17535d4f0279d88bac580525cab7754a477d9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:14 +0000
Subject: [PATCH 21/44] fix: new: report changes that could not be saved

A failing commit throws away the files added since the last one. Its
status was ignored when files were removed, directory times recorded and
the database closed, so that notmuch new reported success, and could even
record the times of directories whose files had been lost.
---
 notmuch-new.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index a9ba81d..3f44218 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -949,7 +949,7 @@ remove_filename (notmuch_database_t *notmuch,
 		 const char *path,
 		 add_files_state_t *add_files_state)
 {
-    notmuch_status_t status;
+    notmuch_status_t status, end_status;
     notmuch_message_t *message;
 
     status = notmuch_database_begin_atomic (notmuch);
@@ -971,8 +971,8 @@ remove_filename (notmuch_database_t *notmuch,
     notmuch_message_destroy (message);
 
   DONE:
-    notmuch_database_end_atomic (notmuch);
-    return status;
+    end_status = notmuch_database_end_atomic (notmuch);
+    return status ? status : end_status;
 }
 
 /* Recursively remove all filenames from the database referring to
@@ -1291,9 +1291,15 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	notmuch_directory_t *directory;
 	status = notmuch_database_get_directory (notmuch, f->filename, &directory);
 	if (status == NOTMUCH_STATUS_SUCCESS && directory) {
-	    notmuch_directory_set_mtime (directory, f->mtime);
+	    status = notmuch_directory_set_mtime (directory, f->mtime);
 	    notmuch_directory_destroy (directory);
 	}
+	/* If anything is lost now, then the times recorded must not
+	 * claim otherwise. */
+	if (status) {
+	    ret = status;
+	    goto DONE;
+	}
     }
 
   DONE:
@@ -1311,7 +1317,12 @@ notmuch_new_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	fprintf (stderr, "Note: A fatal error was encountered: %s\n",
 		 notmuch_status_to_string (ret));
 
-    notmuch_database_close (notmuch);
+    status = notmuch_database_close (notmuch);
+    if (status && ! ret) {
+	ret = status;
+	fprintf (stderr, "Error: the changes to the database could not be saved: %s\n",
+		 notmuch_status_to_string (ret));
+    }
 
     if (hooks && ! ret && ! interrupted)
 	ret = notmuch_run_hook (notmuch, "post-new");
-- 
2.43.0


From 41b9a228a4f4437f0d1ff96ee166b9937370be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 22/44] fix: insert: short first reads

A first read that returned less than the five bytes of "From " (a pipe
whose writer flushed early) left the envelope line in place, and a read
of nothing but that line led to a write of no bytes, which was taken
for an error.
---
 notmuch-insert.c | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index e44607a..b2b7cfe 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -246,7 +246,7 @@ write_buf (const char *buf, int fdout, ssize_t remain)
 {
     const char *p = buf;
 
-    do {
+    while (remain > 0) {
 	ssize_t written = write (fdout, p, remain);
 	if (written < 0 && errno == EINTR)
 	    continue;
@@ -257,10 +257,32 @@ write_buf (const char *buf, int fdout, ssize_t remain)
 	}
 	p += written;
 	remain -= written;
-    } while (remain > 0);
+    }
     return true;
 }
 
+/*
+ * Read from fd until there are at least min bytes, end of file, or an
+ * interrupt. Return the number of bytes read, or -1 on errors.
+ */
+static ssize_t
+read_buf (int fd, char *buf, size_t len, size_t min)
+{
+    size_t have = 0;
+
+    do {
+	ssize_t r = read (fd, buf + have, len - have);
+	if (r == 0)
+	    break;
+	if (r > 0)
+	    have += r;
+	else if (errno != EINTR)
+	    return -1;
+    } while (have < min && ! interrupted);
+
+    return have;
+}
+
 /*
  * Copy fdin to fdout, return true on success, and false on errors and
  * empty input.
@@ -277,12 +299,11 @@ copy_fd (int fdout, int fdin)
 	char buf[4096];
 	const char *p = buf;
 
-	remain = read (fdin, buf, sizeof (buf));
+	/* Enough to recognize a "From " line. */
+	remain = read_buf (fdin, buf, sizeof (buf), first ? 5 : 1);
 	if (remain == 0)
 	    break;
 	if (remain < 0) {
-	    if (errno == EINTR)
-		continue;
 	    fprintf (stderr, "Error: reading from standard input: %s\n",
 		     strerror (errno));
 	    return false;
-- 
2.43.0


From 6102be58930bcd26dd5db8b2b9b5a6b6bc7770d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 23/44] fix: insert: normalise folder

"--folder=a//b", "a/" or "./a" filed the message under a name that
differs from the one used by "notmuch new", which then took the file
for another one.
---
 notmuch-insert.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/notmuch-insert.c b/notmuch-insert.c
index b2b7cfe..6f7f62f 100644
--- a/notmuch-insert.c
+++ b/notmuch-insert.c
@@ -105,6 +105,26 @@ is_valid_folder_name (const char *folder)
     }
 }
 
+/*
+ * Return the folder name without empty and "." components: the
+ * message is to be filed under the same name that notmuch new uses.
+ */
+static char *
+clean_folder_name (const void *ctx, const char *folder)
+{
+    char *clean = talloc_strdup (ctx, "");
+    const char *tok = folder;
+    size_t len = 0;
+
+    while (clean && (tok = strtok_len_c (tok + len, "/", &len)) != NULL) {
+	if (len == 1 && tok[0] == '.')
+	    continue;
+	clean = talloc_asprintf_append (clean, "%s%.*s", *clean ? "/" : "", (int) len, tok);
+    }
+
+    return clean;
+}
+
 /*
  * Make the given directory and its parents as necessary, using the
  * given mode. Return true on success, false otherwise. Partial
@@ -569,6 +589,12 @@ notmuch_insert_command (notmuch_database_t *notmuch, int argc, char *argv[])
 	return EXIT_FAILURE;
     }
 
+    folder = clean_folder_name (local, folder);
+    if (! folder) {
+	fprintf (stderr, "Out of memory\n");
+	return EXIT_FAILURE;
+    }
+
     maildir = talloc_asprintf (local, "%s/%s", mail_root, folder);
     if (! maildir) {
 	fprintf (stderr, "Out of memory\n");
-- 
2.43.0


From 2ff2145457a5a31f5fb4af3df76124d223465647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 24/44] fix: close: release the lock when the last changes
 cannot be saved

After a failed commit on close the write lock was kept until the
database object was destroyed. notmuch insert --keep ran the
post-insert hook while still holding it, and a hook that writes to the
database waited forever.
---
 lib/database.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/database.cc b/lib/database.cc
index 62f75c9..6a512f7 100644
--- a/lib/database.cc
+++ b/lib/database.cc
@@ -522,6 +522,12 @@ notmuch_database_close (notmuch_database_t *notmuch)
 				       "Error: A Xapian exception occurred closing database: %s\n",
 				       error.get_msg ().c_str ());
 	    }
+	    /* What could not be saved has been given up by now. Do
+	     * not stay locked, others may be waiting for us. */
+	    try {
+		notmuch->xapian_db->close ();
+	    } catch (const Xapian::Error &error2) {
+	    }
 	}
     }
     notmuch->open = false;
-- 
2.43.0


From 0e97df31a11e6b704fa5a1b139b4075ac896eba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:53 +0000
Subject: [PATCH 25/44] fix: new: mail delivered to a linked directory that was
 empty

A directory without real sub-directories is skipped when it has not
changed and the database knows of no sub-directory of it. A symbolic
link to a directory in which there was no mail yet is not in the
database, so later mail behind that link was not found until the
directory with the link changed, or a full scan.
---
 notmuch-new.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/notmuch-new.c b/notmuch-new.c
index 3f44218..da2d8be 100644
--- a/notmuch-new.c
+++ b/notmuch-new.c
@@ -501,6 +501,7 @@ add_files (notmuch_database_t *notmuch,
     time_t stat_time;
     struct stat st;
     bool is_maildir;
+    bool unknown_subdir = false;
 
     if (stat (path, &st)) {
 	fprintf (stderr, "Error reading directory %s: %s\n",
@@ -619,6 +620,24 @@ add_files (notmuch_database_t *notmuch,
 	    ret = status;
 	    goto DONE;
 	}
+
+	/* Directories without mail are not in the database, so when
+	 * this is a symlink to one, nothing would tell the next scan
+	 * about it (see above). */
+	if (st.st_nlink == 2) {
+	    notmuch_directory_t *subdir;
+
+	    status = notmuch_database_get_directory (notmuch, next, &subdir);
+	    if (status) {
+		ret = status;
+		goto DONE;
+	    }
+	    if (subdir)
+		notmuch_directory_destroy (subdir);
+	    else
+		unknown_subdir = true;
+	}
+
 	talloc_free (next);
 	next = NULL;
     }
@@ -784,7 +803,7 @@ add_files (notmuch_database_t *notmuch,
      * the database because a message could be delivered later in this
      * same second.  This may lead to unnecessary re-scans, but it
      * avoids overlooking messages. */
-    if (fs_mtime != stat_time)
+    if (fs_mtime != stat_time && ! unknown_subdir)
 	_filename_list_add (state->directory_mtimes, path)->mtime = fs_mtime;
 
   DONE:
-- 
2.43.0


From 1e218b41bbf39a49d8ed29727889668c4dcbf3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:56 +0000
Subject: [PATCH 26/44] fix: let the database named by NOTMUCH_DATABASE win
 over the configuration file

The index was opened from $NOTMUCH_DATABASE, but database.path, and with it
the mail root, still came from the file.
---
 lib/open.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/open.cc b/lib/open.cc
index 6396743..7b2b6cd 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -197,6 +197,10 @@ _choose_database_path (notmuch_database_t *notmuch,
 
     if (! *database_path) {
 	*database_path = getenv ("NOTMUCH_DATABASE");
+	/* As with an explicit path, the configuration is not to name
+	 * another one. */
+	if (*database_path)
+	    notmuch->params |= NOTMUCH_PARAM_DATABASE;
     }
 
     if (! *database_path && key_file) {
@@ -279,6 +283,10 @@ _create_database_path (notmuch_database_t *notmuch,
 
     if (! *database_path) {
 	*database_path = getenv ("NOTMUCH_DATABASE");
+	/* As with an explicit path, the configuration is not to name
+	 * another one. */
+	if (*database_path)
+	    notmuch->params |= NOTMUCH_PARAM_DATABASE;
     }
 
     if (! *database_path && key_file) {
-- 
2.43.0


From d46eec7f7ca04742fb6b08aa6ffced37eb8834c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:56 +0000
Subject: [PATCH 27/44] fix: expand a relative database.backup_dir

The key looked up was database.backup_path, which does not exist.
---
 lib/config.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/config.cc b/lib/config.cc
index 6cd15fa..946583a 100644
--- a/lib/config.cc
+++ b/lib/config.cc
@@ -405,7 +405,7 @@ _expand_path (void *ctx, const char *key, const char *val)
     if ((strcmp (key, "database.path") == 0 ||
 	 strcmp (key, "database.mail_root") == 0 ||
 	 strcmp (key, "database.hook_dir") == 0 ||
-	 strcmp (key, "database.backup_path") == 0 ) &&
+	 strcmp (key, "database.backup_dir") == 0 ) &&
 	val[0] != '/')
 	expanded_val = talloc_asprintf (ctx, "%s/%s", getenv ("HOME"), val);
     else
-- 
2.43.0


From 1eb813725ab4dc693f02361e3f640d2e47036f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:56 +0000
Subject: [PATCH 28/44] fix: do not write a configuration that cannot be read
 back

config set stored names and values that the key file cannot represent: the
next commands failed or the setting was silently lost.
---
 notmuch-config.c | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/notmuch-config.c b/notmuch-config.c
index 8123e43..b134e37 100644
--- a/notmuch-config.c
+++ b/notmuch-config.c
@@ -595,6 +595,33 @@ _set_db_config (notmuch_database_t *notmuch, const char *key, int argc, char **a
     return EXIT_SUCCESS;
 }
 
+/* Check that the item just set can be read back from the file to be
+ * written: not all names and values can be represented in one. */
+static bool
+_item_is_readable (notmuch_conffile_t *config, const char *group, const char *key)
+{
+    size_t length;
+    char *data, *value = NULL;
+    GKeyFile *written = g_key_file_new ();
+    GError *error = NULL;
+    bool ret;
+
+    data = g_key_file_to_data (config->key_file, &length, NULL);
+    if (data && g_key_file_load_from_data (written, data, length, G_KEY_FILE_NONE, &error))
+	value = g_key_file_get_string (written, group, key, &error);
+
+    ret = value && ! error;
+    if (error) {
+	fprintf (stderr, "Error: cannot store %s.%s: %s\n", group, key, error->message);
+	g_error_free (error);
+    }
+
+    g_key_file_free (written);
+    g_free (data);
+    g_free (value);
+    return ret;
+}
+
 static int
 notmuch_config_command_set (notmuch_database_t *notmuch,
 			    int argc, char *argv[])
@@ -669,7 +696,10 @@ notmuch_config_command_set (notmuch_database_t *notmuch,
 	break;
     }
 
-    ret = notmuch_conffile_save (config);
+    if (argc > 0 && ! _item_is_readable (config, group, key))
+	ret = 1;
+    else
+	ret = notmuch_conffile_save (config);
 
     notmuch_conffile_close (config);
 
-- 
2.43.0


From 2a4b55cf407b0d80a8a5217a78a89303603ca980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:56 +0000
Subject: [PATCH 29/44] fix: config commands fail if the configuration file is
 missing

---
 notmuch.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/notmuch.c b/notmuch.c
index 814b9e4..416a4a1 100644
--- a/notmuch.c
+++ b/notmuch.c
@@ -573,6 +573,7 @@ main (int argc, char *argv[])
 	case NOTMUCH_STATUS_NO_CONFIG:
 	    if (! (command->mode & NOTMUCH_COMMAND_CONFIG_CREATE)) {
 		fputs ("Try running 'notmuch setup' to create a configuration.\n", stderr);
+		ret = EXIT_FAILURE;
 		goto DONE;
 	    }
 	    break;
-- 
2.43.0


From b4038caae84f575f43453c61626b8c212dfc9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 30/44] fix: lock the database that is in place after waiting

A writer that waited for the lock held by a compaction got the lock of the
database directory that the compaction then replaced: a second writer could
open the database at the same time, and what the first one wrote was lost.
---
 lib/open.cc | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/lib/open.cc b/lib/open.cc
index 7b2b6cd..ca1c7ee 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -504,6 +504,32 @@ _ensure_index_as_text (notmuch_database_t *notmuch, char **message)
     return NOTMUCH_STATUS_SUCCESS;
 }
 
+/* Open the Xapian database at 'path' for writing.
+ *
+ * If there is a lock to wait for, it may be that of a compaction, which
+ * puts another directory in place of the one whose lock we get in the
+ * end. That one excludes nobody, so try again (without creating a
+ * database, as there was one). */
+static Xapian::WritableDatabase *
+_open_writable (const char *path)
+{
+    int action = DB_ACTION;
+
+    for (;;) {
+	struct stat before, after;
+	bool existed = (stat (path, &before) == 0);
+	Xapian::WritableDatabase *db = new Xapian::WritableDatabase (path, action);
+
+	if (! existed ||
+	    (stat (path, &after) == 0 &&
+	     before.st_dev == after.st_dev && before.st_ino == after.st_ino))
+	    return db;
+
+	delete db;
+	action |= Xapian::DB_OPEN;
+    }
+}
+
 static notmuch_status_t
 _finish_open (notmuch_database_t *notmuch,
 	      const char *profile,
@@ -522,8 +548,7 @@ _finish_open (notmuch_database_t *notmuch,
     try {
 
 	if (mode == NOTMUCH_DATABASE_MODE_READ_WRITE) {
-	    notmuch->writable_xapian_db = new Xapian::WritableDatabase (notmuch->xapian_path,
-									DB_ACTION);
+	    notmuch->writable_xapian_db = _open_writable (notmuch->xapian_path);
 	    notmuch->xapian_db = notmuch->writable_xapian_db;
 	} else {
 	    notmuch->xapian_db = new Xapian::Database (notmuch->xapian_path);
@@ -886,8 +911,7 @@ notmuch_database_reopen (notmuch_database_t *notmuch,
 	    notmuch->writable_xapian_db = NULL;
 
 	    if (new_mode == NOTMUCH_DATABASE_MODE_READ_WRITE) {
-		notmuch->writable_xapian_db = new Xapian::WritableDatabase (notmuch->xapian_path,
-									    DB_ACTION);
+		notmuch->writable_xapian_db = _open_writable (notmuch->xapian_path);
 		notmuch->xapian_db = notmuch->writable_xapian_db;
 	    } else {
 		notmuch->xapian_db = new Xapian::Database (notmuch->xapian_path,
-- 
2.43.0


From e694adb57780bb0a27cf8447f281791bfc9344ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 31/44] fix: do not create a database while another one is
 being compacted

Between the two renames of a compaction there is no database directory, and
notmuch new created an empty database (which made the compaction fail).
---
 lib/open.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/open.cc b/lib/open.cc
index ca1c7ee..7371b27 100644
--- a/lib/open.cc
+++ b/lib/open.cc
@@ -843,6 +843,19 @@ notmuch_database_create_with_config (const char *database_path,
 
     if (message)
 	free (message);
+    message = NULL;
+
+    /* A compaction that has moved the database away, but has not put
+     * the compacted one in its place (yet). */
+    if (access (notmuch->xapian_path, F_OK) != 0 &&
+	access (talloc_asprintf (notmuch, "%s.compact", notmuch->xapian_path), F_OK) == 0) {
+	IGNORE_RESULT (asprintf (&message,
+				 "Error: %s.compact exists: not creating a database\n"
+				 "       while another one is being compacted (or was, before an interruption).\n",
+				 notmuch->xapian_path));
+	status = NOTMUCH_STATUS_FILE_ERROR;
+	goto DONE;
+    }
 
     status = _finish_open (notmuch,
 			   profile,
-- 
2.43.0


From 6155a4238dd14d5f077e82cf9e692c791d3a0ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 32/44] fix: no partial list of the file names of a message

If making the list failed (another process has changed the database), the
next call returned the part made so far, and with truncated terms.
---
 lib/message.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/message.cc b/lib/message.cc
index b78ae7b..4ee9aff 100644
--- a/lib/message.cc
+++ b/lib/message.cc
@@ -1079,13 +1079,16 @@ static void
 _notmuch_message_ensure_filename_list (notmuch_message_t *message)
 {
     notmuch_string_node_t *node;
+    notmuch_string_list_t *filename_list;
 
     if (message->filename_list)
 	return;
 
     _notmuch_message_ensure_metadata (message, message->filename_term_list);
 
-    message->filename_list = _notmuch_string_list_create (message);
+    /* The message gets the list when it is complete, so that nobody
+     * sees part of it after an exception. */
+    filename_list = _notmuch_string_list_create (message);
     node = message->filename_term_list->head;
 
     if (! node) {
@@ -1102,7 +1105,9 @@ _notmuch_message_ensure_filename_list (notmuch_message_t *message)
 	if (data == NULL)
 	    INTERNAL_ERROR ("message with no filename");
 
-	_notmuch_string_list_append (message->filename_list, data);
+	_notmuch_string_list_append (filename_list, data);
+
+	message->filename_list = filename_list;
 
 	return;
     }
@@ -1122,8 +1127,6 @@ _notmuch_message_ensure_filename_list (notmuch_message_t *message)
 
 	basename = colon + 1;
 
-	*colon = '\0';
-
 	db_path = notmuch_config_get (message->notmuch, NOTMUCH_CONFIG_MAIL_ROOT);
 
 	directory = _notmuch_database_get_directory_path (local,
@@ -1137,11 +1140,13 @@ _notmuch_message_ensure_filename_list (notmuch_message_t *message)
 	    filename = talloc_asprintf (message, "%s/%s",
 					db_path, basename);
 
-	_notmuch_string_list_append (message->filename_list, filename);
+	_notmuch_string_list_append (filename_list, filename);
 
 	talloc_free (local);
     }
 
+    message->filename_list = filename_list;
+
     talloc_free (message->filename_term_list);
     message->filename_term_list = NULL;
 }
-- 
2.43.0


From 5a612df9dbb852b67e93adcdc221d01215268d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:20 +0000
Subject: [PATCH 33/44] fix: catch Xapian exceptions when reading message
 properties

Reading the properties of a message that another process has removed ended
the calling process with an uncaught exception.
---
 lib/message-property.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/lib/message-property.cc b/lib/message-property.cc
index 166a8d1..41d7bcd 100644
--- a/lib/message-property.cc
+++ b/lib/message-property.cc
@@ -45,7 +45,12 @@ notmuch_message_get_property (notmuch_message_t *message, const char *key, const
     if (! value)
 	return NOTMUCH_STATUS_NULL_POINTER;
 
-    *value = _notmuch_string_map_get (_notmuch_message_property_map (message), key);
+    try {
+	*value = _notmuch_string_map_get (_notmuch_message_property_map (message), key);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
 
     return NOTMUCH_STATUS_SUCCESS;
 }
@@ -58,7 +63,12 @@ notmuch_message_count_properties (notmuch_message_t *message, const char *key, u
 
     notmuch_string_map_t *map;
 
-    map = _notmuch_message_property_map (message);
+    try {
+	map = _notmuch_message_property_map (message);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NOTMUCH_STATUS_XAPIAN_EXCEPTION;
+    }
     if (! map)
 	return NOTMUCH_STATUS_NULL_POINTER;
 
@@ -181,14 +191,19 @@ notmuch_message_get_properties (notmuch_message_t *message, const char *key, not
 {
     notmuch_string_map_t *map;
 
-    map = _notmuch_message_property_map (message);
+    try {
+	map = _notmuch_message_property_map (message);
+    } catch (const Xapian::Error &error) {
+	LOG_XAPIAN_EXCEPTION (message, error);
+	return NULL;
+    }
     return _notmuch_string_map_iterator_create (map, key, exact);
 }
 
 notmuch_bool_t
 notmuch_message_properties_valid (notmuch_message_properties_t *properties)
 {
-    return _notmuch_string_map_iterator_valid (properties);
+    return properties && _notmuch_string_map_iterator_valid (properties);
 }
 
 void
-- 
2.43.0


From c35d8f623709900450e0122b536296e266f5b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:12 +0000
Subject: [PATCH 34/44] fix: notmuch-git: status without an upstream branch

Current versions of git write "no upstream configured" in lower case, so
"notmuch git status" failed in a repository that has no upstream yet.
---
 notmuch-git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index 97073c8..dbb8c87 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -689,7 +689,7 @@ def _is_unmerged(ref='@{upstream}'):
             args=['rev-parse', ref],
             stdout=_subprocess.PIPE, stderr=_subprocess.PIPE, wait=True)
     except SubprocessError as e:
-        if 'No upstream configured' in e.stderr:
+        if 'no upstream configured' in e.stderr.lower():
             return
         raise
     (status, base, stderr) = _git(
-- 
2.43.0


From b30ca4ce92638419b0fac7d03c80f78a3c9f3b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:38 +0000
Subject: [PATCH 35/44] fix: notmuch-git: recognize unknown messages without
 the bindings

When the Python bindings are not available, every message was taken to be
known: the output of "notmuch search" is never None. Messages that are
not in the database were then reported as deleted, and committing
dropped their tags from the repository.
---
 notmuch-git.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index dbb8c87..ff4d9ac 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -718,10 +718,10 @@ class DatabaseCache:
                 self._known[id] = False
         else:
             (_, stdout, stderr) = _spawn(
-                args=['notmuch', 'search', '--exclude=false', '--output=files', 'id:{0}'.format(id)],
+                args=['notmuch', 'search', '--exclude=false', '--output=files', 'id:{0}'.format(_xapian_quote(id))],
                 stdout=_subprocess.PIPE,
                 wait=True)
-            self._known[id] = stdout != None
+            self._known[id] = stdout != ''
         return self._known[id]
 
 @timed
-- 
2.43.0


From 34052af29df639d1ceba1505ff9f178180c02481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:38 +0000
Subject: [PATCH 36/44] fix: notmuch-git: do not miss changes made during an
 update of the index

The revision recorded with the private index was read after the dump, so
that a change of tags between the two was never noticed.
---
 notmuch-git.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index ff4d9ac..138f1fd 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -768,9 +768,8 @@ class PrivateIndex:
 
     def __exit__(self, type, value, traceback):
         checksum = _read_index_checksum(self.index_path)
-        (count, uuid, lastmod) = _read_database_lastmod()
         with open(self.cache_path, "w") as f:
-            _json.dump({'prefix': self.current_prefix, 'uuid': uuid, 'lastmod': lastmod,  'checksum': checksum }, f)
+            _json.dump({'prefix': self.current_prefix, 'uuid': self.current_uuid, 'lastmod': self.current_lastmod,  'checksum': checksum }, f)
 
     def _load_cache_file(self):
         try:
@@ -836,7 +835,10 @@ class PrivateIndex:
 
         query = _tag_query()
         clear_tags = False
+        # read before the tags are, so that later changes are seen next time
         (count,uuid,lastmod) = _read_database_lastmod()
+        self.current_uuid = uuid
+        self.current_lastmod = lastmod
         if self.prefix == self.current_prefix and self.uuid \
            and self.uuid == uuid and self.checksum == current_checksum:
             query = '(and (infix "lastmod:{:d}..")) {:s})'.format(self.lastmod+1, query)
-- 
2.43.0


From 5f8163da44866003837478773a3d7dae56a9515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:38 +0000
Subject: [PATCH 37/44] fix: notmuch-git: clone: create the empty blob

The first commit in a clone of a repository without any tags failed,
because the blob used for tags was missing.
---
 notmuch-git.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/notmuch-git.py b/notmuch-git.py
index 138f1fd..8b44e0d 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -291,6 +291,8 @@ def clone(repository):
             wait=True)
     _git(args=['config', '--unset', 'core.worktree'], wait=True, expect=(0, 5))
     _git(args=['config', 'core.bare', 'true'], wait=True)
+    # create an empty blob (the clone has one only if there are tags in it)
+    _git(args=['hash-object', '-w', '--stdin'], input='', stdout=_subprocess.PIPE, wait=True)
     (status, stdout, stderr) = _git(args=['show-ref', '--verify',
                                           '--quiet',
                                           'refs/remotes/origin/config'],
-- 
2.43.0


From 2f651c9477deeb3dcd09f1a128d7c6a816520fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 38/44] fix: notmuch-git: rebuild the private index for another
 database

If the database was replaced by one with another UUID, all of its tags
were added to the private index, but those that only the old database had
were left in it.
---
 notmuch-git.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index 8b44e0d..9da0bdb 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -829,18 +829,19 @@ class PrivateIndex:
         "Write notmuch tags to private git index."
         prefix = '+{0}'.format(_ENCODED_TAG_PREFIX)
         current_checksum = _read_index_checksum(self.index_path)
+        # read before the tags are, so that later changes are seen next time
+        (count,uuid,lastmod) = _read_database_lastmod()
+        self.current_uuid = uuid
+        self.current_lastmod = lastmod
         if (self.prefix == None or self.prefix != self.current_prefix
-            or self.checksum == None or self.checksum != current_checksum):
+            or self.checksum == None or self.checksum != current_checksum
+            or self.uuid != uuid):
             _git(
                 args=['read-tree', '--empty'],
                 additional_env={'GIT_INDEX_FILE': self.index_path}, wait=True)
 
         query = _tag_query()
         clear_tags = False
-        # read before the tags are, so that later changes are seen next time
-        (count,uuid,lastmod) = _read_database_lastmod()
-        self.current_uuid = uuid
-        self.current_lastmod = lastmod
         if self.prefix == self.current_prefix and self.uuid \
            and self.uuid == uuid and self.checksum == current_checksum:
             query = '(and (infix "lastmod:{:d}..")) {:s})'.format(self.lastmod+1, query)
-- 
2.43.0


From d44363dd01c76809726dae1640b9a74778087680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 39/44] fix: notmuch-git: do not commit tags of messages that
 have been removed

A message removed from the database remains in the private index, so that
its uncommitted tags could still be committed.
---
 notmuch-git.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/notmuch-git.py b/notmuch-git.py
index 9da0bdb..ca4cfdc 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -741,6 +741,10 @@ def get_status():
             else:
                 status['missing'][id] = tags
         status['added'] = index.diff(filter='A')
+        if index.incremental:
+            # the index may have messages that were removed since
+            for id in [id for id in status['added'] if not db.known(id)]:
+                del status['added'][id]
 
     return status
 
@@ -763,6 +767,7 @@ class PrivateIndex:
         self.checksum = None
         self._load_cache_file()
         self.file_tree = None
+        self.incremental = False
         self._index_tags()
 
     def __enter__(self):
@@ -846,6 +851,7 @@ class PrivateIndex:
            and self.uuid == uuid and self.checksum == current_checksum:
             query = '(and (infix "lastmod:{:d}..")) {:s})'.format(self.lastmod+1, query)
             clear_tags = True
+            self.incremental = True
         with _spawn(
                 args=['notmuch', 'dump', '--format=batch-tag', '--query=sexp', '--', query],
                 stdout=_subprocess.PIPE) as notmuch:
-- 
2.43.0


From be79591eaac7cbd18fb65b9ea93049c1be0223b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 40/44] fix: notmuch-git: find tags with a prefix that notmuch
 quotes differently

notmuch dump writes "~" as %7e, but Python's quote() leaves it alone, so
that tags with such a prefix were never recognized.
---
 notmuch-git.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index ca4cfdc..4c1ff67 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -832,7 +832,6 @@ class PrivateIndex:
     @timed
     def _index_tags(self):
         "Write notmuch tags to private git index."
-        prefix = '+{0}'.format(_ENCODED_TAG_PREFIX)
         current_checksum = _read_index_checksum(self.index_path)
         # read before the tags are, so that later changes are seen next time
         (count,uuid,lastmod) = _read_database_lastmod()
@@ -864,9 +863,9 @@ class PrivateIndex:
                         continue
                     (tags_string, id) = [_.strip() for _ in line.split(' -- id:')]
                     tags = [
-                        _unquote(tag[len(prefix):])
-                        for tag in tags_string.split()
-                        if tag.startswith(prefix)]
+                        tag[len(TAG_PREFIX):]
+                        for tag in (_unquote(tag[1:]) for tag in tags_string.split())
+                        if tag.startswith(TAG_PREFIX)]
                     id = _xapian_unquote(string=id)
                     if clear_tags:
                         for line in self._clear_tags_for_message(id=id):
-- 
2.43.0


From 0a163dac7b578edf9b6239c456d51b974e88abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:27 +0000
Subject: [PATCH 41/44] fix: notmuch-git: split lines at newlines only

The reader for the output of subprocesses also took U+2028 and the like,
which message ids may contain, for the end of a line.
---
 notmuch-git.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index 4c1ff67..a53dad8 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -27,6 +27,7 @@ import codecs as _codecs
 import collections as _collections
 import functools as _functools
 import inspect as _inspect
+import io as _io
 import locale as _locale
 import logging as _logging
 import os as _os
@@ -198,11 +199,11 @@ def _spawn(args, input=None, additional_env=None, wait=False, stdin=None,
         p.stdin = None
     if p.stdin:
         p.stdin = _codecs.getwriter(encoding=encoding)(stream=p.stdin)
-    stream_reader = _codecs.getreader(encoding=encoding)
+    # (a codecs reader would also split lines at e.g. U+2028)
     if p.stdout:
-        p.stdout = stream_reader(stream=p.stdout)
+        p.stdout = _io.TextIOWrapper(p.stdout, encoding=encoding, newline='\n')
     if p.stderr:
-        p.stderr = stream_reader(stream=p.stderr)
+        p.stderr = _io.TextIOWrapper(p.stderr, encoding=encoding, newline='\n')
     return _SubprocessContextManager(args=args, process=p, expect=expect)
 
 
-- 
2.43.0


From f815e282e8cad8e16247dacb6e0ceb5c2f33b778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:45 +0000
Subject: [PATCH 42/44] fix: notmuch-git: escape backslashes of the prefix in
 queries

---
 notmuch-git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index a53dad8..5065431 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -239,7 +239,7 @@ def _get_remote():
 def _tag_query(prefix=None):
     if prefix is None:
         prefix = TAG_PREFIX
-    return '(tag (starts-with "{:s}"))'.format(prefix.replace('"','\\\"'))
+    return '(tag (starts-with "{:s}"))'.format(prefix.replace('\\','\\\\').replace('"','\\"'))
 
 def count_messages(prefix=None):
     "count messages with a given prefix."
-- 
2.43.0


From 87530739fd1b53325a55bdd99b56d7cff1728489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:13 +0000
Subject: [PATCH 43/44] fix: notmuch-git: status: do not let git look for
 renames

All files in the repository are empty, so that a tag removed from one
message and another one added elsewhere were taken for a renamed file,
and neither was shown by "notmuch git status".
---
 notmuch-git.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notmuch-git.py b/notmuch-git.py
index 5065431..27a3632 100644
--- a/notmuch-git.py
+++ b/notmuch-git.py
@@ -948,7 +948,7 @@ def _index_tags_for_message(id, status, tags):
 
 def _diff_refs(filter, a='HEAD', b='@{upstream}'):
     with _git(
-            args=['diff', '--diff-filter', filter, '--name-only', a, b],
+            args=['diff', '--no-renames', '--diff-filter', filter, '--name-only', a, b],
             stdout=_subprocess.PIPE) as p:
         # Once we drop Python < 3.3, we can use 'yield from' here
         for id, tag in _unpack_diff_lines(stream=p.stdout):
-- 
2.43.0


From 659599b24909eaa722a23c7a2c8a2adc5a39c423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:13 +0000
Subject: [PATCH 44/44] fix: build: allow building again after notmuch-git.py
 changed

"ln -s" failed because the link was there already.
---
 Makefile.local | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Makefile.local b/Makefile.local
index 7699c20..89bc63f 100644
--- a/Makefile.local
+++ b/Makefile.local
@@ -52,7 +52,7 @@ notmuch-git: notmuch-git.py
 
 CLEAN := $(CLEAN) nmbug
 nmbug: notmuch-git
-	ln -s $< $@
+	ln -sf $< $@
 
 .PHONY: dist
 dist: $(TAR_FILE)
-- 
2.43.0

