#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept as a script so that the list is easy to review and edit.
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

prop("P01", "A finished scan makes the index agree with the mail tree",
 "After `notmuch new` finishes without error on a mail tree that nobody is changing meanwhile (and where every change since the last scan gave the directory it happened in another time stamp, or a full scan is asked for), the index knows exactly those e-mail files of the tree that the ignore settings do not hide, each filed under the message named by its Message-ID, whatever sequence of file and directory additions, deletions, renames, moves and earlier scans came before. A message that had a file before and still has one (possibly renamed or elsewhere) keeps its tags, except those that flag synchronisation sets, and stays in one thread with the messages it was in one thread with; a message seen for the first time gets the configured new tags and otherwise only those derived from its flags and parts; a message without any file left is gone. What another program changes in the tree while a scan is running is not lost: the next scan of the then quiet tree notices it.",
 ["histories", "inputs", "configurations", "schedules"],
 "every history of file-system changes (files and whole directories added, removed, renamed, moved, touched; several files per message; maildir and plain directories) interleaved with scans, for every ignore/new-tags setting",
 "The tests replay a few dozen fixed scripts, each with one change between two scans; they cannot cover the combinations of directory times, nesting, duplicates, and removals plus additions in one scan that decide whether a directory is skipped or a file is taken as deleted.",
 ["notmuch-new.c", "lib/directory.cc", "lib/database.cc", "lib/message.cc", "lib/add-message.cc"],
 [("three-way merge of sorted directory listings and database listings", "notmuch-new.c add_files"),
  ("directory time stamps decide whether a directory may be skipped", "notmuch-new.c add_files, lib/directory.cc"),
  ("removals are queued and applied after all additions so that a rename keeps the message", "notmuch-new.c notmuch_new_command, remove_filename, _remove_directory")],
 [("directory documents with time stamps", "what the last scan saw", "lib/directory.cc")],
 ["notmuch search --output=files/messages", "notmuch_message_get_filenames"])

prop("P02", "A killed or interrupted scan loses nothing and the next one completes it",
 "If `notmuch new` is stopped at any point - by SIGINT, by being killed before or within any of its changes to the database files, or by one of these failing - the database still opens, every message in it is either as it was before the scan or as a completed scan would have left it, and no tag or property of a message whose file still exists is lost. Running `notmuch new` again afterwards yields the same files, messages, tags, properties and grouping into threads as an uninterrupted scan.",
 ["crash_points", "histories"],
 "every point of a scan's sequence of writes, renames, unlinks and syncs, and every message boundary for SIGINT, for every pending set of file-system changes",
 "One test (T380) stops at message-related break points under gdb for one tree and compares only message counts; it does not check tags, removals, directory removals, time stamps or recovery from arbitrary write boundaries.",
 ["notmuch-new.c", "lib/add-message.cc", "lib/message.cc", "lib/database.cc", "lib/directory.cc"],
 [("each file is indexed and tagged inside one atomic section", "notmuch-new.c add_file"),
  ("removal of one file is one atomic section", "notmuch-new.c remove_filename"),
  ("directory time stamps are written only after everything else, and not at all after an interruption", "notmuch-new.c notmuch_new_command"),
  ("additions come before removals", "notmuch-new.c notmuch_new_command")],
 (), ["notmuch search", "notmuch dump"])

prop("P03", "Changes inside an atomic section appear all together or not at all",
 "Modifications grouped between the begin and the matching outermost end of an atomic section are seen by any other process, and survive a crash or a close, either all or none; with nested sections only the outermost end publishes them, and an end without a begin is refused. A section abandoned by closing or reopening the database leaves the database as it was when the section began (or at the last commit before that), and one cut short by a crash at any point leaves exactly a committed state from before it.",
 ["crash_points", "histories", "schedules"],
 "every sequence of modifications (adding, removing, tagging, properties, directories, nested sections, reopening), every crash or close position, every moment at which another process reads",
 "The tests call the atomic functions for a couple of fixed sequences, and look at the final database only.",
 ["lib/database.cc", "lib/message.cc", "lib/open.cc", "lib/add-message.cc"],
 [("nesting counter around one Xapian transaction", "lib/database.cc notmuch_database_begin_atomic/end_atomic"),
  ("close discards an open transaction", "lib/database.cc notmuch_database_close")],
 [("atomic_nesting, atomic_dirty", "open sections, pending revision", "lib/database-private.h")],
 ["a second, freshly opened database handle"])

prop("P04", "Threads are the connected components of the reference graph",
 "Two messages of the database have the same thread if and only if they are connected by References and In-Reply-To links, including links through messages that are not in the database (or not yet, or no longer while the thread still has a message), regardless of the order in which the messages arrived and of how many files each has. Adding a message joins all threads it links into one, without splitting or renaming any other thread.",
 ["inputs", "histories"],
 "every set of messages with arbitrary References/In-Reply-To headers (missing, repeated, self-referential, cyclic, over-long or oddly written ids), every arrival order, every split into several scans",
 "The tests use a few hand-made chains and one exhaustive 4-node tree corpus; arbitrary graphs, orders, removals and duplicates are not reached.",
 ["lib/add-message.cc", "lib/message.cc", "lib/message-id.c", "lib/database.cc"],
 [("linking to parents, with ghost documents for absent ones", "lib/add-message.cc _notmuch_database_link_message_to_parents"),
  ("linking to already present children", "lib/add-message.cc _notmuch_database_link_message_to_children"),
  ("merging two threads rewrites every message of the losing one", "lib/add-message.cc _merge_threads")],
 [("ghost documents", "referenced but absent messages that hold a thread together", "lib/message.cc")],
 ["notmuch_message_get_thread_id", "thread: queries"])

prop("P05", "A thread shows each message exactly once, under its parent",
 "For every thread and every query, walking the reply tree from the top-level messages visits every message of the thread exactly once and ends, even for cyclic or self-referring headers. A message stands under the message its headers name as its parent when that one is in the thread, otherwise under its nearest referenced ancestor present, and is top-level only if it has none (or as the one chosen to break a cycle); siblings are in date order, and the thread's match and total counts, tags, subject, and oldest and newest dates agree with its messages.",
 ["inputs", "histories"],
 "every shape of thread with up to a dozen messages: missing ancestors, contradictory References and In-Reply-To, cycles, equal dates, every subset matched, every sort order",
 "Tests check a handful of shapes and one exhaustive enumeration of plain 4-node trees with consistent headers.",
 ["lib/thread.cc", "lib/query.cc", "lib/message.cc", "lib/messages.c"],
 [("resolution of parents by In-Reply-To, then by references and depth", "lib/thread.cc _resolve_thread_relationships, _parent_or_toplevel"),
  ("one list insertion per message", "lib/thread.cc _thread_add_message, _parent_via_in_reply_to")],
 (), ["notmuch_thread_get_toplevel_messages", "notmuch show --format=json"])

prop("P06", "One message per Message-ID, alive exactly while it has a file",
 "All files that carry the same Message-ID form one message, adding such a file is reported as a duplicate, and the message lists exactly the files added and not removed. Removing a file leaves the message with its tags, properties and thread until the last file is removed; then the message alone disappears from every query, the rest of its thread stays together, and the same message added again later rejoins that thread without its old tags and properties.",
 ["histories", "inputs"],
 "every history of adding and removing files for every assignment of files to messages, incl. absent, over-long and odd Message-IDs, and of lookups by id and by file name",
 "The tests cover one or two duplicates and a few removal scripts (T670), not the interplay of duplicates, threads and re-addition.",
 ["lib/add-message.cc", "lib/message.cc", "lib/database.cc", "lib/message-file.c", "lib/message-id.c"],
 [("find-or-create by id term", "lib/database.cc/message.cc _notmuch_message_create_for_message_id"),
  ("deleting leaves a ghost while the thread has other mail", "lib/message.cc _notmuch_message_delete"),
  ("file names are terms made of directory document and base name", "lib/message.cc, lib/directory.cc")],
 (), ["notmuch_database_index_file status", "find_message", "find_message_by_filename"])

prop("P07", "Tagging changes exactly the matching messages, exactly as asked",
 "`notmuch tag`, on the command line or from a batch, leaves every message matching the query of each line with its former tags changed by the listed additions and removals in the order written (after clearing them if all tags are to be removed), and leaves every other message untouched; the lines of a batch take effect one after the other. This holds for both query syntaxes and for any legal tag names, and afterwards tag queries, tag listings and the messages' own tag sets agree.",
 ["inputs", "histories"],
 "every initial tagging of a set of messages, every query, every list of +/- operations (repeated, contradicting, with unusual characters), every batch, both query syntaxes",
 "The tests try single fixed commands; the optimisation that skips messages the operations would not change, the order of contradicting operations and batch interplay are sampled at a few points only.",
 ["notmuch-tag.c", "tag-util.c", "lib/message.cc", "lib/tags.c", "lib/database.cc"],
 [("query narrowed to messages that need a change", "notmuch-tag.c _optimize_tag_query"),
  ("operations applied in order between freeze and thaw", "tag-util.c tag_op_list_apply"),
  ("batch line parser and hex decoding", "tag-util.c parse_tag_line")],
 (), ["notmuch_message_get_tags", "tag: queries", "notmuch search --output=tags"])

prop("P08", "The revision counter orders all committed modifications",
 "The database revision never decreases, during and across writing sessions, and each committed modification of a message (or outermost atomic section containing modifications) gives the messages it modified a revision greater than any before, so that a lastmod range query from a previously noted revision returns exactly the messages modified since then. Reading, refused operations and abandoned sections leave the revision and every message's last-modification mark unchanged, no message other than those modified is ever marked, and the database keeps its identity string.",
 ["histories", "crash_points"],
 "every history of adds, tag changes, property changes, frozen groups, atomic sections, removals, reopenings",
 "T570 checks a few fixed values after single commands.",
 ["lib/database.cc", "lib/message.cc", "lib/open.cc", "lib/lastmod-fp.cc"],
 [("new revision per modification or atomic section", "lib/database.cc _notmuch_database_new_revision, end_atomic"),
  ("last modification value stored on sync", "lib/message.cc _notmuch_message_sync")],
 [("revision, LAST_MOD value slot", "change counter", "lib/database-private.h")],
 ["notmuch_database_get_revision", "lastmod: queries", "notmuch count --lastmod"])

prop("P09", "Maildir flags and tags mirror each other without losing anything",
 "With flag synchronisation on, tagging through `notmuch tag` (and, on request, insert and restore) renames exactly the maildir files of the tagged messages so that their draft, flagged, passed, replied and seen flags equal the corresponding tags, keeps every other flag and the unique part of the name, never overwrites or drops a file, moves a file from new to cur only when it needs flags, and leaves files outside maildirs alone. In the other direction a scan sets those tags of a message to the union of the flags over all its maildir files without changing any other tag, and the file names in the index follow every rename.",
 ["inputs", "histories"],
 "every combination of the five flags, other flags, missing or malformed info part, files in new, cur and outside maildirs, several files per message, every tag change, every order of external renames and scans",
 "T340 tries some twenty single scenarios of the several hundred combinations.",
 ["lib/message.cc", "notmuch-new.c", "notmuch-tag.c", "tag-util.c", "notmuch-insert.c"],
 [("tags to flags with rename", "lib/message.cc notmuch_message_tags_to_maildir_flags, _new_maildir_filename"),
  ("flags to tags over all file names", "lib/message.cc notmuch_message_maildir_flags_to_tags, _ensure_maildir_flags")],
 (), ["file names on disk and in the index", "tags"])

prop("P10", "Delivery with insert is durable, complete, contained, or reported",
 "If `notmuch insert` reports success, the complete message lies under a fresh name in the new directory of the requested folder inside the mail root, made durable before and after it became visible there, and is indexed with the configured and requested tags (or, as a further copy of a known message, with that message's tags unchanged); no existing file is touched. If it reports failure, without the keep option, the mail tree and index have no trace of it (unless removing the file fails too, which is reported); it never creates anything outside the mail root, and at no point does an incomplete message appear under its final name.",
 ["crash_points", "fault_sequences", "inputs"],
 "every failing or crashing file-system operation during delivery, every folder argument (dot-dot parts, missing folders, with and without --create-folder), all option combinations, new and duplicate messages",
 "T070 checks successful deliveries and a few injected library errors under gdb, and no ordering of syncs and renames, no crash points.",
 ["notmuch-insert.c", "tag-util.c", "hooks.c"],
 [("write to tmp, sync, rename to new, sync directory, then index", "notmuch-insert.c maildir_write_new, notmuch_insert_command"),
  ("folder check", "notmuch-insert.c is_valid_folder_name"),
  ("undo on indexing failure", "notmuch-insert.c add_file, notmuch_insert_command")],
 (), ["system calls of the process", "mail tree", "notmuch search"])

prop("P11", "Dump and restore are exact inverses",
 "A dump lists every message matching its query once with exactly its tags, every one with properties with exactly these, and every setting stored in the database, in the parts chosen by the include option. Restoring it, into any database, gives every message it names exactly the dumped tags (with accumulation: these besides those it has), every message whose properties it lists exactly these properties, and every setting in it the dumped value, whatever they were before, for any ids, tags, keys and values; everything else stays as it was, including the parts left out by the include option. Lines about messages that are not in the database, comments and tag lines that make no sense are skipped without affecting the others, and a dump to a file either replaces it completely or reports failure and leaves it as it was.",
 ["inputs", "histories", "crash_points"],
 "every pair of database states (dumped and restored into), all formats and include options, all byte strings as tags, property values and configuration values, ids with unusual characters, malformed lines, every failing write",
 "The tests do a few random corpora of tags and ids and fixed property examples; they do not vary the target state, the include combination, properties with odd bytes, or crash points.",
 ["notmuch-dump.c", "notmuch-restore.c", "tag-util.c", "util/hex-escape.c", "lib/message-property.cc", "lib/config.cc"],
 [("hex encoding of tags, keys and values", "util/hex-escape.c"),
  ("temporary file, sync, rename", "notmuch-dump.c notmuch_database_dump"),
  ("remove all then add", "notmuch-restore.c, tag-util.c TAG_FLAG_REMOVE_ALL")],
 (), ["notmuch dump", "tags and properties through the library"])

prop("P12", "A query returns exactly the messages its boolean meaning selects",
 "For every combination by and, or, not, xor and nesting of terms over id, thread, tag, folder, path, property, is-part-of subject or sender, date range, last-modification range, saved query and all-messages, a search returns exactly the messages whose current data satisfy it, each once. The s-expression and the infix form of the same query return the same messages.",
 ["inputs", "histories"],
 "every database state reached by additions, removals and tag changes, and every query tree over its terms up to a depth bound, in both syntaxes, with term values that need quoting",
 "The tests run some hundred literal queries on one fixed corpus and compare with stored output.",
 ["lib/query.cc", "lib/parse-sexp.cc", "lib/open.cc", "lib/query-fp.cc", "lib/thread-fp.cc", "lib/regexp-fields.cc", "lib/lastmod-fp.cc", "lib/parse-time-vrp.cc", "lib/prefix.cc"],
 [("query parser configuration", "lib/open.cc, lib/prefix.cc, lib/query.cc"),
  ("s-expression translation", "lib/parse-sexp.cc"),
  ("restriction to mail documents", "lib/query.cc _notmuch_query_search_documents")],
 (), ["notmuch search --output=messages", "notmuch_query_search_messages"])

prop("P13", "Exclusion, ordering, paging and counts are consistent with one search",
 "For any query, exclude tags, sort order, offset and limit: excluded messages are hidden, flagged or kept exactly as the chosen mode says and never when the query itself names the tag; results come in the promised date order; paging with offset and limit yields the corresponding slice of the full result; and the counts of messages, threads and files equal the number of results of the corresponding search. Threads listed are exactly those with a matching message, in order of their first match, each once.",
 ["inputs", "histories", "configurations"],
 "every database of a bounded number of messages, every tagging and threading, every exclude configuration and mode, every sort order, every offset (negative too) and limit",
 "Tests check fixed corpora and a few offsets; consistency between count and search under every exclusion mode is not stated.",
 ["lib/query.cc", "lib/thread.cc", "notmuch-search.c", "notmuch-count.c", "notmuch-show.c"],
 [("exclude query", "lib/query.cc _notmuch_exclude_tags, _notmuch_query_search_documents"),
  ("paging loops", "notmuch-search.c, notmuch-show.c"),
  ("thread enumeration by match set", "lib/query.cc notmuch_query_search_threads, notmuch_threads_get")],
 (), ["notmuch search", "notmuch count"])

prop("P14", "folder: and path: always reflect where a message's files are now",
 "At every moment a message matches an exact folder or path query if and only if one of its current files lies in that directory (for folder, with a final cur or new dropped), and a recursive path query if and only if one lies in or below it. This stays true through every addition, removal, rename, flag synchronisation, duplicate, directory move and re-indexing.",
 ["histories", "inputs"],
 "every history of moves over a nested tree with maildirs, messages with several files, names with spaces, dots and non-ASCII characters, files at the top level",
 "Tests move a message once or twice; stale location terms after combined operations and duplicates are not reached.",
 ["lib/message.cc", "lib/directory.cc", "lib/add-message.cc"],
 [("location terms added per file name", "lib/message.cc _notmuch_message_add_folder_terms, _notmuch_message_add_path_terms"),
  ("recomputed when a file name goes", "lib/message.cc _notmuch_message_remove_filename")],
 (), ["folder: and path: queries"])

prop("P15", "Compaction changes nothing but size, and a failure never loses the database",
 "Compacting a database leaves every message, tag, property, thread, directory record, configuration value and the revision unchanged, and with a backup requested leaves the old database complete at the backup path. If it is refused, fails, or is killed at any point, a complete copy of the database still exists, nothing that existed at the backup path has been overwritten, and the mail files are untouched.",
 ["crash_points", "fault_sequences", "histories"],
 "every database state, every file-system operation of the compaction as the one that fails or is the last before the kill, with and without backup path, backup path existing or not",
 "T480 compacts one database twice and never fails or kills it.",
 ["lib/database.cc", "notmuch-compact.c"],
 [("compact into a fresh directory and swap by renames", "lib/database.cc notmuch_database_compact_db")],
 (), ["notmuch dump", "directory listing"])

prop("P16", "Readers see consistent committed states, and there is one writer",
 "At any time at most one process has the database open for writing; another that tries either waits or fails without changing anything. A reader sees the messages of one committed state of the database, never part of an atomic section or of another process's uncommitted work; later states become visible by reopening (settings are those at the time of opening), a reader overtaken by commits that asks again gets the data of a committed state or an error but never wrong data, and no committed modification of the database is lost through concurrent commands.",
 ["schedules", "histories"],
 "every interleaving of a bounded number of writer steps (modify, begin, end, close, crash) with reader steps (open, query, reopen), and concurrent tag/new/insert commands on the same database",
 "Tests check one lock-retry case and no interleavings.",
 ["lib/open.cc", "lib/database.cc", "lib/query.cc", "notmuch-new.c", "notmuch-tag.c"],
 [("Xapian write lock and retry flag", "lib/open.cc"),
  ("reopen", "lib/open.cc notmuch_database_reopen"),
  ("lock dropped around the hooks", "notmuch-new.c")],
 (), ["library handles in several processes", "notmuch commands run in parallel"])

prop("P17", "Configuration lookups obey the documented precedence, writes are exact",
 "A configuration value read by any command comes from the configuration file if it sets the key, otherwise from the values stored in the database, otherwise from the documented default, and the file and database used are those chosen by explicit argument, environment, profile, and standard locations in the documented order. Setting or clearing a key in the file or the database makes exactly that key read back as the value given (single or list), or is refused and changes nothing, and leaves every other key, and the file's comments, as they were.",
 ["configurations", "inputs", "histories"],
 "every combination of set/unset environment variables, files and database values, every sequence of set, clear, get and list over keys of all groups and values with special characters",
 "T030/T055/T590 check some ten layouts and one value each.",
 ["notmuch-config.c", "lib/config.cc", "lib/open.cc"],
 [("layered loading", "lib/open.cc, lib/config.cc _notmuch_config_load_from_database/_file/_defaults"),
  ("rewriting the key file atomically", "notmuch-config.c notmuch_conffile_save")],
 (), ["notmuch config get/list", "notmuch_config_get"])

prop("P18", "Message properties behave as a per-message multimap",
 "Adding, removing, prefix-removing and clearing properties changes exactly the named (key, value) pairs of exactly that message: a key may hold several distinct values, adding one twice has no effect, and other messages, tags and threads are untouched. Iteration and counting by key, exact or by prefix, lookup, property queries and a freshly opened handle all agree with that at every moment, also within atomic sections and for frozen messages.",
 ["histories", "inputs"],
 "every sequence of property operations over several messages, keys that are prefixes of each other, values with separators, empty and long values, interleaved with tagging, freezing, reopening",
 "T610 runs one fixed program.",
 ["lib/message-property.cc", "lib/message.cc", "lib/string-map.c"],
 [("one term per pair", "lib/message-property.cc"),
  ("cached property map invalidated on change", "lib/message-property.cc, lib/message.cc"),
  ("prefix and exact iteration", "lib/string-map.c")],
 (), ["notmuch_message_get_properties", "property: queries"])

prop("P19", "Re-indexing keeps everything the user added",
 "Re-indexing any set of messages, any number of times, keeps each message's files that still exist, its user tags, its properties other than those recorded by indexing itself, and its thread-mates, and makes searches find what the current files contain; a message none of whose files exists any more is removed and all others are unaffected. The result is the same as that of indexing the same files afresh with the same tags and properties.",
 ["histories", "inputs"],
 "every database state with duplicates, removed or changed files, threads with absent members, every subset of messages re-indexed",
 "T700/T357 reindex a fixed corpus once and compare a dump.",
 ["lib/message.cc", "notmuch-reindex.c", "lib/add-message.cc"],
 [("remove generated terms, keep tags and properties, re-add every file", "lib/message.cc notmuch_message_reindex")],
 (), ["notmuch dump", "notmuch search"])

prop("P20", "Hooks run at the right time and their failure has the documented effect",
 "With hooks enabled, the pre-new hook runs before anything is scanned and its failure stops the scan with the index unchanged; the post-new and post-insert hooks run after their command's changes are committed and visible to other processes, only when it succeeded, and exactly once. No hook runs while the command holds the write lock, hooks can therefore themselves modify the database, and with hooks disabled none runs.",
 ["histories", "configurations", "fault_sequences"],
 "every combination of present, absent, failing, database-reading and database-writing hooks, of hook options, of successful and failing scans and deliveries",
 "T400 checks existence and exit codes on a fixed tree.",
 ["hooks.c", "notmuch-new.c", "notmuch-insert.c"],
 [("hook call", "hooks.c notmuch_run_hook"), ("close and reopen around hooks", "notmuch-new.c, notmuch-insert.c")],
 (), ["a hook script that records what it sees"])

prop("P21", "notmuch-git moves tags between index and repository without loss",
 "Committing makes the repository hold exactly the prefixed tags of the messages in the index, keeping what it has of messages that are not in it, and a checkout makes the prefixed tags of the index, for the messages that are in it, exactly those of the repository, leaving all other tags alone; committing and then checking out changes nothing. Merging two clones' histories applies each side's additions and removals; the status lists exactly the differences; the safety checks refuse, unless forced, steps that would change more than the configured share of the messages. Tags changed meanwhile, or a run killed at any point, lose nothing and do not mislead later runs.",
 ["histories", "inputs"],
 "every sequence of tag changes, commits, checkouts, fetches, merges, pulls and pushes between two clones, of kills and concurrent tag changes, databases that are rebuilt, tags, prefixes and ids with characters that need escaping, messages unknown to one side",
 "T850 follows one script per command.",
 ["notmuch-git.py"],
 [("index built from a dump", "notmuch-git.py _index_tags / CachedIndex"), ("diff between tree and index drives checkout", "notmuch-git.py checkout, get_status")],
 (), ["notmuch dump", "git ls-tree"])

prop("P22", "Structured and text output present the same data",
 "Every output format of search, show, address and count presents the same ids, tags, counts, nesting, flags and values for the same query and database, as the library reports them; JSON and S-expression output is always well-formed, whatever bytes subjects, names, tags and ids contain.",
 ["inputs"],
 "every mail content and query, all formats and format versions",
 "The tests compare fixed outputs.",
 ["sprinter-json.c", "sprinter-sexp.c", "sprinter-text.c", "notmuch-search.c", "notmuch-show.c"],
 [("structure printers", "sprinter-*.c")], (), ["standard output of the commands"])

prop("P23", "MIME structure, charset decoding and cryptography are handled faithfully",
 "The parts shown, numbered and extracted are those of the message, text is decoded to the right characters, signatures are reported valid only if they are, and encrypted content is decrypted, indexed and stashed only as the policy allows.",
 ["inputs", "configurations"],
 "every message",
 "The tests have fixed messages and keys.",
 ["mime-node.c", "notmuch-show.c", "lib/index.cc", "util/crypto.c", "util/repair.c"],
 [("MIME tree walk", "mime-node.c"), ("crypto policy", "util/crypto.c")], (), ["notmuch show"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
