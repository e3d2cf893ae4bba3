/* A driver over the public interface of libnotmuch.  It reads one command per line
 * (tab separated, percent-encoded arguments) and answers with one JSON object per line.
 * Nothing here decides anything: it performs the call and prints what can be observed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <notmuch.h>

#define MAXH 8
#define MAXS 64
#define MAXA 4096
static notmuch_database_t *H[MAXH];
static notmuch_message_t *S[MAXS];
static char **pm, **pf, **pq, **pd;   /* probes: message ids, file names, queries, directories */
static int npm, npf, npq, npd;
static FILE *out;

static char *unesc (char *s)
{
    char *r = s, *w = s;
    while (*r) {
	if (*r == '%' && r[1] && r[2]) {
	    char h[3] = { r[1], r[2], 0 };
	    *w++ = (char) strtol (h, NULL, 16);
	    r += 3;
	} else
	    *w++ = *r++;
    }
    *w = 0;
    return s;
}
static void js (const char *s)
{
    if (! s) { fputs ("null", out); return; }
    fputc ('"', out);
    for (const unsigned char *p = (const unsigned char *) s; *p; p++) {
	if (*p < 0x20 || *p >= 0x7f || *p == '%' || *p == '"' || *p == '\\')
	    fprintf (out, "%%%02x", *p);
	else
	    fputc (*p, out);
    }
    fputc ('"', out);
}
static void jtags (notmuch_tags_t *t)
{
    int first = 1;
    fputc ('[', out);
    for (; t && notmuch_tags_valid (t); notmuch_tags_move_to_next (t)) {
	if (! first) fputc (',', out);
	first = 0;
	js (notmuch_tags_get (t));
    }
    fputc (']', out);
}
static void jfiles (notmuch_filenames_t *f)
{
    int first = 1;
    fputc ('[', out);
    for (; f && notmuch_filenames_valid (f); notmuch_filenames_move_to_next (f)) {
	if (! first) fputc (',', out);
	first = 0;
	js (notmuch_filenames_get (f));
    }
    fputc (']', out);
}
static void jprops (notmuch_message_t *m, const char *key, int exact)
{
    int first = 1;
    notmuch_message_properties_t *p = notmuch_message_get_properties (m, key, exact);
    fputc ('[', out);
    for (; p && notmuch_message_properties_valid (p); notmuch_message_properties_move_to_next (p)) {
	if (! first) fputc (',', out);
	first = 0;
	fputc ('[', out);
	js (notmuch_message_properties_key (p));
	fputc (',', out);
	js (notmuch_message_properties_value (p));
	fputc (']', out);
    }
    fputc (']', out);
    if (p) notmuch_message_properties_destroy (p);
}
static void jmsg (notmuch_message_t *m)
{
    fputs ("{\"id\":", out); js (notmuch_message_get_message_id (m));
    fputs (",\"tid\":", out); js (notmuch_message_get_thread_id (m));
    fputs (",\"files\":", out); jfiles (notmuch_message_get_filenames (m));
    fprintf (out, ",\"nfiles\":%d", notmuch_message_count_files (m));
    fputs (",\"tags\":", out); jtags (notmuch_message_get_tags (m));
    fputs (",\"props\":", out); jprops (m, "", 0);
    fprintf (out, ",\"date\":%ld", (long) notmuch_message_get_date (m));
    fputs (",\"from\":", out); js (notmuch_message_get_header (m, "from"));
    fputs (",\"subj\":", out); js (notmuch_message_get_header (m, "subject"));
    fputc ('}', out);
}
static notmuch_status_t query_ids (notmuch_database_t *db, const char *q, int syntax, notmuch_query_t **qq,
				   notmuch_messages_t **ms)
{
    notmuch_status_t st = notmuch_query_create_with_syntax (db, q, syntax, qq);
    if (st) return st;
    return notmuch_query_search_messages (*qq, ms);
}
/* a message object without any file */
static int ghost (notmuch_message_t *m)
{
    notmuch_bool_t g = 0;
    notmuch_message_get_flag_st (m, NOTMUCH_MESSAGE_FLAG_GHOST, &g);
    return g;
}
static void jids (notmuch_database_t *db, const char *q)
{
    notmuch_query_t *qq = NULL;
    notmuch_messages_t *ms = NULL;
    int first = 1, syntax = NOTMUCH_QUERY_SYNTAX_XAPIAN;
    if (q[0] == 'S' && q[1] == ':') { syntax = NOTMUCH_QUERY_SYNTAX_SEXP; q += 2; }
    else if (q[0] == 'X' && q[1] == ':') q += 2;
    notmuch_status_t st = query_ids (db, q, syntax, &qq, &ms);
    if (st) { fprintf (out, "[\"!error\",\"%d\"]", st); if (qq) notmuch_query_destroy (qq); return; }
    fputc ('[', out);
    for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
	notmuch_message_t *m = notmuch_messages_get (ms);
	if (! first) fputc (',', out);
	first = 0;
	js (notmuch_message_get_message_id (m));
	notmuch_message_destroy (m);
    }
    fputc (']', out);
    notmuch_query_destroy (qq);
}
static void jlm (notmuch_database_t *db, unsigned long lo, unsigned long hi)
{
    /* last modification revision of every message, found with range queries */
    int first = 1;
    fputc ('[', out);
    for (unsigned long r = lo; r <= hi; r++) {
	char q[64];
	notmuch_query_t *qq = NULL;
	notmuch_messages_t *ms = NULL;
	snprintf (q, sizeof q, "lastmod:%lu..%lu", r, r);
	if (query_ids (db, q, NOTMUCH_QUERY_SYNTAX_XAPIAN, &qq, &ms)) {
	    fprintf (out, "%s[\"!error\",%lu]", first ? "" : ",", r);
	    first = 0;
	    continue;
	}
	for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
	    notmuch_message_t *m = notmuch_messages_get (ms);
	    if (! first) fputc (',', out);
	    first = 0;
	    fputc ('[', out);
	    js (notmuch_message_get_message_id (m));
	    fprintf (out, ",%lu]", r);
	    notmuch_message_destroy (m);
	}
	notmuch_query_destroy (qq);
    }
    fputc (']', out);
}
static void jdump (notmuch_database_t *db, const char *flags)
{
    notmuch_query_t *qq = NULL;
    notmuch_messages_t *ms = NULL;
    const char *uuid = NULL;
    int first = 1;
    unsigned long rev = notmuch_database_get_revision (db, &uuid);
    notmuch_status_t st = query_ids (db, "*", NOTMUCH_QUERY_SYNTAX_XAPIAN, &qq, &ms);
    fprintf (out, "\"rev\":%lu,\"uuid\":", rev); js (uuid);
    fprintf (out, ",\"dst\":%d,\"msgs\":[", st);
    if (! st)
	for (; notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
	    notmuch_message_t *m = notmuch_messages_get (ms);
	    if (! first) fputc (',', out);
	    first = 0;
	    jmsg (m);
	    notmuch_message_destroy (m);
	}
    fputc (']', out);
    if (qq) notmuch_query_destroy (qq);
    if (strchr (flags, 'l')) {
	fputs (",\"lm\":", out);
	jlm (db, 0, rev + 1);
    }
    if (strchr (flags, 't')) {
	notmuch_tags_t *t = notmuch_database_get_all_tags (db);
	fputs (",\"alltags\":", out); jtags (t);
    }
    if (strchr (flags, 'c')) {
	notmuch_config_list_t *l = NULL;
	notmuch_status_t s = notmuch_database_get_config_list (db, "", &l);
	fputs (",\"conf\":[", out);
	if (s) fprintf (out, "[\"!\",\"%d\"]", s);
	else
	    for (first = 1; notmuch_config_list_valid (l); notmuch_config_list_move_to_next (l)) {
		if (! first) fputc (',', out);
		first = 0;
		fputc ('[', out); js (notmuch_config_list_key (l)); fputc (',', out); js (notmuch_config_list_value (l)); fputc (']', out);
	    }
	fputc (']', out);
	if (l) notmuch_config_list_destroy (l);
    }
    if (npm) {
	fputs (",\"pm\":[", out);
	for (int i = 0; i < npm; i++) {
	    notmuch_message_t *m = NULL;
	    notmuch_status_t s = notmuch_database_find_message (db, pm[i], &m);
	    if (m && ghost (m)) { notmuch_message_destroy (m); m = NULL; }
	    if (i) fputc (',', out);
	    if (s) fprintf (out, "\"!%d\"", s); else if (m) js (notmuch_message_get_message_id (m)); else fputs ("\"\"", out);
	    if (m) notmuch_message_destroy (m);
	}
	fputc (']', out);
    }
    if (npf) {
	fputs (",\"pf\":[", out);
	for (int i = 0; i < npf; i++) {
	    notmuch_message_t *m = NULL;
	    notmuch_status_t s = notmuch_database_find_message_by_filename (db, pf[i], &m);
	    if (i) fputc (',', out);
	    if (s) fprintf (out, "\"!%d\"", s); else if (m) js (notmuch_message_get_message_id (m)); else fputs ("\"\"", out);
	    if (m) notmuch_message_destroy (m);
	}
	fputc (']', out);
    }
    if (npq) {
	fputs (",\"pq\":[", out);
	for (int i = 0; i < npq; i++) {
	    if (i) fputc (',', out);
	    jids (db, pq[i]);
	}
	fputc (']', out);
    }
    if (npd) {
	fputs (",\"pd\":[", out);
	for (int i = 0; i < npd; i++) {
	    notmuch_directory_t *d = NULL;
	    notmuch_status_t s = notmuch_database_get_directory (db, pd[i], &d);
	    if (i) fputc (',', out);
	    if (s || ! d) { fprintf (out, "{\"st\":%d,\"there\":false,\"mtime\":-1,\"files\":[],\"dirs\":[]}", s); continue; }
	    fprintf (out, "{\"st\":0,\"there\":true,\"mtime\":%ld,\"files\":", (long) notmuch_directory_get_mtime (d));
	    jfiles (notmuch_directory_get_child_files (d));
	    fputs (",\"dirs\":", out);
	    jfiles (notmuch_directory_get_child_directories (d));
	    fputc ('}', out);
	    notmuch_directory_destroy (d);
	}
	fputc (']', out);
    }
}
static void jtree (notmuch_messages_t *ms, int depth)
{
    int first = 1;
    fputc ('[', out);
    if (depth > 60) { fputs ("\"!deep\"]", out); return; }
    for (; ms && notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
	notmuch_message_t *m = notmuch_messages_get (ms);
	notmuch_bool_t a = 0, b = 0;
	notmuch_message_get_flag_st (m, NOTMUCH_MESSAGE_FLAG_MATCH, &a);
	notmuch_message_get_flag_st (m, NOTMUCH_MESSAGE_FLAG_EXCLUDED, &b);
	if (! first) fputc (',', out);
	first = 0;
	fputs ("{\"id\":", out); js (notmuch_message_get_message_id (m));
	fprintf (out, ",\"match\":%s,\"excl\":%s,\"date\":%ld,\"kids\":", a ? "true" : "false", b ? "true" : "false", (long) notmuch_message_get_date (m));
	jtree (notmuch_message_get_replies (m), depth + 1);
	fputc ('}', out);
    }
    fputc (']', out);
}
static int query_setup (notmuch_query_t *q, const char *sort, const char *omit, int n, char **ex)
{
    notmuch_query_set_sort (q, ! strcmp (sort, "old") ? NOTMUCH_SORT_OLDEST_FIRST : ! strcmp (sort, "new") ? NOTMUCH_SORT_NEWEST_FIRST :
			    ! strcmp (sort, "id") ? NOTMUCH_SORT_MESSAGE_ID : NOTMUCH_SORT_UNSORTED);
    notmuch_query_set_omit_excluded (q, ! strcmp (omit, "true") ? NOTMUCH_EXCLUDE_TRUE : ! strcmp (omit, "all") ? NOTMUCH_EXCLUDE_ALL :
				     ! strcmp (omit, "flag") ? NOTMUCH_EXCLUDE_FLAG : NOTMUCH_EXCLUDE_FALSE);
    for (int i = 0; i < n; i++)
	notmuch_query_add_tag_exclude (q, ex[i]);
    return 0;
}

int main (int argc, char **argv)
{
    char *line = NULL;
    size_t sz = 0;
    ssize_t len;
    static char *a[MAXA];
    (void) argc; (void) argv;
    out = fdopen (dup (1), "w");
    /* keep stray library output away from the protocol */
    if (! freopen ("/dev/null", "w", stdout)) return 3;
    while ((len = getline (&line, &sz, stdin)) > 0) {
	int n = 0;
	notmuch_status_t st = 0;
	if (line[len - 1] == '\n') line[len - 1] = 0;
	for (char *p = line; p && n < MAXA;) {
	    char *t = strchr (p, '\t');
	    if (t) *t++ = 0;
	    a[n++] = unesc (p);
	    p = t;
	}
	a[n] = NULL;
	fputc ('{', out);
	const char *c = a[0];
#define H1 H[atoi (a[1])]
#define S1 S[atoi (a[1])]
	if (! strcmp (c, "quit")) {
	    fputs ("\"bye\":1}\n", out); fflush (out);
	    return 0;
	} else if (! strcmp (c, "kill")) {
	    kill (getpid (), SIGKILL);
	} else if (! strcmp (c, "create")) {           /* create h path */
	    char *err = NULL;
	    st = notmuch_database_create_with_config (a[2], n > 3 ? a[3] : "", NULL, &H1, &err);
	} else if (! strcmp (c, "open")) {             /* open h rw|ro path [config] */
	    char *err = NULL;
	    st = notmuch_database_open_with_config (a[3], ! strcmp (a[2], "rw") ? NOTMUCH_DATABASE_MODE_READ_WRITE : NOTMUCH_DATABASE_MODE_READ_ONLY,
						    n > 4 ? a[4] : "", NULL, &H1, &err);
	} else if (! strcmp (c, "close")) {
	    st = notmuch_database_close (H1);
	} else if (! strcmp (c, "destroy")) {
	    st = notmuch_database_destroy (H1); H1 = NULL;
	} else if (! strcmp (c, "reopen")) {           /* reopen h rw|ro */
	    st = notmuch_database_reopen (H1, ! strcmp (a[2], "rw") ? NOTMUCH_DATABASE_MODE_READ_WRITE : NOTMUCH_DATABASE_MODE_READ_ONLY);
	} else if (! strcmp (c, "begin")) {
	    st = notmuch_database_begin_atomic (H1);
	} else if (! strcmp (c, "end")) {
	    st = notmuch_database_end_atomic (H1);
	} else if (! strcmp (c, "add")) {              /* add h file tag... */
	    notmuch_message_t *m = NULL;
	    st = notmuch_database_index_file (H1, a[2], NULL, &m);
	    fputs ("\"mid\":", out); js (m ? notmuch_message_get_message_id (m) : "");
	    if (m) notmuch_message_destroy (m);
	    fputc (',', out);
	} else if (! strcmp (c, "remove")) {
	    st = notmuch_database_remove_message (H1, a[2]);
	} else if (! strcmp (c, "msg")) {              /* msg slot h id */
	    if (S1) notmuch_message_destroy (S1);
	    S1 = NULL;
	    st = notmuch_database_find_message (H[atoi (a[2])], a[3], &S1);
	    if (S1) {
		notmuch_bool_t g = 0;
		st = notmuch_message_get_flag_st (S1, NOTMUCH_MESSAGE_FLAG_GHOST, &g);
		if (st || g) { notmuch_message_destroy (S1); S1 = NULL; }
	    }
	    fprintf (out, "\"found\":%s,", S1 ? "true" : "false");
	} else if (! strcmp (c, "drop")) {
	    if (S1) notmuch_message_destroy (S1);
	    S1 = NULL;
	} else if (! strcmp (c, "tag")) {              /* tag slot t */
	    st = notmuch_message_add_tag (S1, a[2]);
	} else if (! strcmp (c, "untag")) {
	    st = notmuch_message_remove_tag (S1, a[2]);
	} else if (! strcmp (c, "cleartags")) {
	    st = notmuch_message_remove_all_tags (S1);
	} else if (! strcmp (c, "freeze")) {
	    st = notmuch_message_freeze (S1);
	} else if (! strcmp (c, "thaw")) {
	    st = notmuch_message_thaw (S1);
	} else if (! strcmp (c, "prop")) {             /* prop slot k v */
	    st = notmuch_message_add_property (S1, a[2], a[3]);
	} else if (! strcmp (c, "unprop")) {
	    st = notmuch_message_remove_property (S1, a[2], a[3]);
	} else if (! strcmp (c, "clearprops")) {       /* clearprops slot [key] */
	    st = notmuch_message_remove_all_properties (S1, n > 2 ? a[2] : NULL);
	} else if (! strcmp (c, "clearpropsp")) {      /* clearpropsp slot prefix */
	    st = notmuch_message_remove_all_properties_with_prefix (S1, a[2]);
	} else if (! strcmp (c, "getprops")) {         /* getprops slot key exact */
	    unsigned int cnt = 0;
	    char *v = NULL;
	    const char *v2 = NULL;
	    fputs ("\"props\":", out); jprops (S1, a[2], atoi (a[3]));
	    st = notmuch_message_count_properties (S1, a[2], &cnt);
	    notmuch_message_get_property (S1, a[2], &v2);
	    (void) v;
	    fprintf (out, ",\"count\":%u,\"first\":", cnt); js (v2 ? v2 : "");
	    fputc (',', out);
	} else if (! strcmp (c, "view")) {             /* view slot */
	    fputs ("\"m\":", out); jmsg (S1); fputc (',', out);
	} else if (! strcmp (c, "glance")) {           /* glance slot: only the tags */
	    notmuch_tags_t *t = notmuch_message_get_tags (S1);
	    fputs ("\"tags\":", out);
	    if (t) jtags (t); else js (NULL);
	    fputc (',', out);
	} else if (! strcmp (c, "look")) {             /* look slot: what cannot be had is null */
	    notmuch_tags_t *t;
	    notmuch_filenames_t *f;
	    const char *v = NULL;
	    fputs ("\"id\":", out); js (notmuch_message_get_message_id (S1));
	    fputs (",\"tid\":", out); js (notmuch_message_get_thread_id (S1));
	    fputs (",\"files\":", out);
	    f = notmuch_message_get_filenames (S1);
	    if (f) jfiles (f); else js (NULL);
	    /* (who asks again after an error does not get half an answer) */
	    fputs (",\"again\":", out);
	    f = notmuch_message_get_filenames (S1);
	    if (f) jfiles (f); else js (NULL);
	    fputs (",\"tags\":", out);
	    t = notmuch_message_get_tags (S1);
	    if (t) jtags (t); else js (NULL);
	    st = notmuch_message_get_property (S1, "no.such", &v);
	    fputs (",\"props\":", out);
	    if (st) js (NULL); else jprops (S1, "", 0);
	    st = 0;
	    fputs (",\"subj\":", out); js (notmuch_message_get_header (S1, "subject"));
	    fputc (',', out);
	} else if (! strcmp (c, "ids")) {              /* ids h query */
	    notmuch_query_t *q = NULL;
	    notmuch_messages_t *ms = NULL;
	    int first = 1;
	    st = query_ids (H1, a[2], NOTMUCH_QUERY_SYNTAX_XAPIAN, &q, &ms);
	    fputs ("\"ids\":[", out);
	    for (; ! st && notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
		notmuch_message_t *m = notmuch_messages_get (ms);
		if (! first) fputc (',', out);
		first = 0;
		js (m ? notmuch_message_get_message_id (m) : NULL);
		if (m) notmuch_message_destroy (m);
	    }
	    fputs ("],", out);
	    if (q) notmuch_query_destroy (q);
	} else if (! strcmp (c, "toflags")) {
	    st = notmuch_message_tags_to_maildir_flags (S1);
	} else if (! strcmp (c, "fromflags")) {
	    st = notmuch_message_maildir_flags_to_tags (S1);
	} else if (! strcmp (c, "reindex")) {
	    st = notmuch_message_reindex (S1, NULL);
	} else if (! strcmp (c, "setdir")) {           /* setdir h path mtime */
	    notmuch_directory_t *d = NULL;
	    st = notmuch_database_get_directory (H1, a[2], &d);
	    if (d) { st = notmuch_directory_set_mtime (d, atol (a[3])); notmuch_directory_destroy (d); }
	} else if (! strcmp (c, "deldir")) {
	    notmuch_directory_t *d = NULL;
	    st = notmuch_database_get_directory (H1, a[2], &d);
	    if (d) st = notmuch_directory_delete (d);
	} else if (! strcmp (c, "setconf")) {
	    st = notmuch_database_set_config (H1, a[2], a[3]);
	} else if (! strcmp (c, "getconf")) {
	    char *v = NULL;
	    st = notmuch_database_get_config (H1, a[2], &v);
	    fputs ("\"v\":", out); js (v); fputc (',', out);
	    free (v);
	} else if (! strcmp (c, "rev")) {
	    const char *u = NULL;
	    fprintf (out, "\"rev\":%lu,\"uuid\":", notmuch_database_get_revision (H1, &u)); js (u); fputc (',', out);
	} else if (! strcmp (c, "probes")) {           /* probes m|f|q|d x... */
	    char ***dst = a[1][0] == 'm' ? &pm : a[1][0] == 'f' ? &pf : a[1][0] == 'q' ? &pq : &pd;
	    int *cnt = a[1][0] == 'm' ? &npm : a[1][0] == 'f' ? &npf : a[1][0] == 'q' ? &npq : &npd;
	    *dst = realloc (*dst, sizeof (char *) * (n + 1));
	    *cnt = 0;
	    for (int i = 2; i < n; i++) (*dst)[(*cnt)++] = strdup (a[i]);
	} else if (! strcmp (c, "dump")) {             /* dump h flags */
	    jdump (H1, n > 2 ? a[2] : ""); fputc (',', out);
	} else if (! strcmp (c, "query")) {            /* query h syntax sort omit query excludes... */
	    notmuch_query_t *q = NULL;
	    st = notmuch_query_create_with_syntax (H1, a[5], ! strcmp (a[2], "sexp"), &q);
	    if (! st) {
		notmuch_messages_t *ms = NULL;
		notmuch_threads_t *ts = NULL;
		unsigned cnt = 0;
		int first = 1;
		query_setup (q, a[3], a[4], n - 6, a + 6);
		st = notmuch_query_search_messages (q, &ms);
		fputs ("\"ids\":[", out);
		for (; ! st && notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
		    notmuch_message_t *m = notmuch_messages_get (ms);
		    notmuch_bool_t ex = 0;
		    notmuch_message_get_flag_st (m, NOTMUCH_MESSAGE_FLAG_EXCLUDED, &ex);
		    if (! first) fputc (',', out);
		    first = 0;
		    fputc ('[', out); js (notmuch_message_get_message_id (m)); fprintf (out, ",%s]", ex ? "true" : "false");
		    notmuch_message_destroy (m);
		}
		fputs ("],", out);
		notmuch_query_destroy (q);
		q = NULL;
		if (! st) st = notmuch_query_create_with_syntax (H1, a[5], ! strcmp (a[2], "sexp"), &q);
		if (! st) {
		    query_setup (q, a[3], a[4], n - 6, a + 6);
		    st = notmuch_query_count_messages (q, &cnt);
		    fprintf (out, "\"nmsg\":%u,", cnt);
		    if (! st) st = notmuch_query_count_threads (q, &cnt);
		    fprintf (out, "\"nthr\":%u,", cnt);
		}
		(void) ts;
		if (q) notmuch_query_destroy (q);
	    }
	} else if (! strcmp (c, "threads")) {          /* threads h syntax sort omit query excludes... */
	    notmuch_query_t *q = NULL;
	    notmuch_threads_t *ts = NULL;
	    int first = 1;
	    st = notmuch_query_create_with_syntax (H1, a[5], ! strcmp (a[2], "sexp"), &q);
	    if (! st) {
		query_setup (q, a[3], a[4], n - 6, a + 6);
		st = notmuch_query_search_threads (q, &ts);
	    }
	    fputs ("\"threads\":[", out);
	    for (; ! st && notmuch_threads_valid (ts); notmuch_threads_move_to_next (ts)) {
		notmuch_thread_t *t = notmuch_threads_get (ts);
		int f2 = 1;
		if (! first) fputc (',', out);
		first = 0;
		fputs ("{\"tid\":", out); js (notmuch_thread_get_thread_id (t));
		fprintf (out, ",\"total\":%d,\"matched\":%d,\"files\":%d,\"oldest\":%ld,\"newest\":%ld,\"subj\":",
			 notmuch_thread_get_total_messages (t), notmuch_thread_get_matched_messages (t),
			 notmuch_thread_get_total_files (t),
			 (long) notmuch_thread_get_oldest_date (t), (long) notmuch_thread_get_newest_date (t));
		js (notmuch_thread_get_subject (t));
		fputs (",\"authors\":", out); js (notmuch_thread_get_authors (t));
		fputs (",\"tags\":", out); jtags (notmuch_thread_get_tags (t));
		fputs (",\"tops\":", out); jtree (notmuch_thread_get_toplevel_messages (t), 0);
		fputs (",\"all\":[", out);
		for (notmuch_messages_t *ms = notmuch_thread_get_messages (t); notmuch_messages_valid (ms); notmuch_messages_move_to_next (ms)) {
		    if (! f2) fputc (',', out);
		    f2 = 0;
		    js (notmuch_message_get_message_id (notmuch_messages_get (ms)));
		}
		fputs ("]}", out);
		notmuch_thread_destroy (t);
	    }
	    fputs ("],", out);
	    if (q) notmuch_query_destroy (q);
	} else if (! strcmp (c, "compact")) {          /* compact path backup|- */
	    st = notmuch_database_compact (a[1], strcmp (a[2], "-") ? a[2] : NULL, NULL, NULL);
	} else {
	    fputs ("\"unknown\":1,", out);
	}
	fprintf (out, "\"st\":%d}\n", (int) st);
	fflush (out);
    }
    return 0;
}
