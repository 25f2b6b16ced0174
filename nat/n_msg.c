#define _GNU_SOURCE
/* Messages: every sequence of calls up to a length, on standard error and in syslog, against what warnp.h says. */
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <syslog.h>

#include "asprintf.h"
#include "nat.h"
#include "warnp.h"

#define MAX 12000
static char log_[MAX], want[MAX], errb[MAX];
static int nlog, pri, nopen_, nclose;
static size_t nerr;
void
__wrap_vsyslog(int p, const char * fmt, va_list ap)
{

	pri = p;
	nlog++;
	if (vsnprintf(log_, sizeof(log_), fmt, ap) >= (int)sizeof(log_))
		nat_fail("C33", "a message of more than %zu bytes is sent to syslog", sizeof(log_));
}
void
__wrap_syslog(int p, const char * fmt, ...)
{
	va_list ap;

	va_start(ap, fmt);
	__wrap_vsyslog(p, fmt, ap);
	va_end(ap);
	/* It may do what it likes with errno. */
	errno = EPIPE;
}
void __wrap_openlog(const char * n, int a, int b) { (void)n; (void)a; (void)b; nopen_++; }
void __wrap_closelog(void) { nclose++; }

static FILE * ms, * real;
static ssize_t
collect(void * v, const char * b, size_t n)
{

	(void)v;
	if (nerr + n >= sizeof(errb))
		nat_fail("C33", "%zu bytes are written", nerr + n);
	memcpy(&errb[nerr], b, n);
	nerr += n;
	errb[nerr] = '\0';
	/* It may do what it likes with errno. */
	errno = ENOTTY;
	return ((ssize_t)n);
}
static void
begin(void)
{
	cookie_io_functions_t f = { .write = collect };

	if (ms == NULL) {
		if ((ms = fopencookie(NULL, "w", f)) == NULL)
			abort();
		setvbuf(ms, NULL, _IONBF, 0);
	}
	nlog = 0;
	log_[0] = '\0';
	nerr = 0;
	errb[0] = '\0';
	real = stderr;
	stderr = ms;
}
static int after;
static void
end(void)
{

	after = errno;
	fflush(ms);
	stderr = real;
}

/* What has been asked for so far. */
static const char * name;
static int tosyslog, prio;
enum { WARN, WARN_NULL, WARNX, WARNX_NULL, WARNP, WARN0, NMSG };
static const char * const mn[] = { "warn", "warn(NULL)", "warnx", "warnx(NULL)", "warnp", "warn0" };
static void
message(int kind, int e)
{
	char t[64], eb[100];
	const char * er = (kind == WARN || kind == WARN_NULL || (kind == WARNP && e)) ? eb : NULL;
	size_t n;

	snprintf(eb, sizeof(eb), "%s", strerror(e));
	snprintf(t, sizeof(t), "%d of %s%c", 42, "many", '%');
	if (kind == WARN_NULL || kind == WARNX_NULL)
		t[0] = '\0';
	begin();
	errno = e;
	switch (kind) {
	case WARN: warn("%d of %s%%", 42, "many"); break;
	case WARN_NULL: warn(NULL); break;
	case WARNX: warnx("%d of %s%%", 42, "many"); break;
	case WARNX_NULL: warnx(NULL); break;
	case WARNP: warnp("%d of %s%%", 42, "many"); break;
	case WARN0: warn0("%d of %s%%", 42, "many"); break;
	}
	end();
	nat_trans(1);
	if (after != (kind == WARNP || kind == WARN0 ? 0 : e))
		nat_fail("C33", "%s changes errno from %d to %d", mn[kind], e, after);
	if (tosyslog) {
		snprintf(want, sizeof(want), "%s%s%s", t, t[0] && er ? ": " : "", er ? er : "");
		n = strlen(log_);
		if (n && log_[n - 1] == '\n')
			log_[--n] = '\0';
		if (nlog != 1)
			nat_fail("C33", "%s sends %d messages to syslog instead of one", mn[kind], nlog);
		if (strcmp(log_, want))
			nat_fail("C33", "%s sends \"%s\" to syslog instead of \"%s\"", mn[kind], log_, want);
		if (pri != prio)
			nat_fail("C33", "%s has priority %d instead of %d", mn[kind], pri, prio);
		if (nerr)
			nat_fail("C33", "%s writes \"%s\" although messages go to syslog", mn[kind], errb);
	} else {
		snprintf(want, sizeof(want), "%s%s%s%s%s\n", name ? name : "(unknown)", t[0] ? ": " : "", t, er ? ": " : "", er ? er : "");
		if (nlog)
			nat_fail("C33", "%s sends a message to syslog, which was not asked for", mn[kind]);
		if (strcmp(errb, want))
			nat_fail("C33", "%s writes \"%s\" instead of \"%s\"", mn[kind], errb, want);
	}
}
static const struct { const char * arg, * name; } names[] = {
	{ "prog", "prog" }, { "/usr/local/bin/spiped", "spiped" }, { "./a", "a" }, { "dir/", "" }, { "", "" },
};
static const int errs[] = { 0, ENOENT, EINTR, 12345 };
#define NNAMES 5
#define NOPS (NNAMES + 1 + 2 + 3 + NMSG * 4)
static long mparts(void) { return (NOPS); }
static int started;
static void
op(int o)
{
	char b[40];

	if (o < NNAMES + 1) {
		/* (The last time there is no memory.) */
		strcpy(b, names[o < NNAMES ? o : 0].arg);
		begin();
		nat_allocs = nat_failed = 0;
		nat_failat = o == NNAMES;
		warnp_setprogname(b);
		nat_failat = 0;
		end();
		memset(b, 'x', sizeof(b));
		name = o < NNAMES ? names[o].name : nat_failed ? NULL : names[0].name;
		return;
	}
	if ((o -= NNAMES + 1) < 2) {
		begin();
		warnp_syslog(o ? 3 : 0);
		end();
		tosyslog = o;
		return;
	}
	if ((o -= 2) < 3) {
		static const int p[] = { LOG_DEBUG, LOG_ERR, LOG_WARNING };

		begin();
		warnp_syslog_priority(p[o]);
		end();
		prio = p[o];
		return;
	}
	o -= 3;
	message(o / 4, errs[o % 4]);
}
static void
again(int first)
{

	/* As at the start of the program. */
	(void)first;
	if (started) {
		warnp_syslog(0);
		warnp_syslog_priority(LOG_WARNING);
		warnp_setprogname("prog");
		name = "prog";
	}
	tosyslog = 0;
	prio = LOG_WARNING;
}
static void
messages(long part)
{
	int at[8], n, k;

	/* The state in which the program starts. */
	name = NULL;
	prio = LOG_WARNING;
	op((int)part);
	message(WARN, ENOENT);
	started = 1;
	for (n = 1; n <= nat_bound; n++) {
		memset(at, 0, sizeof(at));
		for (;;) {
			again(0);
			CASE("%d calls: %d %d %d %d %d", n, part, n > 1 ? at[1] : -1, n > 2 ? at[2] : -1, n > 3 ? at[3] : -1, n > 4 ? at[4] : -1);
			op((int)part);
			for (k = 1; k < n; k++)
				op(at[k]);
			message(WARNP, ENOENT);
			message(WARN0, ENOENT);
			for (k = 1; k < n && ++at[k] == NOPS; k++)
				at[k] = 0;
			if (k >= n)
				break;
		}
	}
	nat_outcome((uint64_t)part * 4 + tosyslog * 2 + (name != NULL));
}

/* Any length. */
static long wparts(void) { return (8); }
static void
widths(long part)
{
	static char t[9001];
	int n, k, e = part & 1 ? ENOENT : 0, logit = part >> 1 & 1, withx = part >> 2;
	const char * er = strerror(ENOENT);

	warnp_setprogname("/bin/prog");
	warnp_syslog(logit);
	for (n = 0; n <= (nat_thorough ? 9000 : 4600); n++) {
		for (k = 0; k < n; k++)
			t[k] = 'a' + k % 23;
		t[n] = '\0';
		CASE("a message of %d bytes, to %d, %d", n, logit, e);
		begin();
		errno = ENOENT;
		if (withx)
			warnx("%s", t);
		else
			warn("%s", t);
		end();
		nat_trans(1);
		if (after != ENOENT)
			nat_fail("C33", "errno is changed to %d", after);
		if (!logit) {
			snprintf(want, sizeof(want), "prog: %s%s%s\n", t, withx ? "" : ": ", withx ? "" : er);
			if (strcmp(errb, want))
				nat_fail("C33", "a message of %d bytes is not written as it is", n);
		} else {
			snprintf(want, sizeof(want), "%s%s%s", t, withx ? "" : ": ", withx ? "" : er);
			k = (int)strlen(log_);
			if (k && log_[k - 1] == '\n')
				log_[--k] = '\0';
			/* (What exactly of a long one is left out is not said.) */
			if (n <= 4000 ? strcmp(log_, want) != 0 : strncmp(log_, want, 4000) != 0)
				nat_fail("C33", "a message of %d bytes is not sent to syslog as it is", n);
			if (n > WARNP_SYSLOG_MAX_LINE && k > WARNP_SYSLOG_MAX_LINE + 40)
				nat_fail("C33", "%d characters are sent to syslog", k);
			if (nlog != 1)
				nat_fail("C33", "%d messages are sent", nlog);
		}
	}
	nat_outcome((uint64_t)part);
}

/* asprintf: any length, and no memory. */
static long fparts(void) { return (4); }
static void
formats(long part)
{
	static char t[9001];
	int n, rc, k, f;
	char * p;
	long live;

	for (n = 0; n <= (nat_thorough ? 9000 : 4200); n++)
		for (f = 0; f < 2; f++) {
			for (k = 0; k < n; k++)
				t[k] = '!' + (k * 7 + (int)part) % 90;
			t[n] = '\0';
			CASE("asprintf of %d bytes, form %d, no memory %d", n, part, f);
			live = nat_live;
			p = (char *)1;
			nat_allocs = nat_failed = 0;
			nat_failat = f;
			switch (part) {
			case 0: rc = asprintf(&p, "%s", t); break;
			case 1: rc = asprintf(&p, "%s%s", t, ".pid"); break;
			case 2: rc = asprintf(&p, "[%s]:%d", t, n); break;
			default: rc = asprintf(&p, "%*s|%.*s", n / 2, "x", n / 2, t); break;
			}
			nat_failat = 0;
			switch (part) {
			case 0: k = snprintf(want, sizeof(want), "%s", t); break;
			case 1: k = snprintf(want, sizeof(want), "%s%s", t, ".pid"); break;
			case 2: k = snprintf(want, sizeof(want), "[%s]:%d", t, n); break;
			default: k = snprintf(want, sizeof(want), "%*s|%.*s", n / 2, "x", n / 2, t); break;
			}
			nat_trans(1);
			if (f && nat_failed) {
				if (rc != -1)
					nat_fail("C33", "asprintf without memory returns %d", rc);
				if (nat_live != live)
					nat_fail("C33", "a failed asprintf leaves memory behind");
				continue;
			}
			if (rc != k)
				nat_fail("C33", "asprintf returns %d instead of %d", rc, k);
			if (strcmp(p, want))
				nat_fail("C33", "asprintf gives \"%.40s...\" instead of \"%.40s...\"", p, want);
			free(p);
			if (nat_live != live)
				nat_fail("C33", "asprintf leaves memory behind");
		}
	nat_outcome((uint64_t)part);
}

static const struct nat_scenario scens[] = {
	{ "ms_seq", messages, mparts, 4, 4, "C33" },
	{ "ms_len", widths, wparts, 1, 1, "C33" },
	{ "ms_fmt", formats, fparts, 1, 1, "C33" },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
