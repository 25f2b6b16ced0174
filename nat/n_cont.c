/* Containers: every sequence of operations, with every failed allocation. */
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>

#include "elasticarray.h"
#include "mpool.h"
#include "ptrheap.h"
#include "timerqueue.h"

#include "nat.h"

#define T "C26"
#define MAXD 12
static int ops[MAXD], depth;
static long packed(void)
{
	long v = 0;
	int i;

	for (i = 0; i < depth; i++)
		v = v * 100 + ops[i];
	return (v);
}
/* Do something with the first allocation failing or not. */
#define FAILING(f, x) do { nat_failed = 0; nat_failat = (f); x; nat_failat = 0; } while (0)

/* --- Elastic arrays, against a plain array --- */
static struct { uint8_t b[4096]; size_t n; } M;
static struct elasticarray * EA;
static size_t reclen;
static uint8_t next;
static int shrinkfailed;

static void
ea_check(void)
{
	size_t i, n = M.n / reclen;

	if (elasticarray_getsize(EA, reclen) != n)
		nat_fail(T, "the array has %zu records instead of %zu", elasticarray_getsize(EA, reclen), n);
	if (elasticarray_getsize(EA, 1) != M.n)
		nat_fail(T, "the array has %zu bytes instead of %zu", elasticarray_getsize(EA, 1), M.n);
	for (i = 0; i < n; i++)
		if (memcmp(elasticarray_get(EA, i, reclen), M.b + i * reclen, reclen))
			nat_fail(T, "record %zu of %zu is wrong", i, n);
	if (M.n && memcmp(elasticarray_get(EA, 0, reclen), M.b, M.n))
		nat_fail(T, "the array's content is wrong");
	nat_state(nat_hash(M.n * 2 + reclen * 977 + nat_livebytes * 31, "ea", 2));
}

static const size_t cnts[] = { 0, 1, 3, 9 };
#define EAOPS 24
static void
ea_op(int op)
{
	uint8_t * buf;
	void * out;
	size_t n, i, nrec;
	long before, live = nat_live;
	int rc, f = op / 12;

	before = nat_livebytes;
	nat_trans(1);
	switch (op % 12) {
	case 0: case 1: case 2: case 3:		/* append */
		n = cnts[op % 12] * reclen;
		buf = malloc(n ? n : 1);
		for (i = 0; i < n; i++)
			buf[i] = next++;
		FAILING(f, rc = elasticarray_append(EA, buf, cnts[op % 12], reclen));
		if (rc == 0) {
			memcpy(M.b + M.n, buf, n);
			M.n += n;
		}
		free(buf);
		goto done;
	case 4: case 5: case 6: case 7:		/* shrink */
		FAILING(f, elasticarray_shrink(EA, cnts[op % 12 - 4], reclen));
		shrinkfailed |= nat_failed != 0;
		nat_failed = 0;
		n = cnts[op % 12 - 4] * reclen;
		M.n = n > M.n ? 0 : M.n - n;
		rc = 0;
		goto done;
	case 8:					/* resize */
	case 9:
		n = op % 12 == 8 ? 2 : 7;
		FAILING(f, rc = elasticarray_resize(EA, n, reclen));
		if (rc == 0) {
			n *= reclen;
			if (n > M.n) {
				/* The new part is ours to fill. */
				uint8_t * p = elasticarray_get(EA, 0, reclen);

				for (i = M.n; i < n; i++)
					p[i] = M.b[i] = next++;
			}
			M.n = n;
		}
		goto done;
	case 10:				/* truncate */
		FAILING(f, rc = elasticarray_truncate(EA));
		if (rc == 0)
			shrinkfailed = 0;
		goto done;
	case 11:				/* duplicate */
		out = (void *)1;
		nrec = 12345;
		FAILING(f, rc = elasticarray_exportdup(EA, &out, &nrec, reclen));
		if (rc == 0) {
			if (nrec != M.n / reclen || (M.n && (out == NULL || memcmp(out, M.b, M.n))))
				nat_fail(T, "elasticarray_exportdup gives something else");
			free(out);
		}
		if (nat_live != live)
			nat_fail(T, "elasticarray_exportdup leaves allocations behind");
		goto done;
	}
done:
	if (nat_failed && rc == 0 && op % 12 != 11)
		nat_fail(T, "success although memory could not be allocated");
	if (rc != 0 && !nat_failed)
		nat_fail(T, "failure without a reason");
	if (rc != 0 && nat_livebytes != before)
		nat_fail(T, "a failed operation changed the allocated size");
	ea_check();
	/* "remain within a factor of 4 of the optimal size" */
	if (!shrinkfailed && nat_livebytes - (long)sizeof(void *) * 3 > (long)M.n * 4 + 64 + 4 * (long)reclen)
		nat_fail(T, "%ld bytes are allocated for an array of %zu", nat_livebytes, M.n);
}

static long eap(void) { return (3 * 4 * EAOPS); }
static void
ea_run(long init, int fail)
{
	int i;
	long live0 = nat_live;
	void * out = NULL;
	size_t n = 0;

	M.n = 0;
	next = 1;
	shrinkfailed = 0;
	if ((EA = elasticarray_init(cnts[init], reclen)) == NULL)
		nat_fail(T, "elasticarray_init failed");
	M.n = cnts[init] * reclen;
	for (i = 0; i < (int)M.n; i++)
		((uint8_t *)elasticarray_get(EA, 0, 1))[i] = M.b[i] = next++;
	for (i = 0; i < depth; i++) {
		if (i < depth - 1)
			;
		ea_op(ops[i]);
	}
	/* End: free or export. */
	if (fail == 0) {
		elasticarray_free(EA);
	} else {
		int rc;

		FAILING(fail - 1, rc = elasticarray_export(EA, &out, &n, reclen));
		if (rc) {
			if (!nat_failed)
				nat_fail(T, "failure without a reason");
			ea_check();
			elasticarray_free(EA);
		} else {
			if (n != M.n / reclen || (M.n && memcmp(out, M.b, M.n)))
				nat_fail(T, "elasticarray_export gives something else");
			free(out);
		}
	}
	if (nat_live != live0)
		nat_fail(T, "%ld allocations are left over", nat_live - live0);
	nat_outcome(nat_hash(M.n, M.b, M.n));
}
static void
ea_rec(long init, int d)
{
	int o;

	if (d == 0) {
		CASE("elastic array of %ld x %ld bytes, operations %ld", cnts[init], reclen, packed());
		ea_run(init, (int)(packed() % 3));
		return;
	}
	for (o = 0; o < EAOPS; o++) {
		ops[depth++] = o;
		ea_rec(init, d - 1);
		depth--;
	}
}
static void
ea(long part)
{
	static const size_t rl[] = { 1, 3, 8 };
	int d;
	long init = part / 3 % 4;

	reclen = rl[part % 3];
	ops[0] = (int)(part / 12);
	depth = 1;
	for (d = 0; d < nat_bound; d++)
		ea_rec(init, d);
}

/* Sizes which do not fit. */
static void
ea_huge(long part)
{
	static const size_t rl[] = { 1, 2, 3, 8, 1UL << 32, SIZE_MAX / 2, SIZE_MAX };
	size_t i, j, d, n;
	int what, pre;
	long live;
	uint8_t x[32];

	(void)part;
	for (i = 0; i < 7; i++)
		for (j = 0; j < 6; j++)
			for (d = 0; d < 5; d++)
				for (pre = 0; pre < 3; pre++)
					for (what = 0; what < 4; what++) {
						size_t q[] = { SIZE_MAX, SIZE_MAX / rl[i], SIZE_MAX / 2, SIZE_MAX / 4, 1UL << 32, 1UL << 62 };
						int rc = 1;

						n = q[j] - d + 2;
						CASE("elastic array with %ld bytes: operation %ld with %lu x %lu", pre, what, n, rl[i]);
						live = nat_live;
						EA = elasticarray_init(0, 1);
						reclen = 1;
						M.n = pre * 9;
						memset(M.b, 7, M.n);
						memset(x, 7, sizeof(x));
						if (pre && elasticarray_append(EA, x, pre * 9, 1))
							nat_fail(T, "append");
						errno = 0;
						switch (what) {
						case 0:
							rc = elasticarray_resize(EA, n, rl[i]);
							break;
						case 1:
							rc = elasticarray_append(EA, x, n, rl[i]);
							break;
						case 2:
							elasticarray_shrink(EA, n, rl[i]);
							if (n == 0 || (n <= 18 && rl[i] <= 18 && n * rl[i] <= M.n))
								M.n -= n * rl[i];
							else
								M.n = 0;
							rc = 2;
							break;
						case 3: {
							struct elasticarray * E2 = elasticarray_init(n, rl[i]);

							rc = E2 ? 0 : -1;
							elasticarray_free(E2);
							break; }
						}
						nat_trans(1);
						if (rc == 0 && !(n <= 2 && n * rl[i] / rl[i] == n && n * rl[i] < (1UL << 31)))
							nat_fail(T, "an impossible request for %zu x %zu succeeds", n, rl[i]);
						if (rc == 0 && what == 0)
							goto next;
						if (rc == 0 && what == 1)
							goto next;
						ea_check();
					next:
						elasticarray_free(EA);
						if (nat_live != live)
							nat_fail(T, "%ld allocations are left over", nat_live - live);
						nat_outcome(rc);
					}
}

/* --- Heaps --- */
#define MAXH 24
struct el { int key, live; size_t rc; };
static struct el els[MAXH];
static int nel, withrc;
static struct ptrheap * H;
static int
hcmp(void * c, const void * a, const void * b)
{

	if (c != (void *)els)
		nat_fail(T, "the comparison function gets another cookie");
	if (!((const struct el *)a)->live || !((const struct el *)b)->live)
		nat_fail(T, "an element which is not in the heap is compared");
	return (((const struct el *)a)->key - ((const struct el *)b)->key);
}
static void
hrc(void * c, void * p, size_t rc)
{

	if (c != (void *)els)
		nat_fail(T, "the record function gets another cookie");
	((struct el *)p)->rc = rc;
}
static int
hlive(int * min)
{
	int i, n = 0;

	*min = 1000;
	for (i = 0; i < nel; i++)
		if (els[i].live) {
			n++;
			if (els[i].key < *min)
				*min = els[i].key;
		}
	return (n);
}
static void
h_check(void)
{
	int i, j, min, n = hlive(&min);
	struct el * e = ptrheap_getmin(H);
	uint64_t h = 5;

	if ((e == NULL) != (n == 0))
		nat_fail(T, "ptrheap_getmin with %d elements gives %p", n, e);
	if (e && (!e->live || e->key != min))
		nat_fail(T, "ptrheap_getmin gives an element with key %d, the minimum is %d", e->key, min);
	if (withrc)
		for (i = 0; i < nel; i++)
			for (j = 0; j < i; j++)
				if (els[i].live && els[j].live && els[i].rc == els[j].rc)
					nat_fail(T, "two elements have the same record cookie");
	for (i = 0; i < nel; i++)
		h = nat_hash(h, &els[i], sizeof(els[i]));
	nat_state(h);
	nat_outcome(nat_hash(min, &n, sizeof(n)));
}
static struct el *
hn(int k)
{
	int i;

	for (i = 0; i < nel; i++)
		if (els[i].live && k-- == 0)
			return (&els[i]);
	return (NULL);
}
/* -1: not applicable. */
static int
h_op(int op)
{
	struct el * e;
	int rc, min, n = hlive(&min);

	switch (op / 10) {
	case 0:				/* add a key */
	case 1:				/* with failing allocations */
		e = &els[nel++];
		e->key = op % 10;
		e->live = 1;
		e->rc = 999;
		FAILING(op / 10, rc = ptrheap_add(H, e));
		if (rc && !nat_failed)
			nat_fail(T, "failure without a reason");
		if (rc == 0 && nat_failed)
			nat_fail(T, "success although memory could not be allocated");
		if (rc)
			e->live = 0;
		break;
	case 2:				/* delete the minimum */
	case 3:
		if (op % 10 || n == 0)
			return (-1);
		e = ptrheap_getmin(H);
		FAILING(op / 10 - 2, ptrheap_deletemin(H));
		e->live = 0;
		break;
	case 4:				/* delete one */
	case 5:
		if (!withrc || (e = hn(op % 10)) == NULL)
			return (-1);
		FAILING(op / 10 - 4, ptrheap_delete(H, e->rc));
		e->live = 0;
		break;
	case 6:				/* decrease one */
		if (!withrc || (e = hn(op % 10)) == NULL)
			return (-1);
		e->key -= 3;
		ptrheap_decrease(H, e->rc);
		break;
	case 7:				/* increase one */
		if (!withrc || (e = hn(op % 10)) == NULL)
			return (-1);
		e->key += 2;
		ptrheap_increase(H, e->rc);
		break;
	case 8:				/* increase the minimum */
		if (n == 0)
			return (-1);
		e = ptrheap_getmin(H);
		e->key += op % 10;
		ptrheap_increasemin(H);
		break;
	}
	nat_trans(1);
	h_check();
	return (0);
}
static void
h_drain(void)
{
	struct el * e;
	int min, last = -1000;

	while (hlive(&min)) {
		e = ptrheap_getmin(H);
		if (e == NULL || !e->live || e->key != min || e->key < last)
			nat_fail(T, "emptying the heap gives elements out of order");
		last = e->key;
		ptrheap_deletemin(H);
		e->live = 0;
	}
	if (ptrheap_getmin(H) != NULL)
		nat_fail(T, "something is left over in the heap");
}
static int nkeys;
static const int * h_alpha;
static int h_nalpha;
static int h_n0;
static long h_keys0;
static long
h_create(int fail)
{
	void * ptrs[MAXH];
	long k = h_keys0;
	int i;

	nel = h_n0;
	for (i = 0; i < h_n0; i++, k /= nkeys) {
		els[i].key = (int)(k % nkeys) + (withrc ? 0 : 0);
		els[i].live = 1;
		els[i].rc = 999;
		ptrs[i] = &els[i];
	}
	FAILING(fail, H = ptrheap_create(hcmp, withrc ? hrc : NULL, els, h_n0, ptrs));
	if ((H == NULL) != (nat_failed > 0))
		nat_fail(T, "ptrheap_create: %s", H ? "success without memory" : "failure without a reason");
	return (H != NULL);
}
static void
h_seq(int d)
{
	int i, o;
	long live = nat_live;

	if (d == 0) {
		CASE("heap of %ld elements (keys %ld, cookies %ld), operations %ld", h_n0, h_keys0, withrc, packed());
		h_create(0);
		h_check();
		for (i = 0; i < depth; i++)
			if (h_op(ops[i]) == -1)
				break;
		h_drain();
		ptrheap_free(H);
		if (nat_live != live)
			nat_fail(T, "%ld allocations are left over", nat_live - live);
		return;
	}
	for (o = 0; o < h_nalpha; o++) {
		ops[depth++] = h_alpha[o];
		h_seq(d - 1);
		depth--;
	}
}
/* From the empty heap: long sequences. */
static const int alpha1[] = { 0, 1, 2, 11, 20, 30, 40, 41, 42, 43, 52, 60, 61, 63, 70, 71, 73, 81, 83 };
#define NA1 (int)(sizeof(alpha1) / sizeof(int))
static long h1p(void) { return (2 * NA1 * NA1); }
static void
heap_ops(long part)
{
	int d;

	withrc = (int)(part % 2);
	nkeys = 3;
	h_n0 = 0;
	h_keys0 = 0;
	h_alpha = alpha1;
	h_nalpha = NA1;
	ops[0] = alpha1[part / 2 / NA1];
	ops[1] = alpha1[part / 2 % NA1];
	depth = 2;
	for (d = 0; d <= nat_bound - 2; d++)
		h_seq(d);
}
/* From every heap of n elements: one or two operations of every kind. */
static long h2p(void) { return (2 * 9 * 9); }
static void
heap_all(long part)
{
	static int all[100];
	int i, n = 0, j, k;
	long q, tot = 1;

	withrc = (int)(part % 2);
	h_n0 = (int)(part / 2 / 9);
	nkeys = 3;
	if (h_n0 > nat_bound)
		return;
	for (i = 0; i < 3; i++)
		all[n++] = i;
	all[n++] = 20; all[n++] = 81; all[n++] = 82;
	for (j = 4; j < 8; j++)
		if (j != 5)
			for (k = 0; k < h_n0 + 1; k++)
				all[n++] = j * 10 + k;
	h_alpha = all;
	h_nalpha = n;
	for (i = 0; i < h_n0; i++)
		tot *= nkeys;
	for (q = part / 2 % 9; q < tot; q += 9) {
		h_keys0 = q;
		depth = 0;
		h_seq(1);
		if (h_n0 <= 6 || nat_thorough)
			h_seq(2);
		CASE("creating a heap of %ld elements without memory", h_n0);
		for (i = 1; i < 4; i++)
			if (h_create(i)) {
				ptrheap_free(H);
				break;
			}
	}
	ptrheap_free(NULL);
}

/* --- Timer queues --- */
static struct { struct timeval tv; int live; void * cookie; } tm[MAXH];
static int ntm;
static const struct timeval tvs[] = { { 0, 0 }, { 0, 999999 }, { 1, 0 }, { 1, 1 }, { 2, 0 }, { -1, 5 } };
static int
tcmp(const struct timeval * a, const struct timeval * b)
{

	return (a->tv_sec != b->tv_sec ? (a->tv_sec < b->tv_sec ? -1 : 1) : a->tv_usec != b->tv_usec ? (a->tv_usec < b->tv_usec ? -1 : 1) : 0);
}
static struct timeval
tmin(int * n)
{
	struct timeval m = { 1000, 0 };
	int i;

	for (*n = i = 0; i < ntm; i++)
		if (tm[i].live) {
			++*n;
			if (tcmp(&tm[i].tv, &m) < 0)
				m = tm[i].tv;
		}
	return (m);
}
static int
tq_op(struct timerqueue * Q, int op)
{
	int i, k, n, rc;
	struct timeval m, at;
	const struct timeval * g;
	void * p;

	nat_trans(1);
	switch (op / 10) {
	case 0:				/* add */
	case 1:				/* ... and the first, second allocation fails */
	case 2:
		tm[ntm].tv = tvs[op % 10];
		FAILING(op / 10, p = timerqueue_add(Q, &tm[ntm].tv, &tm[ntm]));
		if ((p == NULL) != (nat_failed > 0))
			nat_fail(T, "timerqueue_add: %s", p ? "success without memory" : "failure without a reason");
		tm[ntm].cookie = p;
		tm[ntm].live = p != NULL;
		ntm++;
		break;
	case 3:				/* delete */
	case 4:				/* increase */
		for (i = 0, k = op % 10; i < ntm; i++)
			if (tm[i].live && k-- == 0)
				break;
		if (i == ntm)
			return (-1);
		if (op / 10 == 3) {
			timerqueue_delete(Q, tm[i].cookie);
			tm[i].live = 0;
		} else {
			tm[i].tv.tv_sec += 1;
			timerqueue_increase(Q, tm[i].cookie, &tm[i].tv);
		}
		break;
	case 5:				/* take what is due */
		at = tvs[op % 10];
		m = tmin(&n);
		p = timerqueue_getptr(Q, &at);
		rc = n > 0 && tcmp(&m, &at) <= 0;
		if ((p != NULL) != rc)
			nat_fail(T, "timerqueue_getptr(%ld.%06ld) gives %s, the minimum is %ld.%06ld", at.tv_sec, at.tv_usec, p ? "something" : "nothing", m.tv_sec, m.tv_usec);
		if (p) {
			i = (int)((char *)p - (char *)tm) / (int)sizeof(tm[0]);
			if (i < 0 || i >= ntm || p != &tm[i] || !tm[i].live || tcmp(&tm[i].tv, &m))
				nat_fail(T, "timerqueue_getptr gives the wrong element");
			tm[i].live = 0;
		}
		break;
	}
	m = tmin(&n);
	g = timerqueue_getmin(Q);
	if ((g == NULL) != (n == 0) || (g && tcmp(g, &m)))
		nat_fail(T, "timerqueue_getmin is wrong");
	nat_state(nat_hash(n, tm, sizeof(tm[0]) * ntm));
	return (0);
}
static const int alpha2[] = { 0, 1, 2, 3, 5, 10, 21, 30, 31, 32, 40, 41, 42, 50, 51, 52, 53 };
#define NA2 (int)(sizeof(alpha2) / sizeof(int))
static long tqp(void) { return (NA2 * NA2); }
static void
tq_rec(int d)
{
	int o, i;
	long live = nat_live;
	struct timerqueue * Q;
	struct timeval end = { 100, 0 };

	if (d == 0) {
		CASE("timer queue, operations %ld", packed());
		ntm = 0;
		if ((Q = timerqueue_init()) == NULL)
			nat_fail(T, "timerqueue_init failed");
		for (i = 0; i < depth; i++)
			if (tq_op(Q, ops[i]) == -1)
				break;
		if (packed() % 2)
			while (timerqueue_getmin(Q)) {
				int n;
				struct timeval m = tmin(&n), * g;

				g = timerqueue_getptr(Q, &end);
				if (g == NULL || tcmp(g, &m))
					nat_fail(T, "emptying the queue gives elements out of order");
				tm[((char *)g - (char *)tm) / sizeof(tm[0])].live = 0;
			}
		timerqueue_free(Q);
		if (nat_live != live)
			nat_fail(T, "%ld allocations are left over", nat_live - live);
		nat_outcome(nat_hash(ntm, tm, sizeof(tm[0]) * ntm));
		return;
	}
	for (o = 0; o < NA2; o++) {
		ops[depth++] = alpha2[o];
		tq_rec(d - 1);
		depth--;
	}
}
static void
tq(long part)
{
	int d;

	for (d = 1; d < 4; d++) {
		struct timerqueue * Q;
		long live = nat_live;

		CASE("timerqueue_init with allocation %ld failing", d);
		FAILING(d, Q = timerqueue_init());
		if ((Q == NULL) != (nat_failed > 0) || (Q == NULL && nat_live != live))
			nat_fail(T, "timerqueue_init without memory");
		timerqueue_free(Q);
	}
	timerqueue_free(NULL);
	ops[0] = alpha2[part / NA2];
	ops[1] = alpha2[part % NA2];
	depth = 2;
	for (d = 0; d <= nat_bound - 2; d++)
		tq_rec(d);
}

/* --- Memory pools --- */
struct obj { long v[5]; };
MPOOL(one, struct obj, 1);
MPOOL(three, struct obj, 3);
static struct obj * got[64];
static int ngot;
static long poolbytes;
static void
mp_run(int which)
{
	int i, j, k;
	long live = nat_live;

	ngot = 0;
	for (i = 0; i < depth; i++) {
		nat_trans(1);
		if (ops[i] <= 1) {		/* allocate */
			struct obj * o;

			FAILING(ops[i], o = which ? mpool_three_malloc() : mpool_one_malloc());
			if (o == NULL) {
				if (!nat_failed)
					nat_fail(T, "failure without a reason");
				continue;
			}
			for (j = 0; j < ngot; j++)
				if (got[j] == o)
					nat_fail(T, "an object in use is given out again");
			for (j = 0; j < 5; j++)
				o->v[j] = ngot;
			got[ngot++] = o;
		} else {			/* free the oldest, the newest; without memory */
			if (ngot == 0)
				return;
			k = ops[i] == 2 ? 0 : ngot - 1;
			for (j = 0; j < 5; j++)
				if (got[k]->v[j] != got[k]->v[0])
					nat_fail(T, "an object in use was changed");
			FAILING(ops[i] == 4, which ? mpool_three_free(got[k]) : mpool_one_free(got[k]));
			for (j = k; j < ngot - 1; j++)
				got[j] = got[j + 1];
			ngot--;
		}
		nat_state(nat_hash(which, &mpool_one_rec, 40) ^ nat_hash(ngot, &mpool_three_rec.stacklen, 16));
	}
	(void)live;
}
static void
mp_rec(int which, int d)
{
	static const uint8_t z[sizeof(struct mpool)];
	int o, k;
	struct mpool save1 = { 0, 1, mpool_one_static, 0, 0, 0, mpool_one_static, mpool_one_atexit };
	struct mpool save3 = { 0, 3, mpool_three_static, 0, 0, 0, mpool_three_static, mpool_three_atexit };
	long live;

	(void)z;
	if (d == 0) {
		CASE("memory pool of %ld, operations %ld", which ? 3 : 1, packed());
		/* A pool which was just started (its exit function is registered once). */
		save1.state = save3.state = 1;
		mpool_one_rec = save1;
		mpool_three_rec = save3;
		live = nat_live;
		mp_run(which);
		for (k = 0; k < ngot; k++)
			which ? mpool_three_free(got[k]) : mpool_one_free(got[k]);
		which ? mpool_three_free(NULL) : mpool_one_free(NULL);
		which ? mpool_three_atexit() : mpool_one_atexit();
		if (nat_live != live)
			nat_fail(T, "%ld allocations are left over", nat_live - live);
		mpool_one_rec = save1;
		mpool_three_rec = save3;
		nat_outcome(ngot);
		return;
	}
	for (o = 0; o < 5; o++) {
		ops[depth++] = o;
		mp_rec(which, d - 1);
		depth--;
	}
}
static long mpp(void) { return (2 * 25); }
static void
mp(long part)
{
	int d;

	ops[0] = (int)(part / 2 / 5);
	ops[1] = (int)(part / 2 % 5);
	depth = 2;
	for (d = 0; d <= nat_bound - 2; d++)
		mp_rec((int)(part % 2), d);
}

static const struct nat_scenario scens[] = {
	{ "ea_huge", ea_huge, NULL, 1, 1, T },
	{ "ea_ops", ea, eap, 4, 5, T },
	{ "heap_ops", heap_ops, h1p, 5, 6, T },
	{ "heap_all", heap_all, h2p, 7, 8, T },
	{ "timerq", tq, tqp, 6, 7, T },
	{ "mpool", mp, mpp, 9, 11, T },
	{ NULL }
};
int
main(int argc, char ** argv)
{

	return (nat_main(argc, argv, scens));
}
