/* Red-black tree against a sorted array (P23, P24). */
#include "drv.h"
#include <assert.h>
#include "rb.h"

#define MAXN 400
struct nd {
	int key, sub;
	uint64_t canary1;
	rb_node(struct nd) link;
	uint64_t canary2;
	uint32_t count;
	uint64_t hash;
	bool in;
};
typedef rb_tree(struct nd) tree_t;

static int
cmp_nd(const struct nd *a, const struct nd *b)
{
	if (a->key != b->key)
		return a->key < b->key ? -1 : 1;
	return a->sub < b->sub ? -1 : a->sub > b->sub;
}
static int
cmp_key(int key, const struct nd *b)
{
	return key < b->key ? -1 : key > b->key;
}
static uint64_t
mixh(const struct nd *n)
{
	return ((uint64_t)n->key * 1000003 + (uint64_t)n->sub + 12345) * 0x9e3779b97f4a7c15ull;
}
static void
aug_nd(struct nd *n, const struct nd *l, const struct nd *r)
{
	n->count = 1 + (l ? l->count : 0) + (r ? r->count : 0);
	n->hash = mixh(n) + (l ? l->hash : 0) + (r ? r->hash : 0);
}
rb_gen_ext_key_aug(static, t_, tree_t, struct nd, link, cmp_nd, int, cmp_key, aug_nd)
rb_gen(static, u_, tree_t, struct nd, link, cmp_nd)

static tree_t tree;
static struct nd node[MAXN];
static struct nd *arr[MAXN];	/* the nodes in the tree, sorted */
static int cnt;
static bool plain;

static struct nd *left_of(struct nd *n) { return rbtn_left_get(struct nd, link, n); }
static struct nd *right_of(struct nd *n) { return rbtn_right_get(struct nd, link, n); }

static int pos_, maxh;
/* returns the black height */
static int
walk(struct nd *n, int depth, bool parent_red)
{
	if (n == NULL)
		return 0;
	CHECK(PROP(23), depth < 120, "a path is longer than any tree");
	if (depth + 1 > maxh)
		maxh = depth + 1;
	CHECK(PROP(23), n >= node && n < node + MAXN && n->in, "the tree contains a node that was not inserted");
	bool red = rbtn_red_get(struct nd, link, n);
	CHECK(PROP(23), !(red && parent_red), "a red node has a red child");
	int bl = walk(left_of(n), depth + 1, red);
	CHECK(PROP(23), pos_ < cnt, "more nodes than inserted");
	CHECK(PROP(23), arr[pos_] == n, "position %d holds (%d,%d), expected (%d,%d)", pos_, n->key, n->sub,
	      arr[pos_]->key, arr[pos_]->sub);
	pos_++;
	int br = walk(right_of(n), depth + 1, red);
	CHECK(PROP(23), bl == br, "paths with different numbers of black nodes");
	CHECK(PROP(23), n->canary1 == 0x1122334455667788 && n->canary2 == 0x8877665544332211, "bytes of a node are overwritten");
	if (!plain) {
		const struct nd *l = left_of(n), *r = right_of(n);
		CHECK(PROP(23), n->count == 1 + (l ? l->count : 0) + (r ? r->count : 0) &&
		      n->hash == mixh(n) + (l ? l->hash : 0) + (r ? r->hash : 0), "aggregate of (%d,%d) is outdated", n->key, n->sub);
	}
	return bl + !red;
}
static void
verify(void)
{
	pos_ = maxh = 0;
	CHECK(PROP(23), tree.rbt_root == NULL || !rbtn_red_get(struct nd, link, tree.rbt_root), "the root is red");
	walk(tree.rbt_root, 0, false);
	CHECK(PROP(23), pos_ == cnt, "%d nodes in the tree, %d inserted", pos_, cnt);
	CHECK(PROP(23), (1ull << ((maxh + 1) / 2)) <= (uint64_t)cnt + 1 || maxh <= 1, "height %d with %d nodes", maxh, cnt);
	CHECK(PROP(24), t_empty(&tree) == (cnt == 0), "empty");
}
static void
insert(struct nd *n)
{
	OP(PROP(23), "insert (%d,%d)\n", n->key, n->sub);
	n->count = 77;
	n->hash = 99;
	memset(&n->link, rnd(2) ? 0 : 0x5a, sizeof(n->link));
	if (plain)
		u_insert(&tree, n);
	else
		t_insert(&tree, n);
	int p = 0;
	while (p < cnt && cmp_nd(arr[p], n) < 0)
		p++;
	memmove(arr + p + 1, arr + p, (cnt - p) * sizeof(arr[0]));
	arr[p] = n;
	cnt++;
	n->in = true;
}
static void
del(int p)
{
	struct nd *n = arr[p];
	OP(PROP(23), "remove (%d,%d)\n", n->key, n->sub);
	if (plain)
		u_remove(&tree, n);
	else
		t_remove(&tree, n);
	memmove(arr + p, arr + p + 1, (cnt - p - 1) * sizeof(arr[0]));
	cnt--;
	n->in = false;
	memset(&n->link, 0x5a, sizeof(n->link));
}

static int seen, want, stop_at, step;
static struct nd *
cb(tree_t *t, struct nd *n, void *arg)
{
	CHECK(PROP(24), t == &tree && arg == &seen, "callback arguments");
	CHECK(PROP(24), want >= 0 && want < cnt && n == arr[want], "walk with a callback: node (%d,%d), expected position %d", n->key, n->sub, want);
	want += step;
	seen++;
	if (seen == stop_at)
		return n;
	return NULL;
}

static void
check_it(struct t_iterator *it, int at, const char *what)
{
	struct nd *e = at >= 0 && at < cnt ? arr[at] : NULL;
	CHECK(PROP(24), t_iterator_get(it) == e, "%s: wrong position (expected %d of %d)", what, at, cnt);
	struct t_iterator i2 = *it;
	if (rnd(2)) {
		for (int i = at; i >= 0 && i <= cnt; i++) {
			struct nd *x = i < cnt ? arr[i] : NULL;
			CHECK(PROP(24), t_iterator_get(&i2) == x && t_inext(&i2) == x, "%s, walk forward: wrong node at %d of %d", what, i, cnt);
		}
	} else {
		for (int i = at; i >= -1 && i < cnt; i--) {
			struct nd *x = i >= 0 ? arr[i] : NULL;
			CHECK(PROP(24), t_iterator_get(&i2) == x && t_iprev(&i2) == x, "%s, walk backward: wrong node at %d of %d", what, i, cnt);
		}
	}
	if (e != NULL) {
		/* back and forth */
		int i = at;
		i2 = *it;
		for (int k = 0; k < 12 && i >= 0 && i < cnt; k++) {
			CHECK(PROP(24), t_iterator_get(&i2) == arr[i], "%s, zigzag: wrong node", what);
			if (rnd(2)) {
				t_inext(&i2);
				i++;
			} else {
				t_iprev(&i2);
				i--;
			}
		}
	} else {
		CHECK(PROP(24), t_inext(&i2) == NULL && t_iprev(&i2) == NULL, "%s: exhausted iterator moves", what);
	}
}

static int wn;
static bool wseen[MAXN];
static void
queries(void)
{
	struct t_iterator it;
	OP(PROP(24), "queries with %d nodes\n", cnt);
	CHECK(PROP(24), t_first(&tree) == (cnt ? arr[0] : NULL) && t_last(&tree) == (cnt ? arr[cnt - 1] : NULL), "first or last");
	for (int r = 0; r < 3 && cnt > 0; r++) {
		int p = rnd(3) ? (int)rnd(cnt) : r ? cnt - 1 : 0;
		CHECK(PROP(24), t_next(&tree, arr[p]) == (p + 1 < cnt ? arr[p + 1] : NULL), "next of position %d of %d", p, cnt);
		CHECK(PROP(24), t_prev(&tree, arr[p]) == (p > 0 ? arr[p - 1] : NULL), "previous of position %d of %d", p, cnt);
		memset(&it, 0xee, sizeof(it));
		CHECK(PROP(24), t_icreate(&tree, arr[p], &it), "icreate does not find a node");
		check_it(&it, p, "icreate");
		seen = 0;
		step = 1;
		want = p;
		stop_at = rnd(2) ? 0 : 1 + (int)rnd(cnt);
		struct nd *x = t_iter(&tree, rnd(8) && p == 0 ? NULL : arr[p], cb, &seen);
		CHECK(PROP(24), stop_at && stop_at <= cnt - p ? x == arr[p + stop_at - 1] && seen == stop_at : x == NULL && seen == cnt - p,
		      "iter from %d of %d: %d nodes", p, cnt, seen);
		seen = 0;
		step = -1;
		want = p;
		x = t_reverse_iter(&tree, rnd(2) && p == cnt - 1 ? NULL : arr[p], cb, &seen);
		CHECK(PROP(24), stop_at && stop_at <= p + 1 ? x == arr[p - stop_at + 1] && seen == stop_at : x == NULL && seen == p + 1,
		      "reverse_iter from %d of %d: %d nodes", p, cnt, seen);
	}
	if (cnt == 0) {
		seen = 0;
		CHECK(PROP(24), t_iter(&tree, NULL, cb, &seen) == NULL && t_reverse_iter(&tree, NULL, cb, &seen) == NULL && seen == 0, "iter of an empty tree");
	}
	for (int r = 0; r < 4; r++) {
		int key = cnt && rnd(3) ? arr[rnd(cnt)]->key + (int)rnd(3) - 1 : (int)rnd(60) - 5;
		int lo = 0, hi = 0;	/* [lo, hi) matches */
		while (lo < cnt && arr[lo]->key < key)
			lo++;
		for (hi = lo; hi < cnt && arr[hi]->key == key; hi++)
			;
		struct nd *x = t_search(&tree, key);
		CHECK(PROP(24), lo == hi ? x == NULL : x != NULL && x->key == key && x->in, "search(%d)", key);
		x = t_nsearch(&tree, key);
		CHECK(PROP(24), x == (lo < hi ? arr[hi - 1] : lo < cnt ? arr[lo] : NULL), "nsearch(%d)", key);
		x = t_psearch(&tree, key);
		CHECK(PROP(24), x == (lo < hi ? arr[lo] : lo > 0 ? arr[lo - 1] : NULL), "psearch(%d)", key);
		memset(&it, 0xee, sizeof(it));
		bool f = t_isearch(&tree, key, &it);
		CHECK(PROP(24), f == (lo < hi), "isearch(%d)", key);
		if (f) {
			x = t_iterator_get(&it);
			int p = lo;
			while (p < hi && arr[p] != x)
				p++;
			CHECK(PROP(24), p < hi, "isearch(%d) finds another key", key);
			check_it(&it, p, "isearch");
		} else {
			CHECK(PROP(24), t_iterator_get(&it) == NULL, "isearch(%d) finds something", key);
		}
		memset(&it, 0xee, sizeof(it));
		t_isearch_le(&tree, key, &it);
		check_it(&it, hi - 1, "isearch_le");
		memset(&it, 0xee, sizeof(it));
		t_isearch_ge(&tree, key, &it);
		check_it(&it, lo < cnt ? lo : cnt, "isearch_ge");
		memset(&it, 0xee, sizeof(it));
		t_isearch_lt(&tree, key, &it);
		check_it(&it, lo - 1, "isearch_lt");
		memset(&it, 0xee, sizeof(it));
		t_isearch_gt(&tree, key, &it);
		check_it(&it, hi < cnt ? hi : cnt, "isearch_gt");
	}
	struct nd absent = { .key = (int)rnd(50), .sub = 100000 };
	CHECK(PROP(24), !t_icreate(&tree, &absent, &it) && t_iterator_get(&it) == NULL, "icreate of an absent node");
	memset(&it, 0xee, sizeof(it));
	t_ifirst(&tree, &it);
	check_it(&it, 0, "ifirst");
	memset(&it, 0xee, sizeof(it));
	t_ilast(&tree, &it);
	check_it(&it, cnt - 1, "ilast");
	/* pre-order walk, with pruned subtrees */
	struct t_walk w;
	memset(&w, 0xee, sizeof(w));
	t_walk_init(&w, &tree);
	static struct { struct nd *n; } todo[2 * MAXN + 4];
	int nt = 0;
	if (tree.rbt_root)
		todo[nt++].n = tree.rbt_root;
	int dir = rnd(4), mode = rnd(3);
	while (true) {
		struct nd *l, *r;
		struct nd *x = t_walk_next(&w, dir, &l, &r);
		struct nd *e = nt ? todo[--nt].n : NULL;
		CHECK(PROP(24), x == e, "walk_next returns another node");
		if (x == NULL)
			break;
		CHECK(PROP(24), l == left_of(x) && r == right_of(x), "walk_next returns other children");
		dir = mode == 0 ? RB_WALK_LEFT | RB_WALK_RIGHT : (int)rnd(4);
		if ((dir & RB_WALK_RIGHT) && r)
			todo[nt++].n = r;
		if ((dir & RB_WALK_LEFT) && l)
			todo[nt++].n = l;
	}
	(void)wn; (void)wseen;
}

static void
drv_history(uint64_t n)
{
	cnt = 0;
	plain = n % 4 == 3;
	t_new(&tree);
	for (int i = 0; i < MAXN; i++) {
		node[i].in = false;
		node[i].canary1 = 0x1122334455667788;
		node[i].canary2 = 0x8877665544332211;
	}
	int mode = rnd(5);
	int size = rnd(2) ? 3 + (int)rnd(20) : 3 + (int)rnd(drv_thorough ? MAXN - 4 : 120);
	int perkey = 1 + rnd(4);
	for (int i = 0; i < size; i++) {
		node[i].key = 2 * (i / perkey) + 1;
		node[i].sub = i % perkey;
	}
	/* fill */
	int order = rnd(4);
	for (int i = 0; i < size; i++) {
		int k = order == 0 ? i : order == 1 ? size - 1 - i : order == 2 ? (i & 1 ? size - 1 - i / 2 : i / 2) : (int)rnd(size);
		if (node[k].in || rnd(8) == 0)
			continue;
		insert(&node[k]);
		verify();
	}
	if (!plain)
		queries();
	int ops = 10 + (int)rnd(2 * size);
	for (int i = 0; i < ops; i++) {
		int k = rnd(size);
		if (cnt > 0 && (mode == 0 || rnd(2))) {
			int p = mode == 1 ? 0 : mode == 2 ? cnt - 1 : mode == 3 ? cnt / 2 : (int)rnd(cnt);
			del(p);
		} else if (!node[k].in) {
			insert(&node[k]);
		}
		verify();
		if (!plain && rnd(4) == 0)
			queries();
	}
	shm->nontrivial += cnt;
	int end = rnd(3);
	while (cnt > 0) {
		del(end == 0 ? 0 : end == 1 ? cnt - 1 : (int)rnd(cnt));
		verify();
	}
	queries();
}
