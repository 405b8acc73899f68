/* P25: several lists against arrays */
#include "drv.h"
#include "small_config.h"
#include "rlist.h"
#define P PROP(25)
enum { NL = 4, NE = 14 };
struct elem { long a; struct rlist in; long b; };
static struct rlist *H[NL];
static struct elem *E[NE];
static int seq[NL][NE], len[NL];	/* the elements of each list */
static int where[NE];			/* list of the element, -1: none */

static void
check(void)
{
	for (int l = 0; l < NL; l++) {
		struct rlist *p = H[l];
		for (int i = 0; i < len[l]; i++) {
			struct rlist *n = &E[seq[l][i]]->in;
			CHECK(P, p->next == n, "list %d: element %d does not follow its predecessor", l, i);
			CHECK(P, n->prev == p, "list %d: element %d does not point back", l, i);
			p = n;
		}
		CHECK(P, p->next == H[l] && H[l]->prev == p, "list %d: the end is not linked to the head", l);
		CHECK(P, (rlist_empty(H[l]) != 0) == (len[l] == 0), "list %d: rlist_empty() with %d elements", l, len[l]);
		struct elem *e, *t;
		int i = 0, k = (int)rnd(6);
		switch (k) {
		case 0: { struct rlist *x; rlist_foreach(x, H[l]) { CHECK(P, i < len[l] && x == &E[seq[l][i]]->in, "foreach: element %d", i); i++; } break; }
		case 1: { struct rlist *x; rlist_foreach_reverse(x, H[l]) { CHECK(P, i < len[l] && x == &E[seq[l][len[l] - 1 - i]]->in, "foreach_reverse: element %d", i); i++; } break; }
		case 2: rlist_foreach_entry(e, H[l], in) { CHECK(P, i < len[l] && e == E[seq[l][i]], "foreach_entry: element %d", i); i++; } break;
		case 3: rlist_foreach_entry_reverse(e, H[l], in) { CHECK(P, i < len[l] && e == E[seq[l][len[l] - 1 - i]], "foreach_entry_reverse: element %d", i); i++; } break;
		case 4: rlist_foreach_entry_safe(e, H[l], in, t) { CHECK(P, i < len[l] && e == E[seq[l][i]], "foreach_entry_safe: element %d", i); i++; } break;
		case 5: rlist_foreach_entry_safe_reverse(e, H[l], in, t) { CHECK(P, i < len[l] && e == E[seq[l][len[l] - 1 - i]], "foreach_entry_safe_reverse: element %d", i); i++; } break;
		}
		CHECK(P, i == len[l], "iteration visits %d of %d elements", i, len[l]);
		if (len[l] > 0) {
			CHECK(P, rlist_first(H[l]) == &E[seq[l][0]]->in && rlist_last(H[l]) == &E[seq[l][len[l] - 1]]->in, "first or last");
			CHECK(P, rlist_first_entry(H[l], struct elem, in) == E[seq[l][0]] && rlist_last_entry(H[l], struct elem, in) == E[seq[l][len[l] - 1]], "first or last entry");
			int j = rnd(len[l]);
			e = E[seq[l][j]];
			CHECK(P, rlist_prev_entry_safe(e, H[l], in) == (j ? E[seq[l][j - 1]] : NULL), "prev_entry_safe of element %d", j);
			CHECK(P, rlist_next(&e->in) == (j + 1 < len[l] ? &E[seq[l][j + 1]]->in : H[l]) && rlist_prev(&e->in) == (j ? &E[seq[l][j - 1]]->in : H[l]), "neighbours of element %d", j);
			if (j + 1 < len[l])
				CHECK(P, rlist_next_entry(e, in) == E[seq[l][j + 1]], "next_entry of element %d", j);
			if (j > 0)
				CHECK(P, rlist_prev_entry(e, in) == E[seq[l][j - 1]], "prev_entry of element %d", j);
			CHECK(P, !rlist_entry_is_head(e, H[l], in), "an element is taken for the head");
		}
	}
	for (int i = 0; i < NE; i++) {
		CHECK(P, E[i]->a == i * 3 + 1 && E[i]->b == i * 5 + 2, "element %d is overwritten", i);
		if (where[i] < 0)
			CHECK(P, E[i]->in.next == &E[i]->in && E[i]->in.prev == &E[i]->in, "element %d, in no list, is linked", i);
	}
}
static void
ins(int l, int pos, int e)
{
	memmove(seq[l] + pos + 1, seq[l] + pos, sizeof(int) * (len[l] - pos));
	seq[l][pos] = e;
	len[l]++;
	where[e] = l;
}
static int
del(int l, int pos)
{
	int e = seq[l][pos];
	memmove(seq[l] + pos, seq[l] + pos + 1, sizeof(int) * (len[l] - pos - 1));
	len[l]--;
	where[e] = -1;
	return e;
}
static int
posof(int e)
{
	for (int i = 0; i < len[where[e]]; i++)
		if (seq[where[e]][i] == e)
			return i;
	abort();
}
static struct rlist *
node(int l, int pos)	/* pos 0: head, i: element i - 1 */
{
	return pos == 0 ? H[l] : &E[seq[l][pos - 1]]->in;
}
static void
drv_history(uint64_t n)
{
	for (int l = 0; l < NL; l++) {
		H[l] = malloc(sizeof(struct rlist));
		memset(H[l], 0xa5, sizeof(struct rlist));
		rlist_create(H[l]);
		len[l] = 0;
	}
	for (int i = 0; i < NE; i++) {
		E[i] = malloc(sizeof(struct elem));
		E[i]->a = i * 3 + 1;
		E[i]->b = i * 5 + 2;
		rlist_create(&E[i]->in);
		where[i] = -1;
	}
	RLIST_HEAD(loc);
	CHECK(P, rlist_empty(&loc) && loc.next == &loc && loc.prev == &loc, "RLIST_HEAD is not empty");
	int used = 1 + rnd(NE), lists = 2 + rnd(NL - 1), steps = 20 + rnd(80);
	for (int i = 0; i < steps; i++) {
		int l = rnd(lists), m = rnd(lists), e = rnd(used), pos = rnd(len[l] + 1), en = rnd(2);
		struct elem *el = E[e];
		switch (rnd(14)) {
		case 0: case 1:
			if (where[e] >= 0) break;
			if (en) pos = 0;
			OP(P, "add list %d position %d element %d\n", l, pos, e);
			if (en) rlist_add_entry(H[l], el, in); else rlist_add(node(l, pos), &el->in);
			ins(l, pos, e);
			break;
		case 2: case 3:
			if (where[e] >= 0) break;
			if (en) pos = 0;
			OP(P, "add_tail list %d position %d element %d\n", l, pos, e);
			if (en) rlist_add_tail_entry(H[l], el, in); else rlist_add_tail(node(l, pos), &el->in);
			ins(l, pos == 0 ? len[l] : pos - 1, e);
			break;
		case 4:
			OP(P, "del %d\n", e);
			if (en) rlist_del_entry(el, in); else rlist_del(&el->in);
			if (where[e] >= 0)
				del(where[e], posof(e));
			break;
		case 5: {
			if (len[l] == 0) break;
			OP(P, "shift list %d of %d\n", l, len[l]);
			int w = del(l, 0);
			if (en) CHECK(P, rlist_shift_entry(H[l], struct elem, in) == E[w], "shift returned another element");
			else CHECK(P, rlist_shift(H[l]) == &E[w]->in, "shift returned another element");
			break;
		}
		case 6: {
			if (len[l] == 0) break;
			OP(P, "shift_tail list %d of %d\n", l, len[l]);
			int w = del(l, len[l] - 1);
			if (en) CHECK(P, rlist_shift_tail_entry(H[l], struct elem, in) == E[w], "shift_tail returned another element");
			else CHECK(P, rlist_shift_tail(H[l]) == &E[w]->in, "shift_tail returned another element");
			break;
		}
		case 7: case 8: {
			bool tail = rnd(2);
			if (en) pos = 0;
			if (pos > 0 && seq[l][pos - 1] == e) break;
			if (tail && where[e] < 0 && rnd(2)) break;
			struct rlist *to = node(l, pos);
			OP(P, "move%s element %d (list %d) to list %d position %d\n", tail ? "_tail" : "", e, where[e], l, pos);
			int pe = pos > 0 ? seq[l][pos - 1] : -1;
			if (tail) { if (en) rlist_move_tail_entry(to, el, in); else rlist_move_tail(to, &el->in); }
			else { if (en) rlist_move_entry(to, el, in); else rlist_move(to, &el->in); }
			if (where[e] >= 0)
				del(where[e], posof(e));
			int at = pe < 0 ? 0 : posof(pe) + 1;
			if (tail)
				at = pe < 0 ? len[l] : at - 1;
			ins(l, at, e);
			break;
		}
		case 9: {
			OP(P, "swap %d (%d) %d (%d)\n", l, len[l], m, len[m]);
			rlist_swap(H[l], H[m]);
			if (l != m) {
				int t[NE], tl = len[l];
				memcpy(t, seq[l], sizeof(t));
				memcpy(seq[l], seq[m], sizeof(t));
				memcpy(seq[m], t, sizeof(t));
				len[l] = len[m];
				len[m] = tl;
				for (int j = 0; j < len[l]; j++) where[seq[l][j]] = l;
				for (int j = 0; j < len[m]; j++) where[seq[m][j]] = m;
			}
			break;
		}
		case 10: case 11: {
			if (l == m) break;
			bool tail = rnd(2);
			OP(P, "splice%s list %d (%d) position %d, list %d (%d)\n", tail ? "_tail" : "", l, len[l], pos, m, len[m]);
			if (tail) rlist_splice_tail(node(l, pos), H[m]); else rlist_splice(node(l, pos), H[m]);
			int at = tail ? (pos == 0 ? len[l] : pos - 1) : pos;
			while (len[m] > 0)
				ins(l, at++, del(m, 0));
			break;
		}
		case 12: case 13: {
			if (l == m) break;
			/* head1 = list m, discarded; item: element of list l, or its head */
			int item = rnd(len[l] + 1);
			/* dispose of the content of m, sometimes leaving its head as it was */
			int old = rnd(2) ? 0 : 1;
			struct rlist keep = *H[m];
			while (len[m] > 0) {
				rlist_create(&E[seq[m][0]]->in);
				del(m, 0);
			}
			if (old == 1 && rnd(2)) {	/* uninitialised */
				keep.next = rnd(2) ? node(l, rnd(len[l] + 1)) : (struct rlist *)0x10;
				keep.prev = rnd(2) ? node(l, rnd(len[l] + 1)) : (struct rlist *)0x20;
			} else if (old == 0)
				keep.next = keep.prev = H[m];
			*H[m] = keep;
			OP(P, "cut_before list %d <- list %d (%d) before %d; head1 %s\n", m, l, len[l], item, old ? "has old content" : "is empty");
			rlist_cut_before(H[m], H[l], item == len[l] ? H[l] : node(l, item + 1));
			for (int j = 0; j < item; j++)
				ins(m, len[m], del(l, 0));
			break;
		}
		}
		check();
		shm->nontrivial++;
	}
	/* iteration with removal of the visited element */
	for (int l = 0; l < lists; l++) {
		struct elem *e, *t;
		bool back = rnd(2);
		OP(P, "list %d: safe iteration%s freeing each element\n", l, back ? " backward" : "");
		int i = 0, k = len[l];
		if (back) {
			rlist_foreach_entry_safe_reverse(e, H[l], in, t) {
				CHECK(P, i < k && e == E[seq[l][k - 1 - i]], "element %d", i);
				i++; rlist_del_entry(e, in); memset(e, 0x5a, sizeof(*e)); free(e);
			}
		} else
			rlist_foreach_entry_safe(e, H[l], in, t) {
				CHECK(P, i < k && e == E[seq[l][i]], "element %d", i);
				i++; rlist_del_entry(e, in); memset(e, 0x5a, sizeof(*e)); free(e);
			}
		CHECK(P, i == k && rlist_empty(H[l]), "%d of %d visited", i, k);
	}
}
