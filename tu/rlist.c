#include "small_config.h"
#include <stddef.h>
#include "rlist.h"
/* uses of the iteration and entry macros, as a user writes them */
struct elem { long a; struct rlist in; long b; };
void visit(struct elem *e);
void visit_link(struct rlist *e);
void foreach(struct rlist *h) { struct rlist *i; rlist_foreach(i, h) visit_link(i); }
void foreach_reverse(struct rlist *h) { struct rlist *i; rlist_foreach_reverse(i, h) visit_link(i); }
void foreach_entry(struct rlist *h) { struct elem *i; rlist_foreach_entry(i, h, in) visit(i); }
void foreach_entry_reverse(struct rlist *h) { struct elem *i; rlist_foreach_entry_reverse(i, h, in) visit(i); }
void foreach_entry_safe(struct rlist *h) { struct elem *i, *t; rlist_foreach_entry_safe(i, h, in, t) visit(i); }
void foreach_entry_safe_reverse(struct rlist *h) { struct elem *i, *t; rlist_foreach_entry_safe_reverse(i, h, in, t) visit(i); }
struct elem *first_entry(struct rlist *h) { return rlist_first_entry(h, struct elem, in); }
struct elem *last_entry(struct rlist *h) { return rlist_last_entry(h, struct elem, in); }
struct elem *next_entry(struct elem *e) { return rlist_next_entry(e, in); }
struct elem *prev_entry(struct elem *e) { return rlist_prev_entry(e, in); }
struct elem *prev_entry_safe(struct elem *e, struct rlist *h) { return rlist_prev_entry_safe(e, h, in); }
struct elem *shift_entry(struct rlist *h) { return rlist_shift_entry(h, struct elem, in); }
struct elem *shift_tail_entry(struct rlist *h) { return rlist_shift_tail_entry(h, struct elem, in); }
void add_entry(struct rlist *h, struct elem *e) { rlist_add_entry(h, e, in); }
void add_tail_entry(struct rlist *h, struct elem *e) { rlist_add_tail_entry(h, e, in); }
void move_entry(struct rlist *h, struct elem *e) { rlist_move_entry(h, e, in); }
void move_tail_entry(struct rlist *h, struct elem *e) { rlist_move_tail_entry(h, e, in); }
void del_entry(struct elem *e) { rlist_del_entry(e, in); }
int is_head(struct elem *e, struct rlist *h) { return rlist_entry_is_head(e, h, in); }
struct rlist *entry_of(struct rlist *l) { return &rlist_entry(l, struct elem, in)->in; }
/* the functions (always_inline: the compiler emits no body of its own for them otherwise) */
void f_create(struct rlist *l) { rlist_create(l); }
void f_add(struct rlist *h, struct rlist *i) { rlist_add(h, i); }
void f_add_tail(struct rlist *h, struct rlist *i) { rlist_add_tail(h, i); }
void f_del(struct rlist *i) { rlist_del(i); }
struct rlist *f_shift(struct rlist *h) { return rlist_shift(h); }
struct rlist *f_shift_tail(struct rlist *h) { return rlist_shift_tail(h); }
struct rlist *f_first(struct rlist *h) { return rlist_first(h); }
struct rlist *f_last(struct rlist *h) { return rlist_last(h); }
struct rlist *f_next(struct rlist *h) { return rlist_next(h); }
struct rlist *f_prev(struct rlist *h) { return rlist_prev(h); }
int f_empty(struct rlist *h) { return rlist_empty(h); }
void f_move(struct rlist *t, struct rlist *i) { rlist_move(t, i); }
void f_move_tail(struct rlist *t, struct rlist *i) { rlist_move_tail(t, i); }
void f_swap(struct rlist *a, struct rlist *b) { rlist_swap(a, b); }
void f_splice(struct rlist *a, struct rlist *b) { rlist_splice(a, b); }
void f_splice_tail(struct rlist *a, struct rlist *b) { rlist_splice_tail(a, b); }
void f_cut_before(struct rlist *a, struct rlist *b, struct rlist *i) { rlist_cut_before(a, b, i); }
int head_initializer(void) { RLIST_HEAD(x); return x.next == &x && x.prev == &x; }
