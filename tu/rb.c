#include "small_config.h"
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <sys/types.h>
#include <assert.h>
#include "rb.h"
/* an instance of every generated function; the comparators and the augmentation are opaque */
struct nd { long user; rb_node(struct nd) link; long user2; };
typedef rb_tree(struct nd) tree_t;
int cmp_nd(const struct nd *a, const struct nd *b);
int cmp_key(int key, const struct nd *b);
void aug_nd(struct nd *n, const struct nd *l, const struct nd *r);
rb_gen_ext_key_aug(, t_, tree_t, struct nd, link, cmp_nd, int, cmp_key, aug_nd)
