/* Contracts of pools, region lists, cons cells, buffers, vectors, reference counts. */
#include "region.h"
typedef aa_mem_pool_t pool_t;
typedef struct aa_mem_rlist rlist_t;
typedef struct aa_mem_cons cons_t;
extern void *g_data; extern cons_t *g_next; extern int g_empty, g_one; extern size_t g_i;
#define FRESH_REG(r) (__CPROVER_is_fresh(r, sizeof(*(r))) && REGION_PRE(r, g_cap))

/* --- pools: a free block is reused first; otherwise the block comes from the region --- */
void *aa_mem_pool_alloc(pool_t *pool)
__CPROVER_requires(__CPROVER_is_fresh(pool, sizeof(*pool)) && REGION_PRE(&pool->region, g_cap))
__CPROVER_requires(pool->size >= 16 && pool->size <= MAXREQ)
__CPROVER_requires(pool->top == NULL || __CPROVER_is_fresh(pool->top, pool->size))
__CPROVER_assigns(pool->top, pool->region.head, pool->region.node)
__CPROVER_frees()
__CPROVER_ensures(__CPROVER_old(pool->top) != NULL ==> (__CPROVER_return_value == __CPROVER_old(pool->top) &&
    pool->top == *(void**)__CPROVER_return_value && pool->region.head == __CPROVER_old(pool->region.head) && pool->region.node == __CPROVER_old(pool->region.node)))
__CPROVER_ensures(__CPROVER_old(pool->top) == NULL ==> (pool->top == NULL && TOP_INV(&pool->region) &&
    PLACED(&pool->region, __CPROVER_return_value, pool->size, __CPROVER_old(pool->region.node), __CPROVER_old(pool->region.head)) &&
    OFF(__CPROVER_return_value) + pool->size <= OFF(pool->region.head)))
;
void aa_mem_pool_free(pool_t *pool, void *ptr)
__CPROVER_requires(__CPROVER_is_fresh(pool, sizeof(*pool)) && pool->size >= 16 && pool->size <= MAXREQ && __CPROVER_is_fresh(ptr, pool->size))
__CPROVER_assigns(pool->top, *(void**)ptr)
__CPROVER_frees()
__CPROVER_ensures(pool->top == ptr && *(void**)ptr == __CPROVER_old(pool->top))
;
void aa_mem_pool_init(pool_t *pool, size_t size, size_t count)
__CPROVER_requires(__CPROVER_is_fresh(pool, sizeof(*pool)) && size <= ((size_t)1 << 20) && count <= ((size_t)1 << 20))
__CPROVER_assigns(__CPROVER_object_whole(pool))
__CPROVER_frees()
__CPROVER_ensures(pool->size >= size && pool->size >= sizeof(void*) && pool->top == NULL && TOP_INV(&pool->region) && pool->region.node->next == NULL)
__CPROVER_ensures(OFF(pool->region.node->end) - OFF(pool->region.head) >= pool->size * count)
;
void aa_mem_pool_release(pool_t *pool)
__CPROVER_requires(__CPROVER_is_fresh(pool, sizeof(*pool)) && REGION_PRE(&pool->region, g_cap) && pool->region.node->next == NULL)
__CPROVER_assigns(pool->top, pool->region.head)
__CPROVER_frees()
__CPROVER_ensures(pool->top == NULL && pool->region.head == D(pool->region.node))
;

/* --- lists: INV(list): tailp addresses the NULL link that ends the list --- */
#define LIST_PRE(l) (__CPROVER_is_fresh(l, sizeof(*(l))) && (g_empty ? (l)->head == NULL && __CPROVER_pointer_equals((l)->tailp, &(l)->head) : \
    __CPROVER_is_fresh((l)->head, sizeof(cons_t)) && (g_one ? (l)->head->next == NULL && __CPROVER_pointer_equals((l)->tailp, &(l)->head->next) : \
      __CPROVER_is_fresh((l)->head->next, sizeof(cons_t)) && __CPROVER_is_fresh((l)->tailp, sizeof(cons_t*)) && *(l)->tailp == NULL)))
#define LIST_ENDED(l) (*(l)->tailp == NULL && ((l)->head == NULL) == ((l)->tailp == &(l)->head))

void aa_mem_rlist_push_cons(rlist_t *list, cons_t *node)
__CPROVER_requires(LIST_PRE(list) && __CPROVER_is_fresh(node, sizeof(*node)) && (g_empty ? node->next == NULL : __CPROVER_pointer_equals(node->next, list->head)))
__CPROVER_assigns(list->head, list->tailp)
__CPROVER_frees()
__CPROVER_ensures(list->head == node && node->next == __CPROVER_old(list->head) && LIST_ENDED(list))
__CPROVER_ensures(__CPROVER_old(list->head) == NULL ? list->tailp == &node->next : list->tailp == __CPROVER_old(list->tailp))
;
void aa_mem_rlist_enqueue_cons(rlist_t *list, cons_t *node)
__CPROVER_requires(LIST_PRE(list) && __CPROVER_is_fresh(node, sizeof(*node)) && node->next == NULL)
__CPROVER_assigns(*list->tailp, list->tailp)
__CPROVER_frees()
__CPROVER_ensures(*__CPROVER_old(list->tailp) == node && list->tailp == &node->next && node->next == NULL)
__CPROVER_ensures(__CPROVER_old(list->head) == NULL ? list->head == node : list->head == __CPROVER_old(list->head))
;
void *aa_mem_rlist_pop(rlist_t *list)
__CPROVER_requires(LIST_PRE(list) && (g_empty || (list->head->data == g_data && list->head->next == g_next)))
__CPROVER_assigns(list->head, list->tailp)
__CPROVER_frees()
__CPROVER_ensures(g_empty ? (__CPROVER_return_value == NULL && list->head == NULL) : (__CPROVER_return_value == g_data && list->head == g_next))
__CPROVER_ensures(LIST_ENDED(list))
;

rlist_t *aa_mem_rlist_alloc(struct aa_mem_region *reg)
__CPROVER_requires(FRESH_REG(reg))
__CPROVER_assigns(reg->head, reg->node, __CPROVER_object_from(reg->head))
__CPROVER_frees()
__CPROVER_ensures(__CPROVER_return_value->reg == reg && __CPROVER_return_value->head == NULL && __CPROVER_return_value->tailp == &__CPROVER_return_value->head)
__CPROVER_ensures(TOP_INV(reg) && PLACED(reg, __CPROVER_return_value, sizeof(rlist_t), __CPROVER_old(reg->node), __CPROVER_old(reg->head)))
__CPROVER_ensures(OFF(__CPROVER_return_value) + sizeof(rlist_t) <= OFF(reg->head))
;
cons_t *aa_mem_cons_ptr(aa_mem_region_t *reg, void *p, cons_t *next)
__CPROVER_requires(FRESH_REG(reg))
__CPROVER_assigns(reg->head, reg->node, __CPROVER_object_from(reg->head))
__CPROVER_frees()
__CPROVER_ensures(__CPROVER_return_value->data == p && __CPROVER_return_value->next == next)
__CPROVER_ensures(TOP_INV(reg) && PLACED(reg, __CPROVER_return_value, sizeof(cons_t), __CPROVER_old(reg->node), __CPROVER_old(reg->head)))
__CPROVER_ensures(OFF(__CPROVER_return_value) + sizeof(cons_t) <= OFF(reg->head))
;
/* tracked byte g_i of the copied data */
cons_t *aa_mem_cons_cpy(aa_mem_region_t *reg, const void *p, size_t n, cons_t *next)
__CPROVER_requires(FRESH_REG(reg) && n > 0 && n <= ((size_t)1 << 32) && __CPROVER_is_fresh(p, n) && g_i < n)
__CPROVER_assigns(reg->head, reg->node, __CPROVER_object_from(reg->head))
__CPROVER_frees()
__CPROVER_ensures(__CPROVER_return_value->next == next && __CPROVER_same_object(__CPROVER_return_value->data, __CPROVER_return_value))
__CPROVER_ensures(OFF(__CPROVER_return_value->data) >= OFF(__CPROVER_return_value) + sizeof(cons_t) && OFF(__CPROVER_return_value->data) + n <= OFF(reg->head))
__CPROVER_ensures(((uint8_t*)__CPROVER_return_value->data)[g_i] == ((const uint8_t*)p)[g_i])
__CPROVER_ensures(TOP_INV(reg) && PLACED(reg, __CPROVER_return_value, sizeof(cons_t) + n, __CPROVER_old(reg->node), __CPROVER_old(reg->head)))
;
aa_flexbuf_t *aa_flexbuf_alloc(size_t n)
__CPROVER_requires(n <= ((size_t)1 << 32) && n >= 8)
__CPROVER_assigns()
__CPROVER_frees()
__CPROVER_ensures(__CPROVER_return_value->n == n && __CPROVER_OBJECT_SIZE(__CPROVER_return_value) >= offsetof(aa_flexbuf_t, d) + n)
;
#include "src/mem.c"
size_t g_cap, g_off, g_i; int g_empty, g_one; void *g_data; cons_t *g_next;

void h_pool_alloc(void) { pool_t *p; aa_mem_pool_alloc(p); }
void h_pool_free(void) { pool_t *p; void *q; aa_mem_pool_free(p, q); }
void h_pool_init(void) { pool_t *p; size_t a, b; aa_mem_pool_init(p, a, b); }
void h_pool_release(void) { pool_t *p; aa_mem_pool_release(p); }
void h_push_cons(void) { rlist_t *l; cons_t *n; g_empty = nondet_int(); g_one = nondet_int(); aa_mem_rlist_push_cons(l, n); }
void h_enqueue_cons(void) { rlist_t *l; cons_t *n; g_empty = nondet_int(); g_one = nondet_int(); aa_mem_rlist_enqueue_cons(l, n); }
void h_rlist_alloc(void) { struct aa_mem_region *r; g_cap = nondet_size(); aa_mem_rlist_alloc(r); }
void h_cons_ptr(void) { struct aa_mem_region *r; void *p; cons_t *n; aa_mem_cons_ptr(r, p, n); }
void h_cons_cpy(void) { struct aa_mem_region *r; void *p; size_t k; cons_t *n; aa_mem_cons_cpy(r, p, k, n); }
void h_flexbuf(void) { size_t n; aa_flexbuf_alloc(n); }
void h_rlist_pop(void) { rlist_t *l; g_empty = nondet_int(); g_one = nondet_int(); g_data = (void*)nondet_size(); g_next = (cons_t*)nondet_size(); aa_mem_rlist_pop(l); }
