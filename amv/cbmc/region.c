/* Contracts of the region allocator, on the functions of src/mem.c itself. */
#include "region.h"

void *aa_mem_region_alloc(aa_mem_region_t *region, size_t size)
__CPROVER_requires(__CPROVER_is_fresh(region, sizeof(*region)) && REGION_PRE(region, g_cap) && size <= MAXREQ)
__CPROVER_assigns(region->head, region->node)
__CPROVER_frees()
__CPROVER_ensures(TOP_INV(region))
__CPROVER_ensures(PLACED(region, __CPROVER_return_value, size, __CPROVER_old(region->node), __CPROVER_old(region->head)))
__CPROVER_ensures(OFF(__CPROVER_return_value) + size <= OFF(region->head))
;

void *aa_mem_region_tmpalloc(aa_mem_region_t *region, size_t size)
__CPROVER_requires(__CPROVER_is_fresh(region, sizeof(*region)) && REGION_PRE(region, g_cap) && size <= MAXREQ)
__CPROVER_assigns(region->head, region->node)
__CPROVER_frees()
__CPROVER_ensures(TOP_INV(region))
__CPROVER_ensures(PLACED(region, __CPROVER_return_value, size, __CPROVER_old(region->node), __CPROVER_old(region->head)))
__CPROVER_ensures((uint8_t*)__CPROVER_return_value == region->head)
;

void aa_mem_region_init(aa_mem_region_t *region, size_t size)
__CPROVER_requires(__CPROVER_is_fresh(region, sizeof(*region)) && size <= MAXREQ)
__CPROVER_assigns(__CPROVER_object_whole(region))
__CPROVER_frees()
__CPROVER_ensures(TOP_INV(region) && region->node->next == NULL && region->head == D(region->node))
__CPROVER_ensures(OFF(region->node->end) - OFF(region->head) >= size && !region->free_on_destroy)
;

struct aa_mem_region *aa_mem_region_create(size_t size)
__CPROVER_requires(size <= MAXREQ)
__CPROVER_assigns()
__CPROVER_frees()
__CPROVER_ensures(TOP_INV(__CPROVER_return_value) && __CPROVER_return_value->node->next == NULL)
__CPROVER_ensures(OFF(__CPROVER_return_value->node->end) - OFF(__CPROVER_return_value->head) >= size)
__CPROVER_ensures(__CPROVER_return_value->free_on_destroy)
;

size_t aa_mem_region_freesize(aa_mem_region_t *region)
__CPROVER_requires(__CPROVER_is_fresh(region, sizeof(*region)) && REGION_PRE(region, g_cap))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == OFF(region->node->end) - OFF(region->head))
;

size_t aa_mem_region_topsize(aa_mem_region_t *region)
__CPROVER_requires(__CPROVER_is_fresh(region, sizeof(*region)) && REGION_PRE(region, g_cap))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == g_cap)
;

void *aa_mem_region_ptr(aa_mem_region_t *region)
__CPROVER_requires(__CPROVER_is_fresh(region, sizeof(*region)) && REGION_PRE(region, g_cap))
__CPROVER_assigns()
__CPROVER_ensures((uint8_t*)__CPROVER_return_value == region->head)
;

/* popping to a mark in the top chunk, for any number of chunks below */
void aa_mem_region_pop(aa_mem_region_t *reg, void *ptr)
__CPROVER_requires(__CPROVER_is_fresh(reg, sizeof(*reg)) && REGION_PRE(reg, g_cap))
__CPROVER_requires(__CPROVER_pointer_in_range_dfcc(D(reg->node), ptr, reg->head) && OFF(ptr) % AL == 0)
__CPROVER_assigns(reg->head)
__CPROVER_frees()
__CPROVER_ensures(TOP_INV(reg) && reg->head == (uint8_t*)ptr)
;

#include "src/mem.c"

size_t g_cap, g_off;
void h_alloc(void) { aa_mem_region_t *r; size_t n; aa_mem_region_alloc(r, n); }
void h_tmpalloc(void) { aa_mem_region_t *r; size_t n; aa_mem_region_tmpalloc(r, n); }
void h_init(void) { aa_mem_region_t *r; size_t n; aa_mem_region_init(r, n); }
void h_create(void) { size_t n; aa_mem_region_create(n); }
void h_freesize(void) { aa_mem_region_t *r; aa_mem_region_freesize(r); }
void h_topsize(void) { aa_mem_region_t *r; aa_mem_region_topsize(r); }
void h_ptr(void) { aa_mem_region_t *r; aa_mem_region_ptr(r); }
void h_pop_top(void) { aa_mem_region_t *r; void *p; aa_mem_region_pop(r, p); }
