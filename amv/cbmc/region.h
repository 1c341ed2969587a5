/* Shared definitions for contracts on src/mem.c */
#include "amino.h"
#include <stdarg.h>
#include <stddef.h>
#define HDR sizeof(struct aa_mem_region_node)
#define AL  ((size_t)AA_MEMREG_ALIGN)
#define D(n) ((uint8_t*)(n) + HDR)
#define CAP(n) ((size_t)((n)->end - D(n)))
#define MAXCAP ((size_t)1 << 40)
#define MAXREQ ((size_t)1 << 40)
#define OFF(p) __CPROVER_POINTER_OFFSET(p)
size_t nondet_size(void); int nondet_int(void); uint8_t nondet_u8(void);
extern size_t g_cap, g_off;   /* ghost: capacity of the top chunk, offset of the head in it */

/* INV(top chunk): one heap object of HDR+cap bytes, ending at `end`, end and head on alignment boundaries, head inside */
#define TOP_INV(r) (\
     (r)->node->end == D((r)->node) + CAP((r)->node) && CAP((r)->node) % AL == 0 && \
     __CPROVER_OBJECT_SIZE((r)->node) >= HDR + CAP((r)->node) && OFF((r)->node) == 0 && \
     __CPROVER_same_object((r)->head, (r)->node) && __CPROVER_same_object((r)->node->end, (r)->node) && \
     OFF((r)->head) >= HDR && OFF((r)->head) <= OFF((r)->node->end) && OFF((r)->head) % AL == 0)
/* the same, as a precondition that builds the state */
#define REGION_PRE(r, cap) \
    ((cap) >= AL && (cap) % AL == 0 && (cap) <= MAXCAP && \
     __CPROVER_is_fresh((r)->node, HDR + (cap)) && \
     __CPROVER_pointer_in_range_dfcc(D((r)->node) + (cap), (r)->node->end, D((r)->node) + (cap)) && \
     __CPROVER_pointer_in_range_dfcc(D((r)->node), (r)->head, (r)->node->end) && \
     (size_t)((r)->head - D((r)->node)) % AL == 0)
/* result p of n bytes: inside the top chunk, aligned; if the chunk is the old one it starts at the old head */
#define PLACED(r, p, n, oldnode, oldhead) (\
     ((r)->node == (oldnode) ? (uint8_t*)(p) == (oldhead) : (r)->node->next == (oldnode)) && \
     __CPROVER_same_object(p, (r)->node) && OFF(p) >= HDR && OFF(p) % AL == 0 && OFF(p) + (n) <= OFF((r)->node->end))
