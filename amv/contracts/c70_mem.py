"""Memory regions, pools, lists, bit sets, byte order, time: CBMC contracts."""
from amv.cbmcrun import item as cb

CH = ["--conversion-check"]
DR = "drv_region.c"
for h, f in (("alloc", "aa_mem_region_alloc"), ("tmpalloc", "aa_mem_region_tmpalloc"), ("init", "aa_mem_region_init"), ("create", "aa_mem_region_create"),
             ("freesize", "aa_mem_region_freesize"), ("topsize", "aa_mem_region_topsize"), ("ptr", "aa_mem_region_ptr")):
    cb("region." + h, "M01", "region.c", "h_" + h, enforce=f, driver=DR, unwind=12)


def rx(name, h, funcs, defines=(), **kw):
    cb("region." + name, "M01", "regionx.c", "h", funcs=funcs, defines=["H_" + h] + list(defines), driver=DR, **kw)


for k in (1, 2, 3):
    for m in range(k):
        rx("pop_%d_of_%d" % (m, k), "POP", "aa_mem_region_pop", ["NCH=%d" % k, "POPM=%d" % m], unwind=max(k + 2, 6), bounded="chunk lists of length 1 to 3; all sizes, offsets and contents", cost=8, solver="--z3")
    rx("release_%d" % k, "RELEASE", "aa_mem_region_release", ["NCH=%d" % k], unwind=max(k + 2, 6), bounded="chunk lists of length 1 to 3")
    rx("destroy_%d" % k, "DESTROY", "aa_mem_region_destroy", ["NCH=%d" % k], unwind=max(k + 2, 6), bounded="chunk lists of length 1 to 3")
    rx("chunk_count_%d" % k, "COUNT", "aa_mem_region_chunk_count", ["NCH=%d" % k], unwind=max(k + 2, 6), bounded="chunk lists of length 1 to 3")
rx("zalloc", "ZALLOC", "aa_mem_region_zalloc")
rx("dup", "DUP", "aa_mem_region_dup")
rx("strdup", "STRDUP", "aa_mem_region_strdup", ["STRMAX=4"], unwind=6, bounded="strings of up to 3 characters")
rx("tmprealloc", "TMPREALLOC", "aa_mem_region_tmprealloc", ["STUB_MEMCPY"], assumptions=["memcpy copies n bytes between valid disjoint ranges (tracked at an arbitrary offset)"])
rx("vprintf", "VPRINTF", "aa_mem_region_vprintf", ["STUB_VSNPRINTF"], unwind=4, assumptions=["vsnprintf writes at most n bytes, terminates the text and returns its full length"])
rx("pop_twice", "POPAGAIN", "aa_mem_region_pop", ["NCH=3", "POPM=1", "START=0"], bounded="a list of 3 chunks, mark in the second", cost=8, solver="--z3")
rx("pop_twice_start", "POPAGAIN", "aa_mem_region_pop", ["NCH=3", "POPM=1", "START=1"], bounded="a list of 3 chunks, mark at the start of the second", cost=8, solver="--z3")


# --- M02
DS = "drv_store.c"
for h, f, kw in (("pool_alloc", "aa_mem_pool_alloc", {}), ("pool_free", "aa_mem_pool_free", {}), ("pool_init", "aa_mem_pool_init", dict(solver="--z3")),
                 ("push_cons", "aa_mem_rlist_push_cons", {}), ("enqueue_cons", "aa_mem_rlist_enqueue_cons", {}), ("rlist_pop", "aa_mem_rlist_pop", {}),
                 ("rlist_alloc", "aa_mem_rlist_alloc", {}), ("cons_ptr", "aa_mem_cons_ptr", {}), ("flexbuf", "aa_flexbuf_alloc", {})):
    cb("store." + h, "M02", "store.c", "h_" + h, enforce=f, driver=DS, unwind=12, **kw)


def sx(name, h, funcs, defines=(), prop="M02", **kw):
    cb("store." + name, prop, "storex.c", "h", funcs=funcs, defines=["H_" + h] + list(defines), driver=DS, **kw)


sx("dup", "DUP", "aa_mem_dup")
sx("malloc0", "MALLOC0", "aa_malloc0")
sx("cons_cpy", "CONS_CPY", "aa_mem_cons_cpy", ["STUB_MEMCPY"], assumptions=["memcpy copies n bytes between valid ranges (tracked at an arbitrary offset)"])
sx("vec_push", "VEC_PUSH", "AA_VECTOR_PUSH", ["LIM=4"], bounded="vectors of up to 4 elements before the push")
sx("vec_empty", "VEC_EMPTY", "AA_VECTOR_PUSH AA_VECTOR_DEF", bounded="three pushes from an empty vector")
sx("list_history", "LIST", "aa_mem_rlist_push_ptr aa_mem_rlist_enqueue_ptr aa_mem_rlist_pop", ["NOPS=6"], bounded="histories of 6 operations from the empty list, then drained", unwind=9, cost=8, calls=["aa_mem_region_alloc:stub_region_alloc"])
sx("list_map", "MAP", "aa_mem_rlist_map", bounded="lists of up to 3 elements", unwind=5, calls=["aa_mem_region_alloc:stub_region_alloc"])
sx("list_copies", "LISTCPY", "aa_mem_rlist_push_cpy aa_mem_rlist_enqueue_cpy", bounded="two elements", unwind=5, calls=["aa_mem_region_alloc:stub_region_alloc"])
for ps, pc in ((16, 2), (24, 1)):
    sx("pool_history_%d" % ps, "POOL", "aa_mem_pool_alloc aa_mem_pool_free", ["NOPS=5", "PSIZE=%d" % ps, "PCOUNT=%d" % pc], bounded="histories of 5 operations", unwind=9, cost=8, calls=["aa_mem_region_alloc:stub_region_alloc"])
sx("pool_release", "POOL_RELEASE", "aa_mem_pool_release", bounded="regions of one or two chunks", unwind=4)
sx("memswap", "MEMSWAP", "aa_memswap", ["LIM=19"], bounded="up to 19 bytes", unwind=21)
sx("refcount", "REF", "aa_mem_ref_inc_mutex aa_mem_ref_dec_mutex", assumptions=["pthread mutexes provide mutual exclusion; the count is otherwise touched by nobody"])
for n, z in ((2, 1), (3, 1), (4, 1), (5, 1), (3, 9)):
    sx("heapsort_%dx%d" % (n, z), "SORT", "aa_aheap_sort aa_aheap_build aa_aheap_heapify", ["NMEMB=%d" % n, "SIZE=%d" % z], bounded="arrays of 2 to 5 elements of 1 or 9 bytes, all contents", unwind=n * z + 3, cost=6, thorough=n == 5, timeout=2000)


# --- B01 and integer modulo (A01)
DB = "drv_bits.c"


def bx(name, h, funcs, defines=(), prop="B01", **kw):
    cb("bits." + name if prop == "B01" else "int." + name, prop, "bits.c", "h", funcs=funcs, defines=["H_" + h] + list(defines), driver=DB, **kw)


bx("words", "WORDS", "aa_bits_words aa_bits_size")
bx("getset", "GETSET", "aa_bits_get aa_bits_set aa_bits_getn")
for o, c in (("and", "&"), ("or", "|"), ("xor", "^")):
    bx(o, "OPS", "aa_bits_" + o, ["NW=5", "OP=aa_bits_" + o, "CC=" + c], bounded="sets of up to 5 words (160 bits)", unwind=8)
bx("endian16", "END", "aa_endconv_*_i16 aa_endconv_*_u16", ["TYPES=T(int16_t, i16, 2) T(uint16_t, u16, 2)"], unwind=10)
bx("endian32", "END", "aa_endconv_*_i32 aa_endconv_*_u32", ["TYPES=T(int32_t, i32, 4) T(uint32_t, u32, 4)"], unwind=10)
bx("endian64", "END", "aa_endconv_*_i64 aa_endconv_*_u64", ["TYPES=T(int64_t, i64, 8) T(uint64_t, u64, 8)"], unwind=10)
bx("endianfp", "ENDF", "aa_endconv_*_d aa_endconv_*_s", unwind=10)
bx("tm_norm", "TM_NORM", "aa_tm_make_norm", ["NLO=-100*BIL", "NHI=100*BIL"], checks=["--signed-overflow-check"], bounded="nanoseconds within 100 seconds of zero, all seconds up to 2^60")
bx("tm_norm_wide", "TM_NORM", "aa_tm_make_norm", ["NLO=-(1L<<40)", "NHI=(1L<<40)"], checks=["--signed-overflow-check"], bounded="nanoseconds up to 2^40, all seconds up to 2^60", thorough=True)
bx("tm_addsub", "TM_ADDSUB", "aa_tm_add aa_tm_sub", checks=["--signed-overflow-check"])
bx("tm_cmp", "TM_CMP", "aa_tm_cmp aa_tm_min aa_tm_max aa_tm_make", checks=["--signed-overflow-check"])
for u in ("usec", "msec"):
    bx("tm_" + u, "TM_" + u.upper(), "aa_tm_timespec2" + u, checks=["--signed-overflow-check"], solver="--z3")

for f, t in (("aa_imodulo", "int"), ("aa_lmodulo", "long"), ("aa_imodulo64", "int64_t")):
    # range and sign for all operands; the quotient is exact because the result is a%b or a%b+b
    bx(f[3:], "MOD", f, ["MT=" + t, "MF=" + f], prop="A01", checks=["--signed-overflow-check"], solver="--z3")
bx("iremainder", "REM", "aa_iremainder", prop="A01", checks=["--signed-overflow-check"], solver="--z3")
