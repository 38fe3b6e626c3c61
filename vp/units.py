"""The proof units: which harness, over which real file, in which jobs, for which properties."""
import os, re, tempfile
from engine import Job, HAR
UNITS = []
LEVEL = {}
TRUSTED = ["CBMC 6.11.0 (C front end, symbolic execution, goto-instrument --dfcc, its C library models)", "MiniSat 2.2, z3 4.8.12",
           "gcc 13 and its sanitizers for replays and contract executions", "the harnesses' statement of each contract"]
TAGS = re.compile(r'"\[([A-Z0-9,]+)\]')
def tags_in(text):
    t = set()
    for m in TAGS.findall(text): t |= set(m.split(","))
    return t
def fn_body(file, fn):
    """text of one harness function, to see which properties its obligations belong to"""
    s = open(os.path.join(HAR, file)).read()
    m = re.search(r"^static void %s\(.*?^}" % re.escape(fn), s, re.S | re.M)
    return m.group(0) if m else s
def ftags(*files):
    t = set()
    for f in files: t |= tags_in(open(os.path.join(HAR, f)).read())
    return t
class Unit:
    def __init__(self, name, file, functions, quick, thorough=None, props=None, strength="bounded", bound="", assumes=(),
                 unwind=600, timeout=600, mem=12, native=True, no_reach=False, allow_unknown=False, gen=None):
        self.gen = gen
        self.name, self.file, self.functions = name, file, functions.split()
        self.quick, self.thorough = quick, thorough
        self.props = set(props.split()) if props else ftags(file)
        self.strength, self.bound, self.assumes = strength, bound, list(assumes)
        self.unwind, self.timeout, self.mem, self.native, self.no_reach, self.allow_unknown = unwind, timeout, mem, native, no_reach, allow_unknown
        for x in list(quick) + list(thorough or []):
            if isinstance(x.get("props"), str): self.props |= set(x["props"].split())
        UNITS.append(self)
    def jobs(self, tier):
        l = list(self.quick) + (list(self.thorough or []) if tier == "thorough" else [])
        return [Job(self, **dict(x)) for x in l]
def J(name, *defs, **kw): return dict(name=name, defs=list(defs), **kw)

POOL = "page cache contract (harness/vppool.h): discharged on ffdb_pagepool.c by units pool and pool_exec"
CRC = "the checksum is a function of exactly the bytes it is given (unit fun)"
LOG2 = "__ffdb_log2 returns the smallest i with 2^i >= n (unit fun)"
PAGE = "page layer contracts (harness/ha.h): discharged on ffdb_page.c by the page units"
OS = "operating system: a call does what it reports, any call may fail or come up short"
MATH = "none of the arithmetic is treated as mathematical: machine integers throughout"
LIBC = "memcpy, memmove, memset, memcmp, malloc as the C standard says (CBMC's models or harness/vpmem.h)"
COMMON = [MATH, LIBC]

# ---- leaf functions -------------------------------------------------------------------
FUN = "__ffdb_log2 __ffdb_default_cmp __ffdb_default_hash __ffdb_crc32_init __ffdb_crc32_checksum"
def fj(u, *opts, **kw): return J(u, "U=" + u, props=" ".join(tags_in(fn_body("fun.c", u))), opts=list(opts), **kw)
Unit("fun", "fun.c", FUN,
  [fj("u_log2"), fj("u_cmp", bounded=True), fj("u_hash", "--z3", bounded=True), fj("u_crc_step"), fj("u_crc_fold", "--z3", bounded=True), fj("u_crc_init"), fj("u_crc_win", weight=60)],
  strength="log2, checksum step, checksum window, checksum set-up: proved for every input; comparison, hash and checksum fold: every content, keys up to 12 bytes",
  bound="12 bytes for u_cmp, u_hash, u_crc_fold", assumes=COMMON, unwind=600, timeout=400)
Unit("fun_huge_exec", "fun_huge.c", FUN, [J("crc", mode="native", opts=["-O2", "-fno-sanitize=address"], weight=25)],
  props="C07", strength="bounded: contract execution", bound="the checksum of 3000, 10^8 and 2^32 + 3 bytes", assumes=COMMON, timeout=300)
Unit("fun_exec", "fun.c", FUN, [J("lengths", "U=u_log2", mode="native", props="C02 C06 C07")],
  props="C02 C06 C07", strength="bounded: contract execution", bound="lengths up to 2 MB, sampled contents", assumes=COMMON, timeout=300)

def lj(h, props): return J(h, "LOOPS", mode="goto", dfcc=dict(harness=h, loops=True, loopfile="fun_loop.json"), props=props)
Unit("fun_loop", "fun_loop.c", "__ham_defcmp __ham_func5 __ffdb_crc32_checksum",
  [lj("l_cmp_differ", "C02 C01"), lj("l_cmp_len", "C02 C01"), lj("l_cmp_equal", "C02 C01"), lj("l_crc", "C07"), lj("l_hash", "C06 C02")],
  props="C01 C02 C06 C07", strength="proved for keys and data of every length by loop contracts (invariant, frame, decreasing measure): equal keys and only those compare equal; comparison, hash and checksum end, read only the bytes given and write nothing",
  bound="", assumes=COMMON, timeout=200, native=False)

# ---- table layer: ffdb_hash.c, page layer by contract ---------------------------------
HA = "_ffdb_hash_put _ffdb_hash_get _ffdb_hash_sync _ffdb_hash_close _ffdb_hash_cursor _ffdb_call_hash _ffdb_expand_table _ffdb_flush_meta _ffdb_cursor_get _ffdb_cursor_close ffdb_set_all_configs ffdb_get_all_configs ffdb_set_config ffdb_get_config ffdb_num_configs ffdb_set_user_info ffdb_get_user_info ffdb_max_user_info_len"
HT = ftags("ha.h")
def hj(u, **kw): return J(u, "U=" + u, props=" ".join(tags_in(fn_body("ha_put.c", u)) | HT), **kw)
Unit("table", "ha_put.c", HA, [hj(u) for u in ("u_bucket", "u_put", "u_get", "u_sync", "u_close", "u_wrap", "u_cursor")] +
  [J(u + "_ro%d" % i, "U=" + u, "ROFL=(%s)" % fl, props="C13") for u in ("u_put", "u_sync", "u_close", "u_wrap") for i, fl in enumerate(("O_RDONLY|O_CREAT", "O_RDONLY|O_NONBLOCK"))],
  props=" ".join(ftags("ha_put.c", "ha.h")), strength="proved for every table size, key size, flag, result of the layer below and failure; no loop depends on the input",
  assumes=COMMON + [PAGE, OS, LOG2], unwind=400, timeout=400)
OPEN = "__ffdb_hash_open _ffdb_init_hash _ffdb_init_htab _ffdb_hget_header _ffdb_hput_header _ffdb_swap_header _ffdb_read_user_info _ffdb_read_config_info _ffdb_num_config_info_pages _ffdb_num_user_info_pages"
def oj(name, u, *defs, **kw): return J(name, "U=" + u, *defs, props=" ".join(tags_in(fn_body("ha_open.c", u))), opts=["--object-bits", "10"], bounded=u in ("u_new", "u_bad"), **kw)
Unit("open", "ha_open.c", OPEN,
  [oj("round", "u_round", weight=40), oj("bad", "u_bad", weight=40)] +
  [oj("exist_rw", "u_exist"), oj("exist_ro", "u_exist", "RO=1"), oj("exist_noinfo", "u_exist", "UI=0"), oj("exist_short", "u_exist", "FLT=1"), oj("exist_nomove", "u_exist", "FLT=2"), oj("exist_nomove_ro", "u_exist", "FLT=2", "RO=1"),
   oj("exist_nopool", "u_exist", "FLT=3"), oj("exist_nofd", "u_exist", "FLT=4"), oj("exist_noopen", "u_exist", "FLT=5"), oj("exist_nopage0", "u_exist", "FLT=10"), oj("exist_nopage1", "u_exist", "FLT=11"), oj("exist_nopage2", "u_exist", "FLT=12", "NU=2", "NC=2", "RO=1")] +
  [oj("new_default", "u_new", "UI=0"), oj("new_0_0", "u_new", "UL=0", "NCF=0", weight=20), oj("new_480_3", "u_new", "UL=480", "NCF=3", "OFF=200", weight=20), oj("new_481_4", "u_new", "UL=481", "NCF=4", weight=20), oj("new_fail", "u_new", "UL=481", "NCF=4", "FLT=10"), oj("new_3000_28", "u_new", "UL=3000", "NCF=28", "BSZ=4096", weight=20)],
  [oj("new_big", "u_new", "UL=60000", "NCF=100", "BSZ=1048576", weight=20), oj("new_5000_30", "u_new", "UL=5000", "NCF=30", weight=20)] +
  [oj("exist_%d_%d_%d_%d" % (ro, ui, nu, f), "u_exist", "RO=%d" % ro, "UI=%d" % ui, "NU=%d" % nu, "FLT=%d" % f) for ro in (0, 1) for ui in (0, 1) for nu in (0, 3) for f in (0, 2, 11)],
  strength="description round trip and opening: proved for every content of the description, per enumerated mode and failure; creation: every bucket count, enumerated page size, user space and number of configurations",
  bound="enumerated: number of user and configuration pages, mode, failing call", assumes=COMMON + [PAGE, OS, LOG2, CRC], unwind=400, timeout=500)
Unit("open_exec", "ha_open.c", OPEN, [J("grid%d" % i, mode="native", shard="%d/4" % i, props="C05 C06 C07 C08 C10 C12 C13 C14 C15 C16") for i in range(4)],
  props="C05 C06 C07 C08 C10 C12 C13 C14 C15 C16", strength="bounded: contract execution", bound="20299 enumerated parameter combinations", assumes=COMMON + [PAGE, OS], timeout=400)

# ---- page layer: ffdb_page.c, page cache by contract ----------------------------------
ADD = "ffdb_add_pair ffdb_get_item _ffdb_add_item_on_page _ffdb_replace_item_on_page _ffdb_add_data _ffdb_replace_data _ffdb_get_data _ffdb_data_page _ffdb_reuse_free_ovflpage ffdb_get_page ffdb_put_page _ffdb_init_page ffdb_release_item"
PT = ftags("page_add.c", "pg.h", "vppool.h")
def sc(name, body, **kw): return J(name, "SCEN=" + body, bounded=True, **kw)
add_q = [sc("add_s%d" % s, "for(unsigned v=0;v<200;v+=%d)R(%d,v,%d,%d,-1,-1);" % (st, s, k, fl), weight=15)
         for s, st, k, fl in ((0, 43, 7, 0), (32, 41, 3, 1), (40, 37, 7, 0), (64, 39, 9, 2), (100, 45, 1, 0), (104, 47, 20, 1))]
add_q += [sc("replace", "for(unsigned v=30;v<200;v+=50){R(40,v,3,0,-1,v/2);R(40,v,3,0,-1,v+1);}", weight=20, props="C03 C01 C05 C14"),
          sc("faults", "for(int f=0;f<4;f++){R(40,150,3,0,f,-1);F(40,150,2,f);}", weight=20, props="C12 C14 C03"),
          sc("refuse", "for(unsigned v=1;v<150;v+=60){F(40,v,0,0);F(40,v,1,0);F(40,v,1,1);F(40,v,3,0);}", weight=20, props="C07 C16 C14 C09")]
Unit("page_add", "page_add.c", ADD, add_q,
  [sc("add_%d_%d" % (s, v0), "for(unsigned v=%d;v<200;v+=19)R(%d,v,5,v%%3,-1,-1);" % (v0, s), weight=15) for s in (0, 32, 36, 40, 52, 64, 80, 92, 104) for v0 in (0, 7, 13)],
  props=" ".join(PT), strength="every content of key, datum, pages and checksum, per enumerated layout", bound="page size 128, layout parameters enumerated by the jobs",
  assumes=COMMON + [POOL, CRC, LOG2], timeout=400)
Unit("page_add_exec", "page_add.c", ADD, [J("grid%d" % i, mode="native", shard="%d/4" % i) for i in range(4)],
  props=" ".join(PT), strength="bounded: contract execution", bound="15968 enumerated layouts at page size 128", assumes=COMMON + [POOL, CRC, LOG2], timeout=400)

Unit("huge_exec", "huge.c", ADD, [J("size%d" % i, mode="native", shard="%d/3" % i, opts=["-O2", "-fno-sanitize=address"], weight=25) for i in range(3)],
  props="C01 C03 C07 C14 C16", strength="bounded: contract execution", bound="8 histories with a datum of 2 GiB - 1 to 6 GiB, pages of 1 MiB", assumes=COMMON + [POOL, CRC, LOG2], timeout=400)

AL = "ffdb_get_page _ffdb_data_page _ffdb_ovfl_page _ffdb_reuse_free_ovflpage _ffdb_free_ovflpage _ffdb_update_free_page ffdb_delete_page ffdb_last_data_page _ffdb_init_page"
def alj(name, body, unwind=40, **kw): return J(name, "SCEN=" + body, unwind=unwind, **kw)
LQ = (1, 4, 8, 14, 20, 29)
al_q = [alj("map_%d" % l, "u_map(%d);" % l, props="C05 C04", weight=l) for l in LQ] + [alj("freed_%d" % l, "u_free_level(%d);" % l, props="C05 C14 C15 C08 C12", weight=l) for l in LQ]
al_q += [alj("alloc", "for(unsigned L=0;L<30;L++)u_alloc(L);", props="C05 C01 C06", weight=30), alj("len", "u_len();", props="C01 C03 C16"), alj("lemma", "u_lemma();", props="C05"),
         alj("pop", "for(int h=0;h<2;h++){POP(0,0,0,0,h);POP(1,0,0,0,h);POP(1,3,0,0,h);POP(2,0,8,0,h);POP(2,8,5,0,h);POP(3,0,4,8,h);}", 70, bounded=True, weight=15),
         alj("push", "PUSH(1,0,0,0);PUSH(1,7,0,0);PUSH(1,8,0,0);PUSH(2,8,8,0);PUSH(2,8,3,0);", 70, bounded=True), alj("last", "for(int n=1;n<=5;n++)for(int at=0;at<n;at++)LAST(n,at);", 70, bounded=True, props="C05 C06 C01 C14", weight=15)]
Unit("page_alloc", "page_alloc.c", AL, al_q, [alj("map_%d" % l, "u_map(%d);" % l, props="C05 C04", weight=l) for l in range(2, 29) if l not in LQ] + [alj("freed_%d" % l, "u_free_level(%d);" % l, props="C05 C14 C15 C08 C12", weight=l) for l in range(0, 29) if l not in LQ],
  props=" ".join(ftags("page_alloc.c")), strength="bucket pages, allocation, level of a freed page, length encoding: proved for every table of the levels named, no bound; free lists: every page number, per enumerated shape of the list",
  bound="free lists: up to 3 list pages of 8 entries; last data page: up to 5 pages back", assumes=COMMON + [POOL, LOG2], timeout=300)
Unit("page_alloc_exec", "page_alloc.c", AL, [J("grid", mode="native", shard="0/1")],
  props=" ".join(ftags("page_alloc.c")), strength="bounded: contract execution", bound="8151 tables and free lists", assumes=COMMON + [POOL, LOG2], timeout=300)

CH = "ffdb_find_item ffdb_add_ovflpage ffdb_split_bucket ffdb_cursor_find_by_key _ffdb_cursor_find_first _ffdb_cursor_find_next _ffdb_cursor_find_last _ffdb_cursor_find_prev _ffdb_add_key_datap_to_bucket _ffdb_write_key_datap _ffdb_update_data_info _ffdb_ovfl_page _ffdb_free_ovflpage ffdb_delete_page ffdb_get_page ffdb_put_page ffdb_get_item ffdb_release_item"
def chj(name, body, **kw): return J(name, "SCEN=" + body, unwind=160, bounded=True, weight=12, **kw)
SPM = ("0", "0xffffff", "0x555555", "6", "9")
def spl(mb, nps, ms, st=0): return "".join("SPLIT(%d,%d,%d,4,%d,%s,%d,-1);" % (mb, np, n, st, m, (np + i) % 4) for np, n in nps for i, m in enumerate(ms) if (np + n + i) % 2 or len(ms) < 5)
SPT = "C01 C04 C05 C14 C15"
ch_q = [chj("split_%d_%d" % (mb, np), spl(mb, ((np, 2), (np, 3)), SPM), props=SPT) for mb in (1, 2, 3) for np in (1, 2, 3)] + [chj("split_4", spl(3, ((4, 1), (4, 2)), ("0x5a", "0")), props=SPT)]
ch_q += [chj("find_%d" % np, "for(int w=0;w<4;w++)for(int h=0;h<4;h++)FIND(%d,2,8,4,w,h,-1);" % np, props="C01 C02 C07 C14") for np in (1, 2, 3)]
ch_q += [chj("overflow_%d" % np, "for(unsigned k=4;k<=68;k+=32)for(unsigned d=0;d<4;d+=3){ADDOV(%d,2,4,k,d,0,-1);ADDOV(%d,2,4,k,d,2,-1);}" % (np, np), props="C01 C02 C04 C05 C07 C14 C15") for np in (1, 2, 3)]
ch_q += [chj("cursor_%d_%d" % (mb, d), "".join("CURS(%d,%s,%d,1,-1,0);" % (mb, hex(sh & ((1 << 4 * (mb + 1)) - 1)), d) for sh in (0x5555, 0x5060, 0x0006, 0x0900, 0xa5a0)), props="C01 C09 C13 C14 C16") for mb in (0, 1, 2, 3) for d in (0, 1)]
ch_q += [chj("faults", "for(int f=0;f<4;f++){FIND(3,2,4,0,5,0,f%3);ADDOV(2,2,4,8,2,0,f);CURS(1,0x56,f&1,1,f,0);}", props="C12 C14 C01 C09"), chj("tight", "CURS(1,0x95,0,1,-1,1);CURS(1,0x95,1,0,-1,2);CURS(1,0x59,1,1,-1,3);", props="C16 C09 C14")]
Unit("page_chain", "page_chain.c", CH, ch_q, [chj("split_%d_%d_%d" % (mb, np, st), spl(mb, ((np, 1), (np, 2), (np, 3)), ("0x3f", "1", "0xaaaaaa", "0xfffffe", "0x333333"), st), props=SPT) for mb in (1, 2, 3) for np in (1, 2, 3, 4) for st in (0, 4)],
  props=" ".join(ftags("page_chain.c")), strength="every content of keys, data and checksums, per enumerated shape of the buckets", bound="page size 128; up to 4 pages a bucket, 3 keys a page, 4 buckets; which keys move and the free list's length enumerated",
  assumes=COMMON + [POOL, CRC, LOG2], timeout=300)
Unit("page_chain_exec", "page_chain.c", CH, [J("grid%d" % i, mode="native", shard="%d/6" % i) for i in range(6)],
  props=" ".join(ftags("page_chain.c")), strength="bounded: contract execution", bound="147688 shapes of buckets, splits, searches, cursors and faults", assumes=COMMON + [POOL, LOG2], timeout=400)

MVF = "ffdb_rearrage_pages_on_close ffdb_rearrage_pages_on_open ffdb_reduce_filesize _ffdb_move_pages _ffdb_update_key_pages_content _ffdb_update_data_pages_content _ffdb_remove_pages ffdb_last_data_page ffdb_get_page ffdb_put_page"
mv_q = [J("move_%d" % i, "SCEN=" + "".join("MV(%s,-1,-1);" % x for x in b), unwind=160, bounded=True, weight=40, props="C15 C01 C05 C06 C14") for i, b in enumerate((
  ("1,0,0,0x249,0,0,6,0", "2,1,0,0x249,0,0,6,0", "2,1,1,0x053,1,0,6,0"), ("2,1,2,0x492,1,1,7,4",), ("3,1,0,0x00a,0,0,6,1",), ("3,2,1,0x012,1,1,5,2",), ("3,3,0,0x012,1,1,6,1",), ("3,3,2,0x049,2,0,7,4",), ("3,2,0,0x00b,0,0,6,0",)))]
mv_q += [J("fault_%d" % i, "SCEN=MV(3,2,1,0x00a,1,1,6,0,%d,-1);MV(2,1,0,0x049,0,0,6,0,-1,%d);" % (i, i), unwind=160, bounded=True, weight=20, props="C12 C14 C15") for i in (0, 2, 5)]
mv_q += [J("cut", "SCEN=for(unsigned l=0;l<30;l++)CUT(l,9+l%12);", unwind=160, props="C15 C06")]
Unit("page_move", "page_move.c", MVF, mv_q, props=" ".join(ftags("page_move.c")), strength="every content of keys, data and checksums, per enumerated shape of the file; closing, reopening and closing again; the length the file is cut to: proved for every description",
  bound="page size 128, up to 8 buckets of up to 3 pages, up to 24 pages, 3 free list pages", assumes=COMMON + [POOL, CRC, LOG2, "a clean, empty page left in the cache under the number a page is moved or created at is older in the reuse order and so never read again"], timeout=400)
Unit("page_move_exec", "page_move.c", MVF, [J("grid%d" % i, mode="native", shard="%d/6" % i) for i in range(6)],
  props=" ".join(ftags("page_move.c")), strength="bounded: contract execution", bound="141120 files closed, reopened and closed again, with and without a failing read", assumes=COMMON + [POOL, LOG2], timeout=400)

INF = "ffdb_set_uinfo ffdb_get_uinfo ffdb_set_configs ffdb_get_configs ffdb_set_config_info ffdb_get_config_info ffdb_get_page ffdb_put_page"
def uij(np, bs): return "".join("UI(%d,%d,%d,0,-1,-1);" % (np, 36 * np - 4 - b, b) + ("UI(%d,3,%d,3,-1,-1);UI(%d,0,%d,-1,-1,-1);" % (np, b, np, b) if b % 4 == 0 and b else "") for b in bs)
in_q = [J("uinfo_%d_%d" % (np, i), "SCEN=" + uij(np, bs), unwind=160, bounded=True, weight=15, props="C10 C14 C16") for np, i, bs in
  ((1, 0, range(0, 33, 2)), (1, 1, range(1, 33, 2)), (2, 0, (0, 1, 31, 32, 33, 35)), (2, 1, (36, 50, 64, 65, 66, 67, 68)), (3, 0, (0, 32, 33, 67)), (3, 1, (68, 69, 103, 104)))]
in_q += [J("configs_%d" % n, "BS=512", "SCEN=for(int o=0;o<4;o++){if(%d||o!=1)CF(%d,%d,%d,o,-1,-1);}CF(%d,%d,%d,3,-1,-1);" % (n, (n + 2) // 3, n, max(n - 1, 0), (n + 2) // 3, n, n), unwind=170, bounded=True, weight=15, props="C10 C14 C16") for n in (0, 1, 3, 4, 6, 7)]
in_q += [J("info_fault", "SCEN=for(int f=0;f<3;f++){UI(3,5,100,0,f,-1);UI(3,5,100,0,-1,f);}", unwind=160, bounded=True, props="C12 C14 C10"), J("config_fault", "BS=512", "SCEN=for(int o=0;o<4;o++){CF(2,4,3,o,o%2,-1);CF(2,4,3,o,-1,1);}", unwind=170, bounded=True, weight=15, props="C12 C14 C10")]
Unit("page_info", "page_info.c", INF, in_q, props=" ".join(ftags("page_info.c")), strength="every content, per length of the user information and number of configurations", bound="user information: every length on up to 3 pages of 64 bytes; configurations: up to 7 on pages of 512 bytes", assumes=COMMON + [POOL, LOG2], timeout=300)
Unit("page_info_exec", "page_info.c", INF, [J("grid64", mode="native", shard="0/1"), J("grid512", "BS=512", mode="native", shard="0/1"), J("grid1024", "BS=1024", mode="native", shard="0/1")],
  props=" ".join(ftags("page_info.c")), strength="bounded: contract execution", bound="7400 lengths, numbers and faults", assumes=COMMON + [POOL, LOG2], timeout=300)

SWP = "ffdb_pgin_routine ffdb_pgout_routine _ffdb_swap_page_metainfo_in _ffdb_swap_page_metainfo_out _ffdb_page_checksum _ffdb_init_page"
def swj(sw, i, body): return sc("order%d_%d" % (sw, i), body.replace("SW", str(sw)), weight=10)
SWB = ["for(unsigned n=0;n<=3;n++)T(HASH_CONFIG_PAGE,n,0,0,SW,-1);T(HASH_FREE_PAGE,0,0,0,SW,-1);T(HASH_FREE_PAGE,1,0,0,SW,-1);T(HASH_FREE_PAGE,60,0,0,SW,-1);T(HASH_FREE_PAGE,121,0,0,SW,-1);T(HASH_UINFO_PAGE,0,0,0,SW,-1);T(HASH_DELETED_PAGE,0,0,0,SW,-1);",
       "T(HASH_BUCKET_PAGE,0,0,0,SW,-1);T(HASH_BUCKET_PAGE,1,453,0,SW,-1);T(HASH_BUCKET_PAGE,4,10,0,SW,-1);T(HASH_BUCKET_PAGE,14,1,0,SW,-1);T(HASH_DATA_PAGE,0,0,0,SW,-1);T(HASH_DATA_PAGE,1,32,0,SW,-1);T(HASH_DATA_PAGE,3,68,40,SW,-1);T(HASH_DATA_PAGE,20,32,0,SW,-1);"]
Unit("page_swap", "page_swap.c", SWP, [swj(sw, i, b) for sw in range(4) for i, b in enumerate(SWB)], [sc("all_%d" % sw, "kinds(%d,-1);" % sw, timeout=1500) for sw in range(4)],
  strength="every content of every kind of page, per number and place of its entries and per pair of byte orders", bound="page size 512; number and place of the entries enumerated", assumes=COMMON + [CRC], timeout=300)
Unit("page_swap_exec", "page_swap.c", SWP, [J("grid%d" % i, mode="native", shard="%d/2" % i) for i in range(2)],
  props="C06 C07 C08 C11", strength="bounded: contract execution", bound="9952 enumerated pages, each single byte damaged", assumes=COMMON, timeout=300)

# ---- page cache: ffdb_pagepool.c, operating system and threads by contract -------------
def small_hash(repo, tmp):
    """the header with an array of 8 hash queues instead of 16384 (CBMC only; the native reading has the real one)"""
    s = open(os.path.join(repo, "filehash", "ffdb_pagepool.h"), errors="replace").read()
    t = re.sub(r"(?m)^(\s*#\s*define\s+FFDB_HASHSIZE\s+)16384\b", r"\g<1>8", s)
    d = tempfile.mkdtemp(dir=tmp); open(os.path.join(d, "ffdb_pagepool.h"), "w").write(t)
    return ["-I" + d]
PP = "ffdb_pagepool_get_page ffdb_pagepool_put_page ffdb_pagepool_new_page ffdb_pagepool_change_page ffdb_pagepool_delete ffdb_pagepool_sync _ffdb_pagepool_sync_i _ffdb_pagepool_write _ffdb_pagepool_reuse_bkt _ffdb_pagepool_new_bkt _ffdb_pagepool_load_new_page _ffdb_pagepool_new_page_i _ffdb_clean_page_ondisk _ffdb_slist_merge_sort _ffdb_sbkt_cmp _ffdb_shallow_copy_bk"
def pj(name, body, props, **kw): return J(name, "SCEN=" + body, props=props, bounded=True, **kw)
pool_q = [pj("get_hit%d" % f, "for(int s=0;s<3;s++)G(0,s,%d,3,0,1,2,FX,%d,0,1,-1,-1,0,-1);" % (f, f // 2), "C11 C14", unwind=41) for f in (0, 2)]
pool_q += [pj("put", "for(int s=0;s<3;s++){G(1,s,0,3,0,1,2,FX,0,0,1,-1,-1,0,-1);G(1,s,2,3,0,1,2,FX,0,0,1,-1,-1,0,-1);}", "C11 C14 C12", unwind=41),
           pj("drop", "for(int s=0;s<3;s++){G(3,s,0,3,0,1,2,FX,0,0,1,-1,-1,0,-1);G(3,s,0,3,0,1,2,FX,0,0,1,0,-1,s,-1);}", "C11 C14 C12", unwind=41),
           pj("get_ro", "for(int s=0;s<5;s++)for(int k=0;k<144;k+=6){G(0,s,2,2,0,1,0,FX,0,1,1,-1,-1,0,k);G(0,s,k%4?1:0,2,0,1,0,FX,0,1,1,-1,-1,0,k);}", "C13", weight=30),
           pj("sync_ro", "for(int k=0;k<144;k++){G(4,0,0,2,0,1,0,FX,0,1,1,-1,-1,0,k);G(1,0,0,2,0,1,0,FX,0,1,1,-1,-1,0,k);}", "C13"),
           pj("move", "for(int k=0;k<1728;k+=7){G(2,0,3,3,0,1,2,FX,0,0,1,-1,-1,0,k);G(2,1,4,3,0,1,2,FX,0,0,1,-1,-1,0,k);G(2,2,1,3,0,4,2,3,0,0,1,-1,-1,0,k);}", "C15 C11 C14 C12", weight=30),
           pj("move_fault", "for(int k=0;k<1728;k+=19)for(int f=0;f<3;f++)G(2,0,4,3,0,1,2,FX,0,0,1,0,-1,f,k);", "C15 C12 C14", weight=20)]
pool_q += [pj("miss_%d_%d" % (s, i), "st3(%d,%d,0,%d,%d,%s,%s,0,1,-1,-1,0);" % (i * 63, min(125, i * 63 + 63), s, fl, sl, fn), "C11 C14", weight=20)
           for s, fl, sl, fn in ((4, 1, "0,1,2", "3"), (3, 0, "1,0,2", "FX"), (2, 2, "0,1,3", "FX")) for i in (0, 1)]
pool_q += [pj("miss_wfault%d" % f, "st2(0,4,1,0,1,3,0,1,0,-1,%d);st2(0,3,0,0,1,FX,0,1,1,-1,%d);" % (f, f), "C11 C12 C14", weight=10) for f in range(3)]
pool_q += [pj("miss_rfault%d" % f, "st2(0,3,0,0,1,FX,0,1,-1,0,%d);st2(0,2,2,0,1,FX,1,0,-1,0,%d);" % (f, f), "C11 C12 C14", weight=10) for f in range(2)]
pool_q += [pj("sync_%d" % i, "st3(%d,%d,4,0,0,1,0,2,FX,0,1,-1,-1,0);" % (i * 63, min(125, i * 63 + 63)), "C11 C12 C06 C14", weight=20) for i in (0, 1)]
pool_q += [pj("sync_fault%d" % f, "for(int w=0;w<2;w++)st2(4,0,0,0,4,FX,0,1,w,-1,%d);" % f, "C12 C11 C14", weight=10) for f in range(3)]
pool_q += [pj("evict_%d_%d" % (t, i), "st3(%d,%d,5,3,%d,0,1,2,%s,0,1,-1,-1,0);" % (i * 63, min(125, i * 63 + 63), t, fn), "C11", weight=30) for t, fn in ((0, "FX"), (1, "3")) for i in (0, 1)]
pool_q += [J("far%d" % b, "SCEN=st2(4,0,0,0,1,FX,0,1,-1,-1,0);st2(0,3,0,0,1,FX,0,1,-1,-1,0);st2(0,2,1,0,1,FX,0,1,-1,-1,0);", "PBASE=%du" % b, props="C11 C12 C06", bounded=True, weight=10) for b in (107374180,)]
pool_q += [pj("evict_fault", "st2(5,3,0,0,1,FX,0,1,0,-1,0);st2(5,3,1,0,1,3,0,1,0,-1,1);", "C11 C12", weight=10),
           pj("new", "st3(0,125,6,4,0,0,1,2,FX,0,1,-1,-1,0);", "C11 C14 C05", weight=30)] + [pj("sort%d" % n, "SORT(%d);" % n, "C11 C12", unwind=14) for n in (0, 1)]
Unit("pool", "pool.c", PP, pool_q, props=" ".join(ftags("pool.c")), gen=small_hash,
  strength="each operation from every state of the cache satisfying its invariant, which it re-establishes: every content, any history; holds for get of a cached page, put and drop for every state of three cached pages, else for the enumerated states",
  bound="at most 3 pages cached at a time, 5 page numbers, 8 hash queues instead of 16384, pages of 40 bytes", assumes=COMMON + [OS, "threads: the lock excludes, a waiting thread is woken by the signal (pthread)"], unwind=2000, timeout=300)
Unit("pool_exec", "pool.c", PP, [J("grid%d" % i, mode="native", shard="%d/4" % i) for i in range(4)] + [J("far%d" % i, "PBASE=%du" % b, mode="native", shard="%d/8" % i) for i, b in enumerate((107374180, 53687090))],
  props=" ".join(ftags("pool.c")), strength="bounded: contract execution", bound="175264 enumerated states, operations and faults, an eighth of them again at file offsets around 2 and 4 GiB; lists up to 39 pages sorted", assumes=COMMON + [OS], timeout=400)

# ---- the whole library -----------------------------------------------------------------
SRC = ["filehash/%s.c" % x for x in ("ffdb_db", "ffdb_hash", "ffdb_hash_func", "ffdb_page", "ffdb_pagepool")]
LD = ["-U_FORTIFY_SOURCE", "-Wl,--wrap=read,--wrap=write,--wrap=exit,--wrap=abort"]
ALL = "every function of filehash/ffdb_*.c".replace(" ", "_")
def aj(g, i, n, props, mul=1): return J("%s%d" % (g.lower(), i), g, "MUL=%d" % mul, mode="native", shard="%d/%d" % (i, n), opts=LD, src=SRC, props=props, weight=30)
AP = "C01 C02 C03 C04 C05 C06 C08 C09 C10 C11 C12 C13 C14 C15 C16"
def api(mul):
    return ([aj("G_HIST", i, 3, AP, mul) for i in range(3)] + [aj("G_SWAP", i, 2, "C01 C06 C08 C09 C10 C15 C04", mul) for i in range(2)] +
            [aj("G_GROW", i, 2, "C01 C02 C04 C05 C06 C09 C11 C14 C15 C16", mul) for i in range(2)] + [aj("G_BIG", i, 2, "C01 C03 C04 C05 C06 C08 C09 C11 C15 C16", mul) for i in range(2)] + [aj("G_FAULT", 0, 1, "C12 C14 C01 C03", mul)] + [aj("G_CORR", 0, 1, "C07 C06 C14", mul)])
class Api(Unit):
    def jobs(self, tier): return [Job(self, **dict(x)) for x in api(40 if tier == "thorough" else 3)]
Api("api_exec", "api.c", ALL, api(1), props=AP + " C07", strength="bounded: contract execution of the public interface on the whole library",
  bound="enumerated histories (540 mixed, 180 in the other byte order, 24 growing, 48 on pages up to 1 MiB, 600 with one I/O fault, 180 with a damaged file); thirteen times as many when thorough",
  assumes=COMMON + [OS], timeout=800)
