import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),mechanism=[dict(name=n,where=w) for n,w in mech],
      state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(obs),hook_needed=None)))
PG="filehash/ffdb_page.c"; HS="filehash/ffdb_hash.c"; FN="filehash/ffdb_hash_func.c"; PP="filehash/ffdb_pagepool.c"
p("C01","A stored pair is read back byte for byte",
 "After an insert reports success, a lookup of that key returns exactly the bytes and the size that were stored, for every key and datum within the documented limits, however many pages the datum spans and wherever on a page it starts. Storing another pair never changes what a lookup of an earlier pair returns.",
 "inputs histories","every key size, datum size (0 to several pages), page fill state, free-page state and caller-supplied or library-allocated result buffer",
 "The tests store a fixed list of strings with one or two page sizes; the boundary cases (datum ends exactly at a page end, header no longer fits, page reused) are hit only by chance.",
 " ".join([PG,HS]),[("data placement and retrieval",PG+": _ffdb_add_data, _ffdb_get_data"),("key placement",PG+": _ffdb_add_item_on_page"),("operations",HS+": hash_put/hash_get")],
 [("data page","free position, item headers, chain links","ffdb_page.h")],["ffdb_add_pair","ffdb_get_item","db->put/db->get"])
p("C02","Keys are told apart exactly",
 "A lookup finds a pair only if the stored key has the same length and the same bytes as the key asked for, wherever in the bucket's chain of pages it lies; a key that was never stored is reported as not found. The bucket a key belongs to depends only on the key and the table size and is always an existing bucket.",
 "inputs configurations","all pairs of keys of any length, every position in a chain, every table size",
 "Tests look up keys they stored; near-equal keys (prefixes, one byte different, empty) and absent keys are hardly sampled.",
 " ".join([PG,HS,FN]),[("search in a bucket",PG+": ffdb_find_item"),("comparison and hash functions",FN),("bucket address",HS+": _ffdb_call_hash")],(),["ffdb_find_item","_ffdb_call_hash"])
p("C03","Insert and replace follow the overwrite rules",
 "An insert with the no-overwrite flag of an existing key is refused and changes nothing; without the flag, the datum of that key, and of no other, is replaced when the new datum is not longer than the stored one, and otherwise the insert fails and the old datum stays readable. The number of keys kept in the table grows by one exactly when a new key was added.",
 "inputs histories","every old and new size, every flag combination, keys present or absent",
 "Tests replace by equal-size data; refusals and shrinking replacements over page borders are not checked for side effects.",
 " ".join([PG,HS]),[("put logic",HS+": hash_put"),("replacement",PG+": _ffdb_replace_item_on_page, _ffdb_replace_data")],(),["db->put","ffdb_add_pair"])
p("C04","Table growth keeps every pair reachable",
 "When the table grows by one bucket, exactly the pairs whose bucket changed move from the split bucket to the new one, every pair stays reachable with its datum unchanged, and none is duplicated. After any growth the bucket number of every key still denotes an existing bucket.",
 "inputs histories configurations","every table size and mask state, every distribution of keys over old and new bucket, chains of several pages",
 "Tests grow one table with one key family; a pair lost in an unlucky split needs a particular chain shape and hash distribution.",
 " ".join([PG,HS]),[("growth step",HS+": _ffdb_expand_table"),("split",PG+": ffdb_split_bucket, _ffdb_add_key_datap_to_bucket"),("address",HS+": _ffdb_call_hash")],
 [("max_bucket/high_mask/low_mask","linear hashing state","ffdb_hash.h hdr")],["ffdb_split_bucket","_ffdb_call_hash"])
p("C05","No page ever serves two purposes",
 "A page handed out for data or overflow is neither a bucket page, nor a header, user or configuration page, nor in use elsewhere, and a freed page is handed out again at most once. Different buckets always live on different pages, before and after the table grows.",
 "histories configurations","every table level, allocation history and free-list shape",
 "Collisions need particular level transitions and free-list states that the tests' single growth path does not visit.",
 " ".join([PG,HS]),[("allocation",PG+": _ffdb_data_page, _ffdb_ovfl_page, _ffdb_reuse_free_ovflpage, _ffdb_free_ovflpage"),("bucket to page mapping","filehash/ffdb_hash.h: BUCKET_TO_PAGE"),("level transition",HS+": _ffdb_expand_table")],
 [("spares","first page of each level","ffdb_hash.h hdr"),("free_pages","free lists per level","ffdb_hash.h hdr")],["ffdb_add_ovflpage","ffdb_split_bucket"])
p("C06","Reopening a database restores it as it was closed",
 "The table description written at sync or close is read back with every field identical at the next open, on any machine byte order, and an existing file is opened with its own parameters, whatever the caller asks for. A file whose description is damaged, foreign or of an unsupported version is refused, never opened with wrong parameters.",
 "inputs configurations histories","every header content, both byte orders, every creation parameter",
 "Tests reopen files just written on the same machine with default parameters.",
 HS,[("header write and read",HS+": hput_header/hget_header"),("open",HS+": __ffdb_hash_open, init_hash")],(),["__ffdb_hash_open","db->close"])
p("C07","Corrupted content is detected, never returned as data",
 "The checksum covers every byte of a page except the checksum itself, every byte of a datum, and every byte of the table description; any change within a window of up to four consecutive bytes changes it. A page, datum or description whose checksum does not match is never handed to the caller as valid.",
 "inputs fault_sequences","every content, every corruption position and short corruption pattern",
 "Tests never corrupt a file.",
 " ".join([PG,HS,FN]),[("CRC-32",FN+": __ffdb_crc32_checksum"),("page checksum",PG+": ffdb_pgin_routine, ffdb_pgout_routine"),("datum checksum",PG+": _ffdb_get_data")],(),["ffdb_pgin_routine","ffdb_get_item","__ffdb_hash_open"])
p("C08","Files are independent of the machine's byte order",
 "Every kind of page written by a machine of one byte order and read by a machine of the other yields the same logical content, and a page that was written out stays usable in memory. What is on disk depends only on the byte order recorded in the file.",
 "inputs configurations","every page type and content, both orders of file and machine",
 "The tests run on one machine with its native order only.",
 " ".join([PG,HS,PP]),[("page conversion",PG+": _ffdb_swap_page_metainfo_in/_out"),("header conversion",HS)],(),["ffdb_pgin_routine","ffdb_pgout_routine"])
p("C09","A cursor visits every pair exactly once",
 "Starting from the first position and moving forward, or from the last and moving backward, a cursor returns every stored pair exactly once, with its own key and datum, and then reports that there is no more. Empty buckets, overflow pages and an empty database make no difference.",
 "inputs histories","every distribution of pairs over buckets and chains, both directions, any caller buffers",
 "Tests count keys of one table in the forward direction.",
 " ".join([PG,HS]),[("cursor moves",PG+": ffdb_cursor_find_by_key"),("cursor handle",HS)],(),["cursor->get"])
p("C10","User and configuration information is kept exactly",
 "User information and configuration records that were set are returned unchanged, whatever their size or number up to the space reserved at creation, over any number of pages; a request that does not fit is refused. Updating one configuration changes that one only.",
 "inputs","every length and number, page boundaries, any record content",
 "Tests use one short string and one configuration count.",
 " ".join([PG,HS,"filehash/ffdb_db.c"]),[("pages",PG+": ffdb_set_uinfo, ffdb_get_uinfo, ffdb_set_configs, ffdb_get_configs, ffdb_set_config_info, ffdb_get_config_info"),("API",HS+": ffdb_set_user_info ...")],(),["ffdb_set_user_info","ffdb_get_user_info","ffdb_set_all_configs","ffdb_get_all_configs"])
p("C11","The page cache is transparent",
 "Whoever asks for a page gets the content last committed to it, whether it is cached, was evicted or is read from the file; an outdated copy is never found and never written. A modified page is written to its own place in the file before its memory is reused, and a page in use is never evicted or reused.",
 "histories schedules","every sequence of requests, any cache pressure, any page numbers (single thread)",
 "Tests use a cache much larger than the data; eviction hardly happens.",
 PP,[("cache operations",PP+": ffdb_pagepool_get_page, put_page, new_page, sync, eviction")],[("bucket","cached page: number, flags, reference count","ffdb_pagepool.h")],["ffdb_pagepool_get_page","ffdb_pagepool_put_page","ffdb_pagepool_sync"])
p("C12","A failed read or write is reported",
 "When the operating system fails or shortens a read or a write, the operation that needed it, or at the latest the next sync or close, reports failure. An operation that reports success has really done what it says.",
 "fault_sequences","every position of a failing or short system call in every operation",
 "Tests never inject I/O errors.",
 " ".join([PG,HS,PP]),[("I/O",PP+": _ffdb_pagepool_write_pages, get_page"),("sync and close",HS+": hash_sync, hdestroy")],(),["db->sync","db->close","db->put","db->get"])
p("C13","A read-only database is never modified",
 "On a database opened read-only every modifying operation is refused, and neither lookups, cursors, sync nor close write to the file or change its length.",
 "histories","every operation sequence on a read-only handle",
 "Tests only read; they do not watch for writes.",
 " ".join([HS,PP]),[("refusal",HS+": hash_put and set operations"),("no flush",HS+": hdestroy, flush_meta")],(),["db->put","db->close","db->sync"])
p("C14","Every operation lets go of what it took",
 "On every path, success or failure, an operation releases each page it held exactly once and each lock it took, so the database remains usable for any number of further operations and a page in use can never stay pinned for ever.",
 "inputs fault_sequences histories","every operation, every early exit",
 "A leaked page or lock shows only after many failures or under cache pressure.",
 " ".join([PG,HS,PP]),[("page hold and release",PG),("locks",HS+", "+PP)],(),["ffdb_pagepool_put_page","pthread_mutex_unlock"])
p("C15","Space-saving page moves lose nothing",
 "Moving pages into unused places at close and back at the next open for writing keeps every pair reachable with its datum unchanged: all links between key pages, data pages, overflow pages and free lists follow the move. The file is never cut below the last page in use.",
 "histories configurations","every number of unused places and pages to move, every mix of page kinds and links among them",
 "Tests rearrange one table shape, and moved chains across the border of the moved range are rare.",
 " ".join([PG,HS]),[("moves",PG+": _ffdb_move_pages, ffdb_rearrage_pages_on_close, ffdb_rearrage_pages_on_open, ffdb_reduce_filesize")],(),["ffdb_rearrage_pages_on_close","ffdb_rearrage_pages_on_open"])
p("C16","No access outside a page or the caller's buffers",
 "For every key and datum within the limits and every well-formed file, no operation reads or writes outside the page it works on or outside the buffers and sizes the caller gave. A key too long for a page, or a result buffer that is too small, is refused without touching anything.",
 "inputs","every key size including too long, every datum and buffer size, every page fill state",
 "Ordinary runs do not notice a one-byte overrun inside a page or next to a caller's buffer.",
 " ".join([PG,HS,FN]),[("size checks",HS+": hash_put"),("copies",PG)],(),["db->put","db->get","cursor->get"])
p("N01","Threads may share one database handle",
 "Any number of threads reading through one handle, and writers serialised by the library's locks, see the same results as some sequential order of their operations.",
 "schedules","every interleaving of operations of several threads",
 "One thread test with few threads samples a handful of schedules.",
 " ".join([HS,PP]),[("locks",PP+": FFDB_LOCK, page waits")],(),["db->get","db->put"])
p("N02","A crash loses at most what was not synced",
 "After a crash at any point, the file as of the last completed sync can be opened and holds every pair stored before that sync.",
 "crash_points","every crash point between two syncs",
 "Tests never crash.",
 " ".join([HS,PP]),[("sync order",HS+": hash_sync")],(),["db->sync"])
p("N03","The C++ layer keeps ensembles and serialised values",
 "What is stored through the C++ classes for a key and configuration index is what is read back for the same key and index, and merged databases hold for every configuration exactly its source's data.",
 "inputs histories","all key and data types, configuration subsets and merge orders",
 "Tests use fixed types and sizes.",
 "src/AllConfStoreDB.h src/ConfDataStoreDB.h src/ConfDataDBMerger.h src/DBFunc.h",[("ensemble update","src/AllConfStoreDB.h"),("merge","src/ConfDataDBMerger.h")],(),["AllConfStoreDB::insert/get"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
