#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os

J, M, N, H = "dhara/journal.c", "dhara/map.c", "dhara/nand.h", "dhara/journal.h"
P = []

def prop(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Reads return the latest write; trimmed or never-written sectors read blank",
 "On fault-free flash, for every sequence of write, copy, trim, clear, sync and gc calls, reading a sector returns exactly the data of the last successful write or copy to it, and a blank (all-0xff) page if it was never written or was trimmed or cleared since. Operations on one sector never change what another sector reads, however often the journal has wrapped and been garbage collected.",
 ["histories", "configurations"], "every operation sequence up to the explored depth, started from every head position of a full trip round the chip, for every geometry / gc ratio / bad-block layout in the table",
 "tests/map.c runs one shape of workload (write all, rewrite/trim half) over distinct sectors; it never combines copy, clear, gc, sync and trim, never runs near capacity and never wraps more than once",
 [M, J], [("functional radix tree path construction", "dhara/map.c:trace_path"), ("deletion by rewriting a cousin", "dhara/map.c:try_delete"), ("gc re-copies only the current representative", "dhara/map.c:raw_gc")],
 ["dhara_map_read", "dhara_map_find"])

prop("C02", "Sector count and find() are exact",
 "After every operation, the reported map size equals the number of currently mapped sectors, and find() succeeds exactly for mapped sectors, returning a physical page whose raw contents are that sector's data, and fails with the not-found error for all others. The same holds after a remount, for the state that was recovered.",
 ["histories", "crash_points"], "every operation sequence up to the explored depth from every start state, including power-loss remounts at every flash operation",
 "tests compare the count to a tree walk only for single writes and trims, and never after a power loss, a failed operation, a copy or a clear",
 [M, "dhara/map.h"], [("count kept in RAM and in the checkpoint cookie", "dhara/map.c:prepare_write, try_delete, raw_gc, pad_queue"), ("tree lookup", "dhara/map.c:trace_path")],
 ["dhara_map_size", "dhara_map_find"])

prop("C03", "Synced data survives power loss at any instant",
 "Once sync has returned success (or the journal reports itself clean), a power loss at any later instant, including in the middle of a page program or a block erase and including during mount-and-continue after an earlier power loss, never loses or alters what was synced: after remount every sector reads its synced contents or the result of a later operation on it.",
 ["crash_points", "histories"], "every flash program/erase/mark-bad operation of every explored history as crash point, with not-started, torn (uncorrectable) and completed outcomes, from every head position",
 "the tests only ever remount after a sync, on an intact image; no test cuts power inside an operation",
 [J, M], [("checkpoint written last in its group", "dhara/journal.c:push_meta"), ("space behind the last synced tail is never erased", "dhara/journal.c:prepare_head, skip_block, dhara_journal_dequeue"), ("resume finds the last good checkpoint", "dhara/journal.c:dhara_journal_resume"), ("pad to checkpoint", "dhara/map.c:dhara_map_sync")],
 ["dhara_map_sync", "dhara_map_resume", "dhara_map_read"])

prop("C04", "Power loss rolls back to one consistent point in history",
 "After a power loss at any instant, the mounted map (contents of all sectors and the sector count together) equals the state that existed after some single prefix of the operations issued, no earlier than the last synchronisation point and counting the interrupted operation as either done or not done. Never a mixture of two points, a partially applied operation, or a deleted or overwritten version coming back.",
 ["crash_points", "histories"], "every crash point and torn-write outcome of every explored history, with the recovered state of all sectors compared to the set of legal prefix states",
 "no test interrupts an operation; rollback to an intermediate checkpoint is never examined",
 [J, M], [("functional (append-only) tree with root in the checkpoint", "dhara/map.c:trace_path"), ("metadata committed atomically per checkpoint group", "dhara/journal.c:push_meta"), ("count stored with the checkpoint", "dhara/map.c:ck_set_count callers")],
 ["dhara_map_resume", "dhara_map_read", "dhara_map_size"])

prop("C05", "The map stays usable and durable after power loss",
 "After a power loss at any instant, mounting a previously synced map succeeds, and the mounted map behaves as one that was never interrupted: subsequent writes, trims, gc and syncs succeed within capacity, and what is then synced survives the next mount or power loss. Data written before the interruption never supersedes data written after it.",
 ["crash_points", "histories"], "every distinct post-crash state reached by the crash enumeration is driven through further operations, a sync, a second power loss and a mount; plus long wrap-around runs after the crash",
 "tests/epoch_roll.c checks a single hand-made case of this; all other head positions, torn pages and repeated crashes are untested",
 [J, M], [("free-page search after the last checkpoint", "dhara/journal.c:find_head"), ("epoch roll at wrap", "dhara/journal.c:roll_stats callers"), ("tail is never overtaken on resume", "dhara/journal.c:find_head")],
 ["dhara_map_resume", "dhara_map_write", "dhara_map_sync"])

prop("C06", "Mounting is transparent, repeatable and never writes to flash",
 "Mounting a map after a successful sync restores exactly the same sectors, contents, count and capacity as before, and allows work to continue. Mounting issues no program, erase or mark-bad operation, so mounting the same flash image any number of times, with a freshly initialised structure or a reused one, gives the same result.",
 ["histories", "configurations"], "a mount after every synced state and after every crash image reached by the explorer, mounted twice",
 "tests remount at three fixed points of one workload and check contents only; they do not watch for writes during mount or compare repeated mounts",
 [J, M], [("resume by search for last checkpoint", "dhara/journal.c:dhara_journal_resume"), ("count restored from the cookie", "dhara/map.c:dhara_map_resume")],
 ["dhara_map_resume", "dhara_nand_prog", "dhara_nand_erase"])

prop("C07", "Blocks failing at run time lose no data and stay invisible to the caller",
 "When program or erase operations fail with the bad-block error, at any flash operation of any map call, including repeated failures during recovery itself and as long as spare blocks remain, the call still completes successfully, every sector (synced or not) keeps its latest contents, and the count is unaffected.",
 ["fault_sequences", "histories"], "every program/erase of every explored history fails, singly and in pairs (triples in thorough), with failed pages reading as uncorrectable, blank or good",
 "tests/recovery.c has 8 fixed failure scenarios on a journal without a map; tests/map.c samples random timebombs with a fixed workload",
 [J, M], [("bad block detection and relocation", "dhara/journal.c:recover_from, dump_meta, restart_recovery, finish_recovery"), ("assisted recovery", "dhara/map.c:try_recover"), ("enumeration of pages to rescue", "dhara/journal.c:dhara_journal_next_recoverable")],
 ["dhara_map_write", "dhara_map_trim", "dhara_map_sync", "dhara_map_read"])

prop("C08", "Failed blocks are retired, good blocks are kept",
 "By the next successful sync, every block on which a program or erase reported failure has been marked bad, exactly such blocks are ever marked bad, and from the moment a block is marked bad it is never programmed or erased again, also across remounts. Blocks already marked bad (factory bad blocks) are never erased, programmed or used for data at all.",
 ["fault_sequences", "histories", "configurations"], "all fault placements of C07 and all small factory bad-block layouts, observed at the flash interface",
 "the simulator aborts on use of marked-bad blocks in the sampled runs, but nothing checks that failed blocks do get marked, or that good ones do not",
 [J], [("mark bad at end of recovery, deferred for the metadata dump block", "dhara/journal.c:finish_recovery, restart_recovery, dump_meta"), ("skip marked-bad blocks", "dhara/journal.c:prepare_head, dhara_journal_peek")],
 ["dhara_nand_mark_bad", "dhara_nand_erase", "dhara_nand_prog"])

prop("C09", "Power loss combined with failing blocks loses no synced data",
 "If a block fails and power is lost at any instant before, during or after the relocation of that block's contents, then after remount every sector still reads its last synced contents or the result of a later operation, the count matches, and the map remains usable.",
 ["crash_points", "fault_sequences"], "for each placement of a block failure in an explored history, every subsequent flash operation of that call and the next ones as crash point",
 "no test combines a block failure with a power loss",
 [J, M], [("relocation before marking bad", "dhara/journal.c:finish_recovery"), ("metadata dump page", "dhara/journal.c:dump_meta, dhara_journal_read_meta"), ("tail held during recovery", "dhara/journal.c:push_meta")],
 ["dhara_map_resume", "dhara_map_read"])

prop("C10", "The flash interface contract is always respected",
 "For every history, including faults and power-loss remounts, the library erases a block before programming it, programs pages of a block in ascending order and each at most once between erases, never programs or erases a block marked bad, passes only existing blocks and pages and in-page read ranges, and hands over complete page buffers.",
 ["histories", "crash_points", "fault_sequences", "configurations"], "every flash call of every execution explored by the map and journal explorers",
 "the simulator asserts part of this for the few sampled runs, without power loss and for one geometry only",
 [J, M, N], [("head preparation erases on block entry", "dhara/journal.c:prepare_head"), ("head search after resume skips non-free pages", "dhara/journal.c:find_head, cp_free")],
 ["dhara_nand_prog", "dhara_nand_erase", "dhara_nand_read", "dhara_nand_copy"])

prop("C11", "Wear levelling: erase counts of good blocks differ by at most one",
 "On any history of operations and clean (synced) remounts without power loss, however skewed the access pattern, the numbers of erasures of any two blocks not marked bad differ by at most one at all times.",
 ["histories", "configurations", "fault_sequences"], "all operation sequences to the explored depth from every head position, with factory bad blocks and run-time block failures, plus long skewed workloads over many wraps",
 "no test counts erasures per block",
 [J], [("strictly circular block allocation", "dhara/journal.c:skip_block, next_block, prepare_head"), ("one erase per block entry", "dhara/journal.c:prepare_head")],
 ["dhara_nand_erase"])

prop("C12", "The advertised capacity is always available",
 "As long as the number of mapped sectors does not exceed the reported capacity, writes, copies, trims, gc and syncs never fail for lack of space, for any order and mixture of operations, any number of overwrites and wraps. A write to a new sector is refused with the map-full error exactly when the map size has reached the reported capacity, and trimming a sector makes room for another one. A larger collection ratio never gives less capacity, gives more where the chip has room for it, and ratio zero is usable.",
 ["histories", "configurations"], "all operation sequences to the explored depth from states at and just below full capacity at every head position, for each geometry and gc ratio, plus long exhaustive-pattern overwrite runs",
 "tests/map.c fills to about half of the capacity and never reaches it; map-full is never provoked",
 [M, J], [("capacity with reserve and safety margin", "dhara/map.c:dhara_map_capacity"), ("automatic gc before each write", "dhara/map.c:auto_gc, prepare_write"), ("tail release at checkpoints", "dhara/journal.c:push_meta, dhara_journal_dequeue")],
 ["dhara_map_write", "dhara_map_capacity"])

prop("C13", "Garbage collection changes nothing visible and reclaims all garbage",
 "Calling gc any number of times at any point never changes any sector's contents or the count, and succeeds on a healthy map even when empty. With repeated gc calls (and a sync) the space used by overwritten and deleted data is reclaimed: journal usage falls to no more than the live sectors plus a bounded remainder.",
 ["histories", "crash_points"], "gc inserted at every position of every explored sequence, and runs of gc calls from every start state until usage stops shrinking",
 "gc is never called explicitly by the tests and its effect on usage is not measured",
 [M, J], [("repack or drop the oldest page", "dhara/map.c:raw_gc, dhara_map_gc"), ("tail advance", "dhara/journal.c:dhara_journal_peek, dhara_journal_dequeue")],
 ["dhara_map_gc", "dhara_journal_size"])

prop("C14", "Failed operations leave the map unchanged",
 "An operation that returns an error, whether map-full or an uncorrectable read somewhere inside it (also while the contents of a failed block are being relocated), leaves the contents of every sector and the count as they were before the call (for an interrupted write or trim: its own target may instead have completed), now and after a later sync and remount; once the cause is gone the operation can be repeated successfully.",
 ["fault_sequences", "histories"], "a one-shot uncorrectable read error at every flash read of every explored operation, and map-full refusals at every start state",
 "no test provokes a read error or map-full",
 [M, J], [("count restored on failure", "dhara/map.c:dhara_map_write, dhara_map_copy_page, try_delete"), ("root moves only after metadata is in place", "dhara/journal.c:push_meta")],
 ["dhara_map_write", "dhara_map_trim", "dhara_map_copy_sector"])

prop("C15", "Uncorrectable reads are reported, never disguised as data",
 "If the flash driver reports an uncorrectable read error during find, read, write, copy, trim, gc or sync, the operation returns failure with that error code, or success only if its result is correct; it never returns wrong data, a false not-found or a blank page. Persistent errors on one page never affect sectors whose data and lookup path avoid that page.",
 ["fault_sequences", "histories"], "every flash read of every explored operation failing once, and every programmed page failing persistently, for all reachable start states explored",
 "the simulator cannot produce read errors",
 [M, J], [("error propagation from metadata reads", "dhara/map.c:trace_path, raw_gc, try_delete"), ("error propagation from data reads", "dhara/map.c:dhara_map_read")],
 ["dhara_map_read", "dhara_map_find"])

prop("C16", "Every operation does a bounded amount of flash work",
 "Mounting needs a number of flash operations that grows only logarithmically with the number of blocks, and read, find, write, copy, trim and gc each need a number of flash operations bounded by a constant that depends on the gc ratio and pages per checkpoint but not on chip size, fill level or history. Sync is bounded by the number of pages in the journal, and every call terminates.",
 ["histories", "configurations", "crash_points"], "flash calls counted in every explored execution, and mounts at every flash operation of full trips round chips from 4 up to 4096 blocks",
 "tests print operation counts but compare them with nothing",
 [J, M], [("binary searches on mount", "dhara/journal.c:find_last_checkblock, find_last_group"), ("radix depth 32", "dhara/map.c:trace_path"), ("gc ratio bounded collection", "dhara/map.c:auto_gc"), ("bounded retries", "dhara/journal.h:DHARA_MAX_RETRIES")],
 ["dhara_nand_read", "dhara_nand_is_bad", "dhara_nand_is_free"])

prop("C17", "The journal is a faithful persistent queue",
 "On fault-free flash, pages come out of the journal in the order they were enqueued or copied in, each exactly once, with exactly the data and metadata they were given (padding entries carry blank metadata), for every interleaving of enqueue, copy, peek, dequeue and clear and for every wrap-around. The root always designates the newest page while the journal holds it, and peek reports none exactly when the journal is empty.",
 ["histories", "configurations"], "breadth-first closure of all enqueue/copy/pad/dequeue/clear sequences on tiny chips against a list model, with factory bad blocks",
 "tests/journal.c and jfill.c only fill then drain",
 [J, H], [("head and tail stepping over checkpoint pages", "dhara/journal.c:next_upage, push_meta, dhara_journal_dequeue, dhara_journal_peek"), ("metadata lookup incl. buffered group", "dhara/journal.c:dhara_journal_read_meta")],
 ["dhara_journal_peek", "dhara_journal_read_meta", "dhara_journal_root"])

prop("C18", "Assisted recovery rescues every page of a failed block",
 "When enqueue or copy reports that recovery is required, the recovery enumeration yields every page of the failed block that was accepted before the failure, in order and with readable data and metadata, until recovery completes; this also holds when recovery is restarted by further failures. Whenever it starts or restarts, the root is the newest page accepted before the failure. After completion the queue still holds every page accepted so far, the latest copies in order, and nothing is lost (pages rescued again, or already dequeued, may appear more than once).",
 ["fault_sequences", "histories"], "all placements of one to three program/erase failures over all enqueue/copy/pad sequences to the explored depth on small chips",
 "tests/recovery.c has eight fixed scenarios and no copy or dequeue in flight",
 [J], [("recovery state machine", "dhara/journal.c:recover_from, restart_recovery, dump_meta, finish_recovery, dhara_journal_next_recoverable")],
 ["dhara_journal_next_recoverable", "dhara_journal_in_recovery"])

prop("C19", "A clean journal and its cookie are restored exactly on resume",
 "Whenever the journal reports itself clean, everything enqueued so far is persistent: resuming from flash at that moment, or after a power loss at any flash operation up to the next checkpoint, restores the queue contents, the root, and the cookie bytes as they were at that checkpoint. Only at the ends may it differ: pages dequeued since that checkpoint may reappear at the old end, and pages of the checkpoint group being written when power failed may trail at the new end with blank or unreadable metadata.",
 ["crash_points", "histories"], "resume at every flash operation of every explored journal sequence on tiny chips",
 "tests/journal.c resumes only at clean points of one workload and checks one cookie byte",
 [J], [("checkpoint header and cookie", "dhara/journal.c:push_meta, dhara_journal_resume"), ("root found by backward scan", "dhara/journal.c:find_root")],
 ["dhara_journal_resume", "dhara_journal_cookie", "dhara_journal_is_clean"])

prop("C20", "A full journal refuses new pages instead of overwriting old ones",
 "The journal never erases or overwrites a page that has not been dequeued, nor one that a resume from the last checkpoint would still need; enqueue and copy fail with the journal-full error only when the pages between tail and head span all but the last two usable blocks, a refused call changes nothing (a clean journal stays clean and the queue keeps its contents), and they work again after pages were dequeued from a clean journal. Reported size is never less than the number of pages held.",
 ["histories", "crash_points", "configurations"], "all sequences on tiny chips, which fill up within a few operations; full-journal states at every head position",
 "tests/jfill.c fills and drains on one geometry and resets the synced tail by hand",
 [J], [("head/tail collision tests", "dhara/journal.c:prepare_head, skip_block"), ("synced tail kept separately", "dhara/journal.c:push_meta, dhara_journal_dequeue"), ("size and capacity", "dhara/journal.c:dhara_journal_size, dhara_journal_capacity")],
 ["dhara_journal_enqueue", "dhara_journal_size", "dhara_journal_capacity"])

prop("C21", "Mounting finds the newest state on any chip, after any number of wraps",
 "For every chip geometry (any number of blocks, any pages per block and page size the journal supports), every position of the write head, any number of trips round the chip including overflow of the epoch counter, and fewer than eight unusable blocks (marked bad, or the one being rewritten) in a row, mounting selects the most recent committed checkpoint, never an older one, and never fails on a chip that holds one.",
 ["configurations", "histories", "crash_points"], "mount at every flash operation of linear histories spanning several wraps, for all block counts 2..N, all single and paired bad-block placements, several page/block geometries, and epochs through 255->0",
 "tests use one 113-block chip, at most two wraps, epochs below 10",
 [J], [("binary search over blocks by epoch", "dhara/journal.c:find_last_checkblock, find_checkblock"), ("binary search over checkpoint groups", "dhara/journal.c:find_last_group"), ("backward scan", "dhara/journal.c:find_root")],
 ["dhara_journal_resume", "dhara_journal_root"])

prop("C22", "The on-flash format is the documented one",
 "Every clean flash image can be decoded by an independent reader written only from the documented layout (checkpoint position, magic, epoch, tail, bad-block counters, cookie, per-page metadata of sector number and 32 alternate pointers, little-endian): it finds the same root and reconstructs the same sectors and contents. Conversely, images built by an independent writer from that layout mount to the state they describe.",
 ["histories", "configurations"], "every clean state reached by the explorer decoded; an enumerated family of independently written images (head position, epoch, tail, count, tree shape, page numbers above 16 and 24 bits) mounted",
 "tests only read back with the same code that wrote, so a symmetric change of format goes unnoticed",
 [J, M, "dhara/bytes.h", "map_internals.txt"], [("header accessors", "dhara/journal.c:hdr_*"), ("metadata accessors", "dhara/map.c:meta_*, ck_*"), ("little-endian packing", "dhara/bytes.h")],
 ["dhara_nand_prog", "dhara_map_resume"])

prop("C23", "Independent instances do not influence each other",
 "Two maps on two chips, with separate structures and buffers, behave exactly as if each were alone, for every interleaving of their operations, also when one task is suspended inside a flash driver call while the other runs.",
 ["schedules"], "every interleaving, with up to two (thorough: three) context switches at flash-driver calls, of pairs of operation sequences on two instances with different geometries, compared with solo runs",
 "tests only ever have one instance",
 [J, M], [("no mutable static state", "dhara/*.c"), ("all state in caller-supplied structures", "dhara/journal.h:struct dhara_journal, dhara/map.h:struct dhara_map")],
 ["dhara_map_read", "dhara_nand_*"])

prop("C24", "Blank or foreign flash mounts as an empty, working map",
 "On a chip holding no valid checkpoint (blank, arbitrary readable garbage, unreadable pages, any mixture, any bad blocks) mounting returns failure with an error code without touching the flash, and leaves an empty map that reads blank everywhere and accepts writes, syncs and remounts normally. A mount that fails because pages cannot be read for the moment likewise leaves an empty map, and the chip mounts normally once they can be read again.",
 ["inputs", "configurations"], "every assignment of page kinds (blank, garbage, unreadable, near-miss headers) to the pages the mount examines and every bad-block layout on small chips, followed by normal operation across a wrap",
 "tests start from one constant-filled image",
 [J, M], [("magic test", "dhara/journal.c:hdr_has_magic, find_checkblock"), ("reset to empty", "dhara/journal.c:reset_journal"), ("count reset", "dhara/map.c:dhara_map_resume")],
 ["dhara_map_resume"])

prop("C25", "No access outside the caller's buffers and structures",
 "For every history, fault and geometry, the library accesses only the instance structure, the one page buffer of exactly the page size, the caller's data buffer and its stack, never reads uninitialised stack or out-of-range metadata, and invokes no undefined behaviour.",
 ["histories", "crash_points", "fault_sequences", "configurations"], "reduced-bound runs of the map and journal explorers with address and undefined-behaviour instrumentation and exact-size guarded buffers, over all page sizes",
 "tests run uninstrumented on one geometry",
 [J, M], [("metadata offset within page", "dhara/journal.c:hdr_user_offset, choose_ppc"), ("page buffer use", "dhara/journal.c:push_meta, dump_meta")],
 ["dhara_nand_read", "page buffer"])

prop("C26", "All 32-bit sector numbers are distinct and independent",
 "Any two different sector numbers (except the reserved one) are different storage locations: writing, copying or trimming one never affects another, no matter which of the 32 address bits they differ in, in which order they were created and deleted, and whether garbage collection or a remount happens in between.",
 ["inputs", "histories"], "all sequences of write/trim/copy/gc to the explored depth over sector sets that realise every pair of differing bit positions (0..31), including 0 and 0xfffffffe",
 "tests use sectors 0..199 only: the upper 24 address bits are never exercised",
 [M], [("bitwise radix descent", "dhara/map.c:trace_path, d_bit"), ("subtree pruning on delete", "dhara/map.c:try_delete")],
 ["dhara_map_read", "dhara_map_trim"])

prop("C27", "Errors are reported consistently",
 "Every call that returns failure stores a specific documented non-zero error code through the error pointer, every call accepts a null error pointer with otherwise identical behaviour, and each error code has its own description while every other integer yields the generic text.",
 ["inputs", "fault_sequences"], "every failing call of the explored histories with and without an error pointer; all error values from -65536 to 65536",
 "tests only print the defined codes and pass null in a few successful calls",
 ["dhara/error.c", "dhara/error.h", M, J], [("set_error", "dhara/error.h:dhara_set_error"), ("message table", "dhara/error.c:dhara_strerror")],
 ["dhara_strerror", "dhara_error_t *err"])

prop("C30", "Hamming code corrects any single-bit and detects any double-bit error",
 "For every supported chunk length and any data, a fault-free chunk has zero syndrome; any single flipped bit in data or ECC gives a non-zero syndrome and repair returns success with the original data; any two flipped bits give a non-zero syndrome and repair reports failure without changing the data.",
 ["inputs"], "all chunk lengths 1..512, all single-bit errors; all double-bit errors for selected lengths including 512; all data values for tiny chunks and a pattern set for the others",
 "the test flips 220 random single bits; double errors and other lengths are untested",
 ["ecc/hamming.c", "ecc/hamming.h"], [("line and column parity", "ecc/hamming.c:parity_scan"), ("syndrome decoding", "ecc/hamming.c:hamming_repair")],
 ["hamming_syndrome", "hamming_repair"])

prop("C31", "BCH codes correct every error pattern up to their strength",
 "For each of the 1-, 2-, 3- and 4-bit codes, every supported chunk length and any data, flipping up to that many bits anywhere in data and ECC is fully repaired: repair restores data and ECC exactly and verification then passes. (The unused high bits of the last ECC byte are not part of the code: they are ignored.) Repairing an error-free chunk changes nothing.",
 ["inputs"], "all error patterns up to the code strength on short chunks; all single errors at selected lengths up to the maximum, edge positions at every length; bursts and every bit combined with edge bits on 512-byte and maximum-size chunks",
 "the test samples 220 random patterns per code at one length",
 ["ecc/bch.c", "ecc/gf13.c", "ecc/gf13.h"], [("syndromes, Berlekamp-Massey, root search", "ecc/bch.c:syndrome, berlekamp_massey, bch_repair"), ("field tables", "ecc/gf13.c")],
 ["bch_repair", "bch_verify"])

prop("C32", "BCH verification detects every error pattern up to twice the strength",
 "For each code and supported chunk length, verification accepts exactly the ECC that was generated for the data, and rejects any chunk in which between one and twice-the-strength many bits of data or ECC were flipped. After repair, verification passes only if data and ECC form a valid codeword, so uncorrectable chunks that were not turned into another codeword are reported.",
 ["inputs"], "all patterns up to twice the strength on short chunks; every ECC value for the small codes; for long chunks all sums of up to strength-many (or as many as feasible) parity columns taken from the code, bound to it by superposition checks",
 "the test checks verification only on error-free and successfully repaired chunks",
 ["ecc/bch.c"], [("generator polynomials", "ecc/bch.c:bch_1bit..bch_4bit"), ("remainder", "ecc/bch.c:chunk_remainder")],
 ["bch_generate", "bch_verify"])

prop("C33", "CRC-32 detects all small errors and can be computed piecewise",
 "Over messages of up to 4096 bits plus checksum, any change of one to three bits and any burst of up to 32 bits changes the checksum relation; computing it over consecutive pieces with carry equals computing it in one go; and it equals the bit-serial IEEE 802.3 polynomial definition with inverted coefficients.",
 ["inputs"], "all 256 byte values in all positions and carry byte states, all 1-, 2- and 3-bit errors over 4096+32 bits, all 32-bit-or-shorter burst shapes by linear rank, all split points",
 "the test samples 200 random 4-bit flips",
 ["ecc/crc32.c", "ecc/crc32.h"], [("reduction table", "ecc/crc32.c:reduce")],
 ["crc32_nand"])

prop("C34", "Erased flash passes every check code",
 "For every supported chunk length, an all-0xff chunk has all-0xff ECC bytes under the Hamming and all BCH codes and an all-ones CRC, so that an erased page verifies as clean, and repair leaves it unchanged.",
 ["inputs", "configurations"], "all chunk lengths from 0 to the maximum for each code",
 "tests verify a single length per code",
 ["ecc/bch.c", "ecc/hamming.c", "ecc/crc32.c"], [("inverted coefficients", "ecc/bch.c:pack_poly, chunk_remainder; ecc/hamming.c:parity_scan; ecc/crc32.c:crc32_nand")],
 ["hamming_generate", "bch_generate", "crc32_nand"])

prop("C35", "Galois-field arithmetic is exact in both builds",
 "For all non-zero field elements, multiplication and division agree with polynomial arithmetic modulo x^13+x^4+x^3+x+1, multiplication by x and its inverse agree with them, and the table-driven and the table-free build give identical results, also through complete BCH encode, verify and repair.",
 ["inputs", "configurations"], "all 8191 x 8191 operand pairs, all table entries, both build configurations",
 "tests exercise the arithmetic only through random BCH patterns, in one build configuration",
 ["ecc/gf13.c", "ecc/gf13.h"], [("log/exp tables", "ecc/gf13.c:gf13_log, gf13_exp"), ("table-free arithmetic", "ecc/gf13.c (GF13_NO_TABLES)")],
 ["gf13_mul", "gf13_div", "gf13_mulx", "gf13_divx"])

prop("C36", "The generator tools reproduce the tables and polynomials in the library",
 "The shipped tools print, for the documented polynomials, exactly the CRC table, Galois-field tables and BCH generator polynomials compiled into the library, and the search tool lists exactly the primitive polynomials of a degree. (The tool prints generators together with their reciprocal, the form the library uses.)",
 ["inputs", "programs"], "all table entries and generators; primitive polynomial search for every degree 1..13; tables for every primitive polynomial up to degree 8, generators up to degree 6 and for four larger fields",
 "the tools are built but never run by the tests",
 ["tools/gentab.c", "tools/gftool.c", "ecc/crc32.c", "ecc/gf13.c", "ecc/bch.c"], [("table generation", "tools/gentab.c:fill_table"), ("field and BCH generator construction", "tools/gftool.c:gf_init, bch_generator, poly_search")],
 ["stdout of tools/gentab and tools/gftool"])

prop("C37", "ECC routines stay in bounds and are harmless on garbage",
 "For any chunk contents, any ECC bytes and any supported length, the ECC routines terminate, read and write only the given chunk and ECC bytes (generate, verify and syndrome do not modify the chunk, Hamming repair flips at most one bit), and verification after a BCH repair never accepts something that is not a codeword.",
 ["inputs"], "all ECC values for the Hamming code (2^24 syndromes) and the 1-bit BCH code, all low-weight and structured ECC values for the others, with guarded exact-size buffers and instrumentation",
 "tests never pass uncorrectable input",
 ["ecc/bch.c", "ecc/hamming.c"], [("bounds checks", "ecc/hamming.c:hamming_repair, ecc/bch.c:poly_add, berlekamp_massey, bch_repair")],
 ["hamming_repair", "bch_repair"])

prop("C38", "Bit errors within the ECC strength are invisible end to end",
 "With a flash driver built as documented from the supplied ECC and CRC routines, flipping any one bit (or, with stronger codes, any two bits in a chunk) anywhere in a stored flash image never changes what mount, read, find, write, gc or sync return.",
 ["inputs", "fault_sequences", "histories"], "every single bit of every stored page (and the same bit of all pages at once), and for stronger codes every bit with neighbouring and edge bits, of images produced by generated histories on seven chip and code layouts, each followed by a scenario of every operation",
 "the tests never connect the ECC code to the map",
 ["ecc/bch.c", "ecc/hamming.c", "ecc/crc32.c", M, J], [("documented driver recipe", "README; dhara/nand.h:dhara_nand_read")],
 ["dhara_map_read", "dhara_map_resume"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
