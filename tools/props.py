# The properties, in one place: writes properties.jsonl and MANIFEST.json.
# usage: python3 tools/props.py
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def both(*names):
    return [f"{d}/{n}" for n in names for d in ("ipv4", "ipv6")]

P = {}

def prop(id, title, statement, over, text, why, files, mech, note, **kw):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw)

SETF = both("set.go", "setnode.go", "node.go")
TABF = both("table.go", "tablex.go", "node.go")

prop("C01", "Union, intersection and difference are exact set operations",
     "For any two collections of addresses, the union, intersection and difference contain an address exactly when it is in either, in both, or in the first and not the second. This holds for every kind of operand (address, prefix, range, set, mutable set, nil), and the operands are not changed.",
     ["inputs"], "all pairs of sets within the bounds (prefixes of every length, any bits, nested, adjacent, equal or disjoint) and every address",
     "The tests try chosen examples; a wrong branch for one alignment, length or nesting of two tries only shows for the inputs that take it, and the input space is 2^64 and more even for two prefixes.",
     SETF, [("trie union", "ipv4/setnode.go Union"), ("trie difference", "ipv4/setnode.go Difference"), ("trie intersection", "ipv4/setnode.go Intersect"), ("prefix comparison", "ipv4/node.go compare, contains")],
     "sets of up to two prefixes per operand (thorough: three)")

prop("C02", "Sets are canonical, and equal exactly when they have the same addresses",
     "Two sets compare equal exactly when they contain the same addresses, however they were made: by any order of insertions, by removals, from prefixes with host bits, from ranges, or as the result of any set operation. The prefixes of a set are always disjoint and maximal.",
     ["inputs", "histories"], "all sets made by operations on up to four prefixes, in any order, within the bounds",
     "Equality compares the internal tries, so any construction that leaves an unmerged pair of halves or a stray node breaks it; the tests cover only a few constructions.",
     SETF, [("merging of halves", "ipv4/setnode.go Union"), ("comparison", "ipv4/node.go Equal"), ("sets of prefixes and ranges", "ipv4/setnode.go setNodeFromPrefix, setNodeFromRange")],
     "sets of up to two prefixes per operand, four insertions (thorough: three per operand)")

prop("C03", "Containment, emptiness and counts agree with the addresses",
     "A set (or prefix, or range) is reported to contain another exactly when every address of the other is in it. It is reported as empty exactly when it has no address, and the numbers of addresses and of prefixes of a given length are exact; a length that does not exist is an error and a count that does not fit is never reported as a smaller one.",
     ["inputs"], "all pairs of sets within the bounds, all lengths",
     "Containment is computed through differences and counts through sums of powers of two; wrong results need particular alignments or sizes near the limits of the integer types.",
     SETF + both("prefix.go", "range.go"), [("containment", "ipv4/set.go Contains"), ("counting addresses", "ipv4/node.go NumAddresses"), ("counting prefixes", "ipv4/set.go NumPrefixes; ipv4/prefix.go NumPrefixes")],
     "two prefixes per set (thorough: three)")

prop("C04", "Walks over a set visit exactly its addresses, in order, and end",
     "Walking the prefixes, ranges or addresses of a set visits every address of the set exactly once in ascending order, as disjoint maximal prefixes or maximal ranges. The walk ends, also when the set ends at the last address, and stops as soon as the callback says so, which is what the walk returns.",
     ["inputs"], "all sets of up to four prefixes within the bounds, every stopping point",
     "Overflow at the last address and the merging of adjacent prefixes into ranges depend on exact positions in the address space.",
     SETF + both("prefix.go", "range.go"), [("walk of ranges", "ipv4/set.go WalkRanges"), ("walk of addresses", "ipv4/set.go WalkAddresses; ipv4/prefix.go walkAddresses"), ("walk of the trie", "ipv4/node.go Walk")],
     "sets of up to four prefixes")

prop("C05", "Range arithmetic is exact",
     "Subtracting and adding ranges gives the ranges with exactly the addresses of the difference or union: sorted, disjoint and not adjacent. A range made from two addresses is rejected exactly when they are in the wrong order, the range of a prefix has exactly its addresses, and a range used as a set contains exactly the addresses between its ends.",
     ["inputs"], "all pairs of ranges of the whole address space; sets of ranges within the bounds",
     "Off-by-one and overflow mistakes at the first and last address and for adjacent ranges show only for exact boundary values.",
     both("range.go", "setnode.go"), [("subtraction and addition", "ipv4/range.go Minus, Plus"), ("conversion to a set", "ipv4/setnode.go setNodeFromRange")],
     "Plus, Minus and construction: any two ranges at all; conversion to sets: ends that differ in up to 4 consecutive arbitrary bits and are constant below")

prop("C06", "A mutable set is the running result of its operations; snapshots never change",
     "After any sequence of insertions and removals a mutable set contains exactly the addresses inserted and not removed since. An immutable set taken from it, the mutable sets made from that, and the operands are never changed by later operations, and a build applies its changes exactly when its callback says so.",
     ["histories", "inputs"], "all histories of up to four operations with snapshots in between, within the bounds",
     "Copy-on-write sharing means an in-place change of a shared node corrupts other sets only after particular histories.",
     SETF, [("insertion and removal", "ipv4/set.go Insert, Remove"), ("copy on write", "ipv4/node.go mutate, copyMutate"), ("build", "ipv4/set.go Build")],
     "up to four operations (thorough: five)")

prop("C07", "Finding an available prefix is sound, complete and least fragmenting",
     "A prefix that is found has the requested length, is contained in the set and does not overlap the reserved addresses. An error is returned exactly when no such prefix exists or the length is invalid. The prefix found lies in the smallest free block that can hold it.",
     ["inputs", "histories"], "all sets and reservations within the bounds, every length; repeated allocation until there is no room",
     "Which free block is chosen depends on the shapes of two tries; the tests compare a few allocations.",
     SETF, [("search", "ipv4/setnode.go FindSmallestContainingPrefix, findSmallestContainingPrefix, best"), ("interface", "ipv4/set.go FindAvailablePrefix")],
     "up to two prefixes less up to three")

prop("C08", "A table behaves as a map from exact prefixes to values",
     "Insert, update, insert-or-update, get-or-insert, get and remove do what the same operations do on a map keyed by the exact prefix, and report success accordingly. The number of entries is the size of that map, and no entry is lost or appears by operations on other prefixes.",
     ["histories", "inputs"], "all histories of up to five operations of any kind on prefixes within the bounds",
     "The trie has nodes without entries, joins and splits; which are made or removed depends on the order and nesting of the prefixes.",
     TABF, [("insertion", "ipv4/node.go insert, InsertOrUpdate, Update, GetOrInsert"), ("removal", "ipv4/node.go del"), ("lookup", "ipv4/node.go Match")],
     "two to five operations (thorough: four of any kind)")

prop("C09", "The longest match is the most specific entry that contains the prefix",
     "Looking up a prefix or address by longest match returns the entry with the longest prefix among those that contain it, with its value and its prefix. It reports no match exactly when no entry contains it.",
     ["inputs"], "all tables of up to four entries and all looked up prefixes or addresses within the bounds",
     "Correctness depends on how the prefixes nest and on nodes without entries in between, combinations tests only sample.",
     TABF, [("lookup", "ipv4/node.go Match"), ("interface", "ipv4/tablex.go longestMatch")],
     "up to four entries")

prop("C10", "Walking a table visits every entry exactly once in order",
     "A walk visits exactly the entries of the table with their values, each once, ordered by address with less specific prefixes first. It stops as soon as the callback says so, and this is what the walk returns.",
     ["inputs", "histories"], "all tables made by up to four operations within the bounds, every stopping point",
     "The order and the omission of internal nodes depend on the shape of the trie.",
     TABF, [("walk", "ipv4/node.go Walk")],
     "up to four entries")

prop("C11", "A diff of two tables reports every difference exactly once, in order",
     "For every prefix in either table exactly one of the callbacks for left only, right only, changed and unchanged is called, the right one, with the values of both tables, in ascending order of prefixes. This holds whether or not the tables share structure, for any subset of callbacks, and the diff stops as soon as a callback says so.",
     ["inputs", "histories"], "all pairs of tables within the bounds: unrelated ones and ones derived from each other",
     "The diff walks two tries in parallel with shortcuts for shared parts; the case distinction depends on both shapes at each step.",
     TABF, [("parallel walk", "ipv4/node.go diff, Diff"), ("interface", "ipv4/tablex.go Diff")],
     "up to two entries per table, up to three and a derived copy")

prop("C12", "Aggregation preserves every longest match and leaves nothing redundant",
     "After aggregation every address has the same longest match value as before, or none as before. The aggregated table has no entry whose value is what the match would be without it and no two sibling entries that could be merged, and never more entries than before.",
     ["inputs"], "all tables within the bounds and every address",
     "Merging siblings beneath and above other entries has many cases, which depend on the values and the nesting.",
     TABF, [("aggregation", "ipv4/node.go aggregate, deactivate, Aggregate")],
     "up to three entries in any position, every subset of seven prefixes of a tree with any values")

prop("C13", "Mapping a table changes exactly the values",
     "The mapped table has exactly the prefixes of the original, each with the value that the mapper returned for that prefix and value. The mapper is called once per entry and with nothing else, and the original table is not changed.",
     ["inputs"], "all tables within the bounds and mappers that change any subset of values",
     "Subtrees in which nothing changed are shared, which goes wrong only for particular combinations of changed and unchanged values.",
     TABF, [("mapping", "ipv4/node.go Map")],
     "up to three entries (thorough: four)")

prop("C14", "Immutable tables never change, and mutable copies are independent",
     "An immutable table is not affected by any later operation on the mutable table it was taken from or on mutable tables made from it, nor are tables derived by mapping or aggregation. A build applies its changes exactly when its callback says so.",
     ["histories", "inputs"], "all histories of up to four operations with snapshots in between, within the bounds",
     "Copy-on-write sharing means an in-place change of a shared node corrupts other tables only after particular histories.",
     TABF, [("copy on write", "ipv4/node.go mutate, copyMutate, withChild"), ("snapshots", "ipv4/tablex.go Table, Table_, Build")],
     "up to four operations")

prop("C15", "Reads and writes may be concurrent; overlapping writes are never lost",
     "When goroutines use the same mutable set or table at the same time, every read sees the state before or after each write, never a mixture, and snapshots do not change. Writes that overlap take effect one after the other or panic without any effect, a write panics only if another one overlapped it, and there is no data race.",
     ["schedules", "inputs", "histories"], "all interleavings, at statement level, of two operations (reads of every kind, writes of every kind, also two in a row) with up to four switches, on all small sets and tables within the bounds",
     "What goes wrong needs one goroutine to be interrupted between two particular accesses; the tests force one interleaving of two inserts.",
     both("set.go", "tablex.go", "table.go", "unsafe_atomic.go"), [("compare and swap of the trie", "ipv4/set.go update; ipv4/tablex.go update; ipv4/unsafe_atomic.go"), ("snapshots", "ipv4/set.go Set; ipv4/tablex.go Table"), ("copy on write", "ipv4/node.go mutate, copyMutate")],
     "two threads (thorough: three), one or two operations each, four switches, at the boundaries of statements; the memory is sequentially consistent, with data races reported separately",
     hooks="points before every statement of ipv4 and ipv6 are added through a build overlay at run time; /repo is not changed")

prop("C16", "Conversions to and from the standard library's types are exact or rejected",
     "Every address, mask and prefix converts to the standard library's types and back to the same value, with the same bits. Byte slices, masks and networks of the wrong size or with non-contiguous masks are rejected, and lengths are accepted exactly when they are in range. What is passed to a conversion is not modified or kept, and what it returns belongs to the caller, who may modify it without an effect on any other value.",
     ["inputs"], "all addresses, all mask lengths, all byte slices up to 20 bytes, all mask bytes",
     "Rejection must hold for every malformed value, acceptance for all 2^32 or 2^128 well-formed ones.",
     both("address.go", "mask.go", "prefix.go") + ["ipv6/uint128.go"], [("addresses", "ipv4/address.go fromSlice, ToNetIP"), ("masks", "ipv4/mask.go MaskFromNetIPMask, MaskFromLength"), ("prefixes", "ipv4/prefix.go PrefixFromNetIPNet, ToNetIPNet")],
     "complete for the types' values; byte slices up to 20 bytes")

prop("C17", "Parts of a prefix are consistent",
     "The network, host, mask, range and broadcast address of a prefix have exactly the bits that its length says, for every length, and halves are the two prefixes one longer that make it up. Prefixes are equal exactly when all address bits, host bits included, and the lengths are.",
     ["inputs"], "all prefixes of every length with any host bits",
     "Shifts by the whole width and the lengths 0 and maximum behave differently from the middle ones.",
     both("prefix.go", "mask.go", "address.go") + ["ipv6/uint128.go"], [("parts", "ipv4/prefix.go Network, Host, Broadcast, Range, Halves"), ("128 bit shifts", "ipv6/uint128.go leftShift, rightShift")],
     "complete: all lengths, all address bits")

prop("C18", "Text forms are canonical and are read back as the same value",
     "Every address and prefix is written in the canonical notation of its family and reading that text gives the same value, host bits included. Text that is not in that notation, or belongs to the other family, is rejected, never read as some other value.",
     ["inputs"], "all IPv4 addresses and prefixes; IPv6 addresses with any one or two arbitrary groups, any pattern of zero groups, mapped ones; all texts of up to 7 bytes and all texts near a valid one",
     "Round trips must hold for every value, and rejection for every malformed text.",
     both("address.go", "prefix.go", "mask.go", "range.go", "set.go"), [("writing", "ipv4/address.go String; ipv4/prefix.go String"), ("reading", "ipv4/address.go AddressFromString; ipv4/prefix.go PrefixFromString, parseNet")],
     "IPv4 complete for addresses and most prefixes; IPv6 with two arbitrary neighbouring groups; texts up to 7 bytes. The standard library's parser and formatter are executed too, not modelled.")

prop("C19", "The family of an ip value decides what it is, and families do not mix",
     "In package ip, a value made from an address, mask, prefix, size or text belongs to the family of its arguments, of its size or of its notation, and is the same as the one that the family's own package makes. Arguments of two families, of neither family, or nil are rejected with an error (or give nil), never taken for something else.",
     ["inputs"], "all addresses, masks, prefixes and ranges of either family, foreign implementations and nil in every combination; byte slices and texts up to the bound",
     "Every combination of kinds of arguments has its own branch, and the result must be right for all values of each.",
     ["ip/address.go", "ip/mask.go", "ip/prefix.go", "ip/range.go"], [("from parts", "ip/prefix.go PrefixFromAddressMask; ip/range.go RangeFromAddresses"), ("from the standard library's types", "ip/address.go AddressFromNetIP; ip/mask.go MaskFromNetIPMask; ip/prefix.go PrefixFromNetIPNet"), ("parts", "ip/prefix.go, ip/range.go FirstFromRange, LastFromRange")],
     "complete for the types' values; byte slices up to 20 bytes; texts with any byte replaced and all of up to 3 bytes")

prop("C20", "Zero values and nil arguments mean what the documentation says",
     "Zero values of sets and tables, mutable ones included, read as empty everywhere, as receivers and as operands. Every modification of a zero mutable set or table panics, and mutable copies of zero immutable ones work like new ones. A nil set is an empty set, a nil prefix the one of length 0, and zero addresses, masks, prefixes and ranges are the ones with no bit set.",
     ["inputs"], "every method of a zero value with operands of every kind and any prefixes; nil for every set and prefix argument, on any set of two prefixes and any table of two entries near the root",
     "Each method handles the uninitialized state and nil by itself, and the result has to agree with that of an empty one for every operand.",
     both("set.go", "table.go", "tablex.go", "prefix.go", "mask.go", "range.go"), [("zero sets", "ipv4/set.go (me.s == nil)"), ("zero tables", "ipv4/table.go, ipv4/tablex.go (me.t.m == nil)"), ("nil arguments", "ipv4/set.go (other == nil); ipv4/tablex.go (prefix == nil)")],
     "operands of one prefix, tables of up to two entries")

prop("C21", "A table's own comparator decides which values are equal, everywhere",
     "In a table made with a comparator, only that comparator decides whether values are equal: for updates, aggregation, mapping and differences. It is kept by every table made from that one (snapshots, mutable copies, builds, mapped and aggregated tables), is given only values that were stored, nil interface values included, and values need not be comparable with ==.",
     ["inputs", "histories"], "all equivalences given by a bit mask, on values that are slices, functions or interfaces; all tables within the bounds",
     "Losing or bypassing the comparator only shows for values which are equal to one but not to the other, after particular operations.",
     TABF, [("comparator", "ipv4/table.go NewTableCustomCompare_; ipv4/tablex.go eq"), ("uses", "ipv4/node.go insert, aggregate, Map, Diff")],
     "up to three operations on prefixes of two lengths, every subset of up to four of the seven prefixes of a tree")

prop("C22", "An aggregated table has as few entries as possible",
     "No table with fewer entries than the aggregated one gives every address the same match. (Known finding F01: this does not hold where an entry is hidden by more specific ones or where values repeat on both sides of a prefix. Everywhere else it does.)",
     ["inputs"], "all tables whose entries are at any of the prefixes of a tree of three or four lengths, with any of four values each",
     "The smallest size depends on how all values are placed with respect to each other; it is computed for every placement and compared.",
     TABF, [("aggregation", "ipv4/node.go aggregate")],
     "every subset of seven prefixes, up to four of 15 (thorough: six of 15), four values")

prop("C23", "Callbacks may use what called them, stop or panic without disturbing it",
     "A callback of a walk, diff, mapping or build, or a comparator, may read the same sets and tables, walk, map, diff and build from them again, and change the mutable ones they were taken from or made into. What callbacks are called with does not depend on that, and immutable sets and tables stay as they are. A panic of a callback is propagated, has no other effect than the calls made before it, and everything can be used afterwards; an operation whose comparator panics has no effect.",
     ["inputs", "histories"], "all sets and tables within the bounds, the acting callback being any of the first three, for every operation done by it",
     "A walk that keeps state outside of its own calls, or a change that is half done when it calls back, shows only if a callback acts in the middle of it; the tests' callbacks only collect.",
     sorted(set(TABF + SETF)), [("walks", "ipv4/node.go Walk, Diff, Map; ipv4/setnode.go Walk; ipv4/set.go WalkRanges, WalkAddresses"), ("builds", "ipv4/set.go Build; ipv4/table.go Build"), ("compare and swap", "ipv4/set.go update; ipv4/tablex.go update")],
     "any subset of four prefixes of three lengths, any of two operations on one of six; comparators for updates and aggregation")

prop("C24", "A diff of snapshots costs what changed between them, not their size",
     "Diff without a callback for unchanged entries skips what two tables share. If one table was made from the other by inserting, changing or removing some prefixes, through snapshots, mutable copies, Build or Map, then the comparator is called only for entries that contain one of these prefixes or are one, and not again and again. If nothing was changed (a copy, an operation that had no effect, a mapping to equal values, an abandoned build), it is not called at all.",
     ["inputs", "histories"], "all tables within the bounds, every operation on every prefix, all ways to copy a table",
     "That a diff visits too much does not change what it reports: tests that compare results cannot see it, and where sharing is lost depends on where an operation changes the structure.",
     TABF, [("diff", "ipv4/node.go diff"), ("sharing", "ipv4/node.go insert, del, Map, copyMutate"), ("snapshots", "ipv4/table.go Table, Table_, Build")],
     "any subset of seven prefixes, five nested ones, or about 30 fixed ones, any operation on any prefix there")

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", {})
TRUST = ("The functions of /repo are executed symbolically from their Go SSA, regenerated on every run; every assertion on every path is decided by an SMT solver for all inputs of the path. "
         "Bounds are per harness in the evidence. Counterexamples are confirmed by running the compiled code; samples of passing paths are re-run natively and their traces compared. "
         "Trusted: x/tools/go/ssa, the solvers, models of math/bits, fmt.Errorf/Sprintf, sync/atomic, strings.Builder. "
         "If the time budget is exceeded, or code is met that the engine cannot execute, the run says NOT exhaustive instead of raising an alarm.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for id in sorted(P):
        p = P[id]
        assert len(p["title"]) <= 80, (id, len(p["title"]))
        o = {"id": id, "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        f.write(json.dumps(o) + "\n")

checks = []
for id in sorted(P):
    if id in NOT_APPLICABLE:
        continue
    checks.append({"property": id, "quick_cmd": f"./check {id} quick", "thorough_cmd": f"./check {id} thorough",
                   "technique": "SMT-based symbolic execution of the Go SSA" + (P[id].get("tech") or ""),
                   "level": "model_checking", "level_note": "Bounded: " + P[id]["note"] + ". " + TRUST})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
     "notes": "No hooks in /repo; see DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
