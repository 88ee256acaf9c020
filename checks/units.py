"""Units (contract harness + instantiation) deciding each property."""
from checks import extract
AVX = ["-mavx2", "-mfma"]

def dm(src, name, K="uint64_t", V="uint64_t", C=None, N=8, mode="Binary", extra=(), tier="quick", **kw):
    d = [f"-DDM_KEY={K}", f"-DDM_VAL={V}", f"-DDM_N={N}", f"-DDM_MODE={mode}"] + ([f"-DDM_CMP={C}"] if C else []) + list(extra)
    return dict(name=name, src=src, defs=d, tier=tier, **kw)

def ops(name, **kw):
    return dm("dm_ops.cpp", name, covers=["dense_map/requires satisfiable"], min_obligations=500, what="19 public dense_map operations, every fill 0..N, every content and argument", **kw)

def search(name, K, C, N, extra=AVX, **kw):
    return dm("dm_search.cpp", name, K=K, C=f"std::{C}<{K}>", N=N, extra=extra, covers=["dense_map search/requires satisfiable"], min_obligations=200, what="searches in three modes, every fill 0..N, every content and probe", **kw)

def move(part, name, **kw):
    return dm("dm_move.cpp", name, extra=[f"-DDM_PART={part}"] + list(kw.pop("extra", [])), covers=["dense_map move/requires satisfiable" if part == 0 else "dense_map copy/requires satisfiable"], min_obligations=500, what="every pair of fills, every position or count" if part == 0 else "copy/move/assign/self-assign/aliased arguments, every fill", **kw)

def life(name, **kw):
    return dm("dm_life.cpp", name, covers=["dense_map lifetime/requires satisfiable"], min_obligations=300, what="14 operations x 5 vacated-slot histories, every fill, resource-owning keys and values", **kw)

def bt(group, name, hmin=0, hmax=1, K=None, V=None, C=None, NL=8, NI=8, mode="Linear", mask=0xffff, fullh=1, midh=2, extra=(), tier="quick", src="bt_ops.cpp", **kw):
    d = [f"-DBT_GROUP={group}", f"-DBT_HMIN={hmin}", f"-DBT_HMAX={hmax}", f"-DBT_NL={NL}", f"-DBT_NI={NI}", f"-DBT_MODE={mode}", f"-DBT_OPS={mask}", f"-DBT_FULLH={fullh}", f"-DBT_MIDH={midh}"]
    for m, x in (("KEY", K), ("VAL", V), ("CMP", C)):
        if x: d.append(f"-DBT_{m}={x}")
    cov = [["btree lookup: key present", "btree lookup: key absent"], ["btree insertion: key present", "btree insertion: key absent"], ["btree::erase: key present"]][group]
    what = ["lookups", "insertions", "erasures"][group] + f", arbitrary valid tree of height {hmin}..{hmax}, fills: " + ("every" if hmax <= fullh else "minimum/middle/capacity-1/capacity" if hmax <= midh else "minimum/capacity")
    return dict(name=name, src=src, defs=d + list(extra), tier=tier, covers=cov, min_obligations=500, what=what, bounded=f"tree height <= {hmax}, node capacities {NL}/{NI}", **kw)

def bts(group, tag, main):
    """Units of one operation family; `main` is the mask of the operations also run on the taller trees."""
    return [
        bt(group, tag + "-h01-8-8", 0, 1, mask=[0xffff, 0x7f, 0xffff][group]),
        bt(group, tag + "-h1-9-10-greater-binary", 0, 1, C="std::greater<int64_t>", NL=9, NI=10, mode="Binary", mask=main),
        bt(group, tag + "-h1-10-9-ndebug", 0, 1, NL=10, NI=9, mask=main, extra=["-DNDEBUG"]),
        bt(group, tag + "-h2-8-8", 2, 2, mask=main),
        bt(group, tag + "-h3-8-8", 3, 3, mask=main & -main),
        bt(group, tag + "-h2-8-8-all", 2, 2, mask=[0xffff, 0x7f, 0xffff][group], tier="thorough"),
        bt(group, tag + "-h2-9-8-full", 2, 2, NL=9, mask=main & -main, fullh=2, tier="thorough"),
        bt(group, tag + "-h3-8-9", 3, 3, NI=9, mask=[0xffff, 0x7f, 0xffff][group], tier="thorough"),
        bt(group, tag + "-h4-8-8", 4, 4, mask=main & -main, tier="thorough"),
        bt(group, tag + "-h01-16-12-simd", 0, 1, NL=16, NI=12, mode="SIMD", mask=[0xffff, 0x7f, 0xffff][group], extra=AVX, tier="thorough"),
    ]

PROPS = {}
PROPS["C01"] = dict(level="proof", labels=["dense_map::insert/", "dense_map::insert_hint/", "dense_map::try_emplace/", "dense_map::insert_or_assign/", r"dense_map::erase\(key\)", r"dense_map::erase\(iterator\)", r"dense_map::operator\[\]", "dense_map::find/", "dense_map::clear/", "dense_map::rbegin/"], units=[
    ops("ops-u64-N8-binary"),
    ops("ops-u32-N16-linear-greater", K="uint32_t", C="std::greater<uint32_t>", N=16, mode="Linear"),
    ops("ops-i64-N9-simd", K="int64_t", C="std::less<int64_t>", N=9, mode="SIMD", extra=AVX),
    ops("ops-i16-N2-binary", K="int16_t", V="uint8_t", N=2),
    ops("ops-user-key-N8-linear", K="spec::QKey", mode="Linear"),
    ops("ops-u64-N8-ndebug", extra=["-DNDEBUG"]),
    ops("ops-u64-N64-binary", N=64, tier="thorough"),
    ops("ops-u8-N64-simd", K="uint8_t", V="uint16_t", N=64, mode="SIMD", extra=AVX, tier="thorough"),
    ops("ops-double-N16-simd-greater", K="double", C="std::greater<double>", N=16, mode="SIMD", extra=AVX, tier="thorough"),
    ops("ops-u64-N33-linear-ndebug", N=33, mode="Linear", extra=["-DNDEBUG"], tier="thorough"),
])
PROPS["C02"] = dict(level="proof", labels=["dense_map::lower_bound/", "dense_map::upper_bound/", "dense_map::find/"], units=[
    search("search-u8-less-N50", "uint8_t", "less", 50),
    search("search-i8-greater-N36", "int8_t", "greater", 36),
    search("search-i16-less-N27", "int16_t", "less", 27),
    search("search-u16-greater-N27", "uint16_t", "greater", 27),
    search("search-u32-less-N18", "uint32_t", "less", 18),
    search("search-i32-greater-N14", "int32_t", "greater", 14),
    search("search-i64-less-N10", "int64_t", "less", 10),
    search("search-u64-greater-N10", "uint64_t", "greater", 10),
    search("search-u64-less-N8", "uint64_t", "less", 8),
    search("search-float-less-N14", "float", "less", 14),
    search("search-float-greater-N9", "float", "greater", 9),
    search("search-double-less-N7", "double", "less", 7),
    search("search-double-greater-N7", "double", "greater", 7),
    search("search-u8-greater-N35", "uint8_t", "greater", 35),
    search("search-i8-less-N35", "int8_t", "less", 35),
    search("search-char-less-N34", "char", "less", 34),
    search("search-u16-less-N19", "uint16_t", "less", 19),
    search("search-i16-greater-N19", "int16_t", "greater", 19),
    search("search-u32-greater-N11", "uint32_t", "greater", 11),
    search("search-i32-less-N11", "int32_t", "less", 11),
    search("search-i64-greater-N7", "int64_t", "greater", 7),
    search("search-u64-less-N7", "uint64_t", "less", 7),
    search("search-i64-less-N6", "int64_t", "less", 6),
    search("search-i32-less-N9-noavx", "int32_t", "less", 9, extra=[]),
    search("search-u8-greater-N50", "uint8_t", "greater", 50, tier="thorough"),
    search("search-i8-less-N66", "int8_t", "less", 66, tier="thorough"),
    search("search-char-less-N50", "char", "less", 50, tier="thorough"),
    search("search-u16-less-N41", "uint16_t", "less", 41, tier="thorough"),
    search("search-i16-greater-N41", "int16_t", "greater", 41, tier="thorough"),
    search("search-u32-greater-N33", "uint32_t", "greater", 33, tier="thorough"),
    search("search-i32-less-N64", "int32_t", "less", 64, tier="thorough"),
    search("search-i64-greater-N33", "int64_t", "greater", 33, tier="thorough"),
    search("search-float-less-N25", "float", "less", 25, tier="thorough"),
    search("search-float-greater-N25", "float", "greater", 25, tier="thorough"),
    search("search-double-less-N13", "double", "less", 13, tier="thorough"),
    search("search-double-greater-N13", "double", "greater", 13, tier="thorough"),
], assumptions=["floating-point keys are not NaN (NaN is not ordered by std::less/std::greater)"])
PROPS["C03"] = dict(level="proof", labels=["dense_map::split_at/", "dense_map::transfer_prefix_from/", "dense_map::transfer_suffix_from/"], units=[
    move(0, "transfer-u64-N8-5"),
    move(0, "transfer-u32-greater-N6-6", K="uint32_t", C="std::greater<uint32_t>", N=6, extra=["-DDM_N2=6"], mode="Linear"),
    move(0, "transfer-u64-N7-4-ndebug", N=7, extra=["-DDM_N2=4", "-DNDEBUG"]),
    move(0, "transfer-i64-N16-9", K="int64_t", N=16, extra=["-DDM_N2=9"], tier="thorough"),
    move(0, "transfer-u64-N24-24", N=24, extra=["-DDM_N2=24"], tier="thorough"),
])
PROPS["C04"] = dict(level="proof", labels=[r"dense_map\(copy\)", r"dense_map\(move\)", r"dense_map::operator=\(copy\)", r"dense_map::operator=\(move\)", "inside the same map"], units=[
    move(1, "copy-u64-N8"),
    move(1, "copy-i32-greater-N6", K="int32_t", C="std::greater<int32_t>", N=6, mode="Linear"),
    move(1, "copy-u64-N6-ndebug", N=6, extra=["-DNDEBUG"]),
    move(1, "copy-u64-N16", N=16, tier="thorough"),
])
PROPS["C05"] = dict(level="proof", labels=["exactly one resource", "every resource released", "unchanged when"], units=[
    life("life-N5", N=5), life("life-N4-fault", N=4, extra=["-DDM_FAULT"]), life("life-N3-ndebug", N=3, extra=["-DNDEBUG"]),
    life("life-N8", N=8, tier="thorough"), life("life-N7-fault", N=7, extra=["-DDM_FAULT"], tier="thorough"),
], assumptions=["moving and default-constructing an element does not throw"])
BT_NOTE = "The recursion over tree height is explored for trees up to the stated height (arbitrary content, lazily supplied); node capacities as listed."
PK = dict(K="spec::PKey", C="spec::PLess")
def btx(name, src, extra, covers, what, hmax=1, tier="quick", min_obligations=200, NL=8, NI=8, **kw):
    return dict(name=name, src=src, defs=[f"-DBT_NL={NL}", f"-DBT_NI={NI}"] + extra.split(), tier=tier, covers=covers, min_obligations=min_obligations, what=what, bounded=f"tree height <= {hmax}, node capacities {NL}/{NI}", **kw)
def it(name, group, extra, cov, hmax=1, **kw):
    w = ["every iterator operation from every position", "whole traversals in both directions", "erase(first, last)"][group]
    return btx(name, "bt_iter.cpp", f"-DBT_GROUP={group} -DBT_HMAX={hmax} " + extra, cov, w, hmax, **kw)
RANGE = ["btree::erase(range)", "btree::erase(range): several elements"]
def fault(name, extra, hmax=1, **kw):
    return btx(name, "bt_fault.cpp", f"-DBT_HMAX={hmax} " + extra, ["btree failed insertion"], "every insertion form, failure at every allocation or value copy", hmax, **kw)
def tree_life(name, group, extra="", hmax=2, **kw):
    cov = [["btree(move)", "btree::operator=(move)", "btree::swap", "btree::clear"], ["btree copy"], ["btree(range)"], ["btree failed copy"]][group]
    w = ["move, swap, self-assignment, clear of arbitrary trees", "copies and element-wise moves", "construction from lists and ranges", "copies that run out of memory"][group]
    return btx(name, "bt_life.cpp", f"-DBT_GROUP={group} -DBT_HMAX={hmax} " + extra, cov, w, hmax, **kw)

PROPS["C06"] = dict(level="other", labels=["btree::find/", "btree::find const/", "btree::lower_bound/", "btree::upper_bound/", "btree::equal_range/", "btree::count/", "btree::at/"], units=bts(0, "lookup", 0b1101), note=BT_NOTE)
def aliased(name, extra, **kw):
    return btx(name, "bt_ops.cpp", "-DBT_GROUP=3 " + extra, ["btree aliased insertion"], "insertions whose arguments refer to elements of the tree", **kw)
ALIAS = [
    aliased("aliased-value-h01", "-DBT_HMAX=1 -DBT_FULLH=0 -DBT_MIDH=0"),
    aliased("aliased-key-h01", "-DBT_HMAX=1 -DBT_FULLH=0 -DBT_MIDH=0 -DBT_VAL=int64_t -DBT_OPS=24"),
]
PROPS["C07"] = dict(level="other", labels=["btree insertion: ", "btree/content: inserted element", "btree/content: assigned element", "btree aliased insertion: ", "btree insertion: try_emplace leaves"], units=bts(1, "insert", 0b100001) + ALIAS + [
    bt(1, "insert-hints-h01", 0, 1, mask=0x180, fullh=0, midh=0),
    btx("rvalue-arguments-h01", "bt_ops.cpp", "-DBT_GROUP=4 -DBT_HMAX=1 -DBT_FULLH=0 -DBT_MIDH=0 -DBT_VAL=spec::MV", ["btree rvalue insertion"], "insertions that may consume their arguments"),
], note=BT_NOTE)
PROPS["C08"] = dict(level="other", labels=[r"btree::erase/size", r"btree::erase\(key\)/", r"btree::erase\(iterator\)/", r"btree::erase\(range\)/"], units=bts(2, "erase", 0b11) + [
    bt(2, "erase-h1-16-16", 1, 1, NL=16, NI=16, mask=3, fullh=0),
    bt(2, "erase-h2-8-16", 2, 2, NI=16, mask=2, fullh=0, extra=["-DBT_LEAFLO"]),
    it("erase-range-h01", 2, "-DBT_FULLH=0 -DBT_LEN=3", RANGE),
    it("erase-range-h2", 2, "-DBT_HMIN=2 -DBT_MIDH=1 -DBT_LEN=2", RANGE, hmax=2),
    it("erase-range-h01-full", 2, "-DBT_LEN=2", RANGE, tier="thorough"),
    it("erase-range-h01-long", 2, "-DBT_FULLH=0 -DBT_LEN=8", RANGE, tier="thorough"),
    it("erase-range-h2-mid", 2, "-DBT_HMIN=2 -DBT_LEN=1", RANGE[:1], hmax=2, tier="thorough"),
], note=BT_NOTE)
PROPS["C09"] = dict(level="other", labels=["btree/structure: "], units=[
    bt(1, "insert-h01-8-8", 0, 1, mask=0x7f),
    bt(1, "insert-h2-9-8", 2, 2, NL=9, mask=1),
    bt(1, "insert-h3-8-8", 3, 3, mask=1),
    bt(2, "erase-h01-8-8", 0, 1),
    bt(2, "erase-h2-8-8", 2, 2, mask=2),
    bt(2, "erase-h3-8-8", 3, 3, mask=2),
    bt(1, "insert-h1-16-16", 1, 1, NL=16, NI=16, mask=1, fullh=0),
    bt(1, "insert-h2-8-16", 2, 2, NI=16, mask=1, fullh=0, extra=["-DBT_LEAFLO"]),
    bt(2, "erase-h1-16-16", 1, 1, NL=16, NI=16, mask=2, fullh=0),
    bt(2, "erase-h2-8-16", 2, 2, NI=16, mask=2, fullh=0, extra=["-DBT_LEAFLO"]),
    it("erase-range-h01", 2, "-DBT_FULLH=0 -DBT_LEN=3", RANGE),
    tree_life("move-swap-clear", 0),
    tree_life("construct-sorted", 2, "-DBT_M=20 -DBT_SORTED=true"),
    tree_life("construct-reverse", 2, "-DBT_M=20 -DBT_SORTED=false"),
    bt(1, "insert-h4-8-8", 4, 4, mask=1, tier="thorough"),
    bt(2, "erase-h4-8-8", 4, 4, mask=2, tier="thorough"),
    bt(1, "insert-h2-8-9-full", 2, 2, NI=9, mask=1, fullh=2, tier="thorough"),
    bt(2, "erase-h2-8-9-full", 2, 2, NI=9, mask=2, fullh=2, tier="thorough"),
    bt(1, "insert-h01-24-16", 0, 1, NL=24, NI=16, mask=1, tier="thorough"),
    bt(2, "erase-h01-24-16", 0, 1, NL=24, NI=16, mask=2, tier="thorough"),
], note=BT_NOTE)
STEPS = ["btree iterator: ends", "btree iterator: step", "btree iterator: write"]
PROPS["C10"] = dict(level="other", labels=["btree/structure: leaf chain", "btree iterator/begin", "btree iterator/end", "btree iterator/increment", "btree iterator/decrement", "btree reverse iterator/increment", "btree reverse iterator/decrement", "btree iterator/traversal", "btree iterator/write", "btree iterator/equality"], units=[
    it("steps-h01", 0, "-DBT_OPS=0xbfff -DBT_FULLH=0", STEPS),
    it("steps-h1-9-10-ndebug", 0, "-DBT_OPS=0x154f -DBT_FULLH=0 -DNDEBUG -DBT_CMP=std::greater<int64_t>", ["btree iterator: step"], NL=9, NI=10),
    it("steps-h2", 0, "-DBT_HMIN=2 -DBT_MIDH=1 -DBT_OPS=0x1540", STEPS[1:2], hmax=2),
    it("ends-h3", 0, "-DBT_HMIN=3 -DBT_OPS=0x3f", STEPS[:1], hmax=3),
    it("equality-h01", 0, "-DBT_OPS=0x4000 -DBT_FULLH=0 -DBT_MIDH=0", STEPS[1:2]),
    it("traversal-h01", 1, "-DBT_FULLH=0 -DBT_MIDH=0", ["btree iterator: traversal"], min_obligations=100),
    bt(1, "links-after-insert-h01", 0, 1, mask=1),
    bt(1, "links-after-insert-h2", 2, 2, mask=1),
    bt(2, "links-after-erase-h01", 0, 1, mask=2),
    bt(2, "links-after-erase-h2", 2, 2, mask=2),
    it("steps-h01-full", 0, "-DBT_OPS=0xbfff", STEPS, NL=9, tier="thorough"),
    it("steps-h23", 0, "-DBT_HMIN=2 -DBT_MIDH=1 -DBT_OPS=0xbfff", STEPS, hmax=3, tier="thorough"),
    it("traversal-h01-mid", 1, "-DBT_FULLH=0 -DBT_MIDH=1", ["btree iterator: traversal"], tier="thorough"),
    it("traversal-h2", 1, "-DBT_HMIN=2 -DBT_FULLH=0 -DBT_MIDH=0", ["btree iterator: traversal"], hmax=2, tier="thorough"),
], note=BT_NOTE)
PROPS["C11"] = dict(level="other", labels=[r"btree\(move\)/", r"btree::operator=\(move\)/", "btree::swap/", "btree::clear/", "btree copy/", r"btree\(range\)/", "btree/self-assignment"], units=[
    tree_life("transfer-propagate", 0),
    tree_life("transfer-keep", 0, "-DTA_POCMA=false"),
    tree_life("copy-propagate", 1, hmax=1),
    tree_life("copy-keep", 1, "-DTA_POCMA=false", hmax=1),
    tree_life("construct-any-order", 2, "-DBT_M=4"),
    tree_life("construct-sorted", 2, "-DBT_M=20 -DBT_SORTED=true"),
    tree_life("construct-reverse", 2, "-DBT_M=20 -DBT_SORTED=false"),
    tree_life("copy-h2", 1, "-DTA_POCMA=false", tier="thorough"),
    tree_life("construct-any-order-6", 2, "-DBT_M=6", tier="thorough"),
    tree_life("construct-sorted-60", 2, "-DBT_M=60 -DBT_SORTED=true", tier="thorough"),
    tree_life("copy-9-10-ndebug", 1, "-DNDEBUG", hmax=1, NL=9, NI=10, tier="thorough"),
], note="Moves, swaps and clearing never look at the elements: they are discharged for every content; copies, element-wise moves and constructions run element by element and are explored for trees up to the stated height and ranges up to the stated length.")
PROPS["C12"] = dict(level="other", labels=["btree/nodes: "], units=[
    bt(1, "insert-h01", 0, 1, mask=0x21, extra=["-DBT_TA"]),
    bt(1, "insert-h2", 2, 2, mask=1, extra=["-DBT_TA"]),
    bt(2, "erase-h01", 0, 1, mask=2, extra=["-DBT_TA"]),
    bt(2, "erase-h2", 2, 2, mask=2, extra=["-DBT_TA"]),
    bt(2, "erase-h3", 3, 3, mask=2, extra=["-DBT_TA"]),
    it("erase-range-h01", 2, "-DBT_TA -DBT_FULLH=0 -DBT_LEN=3", RANGE),
    tree_life("transfer-propagate", 0),
    tree_life("transfer-keep", 0, "-DTA_POCMA=false"),
    tree_life("copy-propagate", 1, hmax=1),
    tree_life("copy-keep", 1, "-DTA_POCMA=false", hmax=1),
    tree_life("failed-copy", 3, hmax=1),
    tree_life("construct", 2, "-DBT_M=20 -DBT_SORTED=true"),
    bt(1, "insert-h3", 3, 3, mask=1, extra=["-DBT_TA"], tier="thorough"),
    bt(2, "erase-h4", 4, 4, mask=2, extra=["-DBT_TA"], tier="thorough"),
    tree_life("failed-copy-h2", 3, tier="thorough"),
    tree_life("copy-h2", 1, tier="thorough"),
], note=BT_NOTE)
PROPS["C13"] = dict(level="other", labels=["btree failed insertion: "], units=[
    fault("fail-alloc-h01", ""),
    fault("fail-alloc-h2", "-DBT_HMIN=2 -DBT_MIDH=1 -DBT_OPS=0x21", hmax=2),
    fault("fail-alloc-h3", "-DBT_HMIN=3 -DBT_OPS=0x1", hmax=3),
    fault("fail-value-h01", "-DBT_THROW -DBT_VAL=spec::TV"),
    fault("fail-value-h2", "-DBT_HMIN=2 -DBT_MIDH=1 -DBT_THROW -DBT_VAL=spec::TV -DBT_OPS=0x21", hmax=2),
    fault("fail-alloc-h2-all", "-DBT_HMIN=2 -DBT_MIDH=1", hmax=2, tier="thorough"),
    fault("fail-alloc-h2-mid", "-DBT_HMIN=2 -DBT_OPS=0x1", hmax=2, tier="thorough"),
    fault("fail-alloc-h4", "-DBT_HMIN=4 -DBT_OPS=0x1", hmax=4, tier="thorough"),
], note=BT_NOTE)
PROPS["C14"] = dict(level="other", labels=["dense_map::find/", "dense_map::insert/", r"dense_map::erase\(key\)", "btree::find/", "btree::upper_bound/", "btree insertion: ", r"btree::erase\(key\)/", r"btree::erase\(range\)/"], units=[
    ops("map-ops-N8", K="spec::PKey", C="spec::PLess"),
    ops("map-ops-N6-linear-ndebug", K="spec::PKey", C="spec::PLess", N=6, mode="Linear", extra=["-DNDEBUG"]),
    bt(0, "lookup-h01", 0, 1, **PK),
    bt(1, "insert-h01", 0, 1, mask=0x7f, **PK),
    bt(2, "erase-h01", 0, 1, **PK),
    bt(1, "insert-h2", 2, 2, midh=1, mask=1, **PK),
    bt(2, "erase-h2", 2, 2, midh=1, mask=1, **PK),
    it("erase-range-h01", 2, "-DBT_FULLH=0 -DBT_LEN=2 -DBT_KEY=spec::PKey -DBT_CMP=spec::PLess", RANGE),
    bt(0, "lookup-h2", 2, 2, tier="thorough", **PK),
    bt(1, "insert-h2-all", 2, 2, mask=0x7f, tier="thorough", **PK),
    bt(2, "erase-h2-all", 2, 2, tier="thorough", **PK),
    bt(2, "erase-h3", 3, 3, mask=1, tier="thorough", **PK),
], note="Fixed-capacity map: every path discharged for all inputs. " + BT_NOTE)

def pool(name, extra, covers, what, tier="quick", src="pool.cpp", min_obligations=100, **kw):
    return dict(name=name, src=src, defs=extra.split(), tier=tier, covers=covers, what=what, min_obligations=min_obligations, **kw)
PSTATE = "one operation and recovery from an arbitrary pool state: any sizes, frontiers, block partition, one or two regions, released blocks <= "
PCOV = ["pool: allocation refused", "pool: growth", "pool: new memory", "pool: release"]
PGROW = ["pool: construction refused", "pool: destroyed", "pool: fallback to regular pages", "pool: growth falls back to regular pages", "pool: growth refused"]
POOL_NOTE = "The pool state is arbitrary except that at most two regions exist and at most the stated number of blocks are on the free list; huge-page regions are explored up to 4 huge pages (pre-faulting loop)."
PROPS["C16"] = dict(level="other", labels=["pool/allocate: in bounds", "pool/allocate: aligned", "pool/allocate: disjoint", "pool/allocate: refused only", "pool: the content of blocks in use"], units=[
    pool("pool-free1", "-DHP_FREE=1", PCOV + ["pool: reuse"], PSTATE + "1"),
    pool("pool-free2", "-DHP_FREE=2 -DHP_ALIGN=8,8192", PCOV + ["pool: reuse"], PSTATE + "2"),
    pool("pool-huge-free0", "-DHP_FREE=0 -DHP_HUGE=1", PCOV, PSTATE + "0, huge pages"),
    pool("pool-huge-free1", "-DHP_FREE=1 -DHP_HUGE=1", PCOV + ["pool: reuse"], PSTATE + "1, huge pages", tier="thorough"),
    pool("pool-free2-all", "-DHP_FREE=2", PCOV + ["pool: reuse"], PSTATE + "2", tier="thorough"),
    pool("pool-free1-align", "-DHP_FREE=1 -DHP_ALIGN=8,16,32,64,128,4096,8192,2097152", PCOV + ["pool: reuse"], PSTATE + "1", tier="thorough"),
], note=POOL_NOTE)
PROPS["C17"] = dict(level="other", labels=["pool/statistics: ", "pool/allocate: a released block is reused"], units=[
    pool("stats-free1", "-DHP_FREE=1 -DALLOCATOR_STATS", PCOV + ["pool: reuse"], PSTATE + "1"),
    pool("stats-free0-huge", "-DHP_FREE=0 -DHP_HUGE=1 -DALLOCATOR_STATS", PCOV, PSTATE + "0, huge pages"),
    pool("reuse-free2", "-DHP_FREE=2 -DHP_ALIGN=8", PCOV + ["pool: reuse"], PSTATE + "2"),
    pool("stats-free2", "-DHP_FREE=2 -DALLOCATOR_STATS", PCOV + ["pool: reuse"], PSTATE + "2", tier="thorough"),
], note=POOL_NOTE)
PROPS["C21"] = dict(level="other", labels=["pool/system: every region", "pool/system: a failed construction", "pool/system: a failed growth", "pool/system: regular pages only as fallback"], units=[
    pool("system-calls", "-DHP_GROUP=1", PGROW, "construction, up to 3 allocations and destruction, every pattern of failing system calls and bookkeeping allocations"),
    pool("system-calls-stats", "-DHP_GROUP=1 -DALLOCATOR_STATS", PGROW, "the same with statistics enabled", tier="thorough"),
], note=POOL_NOTE)
PROPS["C15"] = dict(level="proof", labels=["node size/within", "node size/multiple", "node size/documented", "node size/default tree"], units=[
    dict(name="sizes-all", src="sizes.cpp", defs=["-DSZ_EXTRACTED"], gen=extract.node_sizes, optional=True, covers=["leaf size", "internal size"], min_obligations=8, what="the bodies of both heuristics, mechanically extracted with the type sizes as arguments: every key and value size up to 2^40"),
    dict(name="sizes-instantiated", src="sizes.cpp", covers=["sizes enumerated"], min_obligations=8000, what="the templates themselves, instantiated for 11000 size combinations, and default trees of assorted types"),
], assumptions=["sizes-all: the extraction replaces sizeof(Key)/sizeof(Value) by arguments and drops constexpr and local static_asserts; when the source no longer has the form it handles the unit is listed under not_applied and only the instantiations decide"])
MCOV = ["multi pool: destroyed", "multi pool: release", "multi pool: reuse"]
MSTATE = "two blocks of arbitrary size in arbitrary listed classes, release or not, one request, recovery, destruction"
MFAULT = [
    pool("multi-faults", "-DMS_GROUP=1 -DMS_FAULT -DMS_CLASSES=64,512,4096 -DMS_ALIGN=8,64", MCOV + ["multi pool: refused"], MSTATE + "; every failing system call and bookkeeping allocation", src="multi.cpp"),
    pool("multi-faults-huge", "-DMS_GROUP=1 -DMS_FAULT -DMS_HUGE=true -DMS_CLASSES=64,4096 -DMS_ALIGN=64", MCOV + ["multi pool: refused"], MSTATE + "; huge pages unavailable", src="multi.cpp"),
]
PROPS["C18"] = dict(level="other", labels=["size class/at least", "size class/idempotent", "size class/monotone", "size class/documented rounding", "multi pool/allocate: classes never share", "multi pool/release: the block returns"], units=[
    pool("size-class", "-DMS_GROUP=0", ["size class"], "the size-class function, every pair of 64-bit sizes", src="multi.cpp", min_obligations=20),
    pool("multi-pool", "-DMS_GROUP=1 -DMS_ALIGN=8,64", MCOV, MSTATE + " (7 classes)", src="multi.cpp"),
    pool("multi-pool-all", "-DMS_GROUP=1 -DMS_CLASSES=64,128,192,256,320,384,448,512,768,1024,1280,1536,1792,2048,4096,8192 -DMS_ALIGN=8", MCOV, MSTATE + " (16 classes)", src="multi.cpp", tier="thorough"),
    pool("multi-pool-align", "-DMS_GROUP=1", MCOV, MSTATE + " (7 classes, alignments 8, 64, 8192)", src="multi.cpp", tier="thorough"),
], note="The size-class function is discharged for every 64-bit size; the pool for states with two live blocks in the listed classes. " + POOL_NOTE, assumptions=["libstdc++'s out-of-line hash table growth policy is supplied by its contract (harness/prime.h)"])
PROPS["C21"]["units"] += MFAULT
def al(name, kind, group, extra="", **kw):
    cov = ["allocator: refused", "allocator: recycled"] if group == 0 else ["allocator: copy", "allocator: move", "allocator: conversion"]
    return pool(name, f"-DAL_KIND={kind} -DAL_GROUP={group} " + extra, cov, ("allocate/deallocate, every 64-bit count" if group == 0 else "copies, moves, conversions, swaps, equality, shared storage, lifetime; any pool sizes"), src="alloc.cpp", min_obligations=10, **kw)
PROPS["C19"] = dict(level="other", labels=["allocator/allocate: refused only", "allocator/allocate: in bounds", "allocator/allocate: overflowing counts", "allocator/equality: equal allocators share", "allocator/move: moved-from", "allocator/conversion: "], units=
    [al(f"{n}-counts", k, 0) for k, n in enumerate(("hugepage", "multi", "policy"))] +
    [al(f"{n}-sharing", k, 1) for k, n in enumerate(("hugepage", "multi", "policy"))] +
    [al(f"{n}-sharing-aligned", k, 1, "-DAL_OBJ=72 -DAL_OALIGN=128") for k, n in enumerate(("hugepage", "multi", "policy"))] +
    [al(f"{n}-counts-8", k, 0, "-DAL_OBJ=8", tier="thorough") for k, n in enumerate(("hugepage", "multi", "policy"))] +
    [al(f"{n}-counts-600", k, 0, "-DAL_OBJ=600 -DAL_OALIGN=64", tier="thorough") for k, n in enumerate(("hugepage", "multi", "policy"))] +
    [al(f"{n}-sharing-8", k, 1, "-DAL_OBJ=8", tier="thorough") for k, n in enumerate(("hugepage", "multi", "policy"))],
    note="Every element count and every pool size; element types and sequences of copies, moves and conversions as listed. " + POOL_NOTE,
    assumptions=["libstdc++'s out-of-line hash table growth policy is supplied by its contract (harness/prime.h)"])
POLT = ["-DBT_POLICY"]
PROPS["C20"] = dict(level="other", labels=["policy/routing: objects come from", "policy/routing: blocks return", "policy/equality", "policy/factory", "btree/content: "], units=[
    pool("routing", "", ["policy: routed", "policy: factory"], "seven kinds of object types, allocators obtained by construction, copy, move, assignment, conversion and rebinding", src="policy.cpp"),
    bt(1, "insert-h01", 0, 1, mask=0x7f, NI=9, extra=POLT),
    bt(1, "insert-h2", 2, 2, NI=9, mask=1, extra=POLT),
    bt(2, "erase-h01", 0, 1, NI=9, extra=POLT),
    bt(2, "erase-h2", 2, 2, NI=9, mask=2, extra=POLT),
    tree_life("move-swap-clear", 0, "-DBT_POLICY", NI=9),
    tree_life("copy", 1, "-DBT_POLICY", hmax=1, NI=9),
    bt(1, "insert-h3", 3, 3, NI=9, mask=1, extra=POLT, tier="thorough"),
    bt(2, "erase-h3", 3, 3, NI=9, mask=2, extra=POLT, tier="thorough"),
    tree_life("copy-h2", 1, "-DBT_POLICY", NI=9, tier="thorough"),
], note="HugePagePool is replaced by its contract (fresh aligned memory; a block returns to the pool it came from with its size), which C16 and C17 establish for the real class. " + BT_NOTE)

# Bounded stand-ins, run only when the contracts above no longer compile against the source (see check.py).
def pub(ops, extra="", **kw):
    return [dict(name="public-histories", src="bt_pub.cpp", defs=[f"-DPUB_OPS={ops:#x}"] + extra.split(), covers=["btree public"], min_obligations=200, what="one operation with arbitrary arguments after a fixed set of histories, public interface only", bounded="histories of at most 90 insertions and 60 erasures", **kw)]
for p, o, x in (("C06", 0x1, ""), ("C07", 0x3e, ""), ("C08", 0x1c0, ""), ("C09", 0xffff, ""), ("C10", 0x1ff, ""), ("C11", 0xbe00, ""), ("C12", 0xffff, ""), ("C13", 0x4000, ""), ("C14", 0x1ff, "-DBT_KEY=spec::PKey -DBT_CMP=spec::PLess"), ("C20", 0xffff, "-DBT_POLICY -DBT_NI=9")):
    PROPS[p]["fallback"] = pub(o, x)
