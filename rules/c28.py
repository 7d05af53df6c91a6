"""Sharing between threads and unsafe code: the compiler's own auto-trait judgement for every data
type the crate exports (type parameters taken as plain data), and every unsafe block, function,
impl, raw pointer dereference and unsafe call the type-checked program contains; the only one
accepted is the read-only mapping of a file. In every feature configuration."""
from .lib import *

FLOOR = 90
# belong to one read or one guess in progress, never part of a tree
OWN = {"reader::WzSliceReader": ("sync",), "util::version::pkg2::VersionGen": ("send", "sync")}
MAP = {"memmap2::Mmap::map", "memmap2::MmapOptions::map", "memmap2::MmapOptions::map_copy", "memmap2::MmapOptions::map_copy_read_only"}


def check(ck):
    seen = set()
    for cfg in ("default", "noray", "all") if ck.thorough else ("default", "all"):
        ck.guard("configuration " + cfg, one, ck, cfg, seen)
    for n in ("node::WzNode", "reader::WzBaseReader", "object::WzObjectType"):
        if n not in {x for _, x in seen}:
            ck.unsure("anchor " + n, "type not found")


def one(ck, cfg, seen):
    P = ck.prog(cfg)
    for n, a in sorted(P.adts.items()):
        ck.funcs.add(n)
        if not a.get("reach"):
            continue
        seen.add((cfg, n))
        for tr in ("send", "sync"):
            if tr in OWN.get(n, ()):
                continue
            ck.expect("%s: %s is %s" % (cfg, n, tr.capitalize()), a[tr] is True, "%s (%s)" % (n, a["span"][0]), "%s can not be shared between threads: it is not %s" % (n, tr.capitalize()))
    for i in P.impls:
        derived = i["span"][2] and i["trait"] == "std::clone::TrivialClone"
        if i["unsafe"] and not derived:
            ck.bad("%s: unsafe impl %s for %s" % (cfg, i["trait"], P.ts(i["self"])), "%s:%d" % tuple(i["span"][:2]), "unsafe impl of %s for %s" % (i["trait"], P.ts(i["self"])))
    for kind, what, owner, span in P.raw["unsafe"]:
        k = "%s: unsafe %s %s in %s" % (cfg, kind, what, owner)
        if kind == "block":
            continue
        ck.expect(k, kind == "call" and what in MAP, "%s (%s:%d)" % (owner, span[0], span[1]), "%s contains an unsafe operation besides the mapping of a file: %s %s" % (owner, kind, what))
    ck.ok("%s: %d unsafe operations examined" % (cfg, len(P.raw["unsafe"])))
