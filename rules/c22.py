"""Effects on the file system: every call of the type-checked program that can create, change or
remove a file, and from each the functions that can get there over the reference graph (calls,
function values, closures, trait implementations). Only an explicit save may be among the ways in."""
from .lib import *
import re

FLOOR = 6
# what a file system function may be without changing anything
READONLY = re.compile(
    r"^std::fs::(File::open|File::metadata|metadata|symlink_metadata|read|read_to_string|read_dir|read_link|canonicalize|exists|try_exists|File::options"
    r"|Metadata::.*|DirEntry::.*|FileType::.*|OpenOptions::(new|read|open)|Permissions::readonly)$|^<std::fs::(ReadDir|File|DirEntry|Metadata|FileType|OpenOptions).* as std::"
    r"(iter::Iterator>::next|io::Read>::.*|io::Seek>::.*|fmt::Debug>::fmt|clone::Clone>::clone|iter::IntoIterator>::.*)$")
FS = re.compile(r"^(<?&?(mut )?std::fs::|<?&?(mut )?std::os::|<?&?std::process::|tokio::fs|fs_err|tempfile|libc::|nix::|rustix::)|memmap2::Mmap(Mut|Raw)::(flush|flush_async|flush_range|flush_async_range)$|image::.*::save|image::.*save_|image::save_buffer|zip::.*write")
WRITES = re.compile(r"^std::path::Path::(create|remove)")
MEMORY_OK = {"memmap2::Mmap::map", "memmap2::MmapMut::map_anon", "memmap2::MmapOptions::map", "memmap2::MmapOptions::map_anon", "memmap2::MmapOptions::map_copy", "memmap2::MmapOptions::map_copy_read_only"}
SAVES = re.compile(r"(^|::|_)save($|_|::)")


def fnrefs(b):
    """functions a body refers to: (path, resolved path, arguments' operand when called, span)"""
    out = []

    def walk(x, span):
        if isinstance(x, dict):
            if "fn" in x:
                out.append((x["fn"], x.get("res") or x["fn"], bool(x.get("local")), bool(x.get("rlocal")), span))
            for y in x.values():
                walk(y, span)
        elif isinstance(x, list):
            for y in x:
                walk(y, span)

    for bl in b.blocks:
        for s in bl["s"]:
            walk(s, s[-1] if isinstance(s[-1], list) and len(s[-1]) == 3 and isinstance(s[-1][0], str) else b.span)
        walk(bl["t"], bl["t"][6] if bl["t"][0] == "call" else b.span)
    return out


def mutates(name):
    return (FS.search(name) and not READONLY.search(name)) or WRITES.search(name)


def check(ck):
    for cfg in ("default", "noray", "all") if ck.thorough else ("default", "all"):
        ck.guard("configuration " + cfg, one, ck, cfg)


def one(ck, cfg):
    P = ck.prog(cfg)
    users = {}  # function -> functions that refer to it
    direct = {}  # function -> [(what, span)]
    info = {}
    calls = 0
    maps = 0
    for b in P.bodies:
        j = b.j
        if b.kind == "promoted" or not (b.local or b.kind == "const"):
            continue
        ck.funcs.add(b.path)
        info.setdefault(b.path, j)
        if j.get("parent") and b.kind == "closure":
            users.setdefault(b.path, set()).add(owner(b.path))
        for fn, res, loc, rloc, span in fnrefs(b):
            calls += 1
            for n in {fn, res}:
                users.setdefault(n, set()).add(b.path)
            for n in {fn, res}:
                if mutates(n):
                    direct.setdefault(b.path, []).append((n, span))
                    break
            if fn.startswith("memmap2::") and fn.rsplit("::", 1)[-1].startswith("map"):
                maps += 1
                ck.expect("%s: %s maps read-only" % (cfg, b.path), fn in MEMORY_OK, "%s (%s:%d)" % (b.path, span[0], span[1]), "%s maps a file with %s, which allows changing it" % (b.path, fn))
    # aggregates of closures and function items count as references too (walked above as constants)
    for b in P.bodies:
        if b.local and b.kind == "closure":
            users.setdefault(b.path, set()).add(owner(b.path))
    seen = {}
    for f, sites in sorted(direct.items()):
        todo, via = [f], {f: None}
        entries = []
        while todo:
            x = todo.pop()
            if SAVES.search(x.rsplit("::{", 1)[0].rsplit("::", 1)[-1]) and (info.get(x, {}).get("reach") or "::{" in x):
                entries.append((x, True))
                continue
            j = info.get(x, {})
            if j.get("reach") or j.get("impl_trait"):
                entries.append((x, False))
                continue
            for y in sorted(users.get(x, ())):
                if y not in via:
                    via[y] = x
                    todo.append(y)
        for x, fine in entries:
            chain, y = [x], via[x]
            while y is not None:
                chain.append(y)
                y = via[y]
            n, span = sites[0]
            ck.expect("%s: %s reaches %s" % (cfg, x, n), fine, "%s (%s:%d)" % (f, span[0], span[1]), "%s, which is no request to save, reaches %s: %s" % (x, n, " -> ".join(chain + [n])))
    # a save is never requested by the library itself
    for x in sorted(info):
        if not SAVES.search(x.rsplit("::", 1)[-1]) or not direct_or_via(x, direct, users):
            continue
        for y in sorted(users.get(x, ())):
            top = y
            while "::{" in top:
                top = owner(top)
            ck.expect("%s: %s asks for %s" % (cfg, top, x), bool(SAVES.search(top.rsplit("::", 1)[-1])), top, "%s writes a file nobody asked for by calling %s" % (top, x))
    ck.ok("%s: %d references examined, %d mappings" % (cfg, calls, maps))
    ck.expect("%s: file system calls are seen" % cfg, maps >= 1 or cfg != "default", "crate", "no mapping of a file is left in the program")


def owner(p):
    return p.rsplit("::{", 1)[0]


def direct_or_via(x, direct, users):
    """x is a way to a file system change"""
    for f in direct:
        todo, seen = [f], {f}
        while todo:
            y = todo.pop()
            if y == x:
                return True
            for z in users.get(y, ()):
                if z not in seen:
                    seen.add(z)
                    todo.append(z)
    return False
