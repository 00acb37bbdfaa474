"""types.CodeType as Python 3.8 knows it, on the interpreter of the tooling venv.

causalnex.inference builds functions by replacing the local variables of a template function, with the
constructor arguments of Python 3.8.  Newer interpreters number local and free variables in one array, so
the byte code has to be renumbered and a few constructor arguments filled in.
"""
import dis
import types

_FREE = set(dis.hasfree)
_LOCAL = set(dis.haslocal)
_EXT = dis.opmap["EXTENDED_ARG"]


def code_type(*a):
    if len(a) != 16:
        return types.CodeType(*a)
    (argc, posonly, kwonly, nloc, stack, flags, code, consts, names, varnames, filename, name, first, lnotab, free, cells) = a
    if cells:
        raise NotImplementedError("template with cell variables")
    b = bytearray(code)
    derefs, locs = [], []
    i = 0
    cache = getattr(dis, "_inline_cache_entries", None)
    while i < len(b):
        op = b[i]
        if op == _EXT:
            raise NotImplementedError("EXTENDED_ARG")
        if op in _FREE:
            derefs.append(i + 1)
        elif op in _LOCAL:
            locs.append(i + 1)
        i += 2
        if cache is not None:
            n = cache[op] if not isinstance(cache, dict) else cache.get(dis.opname[op], 0)
            i += 2 * n
    old = min((b[p] for p in derefs), default=max((b[p] for p in locs), default=-1) + 1)
    # the template's own locals move behind the new arguments
    for p in locs:
        b[p] += len(varnames)
    for p in derefs:
        b[p] += len(varnames)
    units = len(b) // 2
    # one "no location" entry per up to eight code units, so that tracebacks through the function work
    lines = bytes(0x80 | 15 << 3 | min(8, units - k) - 1 for k in range(0, units, 8))
    extra = tuple("_template_local_%d" % k for k in range(old))
    return types.CodeType(argc, posonly, kwonly, nloc + old, stack, flags, bytes(b), consts, names, tuple(varnames) + extra,
                          filename, name, name, first, lines, b"", free, cells)


class TypesModule:
    CodeType = staticmethod(code_type)

    def __getattr__(self, n):
        return getattr(types, n)
