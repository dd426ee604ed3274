import os, sys, threading
sys.setrecursionlimit(20000)
threading.stack_size(256 * 1024 * 1024)


def registry():
    from . import props_lex, props_nixd, props_parse
    out = {}
    mods = [props_lex, props_parse, props_nixd]
    for m in mods:
        for c in m.CHECKS:
            out[c.pid] = c
    return out


def main():
    from .work import BuildError
    r = registry()
    if sys.argv[1:] == ["--list"]:
        print(" ".join(sorted(r)))
        return 0
    try:
        return r[sys.argv[1]]().main()
    except BuildError as e:
        print("cannot build the check from the current tree:\n%s" % e)
        return 2


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
