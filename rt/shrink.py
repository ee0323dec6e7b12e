"""Makes a failing program smaller by deleting statements and simplifying
expressions, for readable reports."""
import time

from .lang import *


def lists(x, out):
    """every statement list inside a program"""
    if isinstance(x, list):
        if x and all(isinstance(s, N) for s in x):
            out.append(x)
        for s in x:
            lists(s, out)
    elif isinstance(x, tuple):
        for s in x:
            lists(s, out)
    elif isinstance(x, N):
        lists(x.a, out)
        if x.k == "func":
            lists(x.x.body, out)
        elif not isinstance(x.x, (str, Decl, Func, Reg, Uni)):
            lists(x.x, out)
    return out


STMT = {"decl", "mdecl", "assign", "expr", "mostra", "escrevaln", "escreva", "se", "escolha", "enquanto", "para", "iguala", "seiguala", "func", "reg", "uni", "quebra", "continua", "retorna", "produz", "usa"}


def shrink(mods, fails, budget=40.0):
    """mods: list of lists of statements, changed in place"""
    end = time.time() + budget
    changed = True
    while changed and time.time() < end:
        changed = False
        ls = []
        for m in mods:
            lists(m, ls)
        for l in sorted(ls, key=len, reverse=True):
            if not l or l[0].k not in STMT:
                continue
            n = len(l)
            step = max(1, n // 2)
            while step >= 1 and time.time() < end:
                i = len(l) - step
                while i >= 0:
                    cut = l[i : i + step]
                    del l[i : i + step]
                    if safe(fails):
                        changed = True
                    else:
                        l[i:i] = cut
                    i -= step
                step //= 2
        # blocks of an if replaced by their content
        for l in ls:
            for i, s in enumerate(list(l)):
                if s.k == "se" and s in l:
                    j = l.index(s)
                    old = l[j : j + 1]
                    l[j : j + 1] = s.x[0][0][1]
                    if safe(fails):
                        changed = True
                    else:
                        l[j : j + len(s.x[0][0][1])] = old
        # expressions
        nodes = []
        for m in mods:
            allnodes(m, nodes)
        for p in nodes:
            for i, c in enumerate(p.a):
                if time.time() > end:
                    return
                if isinstance(c, N) and c.k != "lit" and c.ty in (INT, REAL, BOOL, TXT) and p.k not in ("p_var",):
                    if p.k == "assign" and i < len(p.a) - 1:
                        continue
                    p.a[i] = N("lit", c.ty, x={INT: 1, REAL: 1.5, BOOL: True, TXT: "a"}[c.ty])
                    if safe(fails):
                        changed = True
                        continue
                    p.a[i] = c
                    for g in c.a:
                        if isinstance(g, N) and g.ty == c.ty:
                            p.a[i] = g
                            if safe(fails):
                                changed = True
                                break
                            p.a[i] = c


def allnodes(x, out):
    if isinstance(x, (list, tuple)):
        for s in x:
            allnodes(s, out)
    elif isinstance(x, N):
        out.append(x)
        allnodes(x.a, out)
        if x.k == "func":
            allnodes(x.x.body, out)
        elif not isinstance(x.x, (str, Decl, Func, Reg, Uni)):
            allnodes(x.x, out)
    return out


def safe(fails):
    try:
        return bool(fails())
    except Exception:
        return False
