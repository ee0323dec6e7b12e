"""Gives declarations inside of blocks the names of things declared outside:
built-in types and functions, the program's own functions, types and globals.
A name is only taken where the block that declares it doesn't use it."""
import re

from .lang import *
from . import lang, shrink

BUILTIN = ["int", "real", "bool", "texto", "indef", "tam", "anexa", "remova", "vec", "escreva", "escrevaln", "leia", "leia_int", "leia_real", "txt_contem", "Opcao", "erro", "int", "real", "texto"]


def words(nodes):
    p = lang.Printer(None, 0)
    for n in nodes:
        if n.k.startswith("p_"):
            p.pat(n)
        elif hasattr(p, "s_" + n.k):
            p.s(n)
        else:
            p.e(n)
    return set(re.findall(r"\w+", " ".join(t for t in p.o if isinstance(t, str))))


def binds(p, out):
    if isinstance(p, N):
        if p.k == "p_bind":
            out.append(p.x)
        for q in p.a if isinstance(p.a, (list, tuple)) else []:
            binds(q, out)
    return out


def declared(s):
    """what an instruction declares in the block it's in"""
    if s.k == "decl":
        return [s.x]
    if s.k == "mdecl":
        return list(s.x)
    if s.k in ("reg", "uni"):
        return [s.x]
    return []


def apply(rng, prog, p=0.3, features=None):
    outer = [d.name for s in prog for d in declared(s)] + [s.x.name for s in prog if s.k == "func" and s.x.recv is None]
    names = BUILTIN + outer * 2

    def give(ds, around):
        used = None
        for d in ds:
            if rng.random() >= p or not isinstance(getattr(d, "name", None), str):
                continue
            if getattr(d, "glob", False):
                continue
            if used is None:
                used = words(around)
            c = [n for n in names if n not in used]
            if c:
                n = rng.choice(c)
                used.add(n)
                d.name = n
                if features is not None:
                    features.add("hides:" + ("builtin" if n in BUILTIN else "global"))

    # parameters and bindings are in the scope of the block
    own = {}
    for n in shrink.allnodes(prog, []):
        if n.k == "func":
            own[id(n.x.body)] = n
        elif n.k == "para":
            own[id(n.x[1])] = n
        elif n.k == "seiguala":
            own[id(n.x[1])] = n
        elif n.k == "iguala":
            for _, _, body in n.x:
                own[id(body)] = n
    ls = []
    shrink.lists(prog, ls)
    for l in ls:
        if l is prog or not l or l[0].k not in shrink.STMT:
            continue
        give([d for s in l for d in declared(s)], [own[id(l)]] if id(l) in own else l)
    for n in shrink.allnodes(prog, []):
        if n.k == "func":
            give(n.x.params, [n])
        elif n.k == "para":
            give([n.x[0]], [n])
        elif n.k == "iguala":
            for pat, _, body in n.x:
                give(binds(pat, []), [n])
        elif n.k == "seiguala":
            give(binds(n.x[0], []), [n])

