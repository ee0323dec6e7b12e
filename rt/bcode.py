"""Verifier of compiled modules: decodes the code as the machine does and
follows every path of it with an abstract operand stack."""
from collections import Counter

NAMES = """MOSTRA LOAD_CONST LOAD_NAME OP_ADD OP_MINUS OP_MUL OP_DIV OP_FLOORDIV OP_MODULO OP_INVERT OP_AND OP_OR OP_NOT
OP_EQ OP_NOTEQ OP_GREATER OP_GREATEREQ OP_LESS OP_LESSEQ OP_INDEX_GET OP_INDEX_SET GET_GLOBAL SET_GLOBAL JUMP JUMP_IF_FALSE
GET_LOCAL SET_LOCAL CALL_FUNCTION RETURN CAST BUILD_STR BUILD_VEC LOAD_REGISTO BUILD_OBJ GET_PROP SET_PROP OP_UNWRAP
OP_ISNULL LOAD_MODULE_DEF BUILD_VARIANT BIND_MATCH_ARGS MATCH_VARIANT POP""".split()
OPS = {i: n for i, n in enumerate(NAMES)}
OPS[0xFF] = "HALT"
U8 = {"CAST", "OP_UNWRAP"}
U16 = {"CALL_FUNCTION", "BUILD_STR", "BUILD_VEC", "BUILD_OBJ", "BUILD_VARIANT", "BIND_MATCH_ARGS", "LOAD_CONST", "LOAD_NAME", "SET_LOCAL", "GET_LOCAL", "GET_GLOBAL", "SET_GLOBAL", "LOAD_REGISTO"}
U64 = {"JUMP", "JUMP_IF_FALSE", "MATCH_VARIANT"}
SIZE = {}
for _n in OPS.values():
    SIZE[_n] = 2 if _n in U8 else 3 if _n in U16 else 9 if _n in U64 else 17 if _n == "LOAD_MODULE_DEF" else 1
BIN = {n for n in NAMES if n.startswith("OP_")} - {"OP_INVERT", "OP_NOT", "OP_INDEX_GET", "OP_INDEX_SET", "OP_UNWRAP", "OP_ISNULL"}
# what can stop the program with an error
FALLIBLE = {"OP_ADD", "OP_MINUS", "OP_MUL", "OP_DIV", "OP_FLOORDIV", "OP_MODULO", "OP_INVERT", "OP_INDEX_GET", "OP_INDEX_SET", "CALL_FUNCTION", "CAST", "OP_UNWRAP"}


def renumber():
    """The compiler's own numbering, when it can be asked"""
    try:
        from amanda.compiler.codegen import OpCode

        t = {o.value: o.name for o in OpCode}
        if set(t.values()) == set(SIZE):
            OPS.clear()
            OPS.update(t)
    except Exception:
        pass


class Bad(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig


def decode(code):
    """-> {offset: (name, args, next)}"""
    out = {}
    at = 0
    while at < len(code):
        n = OPS.get(code[at])
        if n is None:
            raise Bad("opcode", f"no instruction {code[at]:#x} at {at}")
        s = SIZE[n]
        if at + s > len(code):
            raise Bad("truncated", f"{n} at {at} is cut short")
        b = code[at + 1 : at + s]
        if s == 17:
            a = (int.from_bytes(b[:8], "big"), int.from_bytes(b[8:], "big"))
        elif s == 1:
            a = ()
        else:
            a = (int.from_bytes(b, "big"),)
        out[at] = (n, a, at + s)
        at += s
    return out


class Verifier:
    def __init__(self, main, lines=None, strict=True, exact_return=False):
        """lines: module name -> number of lines its sources can have"""
        self.main = main
        self.mods = [*main["imports"], main]
        self.lines = lines or {}
        self.exact_return = exact_return
        self.n = Counter()
        self.arity = {}

    def fail(self, sig, msg):
        raise Bad(sig, f"module {self.m['name']!r}: {msg}")

    def run(self):
        self.defs = []
        self.codes = []
        for m in self.mods:
            self.m = m
            try:
                ins = decode(m["ops"])
            except Bad as e:
                self.fail(e.sig, str(e))
            self.codes.append(ins)
            names = {f["name"]: None for f in m["functions"]}
            prev = None
            for n, a, _ in ins.values():
                if n == "LOAD_REGISTO" and a[0] >= len(m["registos"]):
                    self.fail("record-index", f"record {a[0]} of {len(m['registos'])}")
                if n == "SET_GLOBAL":
                    if a[0] >= len(m["names"]):
                        self.fail("name-index", f"name {a[0]} of {len(m['names'])}")
                    names[m["names"][a[0]]] = m["registos"][prev[1][0]] if prev and prev[0] == "LOAD_REGISTO" else None
                prev = (n, a)
            self.defs.append(names)
        for k, m in enumerate(self.mods):
            self.m = m
            self.module(k, m, self.codes[k])
        return self.n

    def module(self, k, m, ins):
        self.n["modules"] += 1
        self.n["instructions"] += len(ins)
        if m["builtin"]:
            if not ins or ins[0][0] != "HALT":
                self.fail("builtin", "code of a builtin module")
            return
        own = k if m is not self.main else -1
        for r in m["registos"]:
            if len(set(r["fields"])) != len(r["fields"]):
                self.fail("record", f"repeated field in {r}")
        self.funcs = {}
        seen = {}
        bodies = [(0, m["entry_locals"], "_inicio_")]
        for f in m["functions"]:
            if f["module"] != own:
                self.fail("function-module", f"function {f['name']} is of module {f['module']}, not {own}")
            if f["start_ip"] not in ins:
                self.fail("function-entry", f"function {f['name']} starts at {f['start_ip']}, which is not an instruction")
            if f["locals"] < 0:
                self.fail("locals", str(f))
            bodies.append((f["start_ip"], f["locals"], f["name"]))
        heights = {}
        for start, locs, name in bodies:
            self.n["bodies"] += 1
            got = self.body(k, m, ins, start, locs, name)
            for at, h in got.items():
                if at in seen and seen[at] != name:
                    self.fail("shared-code", f"the instruction at {at} belongs to {seen[at]} and to {name}")
                seen[at] = name
            heights.update(got)
        self.srcmap(m, ins, heights)

    def body(self, k, m, ins, start, locs, name):
        """Follows every path from start; -> {offset: height}"""
        state = {start: ()}
        work = [start]
        main = name == "_inicio_"
        fail = self.fail
        consts, names, regs = m["constants"], m["names"], m["registos"]

        def flow(at, to, st):
            if to not in ins:
                fail("jump-target" if to != at else "falls-off", f"{name}: from {at} control goes to {to}, which is not an instruction")
            old = state.get(to)
            if old is None:
                state[to] = st
                work.append(to)
                return
            self.n["joins"] += 1
            if len(old) != len(st):
                fail("height", f"{name}: {len(old)} and {len(st)} operands at {to} (coming from {at})")
            if old != st:
                j = tuple(x if x == y else None for x, y in zip(old, st))
                if j != old:
                    state[to] = j
                    work.append(to)

        while work:
            at = work.pop()
            st = list(state[at])
            n, a, nxt = ins[at]
            self.n["steps"] += 1

            def pop(c=1):
                if len(st) < c:
                    fail("underflow", f"{name}: {n} at {at} needs {c} operands, there are {len(st)}")
                if c == 0:
                    return []
                x = st[len(st) - c :]
                del st[len(st) - c :]
                return x

            def idx(table, what):
                if a[-1] >= len(table):
                    fail(what + "-index", f"{name}: {n} at {at} uses {what} {a[-1]} of {len(table)}")
                return table[a[-1]]

            if n == "LOAD_CONST":
                st.append(("const", idx(consts, "constant")))
            elif n == "LOAD_NAME":
                st.append(("name", idx(names, "name")))
            elif n == "LOAD_REGISTO":
                idx(regs, "record")
                st.append(("reg", a[0]))
            elif n == "GET_GLOBAL":
                g = idx(names, "name")
                if g not in self.defs[k]:
                    fail("undefined", f"{name}: reads the global {g!r}, which nothing defines")
                st.append(("global", k, g))
            elif n == "SET_GLOBAL":
                idx(names, "name")
                pop()
            elif n == "LOAD_MODULE_DEF":
                g = idx(names, "name")
                if a[0] >= len(self.main["imports"]):
                    fail("module-index", f"{name}: {n} at {at} uses module {a[0]} of {len(self.main['imports'])}")
                o = self.main["imports"][a[0]]
                if not o["builtin"] and g not in self.defs[a[0]]:
                    fail("undefined", f"{name}: reads {g!r} of module {o['name']!r}, which nothing defines")
                st.append(("global", a[0], g))
            elif n in ("GET_LOCAL", "SET_LOCAL"):
                if a[0] >= locs:
                    fail("local-index", f"{name}: {n} at {at} uses local {a[0]} of {locs}")
                if n == "GET_LOCAL":
                    st.append(None)
                else:
                    pop()
            elif n in BIN:
                pop(2)
                st.append(None)
            elif n in ("OP_INVERT", "OP_NOT", "OP_ISNULL", "MATCH_VARIANT"):
                pop()
                st.append(None)
            elif n == "OP_INDEX_GET":
                pop(2)
                st.append(None)
            elif n == "OP_INDEX_SET":
                pop(3)
            elif n in ("MOSTRA", "POP"):
                pop()
            elif n == "CALL_FUNCTION":
                f = pop()[0]
                pop(a[0])
                if f is not None:
                    if f[0] != "global":
                        fail("callee", f"{name}: calls {f} at {at}")
                    d = self.function(f)
                    if d and a[0] > d["locals"]:
                        fail("locals", f"{name}: gives {a[0]} arguments to {d['name']}, which has {d['locals']} slots")
                    if d and self.arity.setdefault(f[1:], a[0]) != a[0]:
                        fail("arity", f"{f[2]} is called with {a[0]} and with {self.arity[f[1:]]} arguments")
                    self.n["calls checked"] += 1
                st.append(None)
            elif n == "RETURN":
                if main:
                    fail("return", f"RETURN at {at}, outside of every function")
                pop()
                if self.exact_return and st:
                    fail("return-height", f"{name}: {len(st)} operands are left at the RETURN at {at}")
                continue
            elif n == "HALT":
                if not main:
                    fail("halt", f"{name}: the body of a function reaches the end of the program at {at}")
                if st:
                    fail("final-height", f"{len(st)} operands are left at the end of the program")
                continue
            elif n == "CAST":
                if a[0] not in (0, 1):
                    fail("operand", f"{name}: CAST {a[0]} at {at}")
                pop(2)
                st.append(None)
            elif n == "BUILD_STR":
                if a[0] == 0:
                    fail("operand", f"{name}: BUILD_STR of nothing at {at}")
                pop(a[0])
                st.append(None)
            elif n == "BUILD_VEC":
                pop(a[0])
                st.append(None)
            elif n == "BUILD_OBJ":
                (r,) = pop()
                reg = None
                if r is not None:
                    if r[0] == "reg":
                        reg = regs[r[1]]
                    elif r[0] == "global":
                        reg = self.defs[r[1]].get(r[2])
                        if reg is None:
                            fail("operand", f"{name}: BUILD_OBJ at {at} is given {r}, which is not a record")
                    else:
                        fail("operand", f"{name}: BUILD_OBJ at {at} is given {r}")
                fs = pop(a[0] * 2)[::2]
                if reg is not None:
                    want = reg["fields"]
                    got = [f[1] for f in fs if f is not None and f[0] == "name"]
                    if len(got) != len(fs) or len(set(got)) != len(got) or not set(got) <= set(want):
                        fail("record-fields", f"{name}: BUILD_OBJ at {at} gives {fs} to a record with {want}")
                    self.n["records built"] += 1
                st.append(None)
            elif n in ("GET_PROP", "SET_PROP"):
                if n == "SET_PROP":
                    pop()
                (f,) = pop()
                if f is not None and f[0] != "name":
                    fail("operand", f"{name}: {n} at {at} is given {f}")
                if f is not None and not any(f[1] in r["fields"] for q in self.mods for r in q["registos"]):
                    fail("field", f"{name}: {n} at {at} uses the field {f[1]!r}, which no record has")
                pop()
                if n == "GET_PROP":
                    st.append(None)
            elif n == "OP_UNWRAP":
                if a[0] not in (0, 1):
                    fail("operand", f"{name}: OP_UNWRAP {a[0]} at {at}")
                pop(1 + a[0])
                st.append(None)
            elif n == "BUILD_VARIANT":
                self.intconst(pop()[0], name, n, at)
                pop(a[0])
                st.append(None)
            elif n == "BIND_MATCH_ARGS":
                if a[0] == 0:
                    fail("operand", f"{name}: BIND_MATCH_ARGS 0 at {at}")
                for x in pop(a[0]):
                    s = self.intconst(x, name, n, at)
                    if s is not None and not 0 <= s < locs:
                        fail("local-index", f"{name}: {n} at {at} binds local {s} of {locs}")
                pop()
            elif n == "JUMP":
                flow(at, a[0], tuple(st))
                continue
            elif n == "JUMP_IF_FALSE":
                pop()
                self.n["branches"] += 1
                flow(at, a[0], tuple(st))
            else:
                raise AssertionError(n)
            if nxt not in ins:
                fail("falls-off", f"{name}: nothing follows {n} at {at}")
            flow(at, nxt, tuple(st))
        return {at: len(s) for at, s in state.items()}

    def intconst(self, x, name, n, at):
        if x is None:
            return None
        try:
            if x[0] != "const":
                raise ValueError
            return int(x[1])
        except ValueError:
            self.fail("operand", f"{name}: {n} at {at} is given {x}")

    def function(self, g):
        m = self.mods[g[1]]
        if m["builtin"]:
            return None
        fs = [f for f in m["functions"] if f["name"] == g[2]]
        # a global variable cannot hold a function
        if not fs:
            self.fail("callee", f"{g[2]!r} of module {m['name']!r} is called and is not a function")
        return fs[-1]

    def srcmap(self, m, ins, reach):
        t = m["src_map"]
        if len(t) % 3:
            self.fail("line-table", f"{len(t)} numbers in the line table")
        top = self.lines.get(m["name"])
        cover = {}
        last = -1
        for i in range(0, len(t), 3):
            s, e, ln = t[i : i + 3]
            if s not in ins or e not in ins or e < s:
                self.fail("line-table", f"entry {t[i:i+3]} is not a run of instructions")
            if ln < 1 or (top is not None and ln > top):
                self.fail("line-table", f"entry {t[i:i+3]}: the file has {top} lines")
            cover.setdefault(s, (e, ln))
        # the machine takes the first entry that holds the instruction
        ents = [t[i : i + 3] for i in range(0, len(t), 3)]
        ordered = all(ents[i][1] < ents[i + 1][0] for i in range(len(ents) - 1))
        import bisect

        starts = [e[0] for e in ents]
        for at in reach:
            n = ins[at][0]
            if n not in FALLIBLE:
                continue
            self.n["lines checked"] += 1
            if ordered:
                j = bisect.bisect_right(starts, at) - 1
                ok = j >= 0 and ents[j][0] <= at <= ents[j][1]
            else:
                ok = any(s <= at <= e for s, e, _ in ents)
            if not ok:
                self.fail("no-line", f"{n} at {at} is not attributed to any line")
