"""Programs with very many things of one kind, together with what they print:
sizes around and above the numbers that fit in one byte, and in two with a sign."""

SIZES = [33000, 300, 40000, 1000, 32700, 50000, 65000]


def program(r, kind, n):
    """-> source, expected output"""
    k = r.sample(range(n), min(n, 25)) + [0, 255, 256, n - 1, n // 2]
    k += [j for j in (32767, 32768, 32769) if j < n]
    off = r.randrange(3, 1000)
    if kind == "globals":
        src = [f"x{j}: int = {j + off}" for j in range(n)]
        w = r.sample(range(n), 10)
        src += [f"x{j} += x{(j + 1) % n}" for j in w]
        val = {j: j + off for j in range(n)}
        for j in w:
            val[j] += val[(j + 1) % n]
        return src + [f"mostra x{j}" for j in k], [val[j] for j in k]
    if kind == "locals":
        w = r.sample(range(n), 10)
        val = {j: (j + off) % 30000 for j in range(n)}
        body = [f" x{j}: int = {val[j]}" for j in range(n)] + [f" x{j} = x{(j + 1) % n} * 2" for j in w]
        for j in w:
            val[j] = val[(j + 1) % n] * 2
        # the calls inside of a call must not share the variables
        src = ["func f(p: int): int"] + body + [" se p > 0 entao", "  mostra f(p - 1)", " fim"] + [f" mostra x{j}" for j in k] + [f" retorna x{n - 1} + p", "fim", "mostra f(1)"]
        once = [val[j] for j in k]
        return src, once + [val[n - 1]] + once + [val[n - 1] + 1]
    if kind == "elements":
        val = [(j * 7 + off) % 64000 for j in range(n)]
        src = ["v: [int] = [int: " + ", ".join(map(str, val)) + "]", "mostra tam(v)", "s: int = 0", "para i de 0..tam(v) faca", " s += v[i]", "fim", "mostra s"]
        return src + [f"mostra v[{j}]" for j in k], [n, sum(val)] + [val[j] for j in k]
    if kind == "texts":
        src = ["v: [texto] = [texto: " + ", ".join(f"'t{j}.{off}'" for j in range(n)) + "]"]
        return src + [f"mostra v[{j}]" for j in k], [f"t{j}.{off}" for j in k]
    if kind == "functions":
        src = []
        for j in range(n):
            src += [f"func f{j}(a: int): int", f" retorna a * 2 + {j + off}", "fim"]
        return src + [f"mostra f{j}(f{j // 2}(1))" for j in k], [(2 + j // 2 + off) * 2 + j + off for j in k]
    if kind == "methods":
        src = ["registo R", " x: int", "fim", "r: R = R(x: 5)"]
        for j in range(n):
            src += [f"met R::m{j}(alvo, a: int): int", f" retorna alvo.x * a + {j + off}", "fim"]
        return src + [f"mostra r.m{j}(3)" for j in k], [15 + j + off for j in k]
    if kind == "fields":
        val = {j: (j * 3 + off) % 30000 for j in range(n)}
        src = ["registo R"] + [f" c{j}: int" for j in range(n)] + ["fim", "r: R = R(" + ", ".join(f"c{j}: {val[j]}" for j in range(n)) + ")"]
        w = r.sample(range(n), 10)
        src += [f"r.c{j} = r.c{(j + 1) % n} + 1" for j in w]
        for j in w:
            val[j] = val[(j + 1) % n] + 1
        return src + [f"mostra r.c{j}" for j in k], [val[j] for j in k]
    if kind == "variants":
        # the numbers of variants go on from one union to the next
        src, m = [], 150
        u = max(2, n // m)
        for i in range(u):
            src += [f"uniao U{i}", ",\n".join(f" A{i}_{j}(int)" for j in range(m)), "fim"]
        out = []
        for t in range(12):
            i, j = r.randrange(u), r.randrange(m)
            o = sorted({r.randrange(m), j, (j + 128) % m, (j + 1) % m})
            src += [f"u{t}: U{i} = U{i}::A{i}_{j}({t})", f"mostra iguala u{t}"]
            src += [f" U{i}::A{i}_{q}(x) => x + {q * 100}," for q in o] + [" _ => -1", "fim"]
            out.append(t + j * 100)
        return src, out
    if kind == "jumps":
        # jumps over bodies longer than a number of two bytes
        src = ["x: int = 0", "t: int = 0", "enquanto x < 5 faca", " x += 1", " se x == 2 entao", "  continua", " fim", " se x == 3 entao"]
        src += ["  t += 1"] * n + [" senao", "  t += 100000", " fim", " se x == 4 entao", "  quebra", " fim", "fim", "mostra t", "mostra x"]
        return src, [n + 200000, 4]
    if kind == "records":
        src = []
        for j in range(n):
            src += [f"registo R{j}", f" x{j % 7}: int", "fim"]
        return src + [f"mostra R{j}(x{j % 7}: {j + off})" for j in k[:8]] + [f"mostra R{j}(x{j % 7}: {j + off}).x{j % 7}" for j in k], [f"<Instância do tipo R{j}>" for j in k[:8]] + [j + off for j in k]
    raise KeyError(kind)


def job(c, kinds, label):
    def wide(i, out, run):
        r = c.rng(label, i)
        kind = kinds[i % len(kinds)]
        n = SIZES[(i // len(kinds) + r.randrange(2)) % len(SIZES)]
        if kind in ("variants", "functions", "methods"):
            n = min(n, 33000)
        src, exp = program(r, kind, n)
        out.n["evaluations"] += 1
        out.n[f"wide {kind} of {n}"] += 1
        files = {"main.ama": "\n".join(src) + "\n"}
        out.seen(files["main.ama"].encode())
        q = run.run(files, cpu=120)
        want = "".join(f"{x}\n" for x in exp)
        got = q.out.decode("utf-8", "replace")
        if q.kind != "ok" or got != want:
            out.violation(f"wide {kind}", f"{n} {kind}: {q.kind}, exit {q.rc}\nexpected:\n{want[:300]}\ngot:\n{got[:300]}\n{q.err.decode('utf-8', 'replace')[-300:]}", files)

    return wide
