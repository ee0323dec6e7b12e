"""What a diagnostic must look like, whatever it is about."""
import re

DIAG = re.compile(r'\nFicheiro "([^\n]*)", linha (\d+)(: coluna -?\d+)?\n    ([^\n]*)\n(Erro sintático|Erro): (.*)\.\n', re.S)


def lines_of(data):
    t = data.decode("utf-8", "replace") if isinstance(data, bytes) else data
    return t.replace("\r\n", "\n").replace("\r", "\n").split("\n")


def wrong(files, r, bad=None):
    """-> None or (signature, what is wrong with what the command did)"""
    if r.crashed:
        e = r.err.decode("utf-8", "replace").strip().split("\n")
        at = [x for x in e if x.startswith('  File "')]
        where = re.sub(r'.*/(\S+)", line \d+, in (\S+)', r"\1 \2", at[-1]) if at else ""
        return ("crash:" + r.crashed + re.sub(r"'[^']*'|\d+", "#", e[-1][:60]) + where, f"the command ended with: {r.crashed} {e[-1][:200]} {where}")
    if r.reached or r.module:
        if r.err and r.kind != "rterr":
            return "module and diagnostic", "there is a module and something on standard error"
        if bad:
            return "malformed accepted:" + bad[0].split(" got ")[0], f"malformed text is compiled: line {bad[1]}: {bad[0]}"
        return None
    if r.out:
        return "output", "a diagnosed program wrote on standard output"
    e = r.err.decode("utf-8", "backslashreplace")
    if not e:
        return "silence", "no module and no diagnostic"
    m = DIAG.fullmatch(e)
    if not m:
        return "form", "standard error is not one diagnostic"
    if len(re.findall(r'^Ficheiro "', e, re.M)) != 1 and not any(re.search(r'^Ficheiro "', t if isinstance(t, str) else "", re.M) for t in files.values()):
        return "several", "more than one diagnostic"
    name, line, _, quoted, _, msg = m.groups()
    if name not in files:
        return "file", f"the diagnostic names {name!r}"
    ls = lines_of(files[name])
    line = int(line)
    if ls and not ls[-1] and len(ls) > 1:
        ls.pop()
    if not 1 <= line <= len(ls):
        return "line", f"the file has {len(ls)} lines, the diagnostic names line {line}"
    if ls[line - 1].strip() != quoted:
        return "quote", f"line {line} is {ls[line - 1]!r}, the diagnostic quotes {quoted!r}"
    if not msg.strip():
        return "message", "empty message"
    if re.search(r"<[\w.]+ object at 0x|<class '|\bNone\b|TokenType|\bTT\.", msg) and not any("None" in str(t) or "TT." in str(t) for t in files.values()):
        return "message", "the message has text of the implementation"
    p = re.search(r"\{[a-z_.]+\}", msg)
    if p and not any(p.group() in str(t) for t in files.values()):
        return "message", "the message has a placeholder"
    return None
