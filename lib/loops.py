"""Mechanical insertion of loop contracts into a copy of a real function's text.

Every loop of the named function gets, in order, the hooks VK_H<n>_<func> (establish the invariant, then continue
from an arbitrary state satisfying it) and VK_C<n>_<func> (the invariant holds again after one iteration; stop):

    while (C) B            ->  for (VK_Hn_f; C; VK_Cn_f) B
    for (I; C; S) B        ->  for (I, VK_Hn_f; C; S, VK_Cn_f) B
    do B while (C);        ->  VK_Hn_f; do B while ((C) && (VK_Cn_f, 0));

The hooks are expressions defined by the harness; a natively compiled replay defines them as 0, which gives back the
original loop.  Nothing else of the text is touched.
"""
import re

class NotApplicable(Exception):
    pass

def blank(t):
    """comments and literals blanked, same length"""
    def f(m): return "".join(c if c == "\n" else " " for c in m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(\\.|[^"\\\n])*"|\'(\\.|[^\'\\\n])*\'', f, t, flags=re.S)

def close(b, i, o, c):
    d = 1
    while d:
        if i >= len(b): raise NotApplicable("unbalanced")
        d += b[i] == o; d -= b[i] == c; i += 1
    return i

def body(t, name):
    b = blank(t)
    for m in re.finditer(r"\b%s\s*\(" % re.escape(name), b):
        i = close(b, m.end(), "(", ")")
        k = re.match(r"\s*\{", b[i:])
        if k:
            s = i + k.end() - 1
            return s, close(b, s + 1, "{", "}")
    raise NotApplicable("function %s not found" % name)

def annotate(t, name, n):
    """annotate the n loops of function name"""
    s, e = body(t, name)
    b = blank(t)
    edits = []          # (pos, end, text)
    loops = []
    dowhile = set()
    i = s
    for m in re.finditer(r"\b(do|while|for)\b", b[s:e]):
        p, q = s + m.start(), s + m.end()
        if m.group(1) == "do":
            k = re.match(r"\s*\{", b[q:])
            if not k: raise NotApplicable("do without block")
            z = close(b, q + k.end(), "{", "}")
            w = re.match(r"\s*while\s*\(", b[z:])
            if not w: raise NotApplicable("do without while")
            dowhile.add(z + b[z:].index("while"))
            c0 = z + w.end(); c1 = close(b, c0, "(", ")") - 1
            loops.append((p, "do", p, c0, c1))
        elif m.group(1) == "while":
            if p in dowhile: continue
            c0 = q + re.match(r"\s*\(", b[q:]).end(); c1 = close(b, c0, "(", ")") - 1
            loops.append((p, "while", p, c0, c1))
        else:
            c0 = q + re.match(r"\s*\(", b[q:]).end(); c1 = close(b, c0, "(", ")") - 1
            loops.append((p, "for", p, c0, c1))
    if len(loops) != n: raise NotApplicable("%s has %d loops, contracts written for %d" % (name, len(loops), n))
    for k, (p, kind, _, c0, c1) in enumerate(loops):
        H, C = "VK_H%d_%s" % (k, name), "VK_C%d_%s" % (k, name)
        if kind == "do":
            edits += [(p, p, H + "; "), (c0, c0, "("), (c1, c1, ") && (%s, 0)" % C)]
        elif kind == "while":
            edits += [(p, c0, "for (%s; " % H), (c1, c1, "; " + C)]
        else:
            semi = [j for j in range(c0, c1) if b[j] == ";" and b[c0:j].count("(") == b[c0:j].count(")")]
            if len(semi) != 2: raise NotApplicable("for header")
            init = b[c0:semi[0]].strip(); step = b[semi[1] + 1:c1].strip()
            edits += [(semi[0], semi[0], (", " if init else "") + H), (c1, c1, (", " if step else "") + C)]
    for p, q, x in sorted(edits, reverse=True): t = t[:p] + x + t[q:]
    return t
