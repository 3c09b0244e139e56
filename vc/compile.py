"""Compile terms to a straight-line Python function (concrete evaluation)."""
from . import term as tm


def compile_terms(roots, variables):
    """Function taking a list of ints (one per variable, in order) and
    returning the list of root values.  Variables not listed are 0."""
    order = tm.topo(roots)
    pos = {v.id: i for i, v in enumerate(variables)}
    name = {}
    out = ["def f(V):"]

    def nm(x):
        return name[x.id]

    for t in order:
        op, a, w = t.op, t.a, t.w
        M = (1 << w) - 1
        if op == "c":
            name[t.id] = str(t.p)
            continue
        if op == "v":
            name[t.id] = f"V[{pos[t.id]}]" if t.id in pos else "0"
            continue
        s = [nm(x) for x in a]
        if op == "not":
            e = f"{s[0]} ^ {M}"
        elif op in ("and", "or", "xor"):
            e = f" {dict([('and','&'),('or','|'),('xor','^')])[op]} ".join(s)
        elif op == "eq":
            e = f"1 if {s[0]} == {s[1]} else 0"
        elif op == "ult":
            e = f"1 if {s[0]} < {s[1]} else 0"
        elif op == "add":
            e = f"({s[0]} + {s[1]}) & {M}"
        elif op == "sub":
            e = f"({s[0]} - {s[1]}) & {M}"
        elif op == "mul":
            e = f"({s[0]} * {s[1]}) & {M}"
        elif op == "udiv":
            e = f"({s[0]} // {s[1]}) if {s[1]} else {M}"
        elif op == "urem":
            e = f"({s[0]} % {s[1]}) if {s[1]} else {s[0]}"
        elif op == "shl":
            e = f"(({s[0]} << {s[1]}) & {M}) if {s[1]} < {w} else 0"
        elif op == "lshr":
            e = f"({s[0]} >> {s[1]}) if {s[1]} < {w} else 0"
        elif op == "ite":
            e = f"{s[1]} if {s[0]} else {s[2]}"
        elif op == "concat":
            sh, parts = w, []
            for x, y in zip(a, s):
                sh -= x.w
                if y == "0":
                    continue
                parts.append(f"({y} << {sh})" if sh else y)
            e = " | ".join(parts) or "0"
        elif op == "zext":
            e = s[0]
        elif op == "ext":
            lo = t.p[0]
            e = f"({s[0]} >> {lo}) & {M}" if lo else f"{s[0]} & {M}"
        else:
            raise AssertionError(op)
        n = f"t{t.id}"
        name[t.id] = n
        out.append(f" {n} = {e}")
    out.append(" return [" + ", ".join(nm(r) for r in roots) + "]")
    ns = {}
    exec(compile("\n".join(out), "<terms>", "exec"), ns)
    return ns["f"]
