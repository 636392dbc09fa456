"""Reading the printed summary back: sections, coefficient tables, header fields, diagnostics."""
import re
import numpy as np
from .core import Violation
from .cmp import arr, ok, same

NUM = r"(?:[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?|[-+]?nan|[-+]?inf)"


def places(tok):
    t = tok.lower().lstrip("+-")
    if t in ("nan", "inf"):
        return None
    m = re.match(r"\d*\.?(\d*)(?:e([-+]?\d+))?$", t)
    return len(m.group(1)) - (int(m.group(2)) if m.group(2) else 0)


def printed(name, tok, value):
    """the printed token is the value, rounded to the digits shown"""
    v = float(np.squeeze(arr(value)))
    p = places(tok)
    t = float(tok)
    if p is None:
        if not (np.isnan(v) and np.isnan(t) or t == v):
            raise Violation("%s: printed %s, the value is %.10g" % (name, tok, v))
        return
    if not abs(t - v) <= 0.5 * 10.0 ** -p * (1 + 1e-6) + 1e-12 * abs(v):
        raise Violation("%s: printed %s, the value is %.10g" % (name, tok, v))


def sections(text, head="SUMMARY OF OUTPUT: "):
    """text -> list of section texts, each starting with its title"""
    parts = text.split("\n" + head)
    ok(len(parts) > 1, "summary without a title: %r" % text[:80])
    return parts[1:]


def field(sec, label):
    """value of '%-20s:%12s' or '%-22s:%12s' header fields"""
    m = re.search(r"(?:^|  )" + re.escape(label) + r" *: *(.*?)(?:   |$)", sec, re.M)
    return None if m is None else m.group(1).strip()


def rows(sec, latex=False):
    """coefficient table -> (statistic letter, [(name, [numbers])])"""
    if latex:
        m = re.search(r"\\toprule\n(.*?) \\\\\n\\midrule\n(.*?)\\bottomrule", sec, re.S)
        ok(m, "no LaTeX table in the summary")
        hd = [h.strip() for h in m.group(1).split(" & ")]
        same("LaTeX header", [hd[0], hd[1], hd[2], hd[4]], ["Variable", "Coefficient", "Std.Error", "Prob."])
        out = []
        for ln in m.group(2).strip().split("\n"):
            ok(ln.endswith(r" \\"), "LaTeX row %r" % ln)
            c = [v.strip() for v in ln[:-3].split(" & ")]
            out.append((c[0].replace(r"\_", "_").replace(r"\%", "%"), c[1:]))
        return hd[3][0], out
    m = re.search(r"^ +Variable +Coefficient +Std\.Error +(.)-Statistic +Probability\n-+\n(.*?)^-----", sec, re.S | re.M)
    ok(m, "no coefficient table in the summary")
    out = []
    for ln in m.group(2).rstrip("\n").split("\n"):
        q = re.match(r"^(.*?)    +(%s)    +(%s)    +(%s)    +(%s)$" % ((NUM,) * 4), ln)
        if q is None:
            q = re.match(r"^(.*?)    +(%s) *$" % NUM, ln)
            ok(q, "unreadable row of the coefficient table: %r" % ln)
        out.append((q.group(1).strip(), list(q.groups()[1:])))
    return m.group(1), out


def coefs(what, sec, want, latex=False, stat=None):
    """want: {name: (coefficient, se, statistic, p)} or (coefficient,) without inference; one printed row each"""
    z, got = rows(sec, latex)
    if stat:
        same(what + ": kind of statistic", z, stat)
    same(what + ": variables in the printed table", sorted(n for n, v in got), sorted(n.strip() for n in want))
    w = {k.strip(): v for k, v in want.items()}
    for n, v in got:
        if latex and len(w[n]) == 1:
            ok(all(t == "nan" for t in v[1:]), "%s: inference printed for %s, which has none" % (what, n))
            v = v[:1]
        same("%s: numbers printed for %s" % (what, n), len(v), len(w[n]))
        for lab, t, x in zip(("coefficient", "standard error", "statistic", "probability"), v, w[n]):
            printed("%s: %s of %s" % (what, lab, n), t, x)


def line(sec, label, count):
    """all lines '<label>  number ... number' with exactly `count` numbers"""
    out = []
    for m in re.finditer(r"^ *" + re.escape(label) + r" +((?:%s *)+)$" % (NUM + r"(?: +|$)"), sec, re.M):
        v = m.group(1).split()
        ok(len(v) == count, "line of %s has %d numbers: %r" % (label, len(v), m.group(0)))
        out.append(v)
    return out


def test(sec, label, values, times=1):
    """label is printed `times` times with the values (0 when values is None)"""
    if values is None:
        ok(not re.search(r"^ *" + re.escape(label) + "  ", sec, re.M), "%s printed but not computed" % label)
        return
    got = line(sec, label, len(values))
    same("lines of " + label, len(got), times)
    for g in got:
        for t, x in zip(g, values):
            printed(label, t, x)


def names_list(sec, label):
    """wrapped 'Instruments: a, b, c' lists"""
    m = re.search(r"^" + label + r": (.*(?:\n {13}.*)*)", sec, re.M)
    return None if m is None else re.sub(r"\s+", " ", m.group(1)).strip()


def matrix(sec, head, m=None):
    """fixed-width matrix after a heading and a line of names -> (names line, array of tokens)"""
    p = re.search(re.escape(head) + r"\n(?:-+\n)?(.*)\n((?: *%s)+\n(?:(?: *%s)+\n)*)" % (NUM, NUM), sec)
    ok(p, "no %s in the summary" % head)
    body = [re.findall(r"[-+]?(?:\d+\.\d{6}|nan|inf)", ln) for ln in p.group(2).rstrip("\n").split("\n")]
    return p.group(1), body
