"""Projects twiggy's text, JSON and CSV output onto the rows the specification
talks about. Nothing here judges the values; output that has no such reading
raises Unreadable, which the specification treats as a violation."""
import csv, io, json, re
from decimal import Decimal, InvalidOperation
from common import Nm


class Unreadable(Exception):
    pass


BIG = 10 ** 9


def clamp(n):
    return n if -BIG <= n <= BIG else (BIG if n > 0 else -BIG)


UNIT = 1


def units(n):
    """Sizes are given to TLC, which counts in 32 bits, in multiples of UNIT."""
    return clamp(n // UNIT) if n % UNIT == 0 else -BIG + 7


def num(s):
    if not re.fullmatch(r"[0-9]+", s):
        raise Unreadable("not a number: %r" % s)
    return units(int(s))


def snum(s):
    if not re.fullmatch(r"[+-][0-9]+", s):
        raise Unreadable("not a signed number: %r" % s)
    return units(int(s))


def cents(s):
    m = re.fullmatch(r"([0-9]+)\.([0-9][0-9])%", s)
    if not m:
        raise Unreadable("not a percentage: %r" % s)
    return clamp(int(m.group(1)) * 100 + int(m.group(2)))


def full(x):
    """A full precision percentage as <<integer part, nine decimals>>."""
    if isinstance(x, bool) or not isinstance(x, (int, Decimal)):
        raise Unreadable("not a number: %r" % (x,))
    d = Decimal(x)
    if not d.is_finite() or d < 0:
        raise Unreadable("not a finite percentage: %r" % (x,))
    if d > BIG:
        return [BIG, 0]
    i = int(d)
    return [i, int((d - i) * 10 ** 9)]


def opt(f, s):
    return -1 if s == "" else f(s)


# ------------------------------------------------------------------------ text

def table(out, cols):
    """Header cells, and rows of cells with the last cell verbatim."""
    if not out.endswith("\n"):
        raise Unreadable("text: no final newline")
    lines = out[:-1].split("\n")
    if len(lines) < 2 or not lines[0].startswith(" "):
        raise Unreadable("text: no header")
    hdr = [c.strip(" ") for c in lines[0][1:].split(" │ ")]
    if len(hdr) != cols or not re.fullmatch("─*(┼─*){%d}" % (cols - 1), lines[1]):
        raise Unreadable("text: header shape")
    rows = []
    for ln in lines[2:]:
        cells = ln[1:].split(" ┊ ", cols - 1) if ln.startswith(" ") else []
        if len(cells) != cols:
            if not rows:
                raise Unreadable("text: row shape %r" % ln)
            rows[-1][-1] += "\n" + ln       # a name with a line break in it
            continue
        rows.append([c.strip(" ") for c in cells[:-1]] + [cells[-1]])
    return hdr, rows


def top_text(out):
    hdr, rows = table(out, 3)
    return {"hdr": hdr, "rows": [{"v": -1 if a == "..." else num(a),
                                  "p": -1 if b == "..." else cents(b), "n": Nm(n)}
                                 for a, b, n in rows]}


def garbage_text(out):
    hdr, rows = table(out, 3)
    return {"hdr": hdr, "rows": [{"v": num(a), "p": cents(b), "n": Nm(n)} for a, b, n in rows]}


DOM = re.compile(r"((?:    )*)  ⤷ (.*)\Z", re.S)
PATH = re.compile(r"((?:    )*)  ([⬑↳]) (.*)\Z", re.S)


def dominators_text(out):
    hdr, rows = table(out, 3)
    res = []
    for a, b, n in rows:
        m = DOM.match(n)
        d, n = (len(m.group(1)) // 4 + 2, m.group(2)) if m else (1, n)
        res.append({"v": num(a), "p": cents(b), "d": d, "n": Nm(n)})
    return {"hdr": hdr, "rows": res}


def paths_text(out):
    hdr, rows = table(out, 3)
    res = []
    for a, b, n in rows:
        m = PATH.match(n)
        d, w, n = (len(m.group(1)) // 4 + 1, m.group(2), m.group(3)) if m else (0, "", n)
        res.append({"v": opt(num, a), "p": opt(cents, b), "d": d, "a": w, "n": Nm(n)})
    return {"hdr": hdr, "rows": res}


def monos_text(out):
    hdr, rows = table(out, 5)
    res = []
    for b, bp, s, sp, n in rows:
        if b == "" and bp == "":
            if not res or not n.startswith("    "):
                raise Unreadable("text: instantiation row")
            res[-1]["insts"].append({"n": Nm(n[4:]), "s": num(s), "sp": cents(sp)})
        else:
            res.append({"n": Nm(n), "b": num(b), "bp": cents(bp), "s": num(s),
                        "sp": cents(sp), "insts": []})
    return {"hdr": hdr, "rows": res}


def diff_text(out):
    hdr, rows = table(out, 2)
    return {"hdr": hdr, "rows": [{"v": snum(a), "n": Nm(n)} for a, n in rows]}


# ------------------------------------------------------------------------ json

def _pairs(ps):
    d = {}
    for k, v in ps:
        if k in d:
            raise Unreadable("json: duplicate key %r" % k)
        d[k] = v
    return d


def _bad(x):
    raise Unreadable("json: constant %s" % x)


def load(out):
    try:
        return json.loads(out, parse_float=Decimal, parse_constant=_bad,
                          object_pairs_hook=_pairs)
    except (ValueError, InvalidOperation) as e:
        raise Unreadable("json: %s" % e)


def _list(x):
    if not isinstance(x, list):
        raise Unreadable("json: not an array")
    return x


def _get(o, k, t):
    if not isinstance(o, dict) or k not in o:
        raise Unreadable("json: no field %r" % k)
    v = o[k]
    if t is str and not isinstance(v, str):
        raise Unreadable("json: field %r is not a string" % k)
    if t is int:
        if isinstance(v, bool) or not isinstance(v, int):
            raise Unreadable("json: field %r is not an integer" % k)
        return units(v)
    if t is full:
        return full(v)
    return Nm(v) if t is str else v


def top_json(out):
    res = []
    for o in _list(load(out)):
        r = {"n": _get(o, "name", str), "s": _get(o, "shallow_size", int),
             "sp": _get(o, "shallow_size_percent", full), "r": -1, "rp": [-1, 0]}
        if "retained_size" in o:
            r["r"] = _get(o, "retained_size", int)
            r["rp"] = _get(o, "retained_size_percent", full)
        res.append(r)
    return res


def garbage_json(out):
    return [{"n": _get(o, "name", str), "v": _get(o, "bytes", int),
             "p": _get(o, "size_percent", full)} for o in _list(load(out))]


def dominators_json(out):
    top = load(out)
    rows = []

    def walk(o, d):
        rows.append({"d": d, "n": _get(o, "name", str), "s": _get(o, "shallow_size", int),
                     "sp": _get(o, "shallow_size_percent", full),
                     "r": _get(o, "retained_size", int),
                     "rp": _get(o, "retained_size_percent", full), "c": "children" in o})
        for c in _list(o.get("children", [])):
            walk(c, d + 1)

    for o in _list(_get(top, "items", list)):
        walk(o, 0)
    s = []
    for o in _list(top.get("summary", [])):
        s.append({"n": _get(o, "name", str), "r": _get(o, "retained_size", int),
                  "rp": _get(o, "retained_size_percent", full)})
    return {"rows": rows, "sum": s}


def paths_json(out):
    rows = []

    def walk(o, d):
        rows.append({"d": d, "n": _get(o, "name", str), "s": _get(o, "shallow_size", int),
                     "sp": _get(o, "shallow_size_percent", full)})
        for c in _list(_get(o, "callers", list)):
            walk(c, d + 1)

    for o in _list(load(out)):
        walk(o, 0)
    return rows


def monos_json(out):
    return [{"n": _get(o, "generic", str),
             "b": _get(o, "approximate_monomorphization_bloat_bytes", int),
             "bp": _get(o, "approximate_monomorphization_bloat_percent", full),
             "s": _get(o, "total_size", int), "sp": _get(o, "total_size_percent", full),
             "insts": [{"n": _get(i, "name", str), "s": _get(i, "shallow_size", int),
                        "sp": _get(i, "shallow_size_percent", full)}
                       for i in _list(_get(o, "monomorphizations", list))]}
            for o in _list(load(out))]


def diff_json(out):
    return [{"v": _get(o, "delta_bytes", int), "n": _get(o, "name", str)}
            for o in _list(load(out))]


# ------------------------------------------------------------------------- csv

def records(out, cols):
    """CSV records by column name; an empty report has no header."""
    if out == "":
        return []
    try:
        rows = list(csv.reader(io.StringIO(out, newline=""), strict=True))
    except csv.Error as e:
        raise Unreadable("csv: %s" % e)
    if rows[0] != cols:
        raise Unreadable("csv: header %r" % rows[0])
    if not out.endswith("\n"):
        raise Unreadable("csv: no final newline")
    for r in rows[1:]:
        if len(r) != len(cols):
            raise Unreadable("csv: record %r" % r)
    return rows[1:]


def dec(s):
    if not re.fullmatch(r"[0-9]+(\.[0-9]+)?(e[+-]?[0-9]+)?", s):
        raise Unreadable("csv: not a number: %r" % s)
    return full(Decimal(s))


def top_csv(out):
    return [{"n": Nm(n), "s": num(s), "sp": dec(sp), "r": opt(num, r),
             "rp": [-1, 0] if rp == "" else dec(rp)}
            for n, s, sp, r, rp in records(out, [
                "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize",
                "RetainedSizePercent"])]


def garbage_csv(out):
    return [{"n": Nm(n), "v": num(v), "p": dec(p)}
            for n, v, p in records(out, ["Name", "Bytes", "SizePercent"])]


def dominators_csv(out, pos):
    """pos maps a serialized identifier to the item's position."""
    def ident(x):
        if x == "":
            return -1
        if not re.fullmatch("[0-9]+", x):
            raise Unreadable("csv: id %r" % x)
        return pos.get(int(x), 0)
    return [{"id": ident(i), "n": Nm(n), "s": num(s), "sp": dec(sp), "r": num(r),
             "rp": dec(rp), "idom": ident(d)}
            for i, n, s, sp, r, rp, d in records(out, [
                "Id", "Name", "ShallowSize", "ShallowSizePercent", "RetainedSize",
                "RetainedSizePercent", "ImmediateDominator"])]


def paths_csv(out):
    return [{"n": Nm(n), "s": num(s), "sp": dec(sp), "path": Nm(p)}
            for n, s, sp, p in records(out, [
                "Name", "ShallowSize", "ShallowSizePercent", "Path"])]


def monos_csv(out):
    return [{"n": Nm(g), "b": num(b), "bp": dec(bp), "s": num(s), "sp": dec(sp), "m": Nm(m)}
            for g, b, bp, s, sp, m in records(out, [
                "Generic", "ApproximateMonomorphizationBloatBytes",
                "ApproximateMonomorphizationBloatPercent", "TotalSize", "TotalSizePercent",
                "Monomorphizations"])]


def diff_csv(out):
    return [{"v": snum(v), "n": Nm(n)} for v, n in records(out, ["DeltaBytes", "Item"])]


# ------------------------------------------------------------------- one event

def event(op, outs, extra, pos=None):
    """outs: {"text": .., "json": .., "csv": ..} as the harness reports them,
    or a dict with err/panic/crash for the request as a whole."""
    ev = {"op": op, "g": 1, "g2": 1, "err": "", "bad": ""}
    ev.update(extra)
    if "out" not in outs:
        ev["err"] = "PANIC" if ("panic" in outs or "crash" in outs) else (outs.get("err") or "?")
        ev["note"] = str(outs)[:300]
        return ev
    for f in ("text", "json", "csv"):
        o = outs["out"].get(f)
        if o is None:
            continue
        if "ok" not in o:
            ev["err"] = "PANIC" if "panic" in o else (o.get("err") or "?")
            ev["note"] = "%s: %s" % (f, str(o)[:300])
            return ev
        try:
            args = (o["ok"],)
            if op == "dominators" and f == "csv":
                args += (pos,)
            ev[f] = globals()["%s_%s" % (op, f)](*args)
        except Unreadable as e:
            ev["bad"] = f
            ev["note"] = str(e)[:300]
            return ev
    return ev


NAMECOL = {"dominators": 2, "diff": 2}


def _names(op, j):
    if op == "monos":
        return [str(x["n"]) for g in j for x in [g] + g["insts"]]
    if op == "dominators":
        return [str(x["n"]) for x in j["rows"] + j["sum"]]
    return [str(x["n"]) for x in j]


def formats_event(op, outs, ev):
    """The raw outputs behind a request's event, as languages. None if the
    request failed (which its own event tells)."""
    if "out" not in outs or ev["err"] or ev["bad"]:
        return None
    o = {f: outs["out"][f]["ok"] for f in ("text", "json", "csv")}
    hdr, rows = table(o["text"], {"monos": 5, "diff": 2}.get(op, 3))
    rule = o["text"].split("\n")[1]
    return {"op": "formats", "g": 1, "g2": 1, "err": "", "bad": "", "raw": o, "hdr": hdr,
            "cells": rows, "lastw": len(rule.split("┼")[-1]) - 1,
            "jnames": _names(op, ev["json"]), "cnames": [str(x["n"]) for x in ev["csv"]],
            "ncol": NAMECOL.get(op, 1)}
