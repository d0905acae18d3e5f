"""C29-C32: parsers and utilities."""
import contextlib
import random as pyrandom
import re
import sys

import numpy as np
from hypothesis import strategies as st

from ..core import Prop, Sub, Violation, require
from .lp_core import raises

# ---------------------------------------------------------------------------- C29 GraphParser
WORD = "abcdefgxyzABCZ0123456789_éΩß中"


def is_word(ch):
    return ch == "_" or ch.isalnum()


def is_number(t):
    parts = t.split(".")
    return 1 <= len(parts) <= 2 and all(p and all(c in "0123456789" for c in p) for p in parts)


def classify(text):
    """Independent reading of the four formats: 0 'ab cd', 1 'name-name', 2 'ab:2.5', 3 'name-name:2.5'."""
    kinds = set()
    items = []
    for tok in re.split(r"[ \t]", text):
        name, colon, num = tok.partition(":")
        if colon and not is_number(num):
            return -1, None
        w = float(num) if colon else 0.0
        if "-" in name:
            a, _, b = name.partition("-")
            if not a or not b or not all(map(is_word, a + b)):
                return -1, None
            kinds.add(3 if colon else 1)
        else:
            if len(name) != 2 or not all(map(is_word, name)):
                return -1, None
            a, b = name
            kinds.add(2 if colon else 0)
        items.append((a, b, w))
    if len(kinds) != 1:
        return -1, None
    return kinds.pop(), items


@st.composite
def graph_texts(draw):
    kind = draw(st.integers(0, 3))
    k = draw(st.sampled_from([1, 1, 2, 3, 5, 9]))
    ch = st.sampled_from(WORD)
    name = ch if kind in (0, 2) else st.text(alphabet=WORD, min_size=1, max_size=6)
    num = st.one_of(st.integers(0, 99999).map(str), st.tuples(st.integers(0, 999), st.text(alphabet="0123456789", min_size=1, max_size=6)).map(lambda t: f"{t[0]}.{t[1]}"),
                    st.sampled_from(["0", "00", "007", "1.0", "0.5", "10.250", "3.14159", "1234567890123.5", "0.12345678901234567", "98765432109876543210", "0000000000000001.25"]))
    toks = []
    for _ in range(k):
        t = draw(name) + ("-" if kind in (1, 3) else "") + draw(name)
        if kind in (2, 3):
            t += ":" + draw(num)
        toks.append(t)
    text = " ".join(toks)
    if draw(st.integers(0, 2)) == 0:
        how = draw(st.sampled_from(["insert", "delete", "replace", "append", "swap", "join", "mix"]))
        i = draw(st.integers(0, max(0, len(text) - 1)))
        c = draw(st.sampled_from(list(" -:.,;ab1 +=>_") + ["  ", ": ", "--", "->", "1.", ".5", "-1"]))
        if how == "insert":
            text = text[:i] + c + text[i:]
        elif how == "delete":
            text = text[:i] + text[i + 1:]
        elif how == "replace":
            text = text[:i] + c + text[i + 1:]
        elif how == "append":
            text = draw(st.sampled_from([text + c, c + text, text + "\n", "\n" + text]))
        elif how == "swap":
            text = text[:i] + text[i + 1:i + 2] + text[i:i + 1] + text[i + 2:]
        elif how == "mix":
            text += " " + draw(st.sampled_from(["ab", "a-b", "ab:1", "a-b:1", "abc", "node-1:2.5"]))
        else:
            text = text.replace(" ", draw(st.sampled_from(["", ",", "  ", "\t", ";"])))
    return {"text": text}


def run_graph_text(case, ctx):
    from pytimize.parsers import GraphParser

    text = case["text"]
    kind, items = classify(text)
    ctx.label(f"format {kind}")
    ctx.nontrivial(kind == -1 or len(items) > 1)
    require(GraphParser.get_expression_type(text) == kind, lambda: f"get_expression_type({text!r}) = {GraphParser.get_expression_type(text)}, expected {kind}")
    if kind == -1:
        raises((ValueError,), lambda: GraphParser.parse(text), f"parse({text!r})")
        return
    got = GraphParser.parse(text)
    require([tuple(t) for t in got] == items, lambda: f"parse({text!r}) = {got}, expected {items}")
    if isinstance(got, list):  # the caller may do as he likes with the list
        del got[-1]
        got.append(("q", "q", 99.0))
        got = GraphParser.parse(text)
        require([tuple(t) for t in got] == items, lambda: f"parse({text!r}) = {got} after a change of the list returned before, expected {items}")


C29 = Prop(
    "C29",
    "Texts in the four formats (one to nine edges, word characters of several scripts, integer and decimal weights) and texts with one "
    "edit; the result against an independent hand-written reader. Non-trivial: ill-formed, or at least two edges.",
    [Sub("graph", graph_texts, run_graph_text, 4000)],
    ["line breaks only at the ends and no digits outside 0-9 in weights"],
)


# -------------------------------------------------------------------------- C30 LinearParser
def read_linear(text):
    """[(sign)number x_ index]+ with the first sign '-' or absent; None if ill-formed."""
    out, i, first = [], 0, True
    while i < len(text) or first:
        sign = ""
        if i < len(text) and text[i] in "+-":
            sign = text[i]
            i += 1
        if first and sign == "+" or not first and not sign:
            return None
        j = i
        while j < len(text) and text[j] in "0123456789":
            j += 1
        if j == i:
            return None
        if j < len(text) and text[j] == ".":
            k = j + 1
            while k < len(text) and text[k] in "0123456789":
                k += 1
            if k == j + 1:
                return None
            j = k
        num = text[i:j]
        if text[j:j + 2] != "x_":
            return None
        k = j + 2
        while k < len(text) and text[k] in "0123456789":
            k += 1
        if k == j + 2:
            return None
        out.append((-float(num) if sign == "-" else float(num), int(text[j + 2:k])))
        i, first = k, False
    return out


@st.composite
def linear_texts(draw):
    k = draw(st.sampled_from([1, 1, 2, 3, 4, 6, 9, 13]))
    idx = draw(st.permutations([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 31, 100, 123]))[:k]
    num = st.one_of(st.integers(0, 99999).map(str), st.tuples(st.integers(0, 999), st.text(alphabet="0123456789", min_size=1, max_size=6)).map(lambda t: f"{t[0]}.{t[1]}"),
                    st.sampled_from(["0", "007", "1.0", "10.250", "1234567890123.5", "0.12345678901234567", "0000000000000001.25"]))
    text = ""
    for i in idx:
        s = draw(st.sampled_from(["+", "-"])) if text else draw(st.sampled_from(["", "-"]))
        text += f"{s}{draw(num)}x_{i}"
    how = draw(st.sampled_from(["none"] * 8 + ["insert", "delete", "replace", "swap", "dup", "zero", "append"]))
    i = draw(st.integers(0, len(text) - 1))
    c = draw(st.sampled_from(list("+-|. x_0129*y") + ["--", "+-", "1", "x_", "x_1"]))
    if how == "insert":
        text = text[:i] + c + text[i:]
    elif how == "delete":
        text = text[:i] + text[i + 1:]
    elif how == "replace":
        text = text[:i] + c + text[i + 1:]
    elif how == "swap":
        text = text[:i] + text[i + 1:i + 2] + text[i:i + 1] + text[i + 2:]
    elif how == "dup":
        text += f"+2x_{draw(st.sampled_from(idx))}"
    elif how == "zero":
        text += "-3x_0"
    elif how == "append":
        text += draw(st.sampled_from(["+", "-", " ", "+x_2", "+2", "|2x_9", "=3", "\n"]))
    return {"text": text, "size": draw(st.sampled_from([None, None, None, 0, 1, 3, 6])), "at": draw(st.sampled_from([0, 1, 2, 0, 1, 2, 12, 70]))}


def run_linear_text(case, ctx):
    from pytimize.parsers import LinearParser

    text = case["text"]
    terms = read_linear(text)
    require(bool(LinearParser.validate_expression(text)) == (terms is not None), lambda: f"validate_expression({text!r}) = {LinearParser.validate_expression(text)}")
    bad = terms is None or len({i for _, i in terms}) < len(terms) or any(i < 1 for _, i in terms)
    if terms and any(i > 10 ** 5 for _, i in terms):
        return
    ctx.nontrivial(bad or len(terms) > 1)
    ctx.label("ill-formed" if terms is None else "repeated or zero index" if bad else "well-formed")
    others = ["1x_1", "-2.5x_3+4x_1"] * (1 if case["at"] < 3 else 40)
    several = others[: case["at"]] + [text] + others[case["at"]:]
    if bad:
        raises((Exception,), lambda: LinearParser.parse(text), f"parse({text!r})")
        raises((Exception,), lambda: LinearParser.parse_multiple(several), f"parse_multiple({several!r})")
        if terms is not None:
            n = max(4, max(i for _, i in terms))
            raises((Exception,), lambda: LinearParser.parse_multiple(several, n), f"parse_multiple({several!r}, {n})")
            raises((Exception,), lambda: LinearParser.parse_multiple([text], n - 3), f"parse_multiple({[text]!r}, {n - 3})")
        return
    LinearParser.parse_multiple(several)
    top = max(i for _, i in terms)

    def check(got, n, what):
        a = np.asarray(got)
        require(a.shape == (1, n), lambda: f"{what} has shape {a.shape}, expected (1, {n})")
        want = [0.0] * n
        for v, i in terms:
            want[i - 1] = v
        require([float(v) for v in a[0]] == want, lambda: f"{what} = {a.tolist()}, expected {want}")
        if isinstance(got, np.ndarray):  # the caller may do as he likes with the row
            got += 7

    check(LinearParser.parse(text), top, f"parse({text!r})")
    check(LinearParser.parse(text), top, f"parse({text!r})")
    if case["size"] is not None:
        if case["size"] == 0:
            raises((Exception,), lambda: LinearParser.parse(text, top - 1), f"parse({text!r}, {top - 1})")
            few = ["2x_1"][: top - 1] * case["at"] + [text]
            raises((Exception,), lambda: LinearParser.parse_multiple(few, top - 1), f"parse_multiple({few!r}, {top - 1})")
            LinearParser.parse_multiple(several, max(top, 4))
        else:
            n = top + case["size"] - 1
            check(LinearParser.parse(text, n), n, f"parse({text!r}, {n})")


C30 = Prop(
    "C30",
    "Expressions with one to six terms, integer and decimal coefficients, unordered indices, with and without a size, and the same with one "
    "edit, a repeated index or index zero; the vector against an independent hand-written reader. Non-trivial: at least two terms, or ill-formed.",
    [Sub("linear", linear_texts, run_linear_text, 4000)],
    ["line breaks only at the end and ASCII digits only"],
)


# ----------------------------------------------------------------------------- C31 Comparator
@st.composite
def compare_cases(draw):
    base = draw(st.one_of(st.sampled_from([0, 0, 1, -1, 0.5, 3, 100, -7.25, 1e6, -1e6, 0.001]), st.integers(-1000, 1000), st.floats(-1e4, 1e4)))
    if 0 < abs(base) < 1e-3:
        base = 0
    # (kind, value) pairs: clearly below, equal up to rounding, or clearly above the base
    k = draw(st.sampled_from([1, 2, 3, 5]))
    rel = draw(st.lists(st.sampled_from([-1, 0, 0, 1]), min_size=k, max_size=k))
    eps = draw(st.lists(st.sampled_from([0, 1e-13, -1e-13, 3e-14]), min_size=k, max_size=k))
    far = draw(st.lists(st.sampled_from([1, 0.5, 2, 0.01, 100, 1e-3] + [1e-6] * (base == 0)), min_size=k, max_size=k))
    return {"base": base, "rel": rel, "eps": eps, "far": far, "array": draw(st.sampled_from([False, True])), "bad": draw(st.sampled_from(["=", "==", "!=", "=>", "", "<<", "=<"])),
            "ints": draw(st.lists(st.tuples(st.integers(-10 ** 4, 10 ** 4), st.sampled_from([0, 0, 0, 1e-12, -1e-12, 0.25, 0.5, -0.001, 1e-6, 0.999])).map(list), min_size=1, max_size=4)),
            "intbase": draw(st.booleans())}


def run_compare(case, ctx):
    from pytimize.utilities import Comparator as C

    t = case["base"]
    scale = 1 + abs(t)
    vals = [float(t + (r * f * scale if r else e * scale)) if t or r or e else 0 for r, f, e in zip(case["rel"], case["far"], case["eps"])]
    truth = {"<": lambda r: r < 0, "<=": lambda r: r <= 0, ">": lambda r: r > 0, ">=": lambda r: r >= 0}
    ctx.label("zero" if t == 0 else "nonzero", "array" if case["array"] else "scalar")
    ctx.nontrivial(any(e for e, r in zip(case["eps"], case["rel"]) if r == 0) or len(set(case["rel"])) > 1)
    for op, f in truth.items():
        if case["array"]:
            got = C.is_close_compare(np.array(vals), op, t)
            want = all(f(r) for r in case["rel"])
            require(bool(got) == want, lambda: f"{vals} {op} {t} is {got}, expected {want}")
            for a in ([vals, vals[::-1]], [[v] for v in vals], [vals, [vals[0]] * len(vals)]):  # several rows
                got = C.is_close_compare(np.array(a), op, t)
                require(bool(got) == want, lambda: f"{a} {op} {t} is {got}, expected {want}")
        else:
            for v, r in zip(vals, case["rel"]):
                got = C.is_close_compare(v, op, t)
                require(bool(got) == f(r), lambda: f"{v!r} {op} {t} is {got}, expected {f(r)}")
    raises((ValueError,), lambda: C.is_close_compare(vals[0], case["bad"], t), f"comparison with {case['bad']!r}")
    if t == 0:
        for name, g, f in (("is_negative", C.is_negative, truth["<"]), ("is_positive", C.is_positive, truth[">"]), ("is_close_to_zero", C.is_close_to_zero, lambda r: r == 0)):
            for v, r in zip(vals, case["rel"]):
                require(bool(g(v)) == f(r), lambda: f"{name}({v!r}) = {g(v)}")
            got = g(np.array(vals))
            if len(vals) > 1 and name != "is_close_to_zero":
                require(bool(g(np.array([vals, vals]).T)) == all(f(r) for r in case["rel"]), lambda: f"{name} of columns {vals}")
            if name == "is_close_to_zero":
                require(np.asarray(g(np.array([vals, vals]))).tolist() == [[f(r) for r in case["rel"]]] * 2, lambda: f"{name}({[vals, vals]})")
                require([bool(x) for x in got] == [f(r) for r in case["rel"]], lambda: f"{name}({vals}) = {got}")
            else:
                require(bool(got) == all(f(r) for r in case["rel"]), lambda: f"{name}({vals}) = {got}")
    whole = []
    for i, e in case["ints"]:
        v = float(i + e) if e or case["intbase"] else i
        ok = abs(e) < 1e-9
        whole.append((v, ok))
        require(bool(C.is_integer(v)) == ok, lambda: f"is_integer({v!r}) = {C.is_integer(v)}")
    arr = np.array([float(v) for v, _ in whole])
    require(bool(C.is_integer(np.array([arr, arr + 1]).T)) == all(ok for _, ok in whole), lambda: f"is_integer of the columns {arr.tolist()} and one more")
    require(bool(C.is_integer(arr)) == all(ok for _, ok in whole), lambda: f"is_integer({arr.tolist()}) = {C.is_integer(arr)}")


C31 = Prop(
    "C31",
    "Base values and values that are clearly below, equal up to rounding (1e-13 relative) or clearly above them (scalars and arrays); integers with "
    "no, tiny and visible fractions. Non-trivial: some value differs from the base only by rounding, or the values of an array disagree.",
    [Sub("compare", compare_cases, run_compare, 3000)],
    ["differences between rounding size and 1e-3 of the value (1e-6 at zero) are not judged"],
)


# ----------------------------------------------------------------------------- C32 DisjointSet
@st.composite
def set_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 8, 13, 40, 150]))
    shape = draw(st.sampled_from(["random", "random", "chain", "star", "pairs"]))
    k = draw(st.sampled_from([0, 1, n // 2, n, n + 3]))
    i = st.integers(0, n - 1)
    if shape == "random":
        ops = draw(st.lists(st.tuples(i, i).map(list), min_size=k, max_size=k))
    elif shape == "chain":
        ops = [[j, j + 1] for j in range(min(k, n - 1))]
    elif shape == "star":
        ops = [[0, j] for j in range(1, min(k + 1, n))]
    else:
        ops, step = [], 1
        while step < n:
            ops += [[j, j + step] for j in range(0, n - step, 2 * step)]
            step *= 2
    if draw(st.booleans()):
        ops = [o[::-1] for o in ops]
    if ops:
        order = draw(st.sampled_from(["given", "permuted", "backwards"]))
        ops = draw(st.permutations(ops)) if order == "permuted" else ops[::-1] if order == "backwards" else ops
    finds = draw(st.lists(st.tuples(st.integers(0, max(0, len(ops))), i).map(list), max_size=8))
    return {"n": n, "ops": [list(o) for o in ops], "finds": finds, "names": draw(st.sampled_from(["s", "i", "t"]))}


def run_set(case, ctx):
    from pytimize.utilities import DisjointSet

    n = case["n"]
    N = [f"item {j}" if case["names"] == "s" else j if case["names"] == "i" else ("t", j) for j in range(n)]
    items = list(N)
    d = DisjointSet(items)
    require(items == N, "the constructor changed its argument")
    raises((ValueError,), lambda: DisjointSet(N + [N[0]]), "a collection with duplicates")
    label = list(range(n))
    for step, (a, b) in enumerate(case["ops"] + [[0, 0]]):
        for at, x in case["finds"]:
            if at == step:
                r = d.find(N[x])
                require(r in N and label[N.index(r)] == label[x], lambda: f"find({N[x]!r}) = {r!r}, which is not in its set")
                require(d.find(N[x]) == r and d.find(r) == r, "the representative changes without a union")
        require(d.union(N[a], N[b]) is None, "union returns a value")
        la, lb = label[a], label[b]
        label = [la if v == lb else v for v in label]
        if n <= 13 or step % 16 == 0:
            require((d.find(N[a]) == d.find(N[b])), f"{N[a]!r} and {N[b]!r} are apart after their union")
    reps = {}
    for j in range(n):
        r = d.find(N[j])
        require(r in N, f"find({N[j]!r}) = {r!r}")
        require(label[N.index(r)] == label[j], lambda: f"the representative {r!r} of {N[j]!r} is not in its set")
        require(reps.setdefault(label[j], r) == r, lambda: f"one set has representatives {r!r} and {reps[label[j]]!r}")
    require(len(set(reps.values())) == len(reps), "two sets share a representative")
    for f in (lambda: d.find("missing"), lambda: d.union(N[0], "missing"), lambda: d.union("missing", N[0])):
        raises((ValueError,), f, "an element that is not in the collection")
    for j in range(n):
        require(d.find(N[j]) == reps[label[j]], "a refused operation changed a representative")
    ctx.nontrivial(len(reps) < n and n > 2)


@st.composite
def long_sets(draw):
    return {"n": draw(st.integers(1500, 4000)), "shape": draw(st.sampled_from(["chain", "star", "pairs", "random"])), "back": draw(st.booleans()),
            "swap": draw(st.booleans()), "cut": draw(st.integers(0, 1400)), "seed": draw(st.integers(0, 999))}


@contextlib.contextmanager
def usual_depth():
    """The recursion limit of an ordinary interpreter (hypothesis raises it)."""
    old, depth, f = sys.getrecursionlimit(), 0, sys._getframe()
    while f is not None:
        f, depth = f.f_back, depth + 1
    sys.setrecursionlimit(depth + 950)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def run_long(case, ctx):
    """Thousands of items in chains, stars and trees: representatives stay reachable and sets apart."""
    from pytimize.utilities import DisjointSet

    n, cut = case["n"], case["cut"]
    rng = pyrandom.Random(case["seed"])
    ops = ([[j, j + 1] for j in range(n - 1)] if case["shape"] == "chain" else [[cut + 1, j] for j in range(cut + 2, n)] + [[0, j] for j in range(1, cut + 1)]
           if case["shape"] == "star" else [[j, j + 2 ** k] for k in range(13) for j in range(0, n - 2 ** k, 2 ** (k + 1))]
           if case["shape"] == "pairs" else [[rng.randrange(j), j] for j in range(1, n)])
    ops = [o for o in ops if (o[0] <= cut) == (o[1] <= cut)]  # nothing joins the items up to the cut with the rest
    ops = [o[::-1] for o in ops] if case["swap"] else ops
    ops = ops[::-1] if case["back"] else ops
    N = [f"item {j}" for j in range(n)]
    d = DisjointSet(list(N))
    parent = list(range(n))

    def top(j):
        while parent[j] != j:
            parent[j] = parent[parent[j]]
            j = parent[j]
        return j

    with usual_depth():
        for a, b in ops:
            d.union(N[a], N[b])
            parent[top(a)] = top(b)
    number = {v: j for j, v in enumerate(N)}
    reps = {}
    with usual_depth():
        found = [(j, d.find(N[j])) for j in [cut + 1, n - 1] + rng.sample(range(n), n)]
    for j, r in found:
        require(r in number, f"find({N[j]!r}) = {r!r}")
        require(top(number[r]) == top(j), lambda: f"the representative {r!r} of {N[j]!r} is not in its set")
        require(reps.setdefault(top(j), r) == r, lambda: f"one set has representatives {r!r} and {reps[top(j)]!r}")
    require(len(set(reps.values())) == len(reps), "two sets share a representative")
    ctx.label(case["shape"])
    ctx.nontrivial()


C32 = Prop(
    "C32",
    "Histories of unions and finds (random, chains, stars, balanced pairings; up to 150 items of several types, and up to 4000 in the long histories) "
    "against a labelled partition, plus refused operations. Non-trivial: at least three items and one effective union.",
    [Sub("history", set_cases, run_set, 2400), Sub("long", long_sets, run_long, 60, steps=30_000_000)],
)

PROPS = [C29, C30, C31, C32]
