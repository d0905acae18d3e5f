"""C21-C28: undirected and directed graphs."""
import heapq
import itertools
import random as pyrandom
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from ..core import STEPS, Prop, Sub, Violation, require
from ..exact import solve_sef
from ..lpgen import close, scribble
from .lp_core import raises

PLAIN = list("abcdefgh")
ODD = ["a", "b", "ab", "ba", "abc", "c", "A", "B", "10", "2", "é", "x y", "node one", "z", "_", "bc", "a1", "Ω", "aa", "0"]
AGES = st.sampled_from([0] * 7 + [5, 6, 11, 13, 18, 23, 29])  # not zero: see undirected and digraph
WEIGHTS = [0, 0, 1, 1, 2, 3, 5, 0.5, 2.25, 7, 10, 100, 1000000]


def names_for(draw, k):
    pool = draw(st.sampled_from([PLAIN, ODD, ODD]))
    if k > len(pool) or draw(st.integers(0, 5)) == 0:
        return [f"v{i}" for i in range(k)]
    return draw(st.permutations(pool))[:k]


def fixed(draw, element, lengths):
    k = draw(st.sampled_from(lengths))
    return draw(st.lists(element, min_size=k, max_size=k))


def count(draw, lo, hi):
    """Uniform sizes with the larger half twice as likely."""
    return draw(st.sampled_from(list(range(lo, hi + 1)) + list(range((lo + hi + 1) // 2, hi + 1))))


def two_ends(draw, n):
    """Two positions, rarely equal."""
    s = draw(st.integers(0, n - 1))
    return s, s if n == 1 or draw(st.sampled_from([0] * 11 + [1])) else (s + draw(st.sampled_from(list(range(1, n))))) % n


@st.composite
def edge_sets(draw, min_n=1, max_n=8, weights=WEIGHTS, shapes=None):
    """vertex names, edges as (i, j, weight) with i != j, no duplicate pairs; many shapes."""
    n = count(draw, min_n, max_n)
    names = names_for(draw, n)
    shape = draw(st.sampled_from(shapes or ["random", "random", "sparse", "forest", "tree", "path", "cycle", "two", "complete", "star", "grid"]))
    w = st.sampled_from(weights)
    pairs = []
    if shape in ("random", "complete"):
        allp = list(itertools.combinations(range(n), 2))
        pairs = allp if shape == "complete" else [p for p in allp if draw(st.integers(0, 2)) > 0]
    elif shape == "sparse":
        allp = list(itertools.combinations(range(n), 2))
        pairs = draw(st.permutations(allp))[: draw(st.sampled_from([0, 1, n // 2, n - 1, n, n + 1]))] if allp else []
    elif shape in ("tree", "forest"):
        for i in range(1, n):
            if shape == "tree" or draw(st.integers(0, 3)):
                pairs.append((draw(st.integers(0, i - 1)), i))
        if n > 2 and draw(st.integers(0, 2)) == 0:  # one edge more than a tree
            extra = draw(st.sampled_from(list(itertools.combinations(range(n), 2))))
            if extra not in pairs:
                pairs.append(extra)
    elif shape in ("path", "cycle"):
        pairs = [(i, i + 1) for i in range(n - 1)]
        if shape == "cycle" and n > 2:
            pairs.append((0, n - 1))
    elif shape == "star":
        pairs = [(0, i) for i in range(1, n)]
    elif shape == "grid":
        k = 3
        for i in range(n):
            if i + 1 < n and (i + 1) % k:
                pairs.append((i, i + 1))
            if i + k < n:
                pairs.append((i, i + k))
    else:  # two dense parts, possibly not joined
        h = draw(st.sampled_from([n // 2, n // 2, n - 1, max(n - 2, 0), n // 3]))
        pairs = [p for p in itertools.combinations(range(n), 2) if (p[0] < h) == (p[1] < h)]
        if n > 1 and draw(st.booleans()) and h:
            pairs.append((draw(st.integers(0, h - 1)), draw(st.integers(h, n - 1))))
    pairs = draw(st.permutations(pairs)) if pairs else []
    edges = [[*(p if draw(st.booleans()) else p[::-1]), draw(w)] for p in pairs]
    return {"names": list(names), "edges": edges, "vw": draw(st.lists(w, min_size=n, max_size=n)), "how": draw(st.sampled_from(["add", "add", "dict", "graph", "edges"])),
            "shape": shape, "age": draw(AGES)}


@st.composite
def big_edge_sets(draw, lo, hi, weights=WEIGHTS, shapes=None):
    """Larger graphs from one drawn seed: thresholds on the size of a graph are as wrong as any other special case."""
    n = draw(st.integers(lo, hi))
    shape = draw(st.sampled_from(shapes or ["path", "cycle", "tree", "unicyclic", "grid", "sparse", "dense", "two", "forest", "star", "pieces", "pieces", "tail", "block"]))
    rng = pyrandom.Random(draw(st.integers(0, 10 ** 6)))
    names = [f"v{i}" for i in range(n)] if rng.random() < 0.5 else [f"{'ab'[i % 2]}{i // 2}" for i in range(n)]
    pairs = set()
    if shape in ("path", "cycle"):
        pairs = {(i, i + 1) for i in range(n - 1)} | ({(0, n - 1)} if shape == "cycle" else set())
    elif shape in ("tree", "unicyclic", "forest"):
        pairs = {(rng.randrange(max(0, i - rng.choice([2, 3, n])), i), i) for i in range(1, n) if shape != "forest" or i % 7}
        if shape == "unicyclic":
            pairs.add(tuple(sorted(rng.sample(range(n), 2))))
    elif shape == "grid":
        k = rng.randint(3, 6)
        pairs = {(i, i + 1) for i in range(n - 1) if (i + 1) % k} | {(i, i + k) for i in range(n - k)}
    elif shape == "star":
        pairs = {(0, i) for i in range(1, n)}
    elif shape == "pieces":  # trees of all sizes, at most one of them with a cycle
        first, cyclic = 0, rng.random() < 0.6
        while first < n:
            k = min(n - first, rng.choice([1, 2, 3, 3, 4, 5, 8, 13, 21]))
            pairs |= {(first + rng.randrange(i), first + i) for i in range(1, k)}
            if cyclic and k > 2 and (rng.random() < 0.4 or first + k >= n):
                pairs.add(tuple(sorted(rng.sample(range(first, first + k), 2))))
                pairs.add((first, first + k - 1))
                cyclic = False
            first += k
    elif shape == "tail":  # one big tree beside one small cycle (or a small tree)
        k = min(rng.choice([3, 3, 4, 5]), n - 1)
        pairs = {(rng.randrange(max(0, i - rng.choice([1, 3, n])), i), i) for i in range(1, n - k)} | {(i, i + 1) for i in range(n - k, n - 1)}
        if k > 2 and rng.random() < 0.8:
            pairs.add((n - k, n - 1))
    elif shape == "block":  # complete on some vertices, nothing on the others
        k = min(rng.choice([n - 1, n - 2, n - 3, n // 2]), 16)
        pairs = set(itertools.combinations(range(k), 2))
    elif shape == "two":
        pairs = {tuple(sorted(rng.sample(range(n // 2), 2))) for _ in range(n)} | {tuple(sorted(rng.sample(range(n // 2, n), 2))) for _ in range(n)}
        if rng.random() < 0.5:
            pairs.add((0, n - 1))
    else:
        pairs = {tuple(sorted(rng.sample(range(n), 2))) for _ in range(rng.choice([n // 2, n, 2 * n]) if shape == "sparse" else 5 * n)}
    where = rng.sample(range(n), n)
    pairs = [(where[i], where[j]) for i, j in rng.sample(sorted(pairs), len(pairs))]
    return {"names": names, "edges": [[*(p if rng.random() < 0.5 else p[::-1]), rng.choice(weights)] for p in pairs], "vw": [rng.choice(weights) for _ in range(n)],
            "how": draw(st.sampled_from(["add", "dict", "graph", "edges"])), "shape": shape, "age": draw(AGES) if n < 50 else 0}


def ask_all(ask):
    """The answers do not matter, and the caller may do with them what it likes."""
    with STEPS.within(1_000_000):
        for f in ask:
            try:
                scribble(f())
            except Exception:
                pass


def other_lines(lines, n, age, ordered):
    """As many lines as given: up to two join other nodes and some weights differ, so that only the contents tell the two graphs apart."""
    rng = pyrandom.Random(age)
    lines = [[i, j, w if rng.random() < 0.5 else w + rng.choice([1, 2, 9])] for i, j, w in lines]
    key = (lambda i, j: (i, j)) if ordered else (lambda i, j: (min(i, j), max(i, j)))
    used = {key(i, j) for i, j, _ in lines}
    for _ in range(rng.choice([0, 1, 1, 2, 2])):
        if lines and n > 2:
            k = rng.randrange(len(lines))
            i, j = rng.sample(range(n), 2)
            if key(i, j) not in used:
                used.discard(key(*lines[k][:2]))
                used.add(key(i, j))
                lines[k] = [i, j, lines[k][2]]
    return lines


def ask_undirected(g, case):
    N = case["names"]
    few = N if len(N) <= 6 else [N[0], N[-1], N[case.get("s", 0) % len(N)], N[case.get("t", 0) % len(N)], N[case.get("start", 0) % len(N)]]
    ask = [g.is_connected, g.is_cyclic, g.is_tree, g.is_empty, g.partition, lambda: repr(g), lambda: g == g.copy(), lambda: g.edges, lambda: g.vertices, lambda: g.graph]
    ask += [lambda v=v, f=f: f(v) for v in few for f in (g.bfs, g.dfs, g.cut, g.degree)]
    ask += [lambda q=[N[i] for i in q], f=f: f(set(q)) for q in case.get("sets", []) for f in (g.cut, g.degree)]
    ask += [lambda a=a, b=b: g.shortest_path(a, b) for a, b in itertools.permutations(dict.fromkeys(few), 2)]
    if len(N) <= 7:
        ask += [lambda: g.formulate_max_stable_set(), lambda: g.formulate_shortest_path(N[case.get("s", 0) % len(N)], N[case.get("t", 1) % len(N)])]
    ask_all(ask)


def undirected(case, strict=False):
    """The same graph, built through one of the constructors or by additions, or turned into it from another graph that has answered questions before."""
    if not case.get("age"):
        return new_undirected(case)
    N, n = case["names"], len(case["names"])
    g = new_undirected(dict(case, edges=other_lines(case["edges"], n, case["age"], False), vw=[w + (case["age"] >> i & 1) for i, w in enumerate(case["vw"])]))
    ask_undirected(g, case)
    pair = lambda i, j: tuple(sorted((N[i], N[j])))
    want, have = {pair(i, j): w for i, j, w in case["edges"]}, norm_edges(g.edges)
    for e in sorted(set(have) - set(want)):
        g.remove_edge(e)
    for e in sorted(set(want) - set(have)):
        g.add_edge(e, want[e])
    for e in sorted(set(want) & set(have)):
        if have[e] != want[e]:
            g.set_edge_weight(e, want[e])
    for v, w in zip(N, case["vw"]):
        if g.get_vertex_weight(v) != w:
            g.set_vertex_weight(v, w)
    try:
        check_graph(g, umodel(case), "after edits of a graph that answered questions")
    except Violation:
        if strict:
            raise
        return new_undirected(case)  # what the edits do is for C21 to judge
    return g


def new_undirected(case):
    from pytimize.graphs import UndirectedGraph

    N = case["names"]
    E = {(N[i], N[j]): w for i, j, w in case["edges"]}
    V = dict(zip(N, case["vw"]))
    how = case["how"]
    if how == "dict":
        return UndirectedGraph(edges=E, vertices=V)
    if how == "graph":
        adj = {v: set() for v in N}
        for a, b in E:
            adj[a].add(b)
            adj[b].add(a)
        return UndirectedGraph(adj, E, V)
    g = UndirectedGraph(edges=E) if how == "edges" else UndirectedGraph()
    if how == "add":
        for v in N[::2]:
            g.add_vertex(v, V[v])
        for e, w in E.items():
            g.add_edge(e, w)
    for v in N:
        if g.has_vertex(v):
            g.set_vertex_weight(v, V[v])
        else:
            g.add_vertex(v, V[v])
    return g


class UModel:
    def __init__(self, v=None, e=None):
        self.v, self.e = dict(v or {}), dict(e or {})

    def copy(self):
        return UModel(self.v, self.e)

    def adj(self, u=None):
        d = {v: set() for v in self.v}
        for a, b in self.e:
            d[a].add(b)
            d[b].add(a)
        return d if u is None else d[u]


def umodel(case):
    N = case["names"]
    return UModel(dict(zip(N, case["vw"])), {tuple(sorted((N[i], N[j]))): w for i, j, w in case["edges"]})


def norm_edges(d):
    out = {}
    for k, w in d.items():
        k2 = tuple(sorted(k))
        require(k2 not in out, f"edge {k2} listed twice")
        out[k2] = w
    return out


def check_graph(g, m, what):
    require(dict(g.vertices) == m.v, lambda: f"{what}: vertices {g.vertices}, expected {m.v}")
    require(norm_edges(g.edges) == m.e, lambda: f"{what}: edges {g.edges}, expected {m.e}")
    require({k: set(v) for k, v in g.graph.items()} == m.adj(), lambda: f"{what}: adjacency {g.graph}, expected {m.adj()}")


# -------------------------------------------------------------------------- C21 state machine
@st.composite
def uhistories(draw):
    n = count(draw, 2, 9)
    names = names_for(draw, n)
    i = st.integers(0, n - 1)
    w = st.sampled_from([0, 1, 2.5, 3, 7, 100])
    wneg = st.sampled_from([0, 1, 2.5, 3, -1, -0.5])
    ops = fixed(draw, st.one_of(
        st.tuples(st.just("add_edge"), i, i, wneg), st.tuples(st.just("add_edge"), i, i, w), st.tuples(st.just("add_edge"), i, i, w), st.tuples(st.just("add_edge0"), i, i, w),
        st.tuples(st.just("remove_edge"), i, i, w),
        st.tuples(st.just("remove_edge"), i, i, w), st.tuples(st.just("add_vertex"), i, i, wneg), st.tuples(st.just("set_edge"), i, i, w),
        st.tuples(st.just("set_vertex"), i, i, w), st.tuples(st.just("get"), i, i, w), st.tuples(st.just("copy"), i, i, w),
        st.tuples(st.just("views"), i, i, w), st.tuples(st.just("empty_name"), i, i, w), st.tuples(st.just("switch"), i, i, w),
        st.tuples(st.just("rebuild"), i, i, w), st.tuples(st.just("readd"), i, i, w), *[st.tuples(st.just(k), i, i, w) for k in (
            "at remove_edge", "at remove_edge", "at readd", "at set_edge", "at add_edge", "at get")]).map(list), [2, 6, 10, 14, 18, 22, 26])
    start = draw(st.one_of(st.none(), edge_sets(1, 5)))
    return {"names": list(names), "ops": ops, "start": start, "asym": draw(st.booleans())}


def run_uhistory(case, ctx):
    from pytimize.graphs import UndirectedGraph

    N = case["names"]
    if case["start"] is None:
        pool = [(UndirectedGraph(), UModel())]
    else:
        g = undirected(case["start"], True)
        pool = [(g, umodel(case["start"]))]
        check_graph(g, pool[0][1], "after construction")
        if case["asym"]:  # adjacency that names each edge from one side only
            s = case["start"]
            adj = {v: set() for v in s["names"]}
            for a, b, _ in s["edges"]:
                adj[s["names"][a]].add(s["names"][b])
            check_graph(UndirectedGraph(adj), UModel({v: 0 for v in adj}, {k: 0 for k in pool[0][1].e}), "built from one-sided adjacency")
            require(all(isinstance(v, set) for v in adj.values()), "constructor changed its argument")
    cur = 0
    changed = 0
    for k, a, b, w in case["ops"]:
        g, m = pool[cur]
        u, v = N[a], N[b]
        if k[:3] == "at ":  # an edge that is there (for additions, one that is not)
            k = k[3:]
            there = sorted(m.e) if k != "add_edge" else sorted(p for p in itertools.combinations(sorted(N), 2) if p not in m.e)
            if there:
                u, v = there[(7 * a + b) % len(there)]
                u, v = (v, u) if (a + b) % 2 else (u, v)
        e = tuple(sorted((u, v)))
        before = m.copy()
        if k == "add_edge" or k == "add_edge0":
            args = () if k == "add_edge0" else (w,)
            if w < 0 or u == v or e in m.e:
                raises((ValueError,), lambda: g.add_edge((u, v), *args), f"add_edge({(u, v)}, {w})")
            else:
                g.add_edge((u, v), *args)
                m.e[e] = w if args else 0
                m.v.setdefault(u, 0)
                m.v.setdefault(v, 0)
                changed += 1
        elif k == "empty_name":
            for bad in ((u, ""), ("", u)):
                raises((ValueError,), lambda: g.add_edge(bad, w), f"add_edge({bad})")
        elif k == "remove_edge" or k == "readd":
            if e not in m.e:
                raises((ValueError,), lambda: g.remove_edge((u, v)), f"remove_edge({(u, v)})")
            else:
                g.remove_edge((u, v))
                del m.e[e]
                if k == "readd":
                    check_graph(g, m, f"after remove_edge({(u, v)})")
                    g.add_edge((v, u), w)
                    m.e[e] = w
                changed += 1
                ctx.label("removed")
        elif k == "add_vertex":
            if w < 0 or u in m.v:
                raises((ValueError,), lambda: g.add_vertex(u, w), f"add_vertex({u!r}, {w})")
            else:
                g.add_vertex(u, w)
                m.v[u] = w
                changed += 1
        elif k == "set_edge":
            if e in m.e:
                g.set_edge_weight((u, v), w)
                m.e[e] = w
            else:
                raises((ValueError,), lambda: g.set_edge_weight((u, v), w), f"set_edge_weight({(u, v)})")
        elif k == "set_vertex":
            if u in m.v:
                g.set_vertex_weight(u, w)
                m.v[u] = w
            else:
                raises((ValueError,), lambda: g.set_vertex_weight(u, w), f"set_vertex_weight({u!r})")
        elif k == "get":
            require(bool(g.has_edge((u, v))) == (e in m.e), f"has_edge({(u, v)}) = {g.has_edge((u, v))}")
            require(bool(g.has_vertex(u)) == (u in m.v), f"has_vertex({u!r}) = {g.has_vertex(u)}")
            require(bool(g.is_empty()) == (not m.v), f"is_empty() = {g.is_empty()}")
            if e in m.e:
                require(g.get_edge_weight((u, v)) == m.e[e], f"weight of {(u, v)} is {g.get_edge_weight((u, v))}, expected {m.e[e]}")
            else:
                raises((ValueError,), lambda: g.get_edge_weight((u, v)), f"get_edge_weight({(u, v)})")
            if u in m.v:
                require(g.get_vertex_weight(u) == m.v[u], f"weight of {u!r} is {g.get_vertex_weight(u)}, expected {m.v[u]}")
            else:
                raises((ValueError,), lambda: g.get_vertex_weight(u), f"get_vertex_weight({u!r})")
        elif k == "copy":
            if len(pool) < 4:
                h = g.copy()
                require(type(h) is UndirectedGraph and h is not g, "copy() is not a new graph")
                require(h == g, "a copy is not equal to the graph")
                pool.append((h, m.copy()))
                ctx.label("copy")
        elif k == "switch":
            cur = (cur + 1 + a) % len(pool)
        elif k == "rebuild":
            h = UndirectedGraph(g.graph, g.edges, g.vertices)
            check_graph(h, m, "rebuilt from its own parts")
            require(h == g and g == h, "a graph rebuilt from its own parts is not equal")
            require(not any(g == thing for thing in (None, 3, "graph", g.graph, g.edges)), "a graph equals something that is no graph")
            if m.e:
                x, y = sorted(m.e)[a % len(m.e)]
                h.set_edge_weight((y, x), m.e[(x, y)] + 1)
                require(not (h == g), "graphs with different edge weights are equal")
            if m.v:
                h = UndirectedGraph(g.graph, g.edges, g.vertices)
                x = sorted(m.v)[b % len(m.v)]
                h.set_vertex_weight(x, m.v[x] + 1)
                require(not (h == g), "graphs with different vertex weights are equal")
                h = UndirectedGraph(g.graph, g.edges, g.vertices)
                h.add_vertex("one more")
                require(not (h == g), "graphs with different vertices are equal")
        else:
            # whatever the caller does with the returned dictionaries stays with the caller
            d = g.graph
            for s in d.values():
                s.add("zz")
            d.clear()
            d = g.edges
            d[("q", "r")] = 1
            d.clear()
            g.vertices.clear()
        check_graph(g, m, f"after {k}({u!r}, {v!r}, {w})")
        # removing and re-adding never leaves anything behind in the other graphs either
        for i, (h, hm) in enumerate(pool):
            if h is not g:
                check_graph(h, hm, f"graph {i} after {k} on another graph")
    for (g, m), (h, hm) in itertools.product(pool, pool):
        require(bool(g == h) == (m.v == hm.v and m.e == hm.e), "== does not agree with the contents")
    g, m = pool[cur]
    want = sorted(f"{v}: {'-'.join(sorted(s))}" for v, s in m.adj().items())
    require(repr(g).split("\n") == (want or [""]), lambda: f"text {repr(g)!r}, expected the lines {want}")
    ctx.nontrivial(changed > 2)


C21 = Prop(
    "C21",
    "Histories of up to 26 operations (additions, removals, weights, copies, rebuilding, mutation of returned dictionaries; valid and "
    "invalid) over up to four graphs at once, names including multi-character and non-ASCII ones, compared with a dictionary model after "
    "every step. Non-trivial: at least three effective edits.",
    [Sub("history", uhistories, run_uhistory, 2400)],
)


# ------------------------------------------------------------------ C22 traversal and structure
def components(m):
    adj, left, out = m.adj(), set(m.v), []
    while left:
        s = {next(iter(sorted(left)))}
        todo = list(s)
        while todo:
            for y in adj[todo.pop()]:
                if y not in s:
                    s.add(y)
                    todo.append(y)
        out.append(s)
        left -= s
    return out


def run_structure(case, ctx):
    g, m = undirected(case), umodel(case)
    adj = m.adj()
    comps = components(m)
    n = len(m.v)
    acyclic = len(m.e) == n - len(comps)
    ctx.label(case["shape"], "cyclic" if not acyclic else "forest", f"{min(len(comps), 3)} components")
    ctx.nontrivial(n > 2 and len(m.e) > 1)
    require(bool(g.is_connected()) == (len(comps) == 1), f"is_connected() = {g.is_connected()} with {len(comps)} components")
    require(bool(g.has_spanning_tree()) == (len(comps) == 1), "has_spanning_tree() is not connectivity")
    if len(comps) > 1:
        raises((ValueError,), g.minimum_spanning_tree, "minimum_spanning_tree() of a graph in several parts")
    require(bool(g.is_cyclic()) == (not acyclic), lambda: f"is_cyclic() = {g.is_cyclic()} for {sorted(m.e)}")
    require(bool(g.is_tree()) == (acyclic and len(comps) == 1), lambda: f"is_tree() = {g.is_tree()} for {sorted(m.e)} on {n} vertices")
    start = case["names"][case["start"] % n]
    rank = {v: r for r, v in enumerate(sorted(case["names"], key=lambda v: (case["perm"][case["names"].index(v) % len(case["perm"])], v)))}
    orders = [("lexical", None, lambda v: v), ("custom", lambda v: rank[v], lambda v: rank[v])]
    comp = next(c for c in comps if start in c)
    for label, arg, key in orders:
        want, seen = [start], {start}
        for u in want:  # breadth first: neighbours in order, each vertex once
            for v in sorted(adj[u], key=key):
                if v not in seen:
                    seen.add(v)
                    want.append(v)
        got = list(g.traverse(start, "bfs", arg)) if arg else g.bfs(start)
        require(got == want, lambda: f"{label} bfs from {start!r}: {got}, expected {want}")
        if not arg:
            require(list(g.traverse(start)) == want, "traverse() is not breadth first by default")
        want, seen, stack = [], set(), [start]
        while stack:
            u = stack.pop()
            if u in seen:
                continue
            seen.add(u)
            want.append(u)
            stack.extend(sorted(adj[u] - seen, key=key))
        got = list(g.traverse(start, "dfs", arg)) if arg else g.dfs(start)
        require(len(got) == len(set(got)) and set(got) == comp, lambda: f"{label} dfs from {start!r} visits {got}, the component is {sorted(comp)}")
        require(got == want, lambda: f"{label} dfs from {start!r}: {got}, expected {want}")
    pyrandom.seed(case["start"])
    np.random.seed(case["start"])
    orders = [list(g.traverse(start, "rng")) for _ in range(30 if 2 < n < 9 else 2)]
    require(all(sorted(o) == sorted(m.v) for o in orders), lambda: f"random traversal {orders[0]} is not a permutation of {sorted(m.v)}")
    require(n <= 2 or len({tuple(o) for o in orders}) > 1, "30 random traversals are all the same")
    for f in (g.bfs, g.dfs, lambda v: list(g.traverse(v, "rng"))):
        raises((ValueError,), lambda: f("not a vertex"), "traversal from a vertex that does not exist")
    parts = g.partition()
    require(len(parts) == len(comps), lambda: f"partition() has {len(parts)} parts, there are {len(comps)} components")
    left = [(sorted(c), UModel({v: m.v[v] for v in c}, {e: w for e, w in m.e.items() if e[0] in c})) for c in comps]
    for p in parts:
        vs = sorted(p.vertices)
        match = next((t for t in left if t[0] == vs), None)
        require(match is not None, lambda: f"part {vs} is not a component")
        left.remove(match)
        check_graph(p, match[1], f"part {vs}")
        if case["mutate"]:
            p.add_edge((vs[0], "another vertex"), 5)
            if match[1].e:
                a, b = sorted(match[1].e)[0]
                p.remove_edge((b, a))
            p.set_vertex_weight(vs[0], 77)
    check_graph(g, m, "after the queries (and edits of the parts)")


@st.composite
def structure_cases(draw):
    case = draw(edge_sets(1, draw(st.sampled_from([4, 6, 8, 8, 14]))))
    case["start"] = draw(st.integers(0, 20))
    case["perm"] = draw(st.permutations(list(range(5))))
    case["mutate"] = draw(st.booleans())
    return case


@st.composite
def big_structure_cases(draw, lo, hi, shapes=None):
    case = draw(big_edge_sets(lo, hi, shapes=shapes))
    case["start"] = draw(st.integers(0, hi))
    case["perm"] = draw(st.permutations(list(range(5))))
    case["mutate"] = draw(st.booleans())
    return case


def run_empty(case, ctx):
    from pytimize.graphs import UndirectedGraph

    g = UndirectedGraph({}, {}, {}) if case["k"] % 2 else UndirectedGraph()
    require(g.is_empty() and not g.is_connected() and not g.is_cyclic() and not g.is_tree() and g.partition() == [], "the empty graph is not treated as empty")
    require(g.cut({"a"}) == set() and g.degree({"a"}) == 0, "the empty graph has a cut")
    require(g == UndirectedGraph() and g.edges == {} and g.vertices == {} and g.graph == {}, "the empty graph has contents")
    raises((ValueError,), lambda: g.bfs("a"), "traversing the empty graph")
    raises((ValueError,), lambda: g.shortest_path("a", "b"), "shortest_path in the empty graph")
    ctx.nontrivial()


C22 = Prop(
    "C22",
    "Generated graphs of eleven shapes (forests, trees plus one edge, cycles, disconnected, complete, ...) with ordinary and odd names: "
    "connectivity, cycles, trees, breadth/depth first orders under lexical and custom orderings, random traversals and partitions against "
    "an independent implementation. Non-trivial: at least three vertices and two edges.",
    [Sub("structure", structure_cases, run_structure, 1800), Sub("large", lambda: big_structure_cases(9, 45), run_structure, 800),
     Sub("long", lambda: big_structure_cases(300, 1500, ["path", "cycle", "tree", "unicyclic", "two", "star"]), run_structure, 24, steps=30_000_000), Sub("empty", lambda: st.fixed_dictionaries({"k": st.integers(0, 50)}), run_empty, 25)],
)


# ----------------------------------------------------------------------------- C23 cuts, degrees
@st.composite
def cut_cases(draw):
    case = draw(big_edge_sets(9, 24) if draw(st.integers(0, 9)) == 7 else edge_sets(1, 8))
    n = len(case["names"])
    case["sets"] = draw(st.lists(st.lists(st.integers(0, n - 1), max_size=n, unique=True), min_size=1, max_size=4))
    case["container"] = draw(st.sampled_from(["set", "list", "tuple", "frozenset", "dict", "iterator"]))
    case["directed"] = draw(st.booleans())
    case["both"] = draw(st.lists(st.integers(0, 30), max_size=4))
    return case


def as_container(names, kind):
    return {"set": set, "list": list, "tuple": tuple, "frozenset": frozenset, "dict": lambda v: dict.fromkeys(v), "iterator": list}[kind](names)


def run_cut(case, ctx):
    N = case["names"]
    ctx.label("directed" if case["directed"] else "undirected", case["container"])
    ctx.nontrivial(len(case["edges"]) > 1 and any(0 < len(s) < len(N) for s in case["sets"]))
    if case["directed"]:
        d, arcs = digraph(case)
        for s in case["sets"]:
            S = {N[i] for i in s}
            out = {a for a in arcs if a[0] in S and a[1] not in S}
            inn = {a for a in arcs if a[1] in S and a[0] not in S}
            q = as_container(sorted(S), case["container"])
            for name, got, want in (("cut", d.cut(q), out), ("ncut", d.ncut(q), inn)):
                require(isinstance(got, set) and got == want, lambda: f"{name}({S}) = {got}, expected {want}")
            if case["container"] == "iterator":  # documented for any iterable; each call gets one of its own
                one = lambda: iter(sorted(S))
                got = (d.cut(one()), d.ncut(one()), d.outdegree(one()), d.indegree(one()))
                require(got == (out, inn, len(out), len(inn)), lambda: f"cut, ncut and degrees of an iterator over {S} are {got}")
            require(d.outdegree(q) == len(out) and d.indegree(q) == len(inn) and d.connections(q) == len(out) + len(inn), lambda: f"degrees of {S}: {d.outdegree(q)} out, {d.indegree(q)} in, {d.connections(q)} together; expected {len(out)}, {len(inn)}")
        for v in N:
            out, inn = {a for a in arcs if a[0] == v}, {a for a in arcs if a[1] == v}
            require(d.cut(v) == out and d.ncut(v) == inn, lambda: f"cut({v!r}) = {d.cut(v)}, ncut({v!r}) = {d.ncut(v)}; expected {out}, {inn}")
            require(d.outdegree(v) == len(out) and d.indegree(v) == len(inn) and d.connections(v) == len(out) + len(inn), lambda: f"degrees of {v!r}: {d.outdegree(v)}, {d.indegree(v)}, {d.connections(v)}; expected {len(out)}, {len(inn)}")
        return
    g, m = undirected(case), umodel(case)
    for s in case["sets"]:
        S = {N[i] for i in s}
        want = {e for e in m.e if (e[0] in S) != (e[1] in S)}
        q = as_container(sorted(S), case["container"])
        got = g.cut(q)
        require(isinstance(got, set) and {tuple(sorted(e)) for e in got} == want and len(got) == len(want), lambda: f"cut({S}) = {got}, expected {want}")
        require(g.degree(q) == len(want), lambda: f"degree({S}) = {g.degree(q)}, expected {len(want)}")
        rest = set(N) - S
        require({tuple(sorted(e)) for e in g.cut(rest)} == want, "a set and its complement have different cuts")
    total = 0
    for v in N:
        want = {e for e in m.e if v in e}
        require({tuple(sorted(e)) for e in g.cut(v)} == want, lambda: f"cut({v!r}) = {g.cut(v)}, expected {want}")
        require(g.degree(v) == len(want), lambda: f"degree({v!r}) = {g.degree(v)}, expected {len(want)}")
        total += g.degree(v)
    require(total == 2 * len(m.e), "degrees do not sum to twice the number of edges")
    check_graph(g, m, "after cut queries")


C23 = Prop(
    "C23",
    "Generated graphs and digraphs, vertex names including ones that are substrings or letters of other names; subsets as sets, lists, "
    "tuples, frozensets and dictionaries, and single names; cuts and degrees against their definitions. Non-trivial: at least two "
    "edges and a proper nonempty subset.",
    [Sub("cut", cut_cases, run_cut, 4000)],
)


# --------------------------------------------------------------------------- C24 shortest paths
def dijkstra(m, s, t):
    adj = m.adj()
    dist, heap, done = {s: F(0)}, [(F(0), s)], set()
    while heap:
        d, u = heapq.heappop(heap)
        if u in done:
            continue
        done.add(u)
        for v in adj[u]:
            nd = d + F(m.e[tuple(sorted((u, v)))])
            if v not in dist or nd < dist[v]:
                dist[v] = nd
                heapq.heappush(heap, (nd, v))
    return dist.get(t)


PATHW = [0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 0.5, 1.5, 2.25, 10, 100, 0.1, 0.2, 0.3, 1000000]


NEARW = [1, 1.001, 0.9995, 2, 2.0005, 1.9999, 3.002, 2.9999, 0.001, 4.0004, 5.0003]  # almost equal lengths


@st.composite
def path_cases(draw):
    w = draw(st.sampled_from([PATHW, PATHW, NEARW, [17, 23, 31, 54, 77, 101, 256, 999], [1e-3 * k for k in (1, 2, 3, 5, 8)]]))
    case = draw(big_edge_sets(13, 40, w) if draw(st.integers(0, 11)) == 7 else edge_sets(1, draw(st.sampled_from([4, 6, 7, 9, 12])), w, ["random", "random", "complete", "grid", "grid", "two", "sparse", "cycle", "tree"]))
    n = len(case["names"])
    case["s"], case["t"] = two_ends(draw, n)
    return case


def run_path(case, ctx):
    g, m = undirected(case), umodel(case)
    s, t = case["names"][case["s"]], case["names"][case["t"]]
    want = dijkstra(m, s, t)
    raises((ValueError,), lambda: g.shortest_path(s, "no such vertex"), "shortest_path to an unknown vertex")
    raises((ValueError,), lambda: g.shortest_path("no such vertex", t), "shortest_path from an unknown vertex")
    if want is None:
        ctx.label("unreachable")
        raises((ValueError,), lambda: g.shortest_path(s, t), f"shortest_path({s!r}, {t!r}) without a path")
        check_graph(g, m, "after a refused shortest_path")
        return
    path = g.shortest_path(s, t)
    at, length = s, F(0)
    require(isinstance(path, list), f"shortest_path returned {path!r}")
    for e in path:
        require(len(e) == 2 and e[0] == at, lambda: f"{path} is not a walk from {s!r}")
        k = tuple(sorted(e))
        require(k in m.e, lambda: f"{path} uses {e}, which is not an edge")
        length += F(m.e[k])
        at = e[1]
    require(at == t, lambda: f"{path} ends at {at!r}, not {t!r}")
    seen = [s] + [e[1] for e in path]
    require(len(seen) == len(set(seen)), lambda: f"{path} visits a vertex twice")
    require(abs(length - want) <= F(1, 10 ** 9) * (1 + want), lambda: f"shortest_path({s!r}, {t!r}) = {path} of length {float(length)}, the distance is {float(want)}")
    check_graph(g, m, "after shortest_path")
    ctx.label(f"{min(len(path), 5)} edges")
    ctx.nontrivial(len(path) > 1)


@st.composite
def form_cases(draw):
    case = draw(edge_sets(2, 6, [0, 1, 1, 2, 3, 5, 0.5, 2.25, 10], ["random", "random", "complete", "grid", "two", "sparse", "cycle", "tree"]))
    n = len(case["names"])
    case["s"] = draw(st.integers(0, n - 1))
    case["t"] = (case["s"] + 1 + draw(st.integers(0, n - 2))) % n
    return case


@st.composite
def big_form_cases(draw):
    case = draw(edge_sets(7, draw(st.sampled_from([8, 9, 10, 11, 12])), [1, 2, 3, 5, 0.5, 2.25, 10, 4.75, 8, 13], ["path", "path", "cycle", "tree", "tree", "grid", "sparse"]))
    n = len(case["names"])
    ws = draw(st.permutations([0.25 * k for k in range(1, len(case["edges"]) + 1)]))  # distinct: a weight names its edge
    case["edges"] = [[i, j, w] for (i, j, _), w in zip(case["edges"], ws)]
    case["s"] = draw(st.integers(0, n - 1))
    case["t"] = (case["s"] + 1 + draw(st.integers(0, n - 2))) % n
    return case


def ball_cuts(m, s, dist):
    """The edge weights of the cuts around s at every distance below dist."""
    d = {v: dijkstra(m, s, v) for v in m.v}
    out = []
    for r in sorted({x for x in d.values() if x is not None and x < dist}):
        S = {v for v, x in d.items() if x is not None and x <= r}
        out.append(tuple(sorted(float(w) for e, w in m.e.items() if (e[0] in S) != (e[1] in S))))
    return out


def run_formulate(case, ctx):
    from pytimize.programs import LinearProgram

    g, m = undirected(case), umodel(case)
    s, t = case["names"][case["s"]], case["names"][case["t"]]
    if not m.e:
        return
    p = g.formulate_shortest_path(s, t)
    require(isinstance(p, LinearProgram), f"formulate_shortest_path returned {p!r}")
    require(np.asarray(p.A).shape[1] == len(m.e), f"{np.asarray(p.A).shape[1]} variables for {len(m.e)} edges")
    require(p.objective == "min" and not p.free_variables and not p.negative_variables, "not a minimization over nonnegative variables")
    want = dijkstra(m, s, t)
    check_graph(g, m, "after formulate_shortest_path")
    if want is None:
        if len(m.v) > 6:  # the component of s is a cut without edges
            require(any(not r.any() for r in np.asarray(p.A)), "the formulation has a solution although there is no path")
        else:
            require(p.solve() is None, "the formulation has a solution although there is no path")
        ctx.label("unreachable")
        return
    # the cut rows and weights, up to the order of rows and columns
    A = np.asarray(p.A)
    rows = sorted(tuple(sorted(float(w) for w, x in zip(p.c, r) if x)) for r in A)
    inner = [v for v in m.v if v not in (s, t)]
    wantrows = []
    for r in range(len(inner) + 1):
        for S in itertools.combinations(inner, r):
            S = set(S) | {s}
            wantrows.append(tuple(sorted(float(w) for e, w in m.e.items() if (e[0] in S) != (e[1] in S))))
    require(set(np.unique(A)) <= {0.0, 1.0} and all(float(v) == 1 for v in p.b) and set(p.inequalities) == {">="}, "rows are not cut constraints")
    require(set(rows) <= set(wantrows), "a row is not an s-t cut")
    ctx.nontrivial(len(m.v) > 3)
    if len(m.v) > 6:
        # too many rows to solve; the balls around s are rows and their widths a dual solution of value dist(s, t),
        # so a formulation that has them has the distance as its optimum
        balls = ball_cuts(m, s, want)
        if set(balls) <= set(rows):
            ctx.label("certified")
            return
        cols = sorted({tuple(F(float(t)) for t in r) for r in A})  # the dual: as many cuts as the weights allow
        k = len(p.c)
        status = solve_sef([[c[i] for c in cols] + [F(int(i == j)) for j in range(k)] for i in range(k)], [F(float(w)) for w in p.c], [F(1)] * len(cols) + [F(0)] * k)
        require(status[0] == "optimal", lambda: f"the formulation's dual is {status[0]}")
        v = float(sum(status[1][: len(cols)], F(0)))
    else:
        x = p.solve()
        require(x is not None, "the formulation has no solution although a path exists")
        v = p.evaluate(x)
    require(close(v, want, 1e-6), lambda: f"the formulation's optimum is {v}, the distance {float(want)}")


C24 = Prop(
    "C24",
    "Generated weighted graphs (zero weights, ties, decimals, unreachable ends, start = end) and end points; the path's edges, ends and "
    "exact length against Dijkstra in exact arithmetic; the cut formulation's rows and optimum for up to six vertices, and its rows and a "
    "dual certificate of its optimum for up to twelve. Non-trivial: the "
    "path has at least two edges (path), at least four vertices (formulation).",
    [Sub("path", path_cases, run_path, 2400), Sub("formulate", form_cases, run_formulate, 320), Sub("formulate_big", big_form_cases, run_formulate, 120, steps=20_000_000)],
)


# --------------------------------------------------------------------------- C25 stable sets
@st.composite
def stable_cases(draw):
    case = draw(edge_sets(1, 5, [0, 1, 1, 2, 3, 5, 0.5, 7.25]))
    return case


@st.composite
def big_stable_cases(draw):
    return draw(big_edge_sets(6, 16, [0, 1, 1, 2, 3, 5, 0.5, 7.25]))


def run_stable_big(case, ctx):
    """The program itself, on larger graphs: which 0/1 vectors it admits, and what they are worth."""
    g, m = undirected(case), umodel(case)
    p, mapping = g.formulate_max_stable_set()
    n = len(m.v)
    require(sorted(mapping) == sorted(m.v) and sorted(mapping.values()) == list(range(n)), lambda: f"mapping {mapping} is not a numbering of {sorted(m.v)}")
    require(p.objective == "max" and np.asarray(p.c).shape == (n,), "not a maximization over the vertices")
    require(not p.free_variables and not p.negative_variables, "the vertices are not nonnegative variables")
    rng, adj = pyrandom.Random(n + len(m.e)), m.adj()
    sets = [(a, b) for a, b in itertools.combinations(sorted(m.v), 2)]  # pairs decide the conflicts
    for _ in range(6):  # maximal stable sets, alone and with one vertex too many
        S = []
        for v in rng.sample(sorted(m.v), n):
            if not adj[v] & set(S):
                S.append(v)
        sets += [tuple(S)] + [tuple(S) + (v,) for v in sorted(m.v) if v not in S]
    for S in sets:
        ok = not any(a in S and b in S for a, b in m.e)
        x = [0.0] * n
        for v in S:
            x[mapping[v]] = 1.0
        require(bool(p.is_feasible(x)) == ok, lambda: f"{S} is {'' if ok else 'not '}stable, is_feasible says otherwise")
        w = float(sum((F(m.v[v]) for v in S), F(0)))
        require(close(p.evaluate(x), w, 1e-9), lambda: f"{S} weighs {w}, the program says {p.evaluate(x)}")
    for j in range(n):
        for bad in (2.0, -1.0, 0.5):
            x = [0.0] * n
            x[j] = bad
            require(not p.is_feasible(x), f"a vertex may be taken {bad} times")
    check_graph(g, m, "after formulate_max_stable_set")
    ctx.label(case["shape"])
    ctx.nontrivial(len(m.e) > 1)


def run_stable(case, ctx):
    from pytimize.programs import IntegerProgram
    from .ip import quietly

    g, m = undirected(case), umodel(case)
    p, mapping = g.formulate_max_stable_set()
    n = len(m.v)
    require(isinstance(p, IntegerProgram), f"the formulation is a {type(p).__name__}")
    require(sorted(mapping) == sorted(m.v) and sorted(mapping.values()) == list(range(n)), lambda: f"mapping {mapping} is not a numbering of {sorted(m.v)}")
    require(p.objective == "max" and np.asarray(p.c).shape == (n,), "not a maximization over the vertices")
    check_graph(g, m, "after formulate_max_stable_set")
    best, values = F(0), {}
    for r in range(n + 1):
        for S in itertools.combinations(sorted(m.v), r):
            ok = not any(a in S and b in S for a, b in m.e)
            x = [0.0] * n
            for v in S:
                x[mapping[v]] = 1.0
            require(bool(p.is_feasible(x)) == ok, lambda: f"{S} is {'' if ok else 'not '}stable, is_feasible says otherwise")
            if ok:
                w = sum((F(m.v[v]) for v in S), F(0))
                require(close(p.evaluate(x), w, 1e-9), lambda: f"{S} weighs {float(w)}, the program says {p.evaluate(x)}")
                best = max(best, w)
    for j in range(n):
        x = [0.0] * n
        for bad in (2.0, -1.0, 0.5):
            x[j] = bad
            require(not p.is_feasible(x), f"a vertex may be taken {bad} times")
    x = quietly(p.solve)
    require(x is not None, "the formulation has no solution")
    chosen = {v for v, i in mapping.items() if x[i] > 0.5}
    require(all(abs(t - round(t)) < 1e-6 for t in x), f"solution {x} is not integral")
    require(not any(a in chosen and b in chosen for a, b in m.e), lambda: f"solution {chosen} is not stable")
    require(sum((F(m.v[v]) for v in chosen), F(0)) == best, lambda: f"solution {chosen} is not a maximum stable set (weight {float(best)})")
    ctx.nontrivial(n > 2 and len(m.e) > 1)


C25 = Prop(
    "C25",
    "Generated graphs of up to five weighted vertices; every vertex subset is checked against the program (feasible iff stable, value = "
    "weight) and the program's solution against the best subset; for up to sixteen vertices all pairs, and maximal stable sets with and without one vertex "
    "too many. Non-trivial: at least three vertices and two edges.",
    [Sub("stable", stable_cases, run_stable, 360, steps=40_000_000), Sub("large", big_stable_cases, run_stable_big, 160, steps=20_000_000)],
)


# ------------------------------------------------------------------------------ digraphs
CAPS = [0, 1, 1, 2, 3, 4, 5, 7, 10, 0.5, 2.25, 100]


@st.composite
def arc_sets(draw, min_n=2, max_n=7, weights=CAPS):
    n = count(draw, min_n, max_n)
    names = list(names_for(draw, n))
    shape = draw(st.sampled_from(["random", "random", "dense", "sparse", "layered", "anti"]))
    w = st.sampled_from(weights)
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    if shape == "dense":
        pass
    elif shape == "sparse":
        pairs = draw(st.permutations(pairs))[: draw(st.sampled_from([1, n - 1, n, n + 2]))]
    elif shape == "layered":
        layer = [draw(st.integers(0, 2)) for _ in range(n)]
        layer[0], layer[-1] = 0, 3
        pairs = [(i, j) for i, j in pairs if layer[j] == layer[i] + 1 or draw(st.integers(0, 9)) == 0]
    elif shape == "anti":
        half = [p for p in pairs if p[0] < p[1] and draw(st.integers(0, 2)) > 0]
        pairs = half + [p[::-1] for p in half if draw(st.integers(0, 2)) > 0]
    else:
        pairs = [p for p in pairs if draw(st.booleans())]
    pairs = draw(st.permutations(pairs)) if pairs else []
    return {"names": names, "arcs": [[i, j, draw(w)] for i, j in pairs], "how": draw(st.sampled_from(["add", "arcs", "graph", "both"])), "shape": shape, "age": draw(AGES)}


@st.composite
def big_arc_sets(draw, lo, hi, weights=CAPS):
    n = draw(st.integers(lo, hi))
    shape = draw(st.sampled_from(["random", "sparse", "layered", "anti", "line", "ladder"]))
    rng = pyrandom.Random(draw(st.integers(0, 10 ** 6)))
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
    if shape == "layered":
        k = rng.randint(3, 6)
        layer = [0] + sorted(rng.randint(1, k) for _ in range(n - 2)) + [k + 1]
        pairs = [(i, j) for i, j in pairs if layer[j] == layer[i] + 1 or rng.random() < 0.04]
    elif shape == "anti":
        half = [p for p in pairs if p[0] < p[1] and rng.random() < 0.3]
        pairs = half + [p[::-1] for p in half if rng.random() < 0.6]
    elif shape == "line":
        pairs = [(i, i + 1) for i in range(n - 1)] + [p for p in pairs if abs(p[0] - p[1]) > 1 and rng.random() < 0.05]
    elif shape == "ladder":
        pairs = [(i, i + 2) for i in range(n - 2)] + [(0, 1)] + [(i, i + 1) for i in range(1, n - 1) if rng.random() < 0.7] + [(i + 1, i) for i in range(1, n - 2) if rng.random() < 0.4]
    else:
        pairs = [p for p in pairs if rng.random() < (0.3 if shape == "random" else 2 / n)]
    middle = [0] + rng.sample(range(1, n - 1), n - 2) + [n - 1]  # source and sink stay at the ends
    pairs = [(middle[i], middle[j]) for i, j in rng.sample(pairs, len(pairs))]
    return {"names": [f"v{i}" for i in range(n)], "arcs": [[i, j, rng.choice(weights)] for i, j in pairs], "how": draw(st.sampled_from(["add", "arcs", "graph", "both"])), "shape": shape, "age": draw(AGES)}


def ask_directed(d, case):
    N = case["names"]
    few = N if len(N) <= 6 else [N[0], N[-1]]
    ask = [lambda: d.arcs, lambda: d.nodes, lambda: repr(d)]
    ask += [lambda v=v, f=f: f(v) for v in few for f in (d.cut, d.ncut, d.indegree, d.outdegree, d.connections)]
    ask += [lambda q=[N[i] for i in q], f=f: f(set(q)) for q in case.get("sets", []) for f in (d.cut, d.ncut, d.indegree, d.outdegree, d.connections)]
    s, t = N[case.get("s", 0) % len(N)], N[case.get("t", len(N) - 1) % len(N)]
    ask += [lambda: d.create_residual({}).add_node("zz"), lambda: d.create_residual({a: 0 for a in d.arcs}), lambda: d.ford_fulkerson(s, t), lambda: d.preflow_push(s, t)]
    ask_all(ask)


def digraph(case, strict=False):
    """A digraph and its arcs; built directly, or turned into it from another digraph that has answered questions before."""
    if not case.get("age"):
        return new_digraph(case)
    N, n = case["names"], len(case["names"])
    source = case.get("arcs")
    d, have = new_digraph(dict(case, **{"edges" if source is None else "arcs": other_lines(case["edges"] if source is None else source, n, case["age"], source is not None)}))
    _, arcs = new_digraph(case)
    ask_directed(d, case)
    for a in sorted(set(have) - set(arcs)):
        d.remove_arc(a)
    for a in sorted(set(arcs) - set(have)):
        d.add_arc(a, arcs[a])
    for a in sorted(set(arcs) & set(have)):
        if have[a] != arcs[a]:
            d.set_arc_weight(a, arcs[a])
    try:
        check_digraph(d, {v: 0 for v in N}, arcs, "after edits of a digraph that answered questions")
    except Violation:
        if strict:
            raise
        return new_digraph(case)  # what the edits do is for C26 to judge
    return d, arcs


def new_digraph(case):
    from pytimize.graphs import DirectedGraph

    N = case["names"]
    source = case.get("arcs")
    if source is None:  # an undirected case reused: one arc per edge, some in both directions
        source = [[i, j, w] for i, j, w in case["edges"]]
        for k in case["both"]:
            if source and len(case["edges"]):
                i, j, w = case["edges"][k % len(case["edges"])]
                if [j, i] not in [s[:2] for s in source]:
                    source.append([j, i, w])
    arcs = {(N[i], N[j]): w for i, j, w in source}
    nodes = {v: 0 for v in N}
    how = case["how"]
    if how == "arcs" or how == "dict" or how == "edges":
        return DirectedGraph(arcs=arcs, nodes=nodes), arcs
    if how == "graph" or how == "both":
        adj = {v: set() for v in N}
        for a, b in arcs:
            adj[a].add(b)
        d = DirectedGraph(adj, arcs if how == "both" else None, nodes if how == "both" else None)
        if how == "graph":
            for a, w in arcs.items():
                d.set_arc_weight(a, w)
        return d, arcs
    d = DirectedGraph()
    for v in N[1::2]:
        d.add_node(v)
    for a, w in arcs.items():
        d.add_arc(a, w)
    for v in N:
        if not d.has_node(v):
            d.add_node(v)
    return d, arcs


def weight_is(d, arc, w, what):
    """Arc weights are only observable through create_residual: a flow is accepted exactly up to the weight."""
    d.create_residual({arc: w})
    raises((ArithmeticError,), lambda: d.create_residual({arc: w + 0.0625 + abs(w) * 1e-9}), f"{what}: a flow above the weight {w} of {arc}")


def potentials_are(d, nodes, what):
    """Node weights have no public reader yet; where they are kept as a plain dictionary they are compared."""
    kept = getattr(d, "_nodes", None)
    if isinstance(nodes, dict) and isinstance(kept, dict) and set(kept) == set(nodes) and all(isinstance(v, (int, float)) for v in kept.values()):
        require(kept == nodes, lambda: f"{what}: node weights {kept}, expected {nodes}")


def check_digraph(d, nodes, arcs, what, weights=True):
    potentials_are(d, nodes, what)
    require(len(d.nodes) == len(set(d.nodes)) and set(d.nodes) == set(nodes), lambda: f"{what}: nodes {d.nodes}, expected {sorted(nodes)}")
    require(len(d.arcs) == len(set(d.arcs)) and set(d.arcs) == set(arcs), lambda: f"{what}: arcs {d.arcs}, expected {sorted(arcs)}")
    if weights:
        for a, w in arcs.items():
            weight_is(d, a, w, what)


PAIRS = [(1.5, -2), (0, 4), (3, 0), (-1, -1.5)]


@st.composite
def dhistories(draw):
    n = count(draw, 2, 9)
    names = list(names_for(draw, n))
    i = st.integers(0, n - 1)
    w = st.sampled_from([0, 1, 2.5, 3, 7, 100])
    ops = fixed(draw, st.one_of(*[st.tuples(st.just(k), i, i, w) for k in (
        "add_arc", "add_arc", "add_arc", "add_default", "demand", "demands", "bad_demand", "remove", "remove", "remove_nodes", "remove_nodes", "add_node",
        "set_arc", "set_node", "get", "views", "rebuild", "at remove", "at remove_nodes", "at remove_nodes", "at remove_nodes", "at set_arc", "new demands",
        "new add_arc", "new add_arc", "back add_arc")]).map(list), [2, 6, 10, 14, 18, 22, 26])
    start = draw(st.one_of(st.none(), arc_sets(2, 5, [0, 1, 2.5, 3])))
    return {"names": names, "ops": ops, "start": start}


def run_dhistory(case, ctx):
    from pytimize.graphs import DirectedGraph

    N = case["names"]
    if case["start"] is None:
        d, nodes, arcs = DirectedGraph(), {}, {}
    else:
        d, arcs = digraph(case["start"], True)
        nodes = {x: 0 for x in case["start"]["names"]}
        check_digraph(d, nodes, arcs, "after construction")
    changed = 0
    for k, a, b, w in case["ops"]:
        u, v = N[a], N[b]
        how, k = k.split(" ") if " " in k else ("", k)
        there = sorted(arcs) if how == "at" else [(x, y) for x, y in itertools.permutations(N, 2) if (x not in nodes or y not in nodes)] if how == "new" else \
            sorted((y, x) for x, y in arcs if (y, x) not in arcs) if how else []
        if there:
            u, v = there[(7 * a + b) % len(there)]
        arc = (u, v)
        if k in ("add_arc", "add_default", "demand", "demands", "bad_demand"):
            new = [x for x in arc if x not in nodes]
            kw = {}
            if k == "demand":
                kw = {"demands": 4.5}
            elif k == "demands":
                kw = {"demands": PAIRS[(a + b) % len(PAIRS)]}
            elif k == "bad_demand":
                kw = {"demands": [1, 2]}
            call = (lambda: d.add_arc(arc)) if k == "add_default" else (lambda: d.add_arc(arc, w, **kw))
            if arc in arcs or u == v:
                raises((ValueError,), call, f"add_arc({arc})")
            elif len(new) == 2 and k in ("demand", "bad_demand"):
                raises((TypeError,), call, f"add_arc({arc}) with one demand for two new nodes")
                ctx.label("rejected demands")
            elif k == "bad_demand":
                continue
            else:
                call()
                arcs[arc] = 0 if k == "add_default" else w
                given = kw.get("demands", 0)
                for x in new:
                    nodes[x] = given[arc.index(x)] if isinstance(given, tuple) else given
                changed += 1
        elif k in ("remove", "remove_nodes"):
            if arc not in arcs:
                raises((ValueError,), lambda: d.remove_arc(arc, k == "remove_nodes"), f"remove_arc({arc})")
            else:
                if k == "remove":
                    d.remove_arc(arc)
                else:
                    d.remove_arc(arc, remove_nodes=True)
                del arcs[arc]
                if k == "remove_nodes":
                    for x in arc:
                        if not any(x in y for y in arcs):
                            nodes.pop(x, None)
                            ctx.label("node removed")
                changed += 1
        elif k == "add_node":
            if u in nodes:
                raises((ValueError,), lambda: d.add_node(u, w), f"add_node({u!r})")
            else:
                d.add_node(u, w) if b % 2 else d.add_node(u)
                nodes[u] = w if b % 2 else 0
                changed += 1
        elif k == "set_arc":
            if arc in arcs:
                d.set_arc_weight(arc, w)
                arcs[arc] = w
            else:
                raises((ValueError,), lambda: d.set_arc_weight(arc, w), f"set_arc_weight({arc})")
        elif k == "set_node":
            if u in nodes:
                d.set_node_weight(u, w * (-1) ** b)
                nodes[u] = w * (-1) ** b
            else:
                raises((ValueError,), lambda: d.set_node_weight(u, w), f"set_node_weight({u!r})")
        elif k == "get":
            require(bool(d.has_arc(arc)) == (arc in arcs), f"has_arc({arc}) = {d.has_arc(arc)}")
            require(bool(d.has_node(u)) == (u in nodes), f"has_node({u!r}) = {d.has_node(u)}")
            out, inn = sum(x[0] == u for x in arcs), sum(x[1] == u for x in arcs)
            require((d.outdegree(u), d.indegree(u), d.connections(u)) == (out, inn, out + inn), f"degrees of {u!r} are {d.outdegree(u)}, {d.indegree(u)}, {d.connections(u)}")
        elif k == "rebuild":
            check_digraph(DirectedGraph(arcs=dict(arcs), nodes=dict(nodes)), nodes, arcs, "rebuilt")
            check_digraph(DirectedGraph(nodes=dict(nodes)), nodes, {}, "rebuilt without arcs")
        else:
            d.arcs.clear()
            d.nodes.append("zz")
        check_digraph(d, nodes, arcs, f"after {k}({u!r}, {v!r}, {w})", weights=False)
        if arcs:
            x = sorted(arcs)[(a + b) % len(arcs)]
            weight_is(d, x, arcs[x], f"after {k}({u!r}, {v!r}, {w})")
    check_digraph(d, nodes, arcs, "at the end")
    ctx.nontrivial(changed > 2)


C26 = Prop(
    "C26",
    "Histories of up to 26 operations on a digraph (arcs with and without demands, removals with and without their nodes, weights, "
    "rebuilding, mutation of returned lists; valid and invalid), compared with a dictionary model after every step; weights are observed as "
    "the largest flow create_residual accepts. Non-trivial: at least three effective edits.",
    [Sub("history", dhistories, run_dhistory, 4000)],
)


# ------------------------------------------------------------------------------- C27 flows
def exact_max_flow(nodes, arcs, s, t):
    """Edmonds-Karp over fractions; certified by the cut it ends with."""
    cap = {}
    for (a, b), w in arcs.items():
        cap.setdefault(a, {})[b] = cap.get(a, {}).get(b, F(0)) + F(w)
        cap.setdefault(b, {}).setdefault(a, F(0))
    total = F(0)
    while True:
        parent, queue = {s: None}, [s]
        for u in queue:
            for v, c in cap.get(u, {}).items():
                if c > 0 and v not in parent:
                    parent[v] = u
                    queue.append(v)
        if t not in parent:
            break
        path, v = [], t
        while parent[v] is not None:
            path.append((parent[v], v))
            v = parent[v]
        k = min(cap[a][b] for a, b in path)
        for a, b in path:
            cap[a][b] -= k
            cap[b][a] += k
        total += k
    from ..exact import OracleError

    cut = sum((F(w) for (a, b), w in arcs.items() if a in parent and b not in parent), F(0))
    if cut != total:
        raise OracleError("max flow reference: cut does not match")
    return total


@st.composite
def flow_cases(draw):
    weights = draw(st.sampled_from([CAPS, CAPS, [0, 1], [1], [3, 5, 8, 9, 10, 12, 15], [1, 2, 1000000, 10 ** 9], [0.5, 0.25, 1.75, 3], [1, 1.0009765625, 2.001953125, 0.9990234375, 3.0048828125], [2.0 ** -20 * k for k in (1, 2, 3, 5, 7)]]))
    case = draw(big_arc_sets(10, 18, weights) if draw(st.integers(0, 14)) == 7 else arc_sets(2, draw(st.sampled_from([4, 5, 6, 7, 10])), weights))
    n = len(case["names"])
    case["s"] = draw(st.sampled_from([0, 0, n - 1]))
    case["t"] = n - 1 - case["s"]
    return case


@st.composite
def decimal_flows(draw):
    case = draw(arc_sets(2, draw(st.sampled_from([4, 5, 6, 7])), [0.1, 0.2, 0.3, 0.7, 1.1, 2.3, 0.6, 1.9, 0.9, 0.4]))
    n = len(case["names"])
    case["s"], case["t"] = 0, n - 1
    return case


def run_flow(case, ctx):
    d, arcs = digraph(case)
    N = case["names"]
    s, t = N[case["s"]], N[case["t"]]
    want = exact_max_flow(N, arcs, s, t)
    ctx.label(case["shape"], "zero" if want == 0 else "positive", "opposite arcs" if any((b, a) in arcs for a, b in arcs) else "no opposite arcs")
    scale = 1 + sum(float(w) for w in arcs.values())
    for name in ("ford_fulkerson", "preflow_push"):
        f = getattr(d, name)
        value, flow = f(s, t)
        require(set(flow) == set(arcs), lambda: f"{name}: flow on {sorted(flow)}, the arcs are {sorted(arcs)}")
        net = {v: 0.0 for v in N}
        for (a, b), x in flow.items():
            require(-1e-9 * scale <= x <= arcs[(a, b)] + 1e-9 * scale, lambda: f"{name}: flow {x} on {(a, b)} of capacity {arcs[(a, b)]}")
            net[a] += x
            net[b] -= x
        for v in N:
            if v not in (s, t):
                require(abs(net[v]) <= 1e-9 * scale, lambda: f"{name}: {net[v]} units vanish at {v!r}")
        require(abs(float(value) - net[s]) <= 1e-9 * scale, lambda: f"{name}: value {value}, the flow sends {net[s]}")
        require(abs(float(value) - float(want)) <= 1e-9 * scale, lambda: f"{name}: value {value}, the maximum flow is {float(want)}")
        check_digraph(d, N, arcs, f"after {name}", weights=False)
        raises((ValueError,), lambda: f("no such node", t), f"{name} from an unknown node")
        raises((ValueError,), lambda: f(s, "no such node"), f"{name} to an unknown node")
        raises((ValueError,), lambda: f(s, s), f"{name} from a node to itself")
    if arcs:
        x = sorted(arcs)[len(arcs) // 2]
        weight_is(d, x, arcs[x], "after the flow algorithms")
    direct = F(arcs.get((s, t), 0))
    ctx.nontrivial(want > direct)


C27 = Prop(
    "C27",
    "Generated networks (dense, sparse, layered, many opposite arcs, cycles through source and sink; integer, binary-fraction, huge and "
    "decimal capacities); both algorithms' flows are checked for capacity, conservation and value against an exact maximum flow certified by its "
    "cut. Non-trivial: the maximum flow exceeds the direct arc.",
    [Sub("flow", flow_cases, run_flow, 5000), Sub("decimal", decimal_flows, run_flow, 1000)],
)


# ----------------------------------------------------------------------------- C28 residuals
@st.composite
def residual_cases(draw):
    residual = [0, 1, 2, 3, 4.5, 8, 10, 0.25, 0.5, 0.125]
    case = draw(big_arc_sets(8, 16, residual) if draw(st.integers(0, 14)) == 7 else arc_sets(2, 6, residual))
    case["flow"] = [draw(st.sampled_from(["none", 0, 0.25, 0.5, 1, 1])) for _ in case["arcs"]]
    case["fault"] = draw(st.sampled_from(["none"] * 5 + ["over", "negative", "unknown", "negcap", "reversed"]))
    case["k"] = draw(st.integers(0, 30))
    return case


def run_residual(case, ctx):
    d, arcs = digraph(case)
    N = case["names"]
    flow = {}
    for (i, j, w), f in zip(case["arcs"], case["flow"]):
        if f != "none":
            flow[(N[i], N[j])] = w * f
    if arcs:
        pick = sorted(arcs)[case["k"] % len(arcs)]
        if case["fault"] == "over":
            flow[pick] = arcs[pick] + [0.5, 1e-4, 100, 1e-3][case["k"] // 8 % 4]
            raises((ArithmeticError,), lambda: d.create_residual(flow), f"a flow of {flow[pick]} on capacity {arcs[pick]}")
        elif case["fault"] == "negative":
            flow[pick] = [-0.5, -1e-4, -3][case["k"] // 8 % 3]
            raises((ValueError,), lambda: d.create_residual(flow), "a negative flow")
        elif case["fault"] == "unknown":
            flow[(N[0], "elsewhere")] = 0
            raises((ValueError,), lambda: d.create_residual(flow), "a flow on an arc that does not exist")
        elif case["fault"] == "reversed" and pick[::-1] not in arcs:
            flow[pick[::-1]] = 0
            raises((ValueError,), lambda: d.create_residual(flow), "a flow on the reverse of an arc")
        elif case["fault"] == "negcap":
            d.set_arc_weight(pick, [-1, -0.25, -1e-4][case["k"] // 8 % 3])
            q = [{a: 0 for a in arcs}, {}, {a: v for a, v in flow.items() if a != pick}][case["k"] % 3]
            raises((ValueError,), lambda: d.create_residual(q), "a negative capacity")
            d.set_arc_weight(pick, arcs[pick])
        if case["fault"] != "none":
            ctx.label(case["fault"])
            ctx.nontrivial()
            check_digraph(d, N, arcs, "after a refused create_residual")
            return
    want = {}
    for a, w in arcs.items():
        f = flow.get(a, 0)
        if w > f:
            want[a] = want.get(a, 0) + w - f
        if f > 0:
            want[a[::-1]] = want.get(a[::-1], 0) + f
    saved = dict(flow)
    r = d.create_residual(flow)
    require(flow == saved, "create_residual changed the flow")
    check_digraph(d, N, arcs, "after create_residual", weights=False)
    require(set(r.arcs) == set(want) and len(r.arcs) == len(want), lambda: f"residual arcs {sorted(r.arcs)}, expected {sorted(want)}")
    for a, w in want.items():
        weight_is(r, a, w, "residual")
    ctx.label("opposite arcs" if any((b, a) in arcs for a, b in arcs) else "no opposite arcs")
    ctx.nontrivial(any(0 < flow.get(a, 0) < w for a, w in arcs.items()))
    if len(N) > 1:  # pushing the residual's maximum flow and then none is left
        s, t = N[0], N[-1]
        value, f = d.ford_fulkerson(s, t)
        rest = d.create_residual(f)
        if rest.has_node(s) and rest.has_node(t):
            require(close(rest.ford_fulkerson(s, t)[0], 0, 1e-9), "the residual of a maximum flow still admits flow")


C28 = Prop(
    "C28",
    "Generated networks with generated flows (none, partial, saturating, missing entries) and ill-formed ones (above capacity, negative, on "
    "unknown or reversed arcs, negative capacity); residual arcs and capacities against the definition. Non-trivial: some arc carries a "
    "partial flow, or the flow is ill-formed.",
    [Sub("residual", residual_cases, run_residual, 3200)],
)

PROPS = [C21, C22, C23, C24, C25, C26, C27, C28]
