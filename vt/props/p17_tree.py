"""Nesting trees: after any history of edits, the orders, slots and edges that models compute with describe the tree."""
import copy
import pickle
import numpy as np
from hypothesis import strategies as st
from vt.core import check, require, equal, raises, rejects

NEW = [10, 11, 12, 20, 7]


@st.composite
def op(draw):
    k = draw(st.sampled_from(["nest", "nest", "new", "edge", "edge", "drop edge", "drop node", "nodes", "root", "order", "look", "phi"]))
    small = st.integers(0, 11)
    return [k, draw(small), draw(st.lists(small, max_size=3)), draw(st.sampled_from(["", "", "parent", "parents"])), draw(st.lists(small, min_size=1, max_size=2))]


tree_spec = st.fixed_dictionaries({
    "root": st.sampled_from([0, 0, 50, 2, 1000]),
    "alts": st.lists(st.sampled_from([1, 2, 3, 4, 5, 9, 30, 15]), min_size=1, max_size=5, unique=True),
    "order": st.booleans(), "ops": st.lists(op(), max_size=9),
    "cycle": st.integers(0, 40), "copy": st.sampled_from(["copy", "deepcopy", "pickle", "init", "subgraph", "model"])})


class Model:
    def __init__(self, root):
        self.root, self.nodes, self.edges, self.order = root, {root: {"name": "_root_", "root": True}}, {}, ()

    def parents(self, v):
        return [a for a, b in self.edges if b == v]

    def children(self, u):
        return [b for a, b in self.edges if a == u]

    def reach(self, u):
        seen, todo = set(), [u]
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += self.children(x)
        return seen

    def edge(self, u, v, **attr):
        for a in self.parents(v):
            if self.edges[a, v]["implied"]:
                del self.edges[a, v]
        for x in (u, v):
            self.nodes.setdefault(x, {})
        self.edges.setdefault((u, v), {}).update({"implied": False, **attr})
        self.hang(u)

    def hang(self, v):
        if v != self.root and not self.parents(v):
            self.edges[self.root, v] = {"implied": True}

    def node(self, code, children=(), parents=(), **attr):
        self.nodes.setdefault(code, {}).update(attr)
        for c in children:
            self.edge(code, c)
        for p in parents:
            self.edge(p, code)
        self.hang(code)


def compare(g, m):
    """Everything that g answers is what follows from the nodes and edges of m."""
    equal(set(g.nodes), set(m.nodes), "nodes")
    equal({(u, v): d for u, v, d in g.edges(data=True)}, m.edges, "edges")
    for n, a in m.nodes.items():
        equal(dict(g.nodes[n]), a, f"attributes of node {n}")
    equal(g.root_id, m.root, "root")
    leaves = {n for n in m.nodes if not m.children(n)}
    first = [n for n in m.order if n in leaves]
    want = first + sorted(leaves - set(first))
    equal(list(g.elementals), want, "elemental alternatives")
    s = list(g.standard_sort)
    equal(sorted(s), sorted(m.nodes), "nodes in standard_sort")
    equal(s[:len(want)], want, "first nodes in standard_sort")
    slot = {n: i for i, n in enumerate(s)}
    for u, v in m.edges:
        require(slot[v] < slot[u], "in standard_sort", s, "nest", u, "comes before its child", v)
    require(s[-1] == m.root, "the last in standard_sort is not the root", s)
    equal(dict(g.standard_slot_map), slot, "standard_slot_map")
    equal((g.n_elementals(), g.n_edges), (len(want), len(m.edges)), "counts")
    if m.root not in leaves:
        equal(g.n_intermediate_nests(), len(m.nodes) - len(want) - 1, "number of nests")
    for n in m.nodes:
        equal(sorted(g.predecessor_slots(n).tolist()), sorted(slot[p] for p in m.parents(n)), "predecessor_slots")
        equal(sorted(g.successor_slots(n).tolist()), sorted(slot[c] for c in m.children(n)), "successor_slots")
        equal(sorted(g.elemental_descendants(n)), sorted(m.reach(n) & leaves), f"elemental descendants of {n}")
    where = {e: i + 3 for i, e in enumerate(sorted(m.edges)) if i % 2}
    up, dn, visit, alloc = g.edge_slot_arrays(where)
    pairs = list(zip(up.tolist(), dn.tolist()))
    equal(sorted(pairs), sorted((slot[u], slot[v]) for u, v in m.edges), "edges by slot")
    for i, (u, v) in enumerate(pairs):
        equal(int(visit[i]), int(v not in dn[:i]), "first visit of an edge")
        equal(int(alloc[i]), where.get((s[u], s[v]), -1), "allocation slot")
    several = {n for n in m.nodes if len(m.parents(n)) > 1}
    equal(sorted(g.standard_competitive_edge_list), sorted((p, n) for n in several for p in m.parents(n)), "competitive edges")
    equal(sorted(g.standard_competitive_edge_list_2), sorted((sorted(m.parents(n)), n) for n in several), "competitive edges by node")
    a = g.as_arrays(np.float64, trim=False, parameter_dict={"mu_a": 0.5, "mu_b": 0.25})
    val = {"mu_a": 0.5, "mu_b": 0.25}
    for n, i in slot.items():
        equal(float(a["mu_params"][i]), val.get(m.nodes[n].get("parameter"), 1.0), "parameter of a node")
        k, b = int(a["len_slots"][i]), int(a["start_slots"][i])
        equal(k, len(m.children(n)), "number of edges of node")
        require(k == 0 or (up[b:b + k] == i).all(), "the edges of node", n, "are not at its start slot")
    if several or len(m.nodes) > len(want) + 1:
        t = g.as_arrays(np.float64, parameter_dict=val)
        equal(len(t["start_slots"]), len(m.nodes) - len(want), "trimmed arrays")
        equal(t["start_slots"].tolist(), a["start_slots"][len(want):].tolist(), "trimmed arrays")


@check("P17", tree_spec, quick=4000)
def tree_histories(spec, ctx):
    from larch.model.tree import NestingTree
    import networkx as nx
    root = spec["root"]
    alts = [a for a in spec["alts"] if a != root]
    if not alts:
        return ctx.label("left out")
    g, m = NestingTree(root_id=root), Model(root)
    g.add_nodes(alts)
    for a in alts:
        m.node(a)
    if spec["order"]:
        g.suggest_elemental_order(alts)
        m.order = tuple(alts)
    compare(g, m)
    done = 0
    for kind, i, many, how, ups in spec["ops"]:
        nodes = [n for n in m.nodes if n != m.root]
        pick = lambda j: nodes[j % len(nodes)] if nodes else None
        if kind in ("nest", "new"):
            code = NEW[i % len(NEW)] if kind == "nest" else None
            kids = sorted({pick(j) for j in many if nodes})
            if code == m.root:
                continue
            parents = []
            if how and nodes:
                parents = [pick(j) for j in ups]
                parents = parents[:1] if how == "parent" else sorted(set(parents))
            if code in m.nodes:
                kids = [c for c in kids if code not in m.reach(c)]
                parents = [p for p in parents if p not in m.reach(code)]
            parents = [p for p in parents if not any(p in m.reach(c) for c in kids) and p != code]
            kw = {"children": kids, "parameter": "mu_a" if i % 2 else "mu_b"}
            if how == "parent" and parents:
                kw["parent"] = parents[0]
            elif how == "parents" and parents:
                kw["parents"] = parents
            else:
                parents = []
            if i == 5:
                kw["name"] = "nest %d" % i
            if kind == "nest":
                g.add_node(code, **kw)
            else:
                code = g.new_node(**kw)
                require(code not in m.nodes, "new_node gave a code in use", code)
                require(raises(lambda: g.new_node(code=code), ValueError), "new_node with a code in use is not refused")
            m.node(code, kids, parents, parameter=kw["parameter"], **({"name": kw["name"]} if "name" in kw else {}))
        elif kind == "edge":
            if len(nodes) < 2:
                continue
            u, v = pick(i), pick(ups[0])
            if len(many) == 3:
                u = NEW[i % len(NEW)]            # a nest that may not be there yet
            elif len(many) == 2:
                u = m.root
            if u == v or (u in m.nodes and u in m.reach(v)) or v == m.root:
                continue
            g.add_edge(u, v)
            m.edge(u, v)
            if u not in nodes and u != m.root:
                ctx.label("edge from a new nest")
        elif kind == "drop edge":
            e = sorted(m.edges)
            if not e:
                continue
            u, v = e[i % len(e)]
            g.remove_edge(u, v)
            del m.edges[u, v]
            m.hang(v)
        elif kind == "drop node":
            if len(nodes) < 2:
                continue
            n = pick(i)
            above = [(p, m.edges[p, n]["implied"]) for p in m.parents(n)]
            below = [(c, m.edges[n, c]) for c in m.children(n)]
            g.remove_node(n)
            del m.nodes[n]
            m.edges = {k: a for k, a in m.edges.items() if n not in k}
            for c, a in below:
                for p, implied in above:
                    if not implied:
                        m.edge(p, c, **a)
                m.hang(c)
            ctx.label("nest removed" if below else "alternative removed")
        elif kind == "nodes":
            codes = [NEW[j % len(NEW)] for j in many]
            codes = [c for c in dict.fromkeys(codes) if c != m.root]
            g.add_nodes(codes)
            for c in codes:
                m.node(c)
        elif kind == "root":
            new = [60, 0, 61, 8][i % 4]
            if new in m.nodes:
                continue
            g.root_id = new
            below = {c: m.edges[m.root, c] for c in m.children(m.root)}
            m.edges = {k: a for k, a in m.edges.items() if m.root not in k}
            del m.nodes[m.root]
            m.root = new
            m.nodes[new] = {"name": "_root_", "root": True}
            for c, a in below.items():
                m.edges[new, c] = a
            ctx.label("another root")
        elif kind == "order":
            o = [pick(j) for j in many + ups if nodes]
            o = list(dict.fromkeys(o))
            g.suggest_elemental_order(o + [999], touch=i % 2 == 0)
            m.order = tuple(o)
        elif kind == "phi":
            e = sorted(m.edges)
            if not e:
                continue
            u, v = e[i % len(e)]
            g.add_node(v, phi_parameters={u: "phi"})
            m.edges[u, v]["parameter"] = "phi"
        if kind == "look" or i % 3 == 0:
            compare(g, m)                   # orders are cached from here
        done += 1
    compare(g, m)
    ctx.nontrivial(done > 1 and len(m.nodes) > len(alts) + 1)
    if any(len(m.parents(n)) > 1 for n in m.nodes):
        ctx.label("several parents")
    # a copy is equal and independent
    how = spec["copy"]
    ctx.label("by " + how)
    if how == "subgraph":
        n = sorted(m.nodes)[spec["cycle"] % len(m.nodes)]
        if n == m.root or not m.children(n):
            return
        h, k = g.subgraph_from(n), Model(n)
        inside = m.reach(n)
        k.nodes = {x: a for x, a in m.nodes.items() if x in inside}
        k.edges = {e: a for e, a in m.edges.items() if e[0] in inside and e[1] in inside}
        k.order = ()
        equal(set(h.nodes), set(k.nodes), "nodes of a branch")
        equal(set(h.edges), set(k.edges), "edges of a branch")
        equal(h.root_id, n, "root of a branch")
        compare(g, m)
        return
    if how == "model":
        import larch
        mod = larch.Model()
        mod.graph = g
        h = mod.graph
    else:
        h = {"copy": lambda: g.copy(), "deepcopy": lambda: copy.deepcopy(g), "init": lambda: NestingTree(g),
             "pickle": lambda: pickle.loads(pickle.dumps(g))}[how]()
    compare(h, m)
    require(h == g, "the copy is not equal to the tree")
    if h is g:
        h = copy.deepcopy(g)
    k = copy.deepcopy(m)
    code = h.new_node(children=[sorted(set(m.nodes) - {m.root})[0]], parameter="mu_a") if len(m.nodes) > 1 else h.new_node(parameter="mu_a")
    k.node(code, [sorted(set(m.nodes) - {m.root})[0]] if len(m.nodes) > 1 else [], parameter="mu_a")
    compare(h, k)
    compare(g, m)
    # a tree with a cycle has no order
    e = sorted(x for x in m.edges if x[0] != m.root)
    if e and spec["cycle"] < 15:
        u, v = e[spec["cycle"] % len(e)]
        g.add_edge(v, u)
        ctx.label("cycle")
        require(raises(lambda: g.standard_sort, nx.NetworkXException), "a cyclic tree has a standard_sort")
