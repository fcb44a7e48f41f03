# C11 workload: histories of binding calls, drops and collections. Runs inside the simulated process, on the simulated heap.
# Every held object has a check against the model (or against its own value when it was obtained).
import gc, sys
import numpy as np
import simrt
import Caribou, Geometry, Topology

DIM = {1: Caribou.Dimension._1D, 2: Caribou.Dimension._2D, 3: Caribou.Dimension._3D}
ORD = (Caribou.Order.Linear, Caribou.Order.Quadratic)

class Bad(Exception):
    def __init__(self, cls, msg): self.cls = cls; self.msg = msg

def make_type(dim, kind, order):
    o = ORD[order]
    if kind == 0: return Geometry.Segment(DIM[dim], o)
    if kind == 1: return Geometry.Triangle(DIM[dim], o)
    if kind == 2: return Geometry.Quad(DIM[dim], o)
    if kind == 3: return Geometry.Tetrahedron(o)
    return Geometry.Hexahedron(o)
KINDS = {1: (0,), 2: (0, 1, 2), 3: (0, 1, 2, 3, 4)}
CANON = (1, 2, 2, 3, 3)

def plain(x):
    """A value that shares no memory with the bindings."""
    if isinstance(x, np.ndarray): return ("a", x.shape, x.dtype.str, tuple(map(repr, x.ravel().tolist())))
    if isinstance(x, (list, tuple)): return ("l",) + tuple(plain(y) for y in x)
    if isinstance(x, (set, frozenset)): return ("s",) + tuple(sorted(plain(y) for y in x))
    if isinstance(x, float): return repr(float(x))
    if isinstance(x, bool): return bool(x)
    if isinstance(x, int): return int(x)
    if x is None: return None
    return ("o", type(x).__name__)

BASE = {}
for _d in (1, 2, 3):
    for _k in KINDS[_d]:
        for _o in (0, 1):
            BASE[_d, _k, _o] = [list(np.atleast_1d(r).tolist()) for r in np.array(make_type(_d, _k, _o).nodes(), copy=True).reshape(-1, _d)]

class DomM:
    def __init__(self, dim, kind, order, rows, mesh): self.dim, self.kind, self.order, self.rows, self.mesh = dim, kind, order, rows, mesh
class MeshM:
    def __init__(self, dim, nodes): self.dim, self.nodes, self.doms = dim, nodes, []       # doms: [name or None, DomM]

class Entry:
    __slots__ = ("what", "obj", "check", "model", "x")
    def __init__(self, what, obj, check, model=None, x=None): self.what, self.obj, self.check, self.model, self.x = what, obj, check, model, x

def near(a, b, tol=1e-9): return abs(a - b) <= tol * (1 + abs(a) + abs(b))
def coords(x, dim): return [float(x)] if np.isscalar(x) else [float(v) for v in np.asarray(x).ravel()[:dim]]

def check_nodes(what, got, want):
    g = np.asarray(got, dtype=float).reshape(len(want), -1).tolist()
    for i, (a, b) in enumerate(zip(g, want)):
        if a != b: raise Bad("wrong-value", "%s: node %d is %r instead of %r" % (what, i, a, b))

def check_dom(d, m, what, rnd):
    if d.number_of_elements() != len(m.rows): raise Bad("wrong-value", "%s has %r elements instead of %d" % (what, d.number_of_elements(), len(m.rows)))
    if m.rows and d.number_of_nodes_per_elements() != len(m.rows[0]): raise Bad("wrong-value", "%s has %r nodes per element" % (what, d.number_of_nodes_per_elements()))
    if d.canonical_dimension() != CANON[m.kind]: raise Bad("wrong-value", "%s has the wrong canonical dimension" % what)
    for i, r in enumerate(m.rows):
        got = d.element_indices(i).tolist()
        if got != r: raise Bad("wrong-value", "%s: element %d has indices %r instead of %r" % (what, i, got, r))
    if m.rows:
        i = rnd % len(m.rows)
        check_nodes(what + ": element %d" % i, d.element(i).nodes(), [m.mesh.nodes[k] for k in m.rows[i]])
    me = d.mesh()
    if me is None: raise Bad("wrong-value", "%s has no mesh" % what)
    if me.number_of_nodes() != len(m.mesh.nodes): raise Bad("wrong-value", "%s: its mesh has %r nodes instead of %d" % (what, me.number_of_nodes(), len(m.mesh.nodes)))

def check_mesh(o, m, what, rnd):
    n = len(m.nodes)
    if o.dimension() != m.dim or o.number_of_nodes() != n: raise Bad("wrong-value", "%s has dimension %r and %r nodes" % (what, o.dimension(), o.number_of_nodes()))
    check_nodes(what, o.positions(list(range(n))), m.nodes)
    check_nodes(what, [coords(o.position(rnd % n), m.dim)], [m.nodes[rnd % n]])
    if o.number_of_domains() != len(m.doms): raise Bad("wrong-value", "%s has %r domains instead of %d" % (what, o.number_of_domains(), len(m.doms)))
    for i, (nm, dm) in enumerate(m.doms):
        if i == rnd % len(m.doms): check_dom(o.domain(i), dm, "%s: domain %d" % (what, i), rnd)
        if nm is not None and i == rnd % len(m.doms): check_dom(o.domain(nm), dm, "%s: domain %r" % (what, nm), rnd)

def elem_value(e):
    c = e.center()
    g = e.gauss_nodes()
    lc = g[0].position
    return plain([e.nodes(), c, [[q.position, q.weight] for q in g], e.L(lc), e.dL(lc), e.jacobian(lc), e.world_coordinates(lc), e.number_of_nodes(), e.number_of_gauss_nodes(), e.number_of_boundary_elements(), e.gauss_node(0).weight, e.node(0)])

NAMES = ("a", "b", "", "a name that is too long for the small string buffer", "domain_0", "domain_1")
NSLOT = 14

class World:
    def __init__(self): self.slots = [None] * NSLOT; self.garbage = 0; self.inputs = []; self.armed = False; self.nverified = 0
    # -- helpers ---------------------------------------------------------------------------
    def pick(self, what, r):
        c = [i for i, s in enumerate(self.slots) if s is not None and s.what in what]
        return self.slots[c[r % len(c)]] if c else None
    def pick_domain(self, r):
        """A held domain, or one fetched just now from a held mesh."""
        s = self.pick(("domain",), r)
        if s is None or r % 3 == 0:
            c = [i for i, x in enumerate(self.slots) if x is not None and x.what == "mesh" and x.model.doms]
            if c:
                m = self.slots[c[r % len(c)]]; k = (r // 7) % len(m.model.doms)
                return Entry("domain", m.obj.domain(k), None, m.model.doms[k][1])
        return s
    def pick_container(self, r):
        s = self.pick(("container",), r)
        if s is None:
            d = self.pick_domain(r)
            if d is not None: self.embed(d, (r, r // 3, r // 5, 1 + r % 4, 0, r, 0, r)); s = self.pick(("container",), r)
        return s
    def put(self, entry, r):
        free = [i for i, s in enumerate(self.slots) if s is None]
        i = free[r % len(free)] if free else r % NSLOT
        self.slots[i] = entry
    def put_value(self, what, v, r):
        ref = plain(v)
        def check(o, rnd, ref=ref, what=what):
            now = plain(o)
            if now != ref: raise Bad("wrong-value", "%s is now %r instead of %r" % (what, now, ref))
        simrt.probe("held: " + what.split("(")[0])
        self.put(Entry("value", v, check, x=what), r)
    def again(self, f):
        """A refused call, repeated, must not accumulate memory."""
        for i in range(5):
            try: f()
            except Exception: pass
            else: raise Bad("accepted", "a call refused before is accepted when repeated")
            gc.collect(); simrt.mark(i)
        if simrt.growth(): raise Bad("leak", "every refused add_domain leaks %d block(s)" % simrt.growth())
        simrt.probe("refused call repeated without leak")
    def verify(self, rnd):
        for i, s in enumerate(self.slots):
            if s is None: continue
            self.nverified += 1
            s.check(s.obj, rnd + i)
    # -- registration of results -----------------------------------------------------------
    def put_mesh(self, o, m, r): self.put(Entry("mesh", o, lambda o, rnd, m=m: check_mesh(o, m, "a mesh", rnd), m), r)
    def put_dom(self, o, m, r): self.put(Entry("domain", o, lambda o, rnd, m=m: check_dom(o, m, "a domain", rnd), m), r)
    def put_elem(self, o, r, nodes=None):
        if nodes is not None: check_nodes("an element", o.nodes(), nodes)
        ref = elem_value(o)
        def check(o, rnd, ref=ref):
            now = elem_value(o)
            if now != ref: raise Bad("wrong-value", "an element changed: %r instead of %r" % (now, ref))
        self.put(Entry("element", o, check), r)
    def put_gauss(self, o, r):
        ref = (plain(o.position), plain(o.weight))
        def check(o, rnd, ref=ref):
            now = (plain(o.position), plain(o.weight))
            if now != ref: raise Bad("wrong-value", "a quadrature node changed: %r instead of %r" % (now, ref))
        self.put(Entry("gauss", o, check), r)
    def put_bp(self, o, r):
        ref = (o.element_index, plain(o.local_coordinates))
        def check(o, rnd, ref=ref):
            now = (o.element_index, plain(o.local_coordinates))
            if now != ref: raise Bad("wrong-value", "a barycentric point changed: %r instead of %r" % (now, ref))
        self.put(Entry("bp", o, check), r)
    # -- operations ------------------------------------------------------------------------
    def op_mesh(self, a):
        dim = 1 + a[0] % 3; ks = KINDS[dim]; kind = ks[a[1] % len(ks)]; order = a[2] & 1; n = 1 + a[3] % 3
        base = BASE[dim, kind, order]; nodes = []
        for e in range(n): nodes += [[c[0] * 0.5 + 2.5 * e + 0.25 * (a[4] % 4)] + [v * (0.5 + 0.125 * (a[5] % 3)) for v in c[1:]] for c in base]
        arr = np.array(nodes) if dim > 1 else np.array([x[0] for x in nodes])
        form = a[6] % 4
        if form == 1 and dim > 1: arr = np.asfortranarray(arr)
        elif form == 2: big = np.zeros((2 * len(nodes),) + arr.shape[1:]); big[::2] = arr; arr = big[::2]
        o = Topology.Mesh(arr.tolist() if form == 3 else arr)
        m = MeshM(dim, nodes); m.shape = (kind, order, n)
        self.put_mesh(o, m, a[7]); self.inputs.append(arr)
    def op_add_domain(self, a):
        s = self.pick(("mesh",), a[0])
        if s is None: return
        m = s.model; kind, order, n = m.shape; o = s.obj; mode = a[3] % 8
        if mode == 7: ks = KINDS[m.dim]; kind = ks[a[4] % len(ks)]; order = a[5] & 1
        per = len(BASE[m.dim, kind, order])
        if per > len(m.nodes): return
        rows = [[(e * per + k) % len(m.nodes) for k in range(per)] for e in range(1 + a[4] % n)]
        t = make_type(m.dim, kind, order)
        name = NAMES[a[2] % len(NAMES)] if a[1] % 3 else None
        arr = np.array(rows, dtype=(np.uint32, np.int64, np.int32, np.uint64)[a[5] % 4])
        if a[6] % 3 == 1: arr = np.asfortranarray(arr)
        before = o.number_of_domains(); used = name is not None and name in [x for x, _ in o.domains()]
        try:
            if mode == 0 and per > 2:                                    # wrong number of nodes per element: refused
                if name is None: o.add_domain(t, arr[:, :-1])
                else: o.add_domain(name, t, arr[:, :-1])
                raise Bad("accepted", "a domain whose elements have %d nodes instead of %d was accepted" % (per - 1, per))
            elif mode == 1: d = Topology.add_domain(o, name, t, arr) if name is not None else Topology.add_domain(o, t, arr)
            elif mode == 2: d = o.add_domain(domain_name=name, element_type=t, node_indices=arr) if name is not None else o.add_domain(element_type=t, node_indices=arr)
            elif mode == 3: d = o.add_domain(name, t, rows) if name is not None else o.add_domain(t, rows)
            elif mode == 4:                                              # not indices at all
                o.add_domain(t, "nonsense"); raise Bad("accepted", "a text was accepted as node indices")
            else: d = o.add_domain(name, t, arr) if name is not None else o.add_domain(t, arr)
        except Bad: raise
        except Exception as e:
            simrt.probe("refused: add_domain")
            if not (mode == 4 or (mode == 0 and per > 2) or used or name is None): raise Bad("refused", "add_domain(%r) refused: %r" % (name, e))
            if o.number_of_domains() != before: raise Bad("changed", "a refused add_domain changed the number of domains from %d to %d" % (before, o.number_of_domains()))
            if used and a[6] % 2: e = None; self.again(lambda: o.add_domain(name, t, arr))
            return
        if used: raise Bad("accepted", "a second domain named %r was accepted" % name)
        dm = DomM(m.dim, kind, order, rows, m)
        m.doms.append([name, dm])
        check_dom(d, dm, "a new domain", a[7])
        self.inputs.append(arr)
        if a[6] & 1: self.put_dom(d, dm, a[7])
    def op_domain(self, a):
        s = self.pick(("mesh",), a[0])
        if s is None or not s.model.doms: return
        i = a[1] % len(s.model.doms); nm, dm = s.model.doms[i]
        if a[2] % 3 == 0:
            l = s.obj.domains()
            if len(l) != len(s.model.doms): raise Bad("wrong-value", "domains() lists %d domains instead of %d" % (len(l), len(s.model.doms)))
            for (gn, gd), (wn, wd) in zip(l, s.model.doms):
                if wn is not None and gn != wn: raise Bad("wrong-value", "domains() calls %r what was named %r" % (gn, wn))
            d = l[i][1]
            if a[3] % 2:
                def check(o, rnd, model=s.model, k=len(l)):
                    for (gn, gd), (wn, wd) in zip(o[:k], model.doms): check_dom(gd, wd, "a listed domain", rnd)
                self.put(Entry("list", l, check), a[7]); return
        elif a[2] % 3 == 1 and nm is not None: d = s.obj.domain(nm)
        else: d = s.obj.domain(i)
        self.put_dom(d, dm, a[7])
    def op_mesh_of(self, a):
        s = self.pick_domain(a[0])
        if s is None: return
        self.put_mesh(s.obj.mesh(), s.model.mesh, a[7])
    def op_element(self, a):
        s = self.pick_domain(a[0])
        if s is None or not s.model.rows: return
        i = a[1] % len(s.model.rows)
        self.put_elem(s.obj.element(i), a[7], [s.model.mesh.nodes[k] for k in s.model.rows[i]])
    def op_indices(self, a):
        s = self.pick_domain(a[0])
        if s is None or not s.model.rows: return
        i = a[1] % len(s.model.rows); v = s.obj.element_indices(i)
        if v.tolist() != s.model.rows[i]: raise Bad("wrong-value", "element_indices(%d) is %r instead of %r" % (i, v.tolist(), s.model.rows[i]))
        if a[2] % 4 == 0: v = v[::-1]
        elif a[2] % 4 == 1 and v.flags.writeable:                  # what the caller does with its array is its own business
            v[0] = 0; check_dom(s.obj, s.model, "a domain whose indices were read and then modified by the caller", a[3]) if not v.base is None else None
        self.put_value("element_indices", v, a[7])
    def op_embed(self, a):
        s = self.pick_domain(a[0])
        if s is not None: self.embed(s, a)
    def embed(self, s, a):
        if not s.model.rows or CANON[s.model.kind] != s.model.dim or (s.model.kind, s.model.order) != s.model.mesh.shape[:2]: return
        dm = s.model; d = s.obj; pts = []; where = []
        for e in range(len(dm.rows)): pts.append(coords(d.element(e).center(), dm.dim)); where.append(e)
        pts.append([100.0 + a[2] % 7] * dm.dim); where.append(None)
        k = a[1] % len(pts); pts = pts[k:] + pts[:k]; where = where[k:] + where[:k]
        if a[3] % 5 == 0 and dm.dim > 1:
            try: d.embed(np.array(pts)[:, :-1])
            except MemoryError: raise
            except Exception as e: simrt.probe("refused: embed"); check_dom(d, dm, "a domain that refused an embedding", a[4]); return
            raise Bad("accepted", "points of dimension %d were embedded in a %dD domain" % (dm.dim - 1, dm.dim))
        c = d.embed(np.array(pts))
        same = set()                    # elements may repeat (same nodes): an index is right if its nodes are
        def check(o, rnd, dm=dm, pts=pts, where=where):
            bp = o.barycentric_points
            if len(bp) != len(pts): raise Bad("wrong-value", "an embedding has %d points instead of %d" % (len(bp), len(pts)))
            for q, w in zip(bp, where):
                if w is not None and (q.element_index < 0 or dm.rows[q.element_index] != dm.rows[w]): raise Bad("wrong-value", "an embedded point is in element %r instead of %d" % (q.element_index, w))
            if sorted(o.outside_nodes) != [i for i, w in enumerate(where) if w is None]: raise Bad("wrong-value", "outside_nodes is %r" % (o.outside_nodes,))
            f = np.array([[1.5 * sum(n) + 0.25, 2.0 * n[0]] for n in dm.mesh.nodes]); v = o.interpolate(f if rnd & 1 else f[:, :1])
            for i, w in enumerate(where):
                if w is not None and not near(float(np.ravel(v[i])[0]), 1.5 * sum(pts[i]) + 0.25): raise Bad("wrong-value", "interpolation at point %d gives %r instead of %r" % (i, v[i], 1.5 * sum(pts[i]) + 0.25))
            i = rnd % len(pts); ce = o.closest_elements(np.array(pts[i]) if len(pts[i]) > 1 else np.array(pts[i]))
            if where[i] is not None and not any(dm.rows[k.element_index] == dm.rows[where[i]] for k in ce): raise Bad("wrong-value", "closest_elements(%r) = %r misses element %d" % (pts[i], [k.element_index for k in ce], where[i]))
        check(c, a[5])
        self.put(Entry("container", c, check, dm, (pts, where)), a[7])
    def op_interpolate(self, a):
        s = self.pick_container(a[0])
        if s is None: return
        n = len(s.model.mesh.nodes)
        if a[1] % 4 == 0:
            try: s.obj.interpolate(np.ones((n + 1, 2)))
            except MemoryError: raise
            except Exception: simrt.probe("refused: interpolate"); s.check(s.obj, a[2]); return
            raise Bad("accepted", "a field of %d rows was interpolated on a mesh of %d nodes" % (n + 1, n))
        v = s.obj.interpolate(np.arange(n * 2, dtype=float).reshape(n, 2) if a[1] & 1 else np.arange(n, dtype=float))
        inside = [i for i, w in enumerate(s.x[1]) if w is not None]
        self.put_value("interpolated field", v[inside[0]:inside[0] + 1], a[7])
    def op_points(self, a):
        s = self.pick_container(a[0])
        if s is None: return
        w = [i for i, x in enumerate(s.x[1]) if x is not None]
        q = s.obj.barycentric_points[w[a[1] % len(w)]]
        if a[2] % 3 == 0: self.put_value("local_coordinates", q.local_coordinates, a[7])
        elif a[2] % 3 == 1: self.put_value("outside_nodes", s.obj.outside_nodes, a[7])
        else: self.put_bp(q, a[7])
    def op_array(self, a):
        s = self.pick(("element",), a[0])
        if s is None:
            d = self.pick_domain(a[0])
            if d is None or not d.model.rows: return
            self.put_elem(d.obj.element(0), a[6]); s = self.pick(("element",), a[0])
        e = s.obj; g = e.gauss_nodes(); lc = g[a[2] % len(g)].position; k = a[1] % 10
        if k == 0: v = e.nodes()
        elif k == 1: v = e.node(a[3] % e.number_of_nodes())
        elif k == 2: v = e.center()
        elif k == 3: v = e.jacobian(lc)
        elif k == 4: v = e.L(lc)
        elif k == 5: v = e.dL(lc)
        elif k == 6: v = e.world_coordinates(lc)
        elif k == 7: v = e.local_coordinates(e.world_coordinates(lc))
        elif k == 8: v = e.normal() if hasattr(e, "normal") else lc
        else: v = lc
        if isinstance(v, np.ndarray) and v.flags.writeable and a[4] % 3 == 0:
            v[...] = 7.25; simrt.probe("caller writes in a returned array"); s.check(e, a[5])
        self.put_value("array of an element (%d)" % k, v, a[7])
    def op_gauss(self, a):
        s = self.pick(("element",), a[0])
        if s is None:
            d = self.pick_domain(a[0])
            if d is None or not d.model.rows: return
            self.put_elem(d.obj.element(0), a[6]); s = self.pick(("element",), a[0])
        g = s.obj.gauss_nodes(); i = a[1] % len(g)
        if a[2] % 3 == 0: self.put_gauss(g[i], a[7])
        elif a[2] % 3 == 1: self.put_gauss(s.obj.gauss_node(i), a[7])
        else:
            def check(o, rnd, ref=[(plain(q.position), plain(q.weight)) for q in g]):
                now = [(plain(q.position), plain(q.weight)) for q in o]
                if now != ref: raise Bad("wrong-value", "a list of quadrature nodes changed")
            self.put(Entry("gausslist", g, check), a[7])
    def op_new_element(self, a):
        dim = 1 + a[0] % 3; ks = KINDS[dim]; kind = ks[a[1] % len(ks)]; order = a[2] & 1
        base = BASE[dim, kind, order]; nodes = [[v * 0.5 + 0.125 * (a[3] % 8) for v in r] for r in base]
        if a[4] % 3 == 0: self.put_elem(make_type(dim, kind, order), a[7], base); return
        f = (Geometry.Segment, Geometry.Triangle, Geometry.Quad, Geometry.Tetrahedron, Geometry.Hexahedron)[kind]
        if a[4] % 7 == 1 and dim == 3: self.put_elem(Geometry.RectangularHexahedron(ORD[order], np.array([1., 2., 3.]), np.array([2., 3., 4.])), a[7]); return
        arr = np.array(nodes) if dim > 1 else np.array([r[0] for r in nodes])
        if kind == 0 and dim == 1: e = f(*[float(x) for x in arr]) if a[4] & 1 else f(arr)
        else: e = f(arr)
        self.inputs.append(arr); self.put_elem(e, a[7], nodes)
    def op_grid(self, a):
        dim = 2 + a[0] % 2; n = [1 + a[i] % 3 for i in (1, 2, 3)][:dim]; anchor = [0.5 * (a[4] % 5)] * dim; size = [1.0 + a[5] % 3] * dim
        g = (Topology.Grid2D if dim == 2 else Topology.Grid3D)(np.array(anchor), np.array(n), np.array(size))
        ref = self.grid_value(g, dim)
        def check(o, rnd, ref=ref, dim=dim):
            if self.grid_value(o, dim) != ref: raise Bad("wrong-value", "a grid changed")
        self.put(Entry("grid", g, check, x=dim), a[7])
    def grid_value(self, g, dim):
        p = np.array(g.anchor_position()) + 0.4 * np.array(g.size())
        return plain([g.number_of_cells(), g.number_of_nodes(), g.anchor_position(), g.N(), g.H(), g.size(), g.cells_around(p), g.cell_index_containing(p), g.node_indices_of(0), g.edge(0), g.node(g.number_of_nodes() - 1), g.cell_at(0).nodes() if dim == 3 else 0, g.cell_coordinates_at(g.number_of_cells() - 1)])
    def op_grid_query(self, a):
        s = self.pick(("grid",), a[0])
        if s is None: return
        g = s.obj; c = a[2] % g.number_of_cells(); k = a[1] % 10; nn = a[2] % g.number_of_nodes()
        if k == 0 and s.x == 3: self.put_elem(g.cell_at(c), a[7]); return
        if k < 2: v = g.cells_around(np.array(g.node(nn)))
        elif k == 2: v = g.node_indices_of(c)
        elif k == 3: v = g.edge(a[2] % g.number_of_edges())
        elif k == 4: v = g.node(nn)
        elif k == 5: v = g.face(0) if s.x == 3 else g.H()
        elif k == 6: v = g.cell_coordinates_at(c)
        elif k == 7: v = g.N()
        elif k == 8: v = g.size()
        else: v = g.anchor_position()
        self.put_value("grid query (%d)" % k, v, a[7])
    def op_hash(self, a):
        kind = 3 + a[0] % 2; order = a[1] & 1; t = make_type(3, kind, order); cs = (0.25, 0.5, 1.0)[a[2] % 3]
        h = Topology.HashGrid(type(t), cs) if a[3] & 1 else Topology.HashGrid(element_type=type(t), cell_size=cs, number_of_elements=a[3] % 50)
        ids = []
        def check(o, rnd, ids=ids):
            for i, c in ids:
                got = o.get(np.array(c))
                if i not in got: raise Bad("wrong-value", "a hash grid finds %r at %r, without element %d inserted there" % (got, c, i))
                if not set(got) <= set(j for j, _ in ids): raise Bad("wrong-value", "a hash grid returns %r, but only %r was inserted" % (got, ids))
        self.put(Entry("hash", h, check, (kind, order), ids), a[7])
    def op_hash_add(self, a):
        s = self.pick(("hash",), a[0])
        if s is None: return
        kind, order = s.model; base = BASE[3, kind, order]; off = 0.375 * (a[1] % 6)
        nodes = [[v * 0.5 + off for v in r] for r in base]
        e = (Geometry.Tetrahedron if kind == 3 else Geometry.Hexahedron)(np.array(nodes))
        if a[2] % 5 == 0:
            try: s.obj.add(make_type(3, 7 - kind, order), 5); raise Bad("accepted", "an element of another type was inserted")
            except TypeError: simrt.probe("refused: HashGrid.add"); s.check(s.obj, a[3]); return
        i = a[4] % 100; s.obj.add(e, i); s.x.append((i, coords(e.center(), 3)))
    def op_hash_get(self, a):
        s = self.pick(("hash",), a[0])
        if s is None or not s.x: return
        self.put_value("HashGrid.get", s.obj.get(np.array(s.x[a[1] % len(s.x)][1])), a[7])
    def op_drop(self, a):
        live = [i for i, s in enumerate(self.slots) if s is not None]
        if not live: return
        i = live[a[0] % len(live)]; simrt.probe("dropped: " + self.slots[i].what); simrt.fault_drop(); self.slots[i] = None
    def op_drop_kind(self, a):
        k = ("mesh", "domain", "element", "container", "grid", "hash")[a[0] % 6]
        for i, s in enumerate(self.slots):
            if s is not None and s.what == k: self.slots[i] = None; simrt.fault_drop()
        simrt.probe("dropped all: " + k)
    def op_keep_one(self, a):
        live = [i for i, s in enumerate(self.slots) if s is not None]
        if not live: return
        keep = live[a[0] % len(live)]; simrt.probe("kept only: " + self.slots[keep].what); simrt.fault_drop()
        for i in live:
            if i != keep: self.slots[i] = None
        self.inputs = []
    def op_cycle(self, a):
        live = [i for i, s in enumerate(self.slots) if s is not None]
        if not live: return
        i = live[a[0] % len(live)]; c = [self.slots[i].obj]; c.append(c)
        if a[1] & 1 and len(live) > 1: j = live[a[2] % len(live)]; c.append({"x": self.slots[j].obj, "c": c})
        self.slots[i] = None; del c; simrt.probe("dropped into a cycle"); simrt.fault_drop()
    def op_collect(self, a): gc.collect(a[0] % 3); simrt.fault_collect()
    def op_dup(self, a):
        live = [s for s in self.slots if s is not None]
        if live: s = live[a[0] % len(live)]; self.put(Entry(s.what, s.obj, s.check, s.model, s.x), a[7])
    def op_churn(self, a):
        junk = [np.full(1 + (a[0] + i) % 40, 3.5) for i in range(10 + a[1] % 20)] + [bytes(16 * (1 + (a[2] + i) % 30)) for i in range(20)]
        del junk
    def op_scribble(self, a):
        for x in self.inputs:
            if isinstance(x, np.ndarray): x[...] = 99
        self.inputs = []; simrt.probe("caller overwrites the arrays it passed in")
    def op_position(self, a):
        s = self.pick(("mesh",), a[0])
        if s is None:
            d = self.pick(("domain",), a[0])
            if d is None: return
            s = Entry("mesh", d.obj.mesh(), None, d.model.mesh)
        n = len(s.model.nodes); k = a[2] % n
        if a[1] % 3:
            v = s.obj.position(k); check_nodes("a position", [coords(v, s.model.dim)], [s.model.nodes[k]])
        else:
            ids = [(k + i * (1 + a[3] % 3)) % n for i in range(1 + a[4] % 4)]
            v = s.obj.positions(ids); check_nodes("positions", v, [s.model.nodes[i] for i in ids])
        if isinstance(v, np.ndarray) and v.flags.writeable and a[5] % 4 == 0:
            v[...] = 7.25; simrt.probe("caller writes in returned positions"); (s.check or (lambda o, r: check_mesh(o, s.model, "a mesh", r)))(s.obj, a[6])
        elif isinstance(v, np.ndarray) and a[5] % 4 == 1: v = v[::-1]
        self.put_value("positions" if a[1] % 3 == 0 else "position", v, a[7])
    def op_text(self, a):
        s = self.pick(("element", "gauss"), a[0])
        if s is None: return
        t = str(s.obj)
        if a[1] & 1 and str(s.obj) != t: raise Bad("wrong-value", "an object prints %r and then %r" % (t, str(s.obj)))
        self.put_value("text of an object", [c for c in t.encode()], a[7])
    def op_list(self, a):
        """Whole lists of points of an embedding, held without it."""
        s = self.pick_container(a[0])
        if s is None: return
        if a[1] & 1: l = s.obj.barycentric_points
        else:
            i = [k for k, w in enumerate(s.x[1]) if w is not None]; l = s.obj.closest_elements(np.array(s.x[0][i[a[2] % len(i)]]))
        inside = [k for k, q in enumerate(l) if q.element_index >= 0]; l = [l[k] for k in inside]
        def check(o, rnd, ref=[(q.element_index, plain(q.local_coordinates)) for q in l]):
            now = [(q.element_index, plain(q.local_coordinates)) for q in o]
            if now != ref: raise Bad("wrong-value", "a list of barycentric points is now %r instead of %r" % (now, ref))
        simrt.probe("held: list of barycentric points"); self.put(Entry("bplist", l, check), a[7])
    def op_verify(self, a): self.verify(a[0])

OPS = ["mesh", "add_domain", "domain", "mesh_of", "element", "indices", "embed", "interpolate", "points", "array", "gauss", "new_element", "grid", "grid_query", "hash", "hash_add", "hash_get", "drop", "drop_kind", "keep_one", "cycle", "collect", "dup", "churn", "scribble", "verify", "position", "text", "list"]
DROPS = {OPS.index(x) for x in ("drop", "drop_kind", "keep_one", "cycle", "collect", "scribble", "churn")}
MUTATORS = {OPS.index(x) for x in ("add_domain", "hash_add")}
world = None
def start(threshold):
    global world
    world = World()
    if threshold: gc.enable(); gc.set_threshold(threshold, 2, 2)
    else: gc.disable()
def step(code, args):
    """Returns None, or (class, message) of a violation."""
    if code in MUTATORS: simrt.disarm()
    try:
        try: getattr(world, "op_" + OPS[code])(args)
        except Bad: raise
        except Exception as e:
            if not simrt.fired(): raise Bad("raised", "%s raised %s: %s" % (OPS[code], type(e).__name__, e))
            simrt.disarm(); simrt.probe("raised under memory exhaustion: " + OPS[code])
            e = None
            world.verify(code)
            getattr(world, "op_" + OPS[code])(args)            # and works when tried again
        simrt.disarm()
        if code in DROPS: world.verify(code + args[1])
        for s in world.slots: simrt.log(0 if s is None else len(s.what))
    except Bad as b: return (b.cls, b.msg)
    return None
def finish():
    try:
        world.verify(0); world.slots = [None] * NSLOT; gc.collect()
    except Bad as b: return (b.cls, b.msg)
    return None
def shape():
    k = {}
    for s in world.slots:
        if s is not None: k[s.what] = k.get(s.what, 0) + 1
    return hash(tuple(sorted(k.items()))) & 0x7fffffffffffffff
