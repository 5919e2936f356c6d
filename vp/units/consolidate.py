"""Graph consolidation (index/vamana/consolidate.h) over an abstract graph, dataset and deletion predicate."""
import z3
from driver import *

STUBS = ["set"]
NOINLINE = ["populate_candidates", "filter_candidates", "generate_updates", "apply_updates", "heuristic_prune", "BulkUpdate<", "threads.*3runI", "std::sort<", "::push_back", "::emplace_back", "::_M_default_append", "SequentialTLS<"]
I_, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
DEL = z3.Function("DELETED", I_, B_)
DEG = z3.Function("DEGREE", I_, I_)
OFF = z3.Function("LISTAT", I_, I_)
INADJ = z3.Function("ADJACENT", I_, I_, B_)
PRE = z3.Function("PREFIXHAS", I_, B_)
PREL = z3.Function("LISTHAS", I_, I_, B_)
DF = z3.Function("DC", I_, I_, R_)
ELEM = z3.Function("ELEMAT", I_, I_)


def K(e, n):
    return e.ir["consts"][n]


class Cons(Unit):
    props = {"C13"}

    def common(self, e, st):
        n = fresh_int("nodes")
        st.assume(n >= 0, n < 1 << 32)
        g = Region("graph", "obj", size=8, readonly=True)
        st.mem[g.id] = {(0, "i64"): n}
        d = Region("dataset", "obj", size=8, readonly=True)
        st.mem[d.id] = {(0, "i64"): n}
        adj = Region("adjacency", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        A = e.arr_get(st, adj, 0, "i32")
        j = z3.Int("aj")
        st.assume(z3.ForAll([j], z3.And(A[j] >= 0, A[j] < n), patterns=[A[j]]))
        st.assume(z3.ForAll([j], z3.And(DEG(j) >= 0, DEG(j) < 1 << 32, OFF(j) >= 0, OFF(j) < 1 << 60), patterns=[DEG(j)]))
        st.assume(z3.ForAll([j], z3.And(DEG(j) >= 0, DEG(j) < 1 << 32, OFF(j) >= 0, OFF(j) < 1 << 60), patterns=[OFF(j)]))
        gh = Ghost(st, "cur", "a", "b", "c", "d")
        cx = self.cx = dict(n=n, graph=g, data=d, adj=adj, A=A, gh=gh)

        def vadj(e, st, av, I):
            i = zI(e.as_int(av[1], st))
            e.oblige(st, z3.And(0 <= i, i < n), "only vertices of the graph are asked for their neighbors", "pre", I.get("loc", ""))
            gh.set(e, st, "cur", i)
            return Ptr(adj, norm(4 * OFF(i)))

        def vdeg(e, st, av, I):
            i = zI(e.as_int(av[1], st))
            st.assume(DEG(i) >= 0, DEG(i) < 1 << 32)
            return DEG(i)

        e.contracts.update({"vp_adj": vadj, "vp_deg": vdeg, "vp_deleted": lambda e, st, av, I: DEL(zI(e.as_int(av[0], st)))})
        return cx

    def tls(self, e, st):
        t = Region("scratch", "obj", size=K(e, "tls_sizeof"))
        S = K(e, "n_sizeof")
        valid = Region("validcandidates", "arr", stride=S, length=None, fields={K(e, "n_id"): "i32", K(e, "n_dist"): "f32"})
        e.arr_get(st, valid, K(e, "n_id"), "i32"), e.arr_get(st, valid, K(e, "n_dist"), "f32")
        v0 = fresh_int("oldvalid")
        st.assume(v0 >= 0, v0 < 1 << 40)
        o = K(e, "tls_valid")
        t.bind = {o: Ptr(valid, 0), o + 8: Ptr(valid, norm(S * v0))}
        self.cx.update(tls=t, valid=valid)
        return t

    def nvalid(self, e, st):
        o, S = K(e, "tls_valid"), K(e, "n_sizeof")
        p = e.load(st, Ptr(self.cx["tls"], o + 8), "ptr", {})
        return zI(lin_divisible(norm(p.off), S)[0])


class Populate(Cons):
    fn = "vp_populate"
    name = "GraphConsolidator::populate_candidates"

    def setup(self, e, st):
        cx = self.common(e, st)
        gh, A = cx["gh"], cx["A"]
        v = fresh_int("vertex")
        x = fresh_int("anycandidate")
        st.assume(0 <= v, v < cx["n"], x >= 0)
        t = Region("scratch", "obj", size=K(e, "tls_sizeof"))
        nb = Region("neighbors", "obj", size=16, readonly=True)
        nb.bind = {0: Ptr(cx["adj"], norm(4 * OFF(v)))}
        st.mem[nb.id] = {(8, "i64"): DEG(v)}
        st.assume(DEG(v) >= 0, DEG(v) < 1 << 32)
        gh.set(e, st, "a", 7)  # anything may be in the set before
        # PRE(k): the first k neighbors contribute x (definition of the prefix existential)
        k = z3.Int("pk")
        dst = lambda k: A[OFF(v) + k]
        st.assume(z3.Not(PRE(0)))
        st.assume(z3.ForAll([k], z3.Implies(k >= 0, PRE(k + 1) == z3.Or(PRE(k), z3.If(DEL(dst(k)), INADJ(dst(k), x), dst(k) == x))), patterns=[dst(k)]))
        st.assume(z3.ForAll([k], z3.Implies(k >= 0, PRE(k + 1) == z3.Or(PRE(k), z3.If(DEL(dst(k)), INADJ(dst(k), x), dst(k) == x))), patterns=[PRE(k)]))
        cx.update(v=v, x=x)
        one = lambda b: z3.If(b, z3.IntVal(1), z3.IntVal(0))

        def isset(e, st, p, I):
            e.oblige(st, And(isinstance(p, Ptr), p.reg is t, Eq(p.off, K(e, "tls_all"))), "the candidate set is filled", "pre", I.get("loc", ""))

        def clear(e, st, av, I):
            isset(e, st, av[0], I)
            gh.set(e, st, "a", 0)
            return None

        def add(e, st, av, I):
            isset(e, st, av[0], I)
            gh.set(e, st, "a", z3.If(z3.Or(zI(gh.get(e, st, "a")) == 1, zI(e.as_int(av[1], st)) == x), z3.IntVal(1), z3.IntVal(0)))
            return None

        def rng(e, st, av, I):
            isset(e, st, av[0], I)
            c = zI(gh.get(e, st, "cur"))
            p, m = av[1], zI(e.as_int(av[2], st))
            e.oblige(st, And(isinstance(p, Ptr), p.reg is cx["adj"], p.off == 4 * OFF(c), m == DEG(c)), "the whole neighbor list of the deleted vertex is taken over", "pre", I.get("loc", ""))
            gh.set(e, st, "a", z3.If(z3.Or(zI(gh.get(e, st, "a")) == 1, INADJ(c, x)), z3.IntVal(1), z3.IntVal(0)))
            return None

        e.contracts.update({"vp_set_clear": clear, "vp_set_add": add, "vp_set_add_range": rng})
        return [Ptr(cx["graph"]), Ptr(cx["data"]), Ptr(t), Ptr(nb)], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        gh, v = self.cx["gh"], self.cx["v"]
        f = lambda k: lambda w: zI(gh.get(e, w.state, "a")) == z3.If(PRE(zI(k(w))), z3.IntVal(1), z3.IntVal(0))
        out = [("collected up to t", f(lambda w: w.t))]
        for n in names:
            out.append(("collected below " + n, f(lambda w, n=n: cget(w, n))))
            out.append(("collected below list position " + n, f(lambda w, n=n: zI(cget(w, n)) - OFF(v))))
        return out

    def post(self, e, st, ret, cx):
        return [("the candidates are exactly the remaining neighbors and the neighbors of the deleted neighbors", zI(cx["gh"].get(e, st, "a")) == z3.If(PRE(DEG(cx["v"])), z3.IntVal(1), z3.IntVal(0)))]


class Filter(Cons):
    fn = "vp_filter"
    name = "GraphConsolidator::filter_candidates"

    def setup(self, e, st):
        cx = self.common(e, st)
        gh = cx["gh"]
        t = self.tls(e, st)
        m, src, s = fresh_int("setsize"), fresh_int("source"), fresh_int("anyelement")
        st.assume(0 <= m, m < 1 << 40, 0 <= src, src < cx["n"], 0 <= s, s < m)
        el = Region("setelements", "arr", stride=4, length=m, fields={0: "i32"}, readonly=True)
        E = e.arr_get(st, el, 0, "i32")
        j = z3.Int("ej")
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.And(E[j] >= 0, E[j] < cx["n"], ELEM(E[j]) == j)), patterns=[E[j]]))
        cx.update(m=m, src=src, E=E, s=s)

        def fix(e, st, av, I):
            gh.set(e, st, "a", norm(zI(e.as_int(av[0], st)) + 1))
            return None

        def dist(e, st, av, I):
            a, b = (zI(e.as_int(x, st)) for x in av)
            e.oblige(st, z3.And(zI(gh.get(e, st, "a")) == a + 1, a == src), "distances are measured from the vertex itself, the functor prepared for it", "pre", I.get("loc", ""))
            return DF(a, b)

        S = K(e, "n_sizeof")

        def push(e, st, av, I):
            o = K(e, "tls_valid")
            e.oblige(st, And(av[0].reg is t, Eq(av[0].off, o)), "candidates are collected in the scratch vector", "pre", I.get("loc", ""))
            x = av[1]
            fin = e.load(st, Ptr(t, o + 8), "ptr", I)
            for k, ty in ((K(e, "n_id"), "i32"), (K(e, "n_dist"), "f32")):
                e.store(st, Ptr(fin.reg, norm(zI(fin.off) + k)), ty, e.load(st, Ptr(x.reg, norm(zI(x.off) + k)), ty, I), I)
            e.store(st, Ptr(t, o + 8), "ptr", Ptr(fin.reg, norm(zI(fin.off) + S)), I)
            # ghost: position of the arbitrary element
            i = zI(e.as_int(e.load(st, Ptr(x.reg, norm(zI(x.off) + K(e, "n_id"))), "i32", I), st))
            gh.set(e, st, "b", norm(zI(gh.get(e, st, "b")) + z3.If(i == E[s], z3.IntVal(1), z3.IntVal(0))))
            return None

        def sort(e, st, av, I):
            b, en = av[0], av[1]
            c = self.nvalid(e, st)
            e.oblige(st, And(b.reg is cx["valid"], Eq(b.off, 0), en.reg is cx["valid"], zI(en.off) == S * c), "all candidates are sorted", "pre", I.get("loc", ""))
            V, D = e.arr_get(st, cx["valid"], K(e, "n_id"), "i32"), e.arr_get(st, cx["valid"], K(e, "n_dist"), "f32")
            q = z3.Int("sq")
            e.oblige(st, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c), z3.And(0 <= ELEM(V[q]), ELEM(V[q]) < m, E[ELEM(V[q])] == V[q], z3.Not(DEL(V[q])), D[q] == DF(src, V[q]))), patterns=[V[q]]), "every candidate kept is a member of the set, not deleted, and carries its exact distance", "pre", I.get("loc", ""))
            e.oblige(st, zI(gh.get(e, st, "b")) == z3.If(DEL(E[s]), z3.IntVal(0), z3.IntVal(1)), "every member that is not deleted is kept exactly once", "pre", I.get("loc", ""))
            for k, ty in ((K(e, "n_id"), "i32"), (K(e, "n_dist"), "f32")):
                A = e.arr_get(st, cx["valid"], k, ty)
                st.mem[cx["valid"].id][(k, ty)] = z3.FreshConst(A.sort(), "sorted")
                e.note_write(cx["valid"], (k, ty))
            gh.set(e, st, "c", norm(zI(gh.get(e, st, "c")) + 1))
            gh.set(e, st, "d", c)
            return None

        e.contracts.update({"vp_fix": fix, "vp_dist": dist, "vp_set_data": lambda e, st, av, I: Ptr(el, 0), "vp_set_size": lambda e, st, av, I: m, "~::push_back(": push, "~::emplace_back": push, "~std::sort<": sort})
        return [Ptr(cx["graph"]), Ptr(cx["data"]), Ptr(t), src], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        gh, E, s = cx["gh"], cx["E"], cx["s"]
        q = z3.Int("fq")
        V = lambda v: e.arr_get(v.state, cx["valid"], K(e, "n_id"), "i32")
        D = lambda v: e.arr_get(v.state, cx["valid"], K(e, "n_dist"), "f32")
        c = lambda v: self.nvalid(e, v.state)
        f = lambda k: lambda v: z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < c(v)), z3.And(0 <= ELEM(V(v)[q]), ELEM(V(v)[q]) < zI(k(v)), E[ELEM(V(v)[q])] == V(v)[q], z3.Not(DEL(V(v)[q])), D(v)[q] == DF(cx["src"], V(v)[q]))), patterns=[V(v)[q]])
        g = lambda k: lambda v: zI(gh.get(e, v.state, "b")) == z3.If(z3.And(s < zI(k(v)), z3.Not(DEL(E[s]))), z3.IntVal(1), z3.IntVal(0))
        out = [("kept so far", lambda v: c(v) >= 0), ("at most one per element", lambda v: c(v) <= zI(v.t)), ("valid up to t", f(lambda v: v.t)), ("kept up to t", g(lambda v: v.t))]
        for n in names:
            out.append(("valid below " + n, f(lambda v, n=n: cget(v, n))))
            out.append(("kept below " + n, g(lambda v, n=n: cget(v, n))))
        return out

    def post(self, e, st, ret, cx):
        gh = cx["gh"]
        return [("the candidates are sorted once, after they have all been collected", z3.And(zI(gh.get(e, st, "c")) == 1, zI(gh.get(e, st, "d")) == self.nvalid(e, st)))]


class Generate(Cons):
    fn = "vp_generate"
    name = "GraphConsolidator::generate_updates"

    def setup(self, e, st):
        cx = self.common(e, st)
        gh, A = cx["gh"], cx["A"]
        t = self.tls(e, st)
        g0, g1, l0, l1, batch, prune, pool = (fresh_int(x) for x in ("gbegin", "gend", "lbegin", "lend", "batch", "prune_to", "pool"))
        alpha = fresh_real("alpha")
        st.assume(0 <= g0, g0 <= g1, g1 <= cx["n"], 0 <= l0, l0 <= l1, l1 <= g1 - g0, g1 - g0 <= batch, batch < 1 << 40, 0 <= prune, prune < 1 << 32, 0 <= pool, pool < 1 << 40)
        s = fresh_int("anylocal")
        st.assume(l0 <= s, s < l1)
        sv = g0 + s
        ps = Region("params", "obj", size=K(e, "p_sizeof"), readonly=True)
        st.mem[ps.id] = {(K(e, "p_batch"), "i64"): batch, (K(e, "p_prune"), "i64"): prune, (K(e, "p_pool"), "i64"): pool, (K(e, "p_alpha"), "f32"): alpha}

        def rg(name, a, b):
            r = Region(name, "obj", size=16, readonly=True)
            st.mem[r.id] = {(0, "i64"): a, (8, "i64"): b}
            return r
        bu = Region("updates", "obj", size=K(e, "bu_sizeof"))
        fin = Region("final", "arr", stride=4, length=None, fields={0: "i32"})
        st.assume(DEG(sv) >= 0, DEG(sv) < 1 << 32)
        # LISTHAS(v, k): one of the first k neighbors of v is deleted
        v, k = z3.Ints("lv lk")
        st.assume(z3.ForAll([v], z3.Not(PREL(v, 0)), patterns=[OFF(v)]))
        # ghost a: vertex (+1) being processed, b: stage, c: updates recorded for the arbitrary index, d: candidates handed to pruning
        stage = lambda st: zI(gh.get(e, st, "b"))
        cx.update(g0=g0, l0=l0, l1=l1, s=s, sv=sv, fin=fin)
        S = K(e, "n_sizeof")
        j = z3.Int("gj")
        # need: the arbitrary vertex is not deleted and has a deleted neighbor (w is a witness)
        need, w = fresh_bool("needsupdate"), fresh_int("deletedneighbor")
        st.assume(z3.Implies(need, z3.And(z3.Not(DEL(sv)), OFF(sv) <= w, w < OFF(sv) + DEG(sv), DEL(A[w]))))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(z3.Not(need), z3.Not(DEL(sv)), OFF(sv) <= j, j < OFF(sv) + DEG(sv)), z3.Not(DEL(A[j]))), patterns=[A[j]]))
        cx["need"] = need
        vlen = lambda st: self.nvalid(e, st)

        def populate(e, st, av, I):
            nb = av[2]
            loc = I.get("loc", "")
            c = zI(gh.get(e, st, "cur"))
            if isinstance(nb, Ptr) and nb.reg is not cx["adj"]:
                p, m = e.load(st, nb, "ptr", I), e.load(st, Ptr(nb.reg, norm(zI(nb.off) + 8)), "i64", I)
            else:
                p, m = nb, av[3]
            e.oblige(st, And(p.reg is cx["adj"], p.off == 4 * OFF(c), zI(e.as_int(m, st)) == DEG(c)), "candidates are collected from the whole neighbor list of a vertex", "pre", loc)
            e.oblige(st, z3.And(z3.Not(DEL(c)), g0 + l0 <= c, c < g0 + l1), "only vertices of the range that are not deleted are processed", "pre", loc)
            gh.set(e, st, "a", norm(c + 1))
            gh.set(e, st, "b", 1)
            return None

        def filt(e, st, av, I):
            loc = I.get("loc", "")
            e.oblige(st, z3.And(stage(st) == 1, zI(gh.get(e, st, "a")) == zI(gh.get(e, st, "cur")) + 1), "the candidates collected for this vertex are filtered", "pre", loc)
            e.oblige(st, And(av[1].reg is t, Eq(av[1].off, K(e, "tls_valid")), av[2].reg is t, Eq(av[2].off, K(e, "tls_all"))), "the collected set is filtered into the candidate vector", "pre", loc)
            src = av[3]
            if isinstance(src, Ptr):
                src = e.load(st, src, "i64", I)
            e.oblige(st, zI(e.as_int(src, st)) == zI(gh.get(e, st, "cur")), "distances are measured from this vertex", "pre", loc)
            c = fresh_int("validcount")
            st.assume(c >= 0, c < 1 << 40)
            e.store(st, Ptr(t, K(e, "tls_valid") + 8), "ptr", Ptr(cx["valid"], norm(S * c)), I)
            gh.set(e, st, "d", c)
            gh.set(e, st, "b", 2)
            return None

        def prune_(e, st, av, I):
            loc = I.get("loc", "")
            ints = [a for a in av if not isinstance(a, Ptr)]
            fp = [a for a in av if isinstance(a, Ptr) and a.reg is t]
            sp = None
            for x, a in enumerate(av):
                if isinstance(a, Ptr) and a.reg is cx["valid"]:
                    sp, nn = a, av[x + 1]
                elif isinstance(a, Ptr) and a.reg.kind == "obj" and a.reg is not t:
                    c0 = st.mem.get(a.reg.id, {}).get((a.off, "ptr"))
                    if isinstance(c0, Ptr) and c0.reg is cx["valid"]:
                        sp, nn = c0, e.load(st, Ptr(a.reg, a.off + 8), "i64", I)
            if sp is None:
                raise Unsupported("candidates handed to heuristic_prune_neighbors")
            nn = zI(e.as_int(nn, st))
            e.oblige(st, And(len(fp) == 1, Eq(sp.off, 0), Eq(fp[0].off if fp else 1, K(e, "tls_final"))), "the candidate vector is pruned from its beginning into the final list", "pre", loc)
            d = zI(gh.get(e, st, "d"))
            e.oblige(st, And(stage(st) == 2, nn == z3.If(d < pool, d, pool)), "the best candidates, as many as the pool allows, are pruned", "pre", loc)
            e.oblige(st, zI(e.as_int(ints[0], st)) == prune, "at most the requested number of neighbors is kept", "pre", loc)
            e.oblige(st, zR(e.as_real(ints[1], st)) == alpha, "the configured alpha is used", "pre", loc)
            e.oblige(st, zI(e.as_int(ints[2], st)) == zI(gh.get(e, st, "cur")), "the vertex itself is excluded from its neighbors", "pre", loc)
            c = fresh_int("finalcount")
            st.assume(c >= 0, c <= prune)
            o = K(e, "tls_final")
            e.store(st, Ptr(t, o), "ptr", Ptr(fin, 0), I)
            e.store(st, Ptr(t, o + 8), "ptr", Ptr(fin, norm(4 * c)), I)
            gh.set(e, st, "b", 3)
            return None

        def insert(e, st, av, I):
            loc = I.get("loc", "")
            i = zI(e.as_int(av[1], st))
            cur = zI(gh.get(e, st, "cur"))
            e.oblige(st, And(stage(st) == 3, g0 + i == cur, zI(gh.get(e, st, "a")) == cur + 1), "the update recorded at a position is the one computed for that vertex", "pre", loc)
            e.oblige(st, And(av[0].reg is bu, av[2].reg is t, Eq(av[2].off, K(e, "tls_final"))), "the pruned list is recorded", "pre", loc)
            e.oblige(st, z3.And(0 <= i, i < batch), "updates stay inside the buffer", "pre", loc)
            gh.set(e, st, "c", norm(zI(gh.get(e, st, "c")) + z3.If(i == s, z3.IntVal(1), z3.IntVal(0))))
            gh.set(e, st, "b", 0)
            return None

        e.contracts.update({"~populate_candidates": populate, "~filter_candidates": filt, "~heuristic_prune": prune_, "~BulkUpdate<unsigned int>::insert": insert})
        return [Ptr(cx["graph"]), Ptr(cx["data"]), Ptr(ps), Ptr(rg("global", g0, g1)), Ptr(rg("local", l0, l1)), Ptr(bu), Ptr(t)], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        gh, A, s, sv = cx["gh"], cx["A"], cx["s"], cx["sv"]
        j = z3.Int("tj")
        cur = lambda v: zI(gh.get(e, v.state, "cur"))
        clean = lambda k: lambda v: z3.ForAll([j], z3.Implies(z3.And(OFF(cur(v)) <= j, j < zI(k(v))), z3.Not(DEL(A[j]))), patterns=[A[j]])
        cnt = lambda v: zI(gh.get(e, v.state, "c"))
        need = cx["need"]
        out = [("no deleted neighbor up to t", clean(lambda v: OFF(cur(v)) + zI(v.t))), ("no deleted neighbor up to 4t", clean(lambda v: OFF(cur(v)) + 4 * zI(v.t))),
               ("between vertices", lambda v: zI(gh.get(e, v.state, "b")) == 0), ("count unchanged", lambda v: cnt(v) == zI(gh.get(e, S0, "c"))), ("same vertex", lambda v: cur(v) == zI(gh.get(e, S0, "cur")))]
        for n in names:
            out.append(("no deleted neighbor below " + n, clean(lambda v, n=n: cget(v, n))))
            out.append(("updates recorded below " + n, lambda v, n=n: cnt(v) == z3.If(z3.And(s < zI(cget(v, n)), need), z3.IntVal(1), z3.IntVal(0))))
        return out

    def post(self, e, st, ret, cx):
        need = cx["need"]
        return [("a vertex is updated exactly once if it is not deleted and has a deleted neighbor, and never otherwise", zI(cx["gh"].get(e, st, "c")) == z3.If(need, z3.IntVal(1), z3.IntVal(0)))]


class Apply(Cons):
    fn = "vp_apply"
    name = "GraphConsolidator::apply_updates"

    def setup(self, e, st):
        cx = self.common(e, st)
        gh = cx["gh"]
        g0, g1, l0, l1 = (fresh_int(x) for x in ("gbegin", "gend", "lbegin", "lend"))
        st.assume(0 <= g0, g0 <= g1, g1 <= cx["n"], 0 <= l0, l0 <= l1, l1 <= g1 - g0)
        s = fresh_int("anylocal")
        st.assume(l0 <= s, s < l1)

        def rg(name, a, b):
            r = Region(name, "obj", size=16, readonly=True)
            st.mem[r.id] = {(0, "i64"): a, (8, "i64"): b}
            return r
        bu = Region("updates", "obj", size=K(e, "bu_sizeof"))
        lists = Region("updatelists", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        cx.update(g0=g0, s=s)

        def inr(e, st, av, I):
            i = zI(e.as_int(av[1], st))
            e.oblige(st, z3.And(av[0].reg is bu, l0 <= i, i < l1), "only updates of the range are looked at", "pre", I.get("loc", ""))
            return i

        def needs(e, st, av, I):
            return INADJ(inr(e, st, av, I), -1)

        def get(e, st, av, I):
            i = inr(e, st, av, I)
            e.oblige(st, INADJ(i, -1), "only pending updates are fetched", "pre", I.get("loc", ""))
            return ("agg", [Ptr(lists, norm(4 * OFF(i))), DEG(i)])

        def replace(e, st, av, I):
            loc = I.get("loc", "")
            v, p, m = zI(e.as_int(av[1], st)), av[2], zI(e.as_int(av[3], st))
            i = v - g0
            e.oblige(st, And(av[0].reg is cx["graph"], l0 <= i, i < l1, INADJ(i, -1)), "only vertices with a pending update are rewritten", "pre", loc)
            e.oblige(st, And(p.reg is lists, p.off == 4 * OFF(i), m == DEG(i)), "a vertex receives exactly the list computed for it", "pre", loc)
            gh.set(e, st, "c", norm(zI(gh.get(e, st, "c")) + z3.If(i == s, z3.IntVal(1), z3.IntVal(0))))
            return None

        e.contracts.update({"~BulkUpdate<unsigned int>::needs_update": needs, "~BulkUpdate<unsigned int>::get_update": get, "vp_replace": replace})
        return [Ptr(cx["graph"]), Ptr(cx["data"]), Ptr(rg("global", g0, g1)), Ptr(rg("local", l0, l1)), Ptr(bu)], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        return [("applied below " + n, lambda v, n=n: zI(cx["gh"].get(e, v.state, "c")) == z3.If(z3.And(cx["s"] < zI(cget(v, n)), INADJ(cx["s"], -1)), z3.IntVal(1), z3.IntVal(0))) for n in names]

    def post(self, e, st, ret, cx):
        return [("every pending update is written to its vertex exactly once", zI(cx["gh"].get(e, st, "c")) == z3.If(INADJ(cx["s"], -1), z3.IntVal(1), z3.IntVal(0)))]


class Run(Cons):
    fn = "vp_run"
    name = "GraphConsolidator::operator()"

    def setup(self, e, st):
        cx = self.common(e, st)
        gh = cx["gh"]
        batch, prune, pool = (fresh_int(x) for x in ("batch", "prune_to", "pool"))
        st.assume(1 <= batch, batch < 1 << 40, 0 <= prune, prune < 1 << 32, 0 <= pool, pool < 1 << 40)
        ps = Region("params", "obj", size=K(e, "p_sizeof"), readonly=True)
        st.mem[ps.id] = {(K(e, "p_batch"), "i64"): batch, (K(e, "p_prune"), "i64"): prune, (K(e, "p_pool"), "i64"): pool, (K(e, "p_alpha"), "f32"): fresh_real("alpha")}
        # a: all vertices below have been processed, b: phase of the batch
        ph = lambda st: zI(gh.get(e, st, "b"))

        def ctor(e, st, av, I):
            e.oblige(st, z3.And(zI(e.as_int(av[1], st)) == batch, zI(e.as_int(av[2], st)) == prune), "the update buffer has room for a batch of lists", "pre", I.get("loc", ""))
            return None

        def prep(e, st, av, I):
            e.oblige(st, ph(st) == 0, "the buffer is prepared at the start of a batch", "pre", I.get("loc", ""))
            gh.set(e, st, "b", 1)
            return None

        def run(e, st, av, I):
            loc = I.get("loc", "")
            part = av[1]
            a, b, gs = (zI(e.as_int(e.load(st, Ptr(part.reg, norm(zI(part.off) + o)), "i64", I), st)) for o in (0, 8, 16))
            # the closure refers to the global range
            clo = av[2]
            rng = None
            reg = clo.reg
            for o in range(0, reg.size or 24, 8):
                try:
                    p = e.load(st, Ptr(reg, norm(zI(clo.off) + o)), "ptr", I)
                except (Unsupported, KeyError):
                    continue
                if isinstance(p, Ptr) and p.reg.kind == "obj" and (0, "i64") in st.mem.get(p.reg.id, {}) and (8, "i64") in st.mem.get(p.reg.id, {}) and p.reg.id not in (ps.id, cx["graph"].id, cx["data"].id) and norm(p.off) == 0:
                    rng = p
            if rng is None:
                raise Unsupported("closure layout of the consolidation phases")
            r0, r1 = (zI(e.as_int(e.load(st, Ptr(rng.reg, o), "i64", I), st)) for o in (0, 8))
            n = cx["n"]
            done = zI(gh.get(e, st, "a"))
            e.oblige(st, z3.And(r0 == done, r0 < r1, r1 <= n, r1 - r0 <= batch), "batches are adjacent, non-empty, inside the graph and fit the buffer", "pre", loc)
            e.oblige(st, z3.And(a == 0, b == r1 - r0, gs >= 1), "every position of the batch is handed to the threads", "pre", loc)
            e.oblige(st, z3.Or(ph(st) == 1, ph(st) == 2), "a prepared batch first computes its updates, then writes them", "pre", loc)
            gh.set(e, st, "a", norm(z3.If(ph(st) == 2, r1, done)))
            gh.set(e, st, "b", norm(z3.If(ph(st) == 2, z3.IntVal(0), z3.IntVal(2))))
            return None

        e.contracts.update({"~BulkUpdate<unsigned int>::BulkUpdate(": ctor, "~BulkUpdate<unsigned int>::prepare": prep, "~7threads3run": run, "~threads::run<": run,
                    "~::SequentialTLS(": lambda e, st, av, I: None, "~::~SequentialTLS(": lambda e, st, av, I: None,
                            "~BulkUpdate<unsigned int>::~BulkUpdate": lambda e, st, av, I: None})
        return [Ptr(cx["graph"]), Ptr(cx["data"]), Ptr(ps)], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        gh = self.cx["gh"]
        out = [("between batches", lambda v: zI(gh.get(e, v.state, "b")) == 0)]
        for n in names:
            out.append(("processed below " + n, lambda v, n=n: z3.And(zI(gh.get(e, v.state, "a")) == zI(cget(v, n)), zI(cget(v, n)) <= self.cx["n"])))
            out.append(("processed up to " + n, lambda v, n=n: zI(gh.get(e, v.state, "a")) == z3.If(zI(cget(v, n)) < self.cx["n"], zI(cget(v, n)), self.cx["n"])))
            out.append(("near the end " + n, lambda v, n=n: zI(cget(v, n)) <= 2 * self.cx["n"]))
        return out

    def post(self, e, st, ret, cx):
        return [("every vertex belongs to exactly one batch", zI(cx["gh"].get(e, st, "a")) == cx["n"]), ("the last batch is written", zI(cx["gh"].get(e, st, "b")) == 0)]


class Bulk(Unit):
    """BulkUpdate: one row of prune_to neighbors per vertex of the batch"""
    props = {"C13"}

    def __init__(self, op, w):
        self.op, self.w = op, w
        self.fn = "vp_b" + op
        self.name = "BulkUpdate::%s (%d neighbors)" % (dict(insert="insert", get="get_update", prepare="prepare", needs="needs_update")[op], w)

    def setup(self, e, st):
        w = self.w
        m, i = fresh_int("batch"), fresh_int("src")
        st.assume(0 <= i, i < m, m < 1 << 40)
        nb = Region("updatelists", "arr", stride=4, length=norm(m * w), fields={0: "i32"})
        ln = Region("lengths", "arr", stride=4, length=m, fields={0: "i32"})
        nu = Region("needsupdate", "arr", stride=1, length=m, fields={0: "i8"})
        N, L, U = e.arr_get(st, nb, 0, "i32"), e.arr_get(st, ln, 0, "i32"), e.arr_get(st, nu, 0, "i8")
        j = z3.Int("bj")
        st.assume(z3.ForAll([j], z3.And(L[j] >= 0, L[j] <= w), patterns=[L[j]]), z3.ForAll([j], z3.And(U[j] >= 0, U[j] <= 1), patterns=[U[j]]))
        # Matrix: pointer, dims (rows, columns); Vector: pointer, dim
        bu = Region("updates", "obj", size=K(e, "bu_sizeof"))
        lay = self.layout(e)
        bu.bind = {lay[0]: Ptr(nb, 0), lay[3]: Ptr(ln, 0), lay[5]: Ptr(nu, 0)}
        st.mem[bu.id] = {(lay[1], "i64"): m, (lay[2], "i64"): w, (lay[4], "i64"): m, (lay[6], "i64"): m}
        c = fresh_int("count")
        st.assume(0 <= c, c <= w)
        vd = Region("newlist", "arr", stride=4, length=c, fields={0: "i32"}, readonly=True)
        VD = e.arr_get(st, vd, 0, "i32")
        v = Region("newvector", "obj", size=24, readonly=True)
        v.bind = {0: Ptr(vd, 0), 8: Ptr(vd, norm(4 * c)), 16: Ptr(vd, norm(4 * c))}
        out = Region("out", "obj", size=16)
        cx = self.cx = dict(m=m, i=i, nb=nb, ln=ln, nu=nu, N=N, L=L, U=U, VD=VD, c=c, out=out)
        if self.op == "get":
            st.assume(U[i] == 1)
        return {"insert": [Ptr(bu), i, Ptr(v)], "needs": [Ptr(bu), i], "get": [Ptr(bu), i, Ptr(out)], "prepare": [Ptr(bu)]}[self.op], cx

    def layout(self, e):
        return [K(e, x) for x in ("bu_nb", "bu_rows", "bu_cols", "bu_len", "bu_lenn", "bu_needs", "bu_needsn")]

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx, j = self.cx, z3.Int("tj")
        return [("cleared below " + n, lambda v, n=n: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zI(cget(v, n))), e.arr_get(v.state, cx["nu"], 0, "i8")[j] == 0), patterns=[e.arr_get(v.state, cx["nu"], 0, "i8")[j]])) for n in names]

    def post(self, e, st, ret, cx):
        w, i, c = self.w, cx["i"], cx["c"]
        N, L, U = e.arr_get(st, cx["nb"], 0, "i32"), e.arr_get(st, cx["ln"], 0, "i32"), e.arr_get(st, cx["nu"], 0, "i8")
        j = z3.Int("qj")
        if self.op == "insert":
            return [("the update is marked pending, the others keep their mark", z3.ForAll([j], U[j] == z3.If(j == i, z3.IntVal(1), cx["U"][j]), patterns=[U[j]])),
                    ("its length is recorded, the others keep theirs", z3.ForAll([j], L[j] == z3.If(j == i, c, cx["L"][j]), patterns=[L[j]])),
                    ("its neighbors are recorded, the other lists are untouched", z3.ForAll([j], N[j] == z3.If(z3.And(w * i <= j, j < w * i + c), cx["VD"][j - w * i], cx["N"][j]), patterns=[N[j]]))]
        if self.op == "needs":
            return [("reports whether an update is pending", zB(e.as_bool(ret, st)) == (cx["U"][i] == 1))]
        if self.op == "get":
            p, n = e.load(st, Ptr(cx["out"], 0), "ptr", {}), e.load(st, Ptr(cx["out"], 8), "i64", {})
            return [("returns the list recorded for this position", And(p.reg is cx["nb"], zI(p.off) == 4 * w * i, zI(e.as_int(n, st)) == cx["L"][i]))]
        return [("no update is pending afterwards", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < cx["m"]), U[j] == 0), patterns=[U[j]]))]


UNITS = [Populate(), Filter(), Generate(), Apply(), Run()] + [Bulk(o, w) for w in (1, 24, 64) for o in ("insert", "get")] + [Bulk("prepare", 64), Bulk("needs", 64)]
