"""Graph search (index/vamana/greedy_search.h) over an abstract graph, dataset, distance and search buffer."""
import z3
from driver import *

NOINLINE = []
I_, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
DEG = z3.Function("DEGREE", I_, I_)
OFF = z3.Function("LISTAT", I_, I_)
DQ = z3.Function("DQ", I_, R_)


class Greedy(Unit):
    props = {"C04", "C14"}
    fn = "vp_greedy"
    name = "greedy_search"

    def setup(self, e, st):
        n, q, m, la, sp = (fresh_int(x) for x in ("nodes", "query", "entries", "lookahead", "step"))
        st.assume(n >= 0, n < 1 << 32, q >= 0, q < 1 << 32, m >= 0, m < 1 << 32, la >= 0, la < 1 << 64, sp >= 0, sp < 1 << 64)
        g = Region("graph", "obj", size=8, readonly=True)
        st.mem[g.id] = {(0, "i64"): n}
        d = Region("dataset", "obj", size=8, readonly=True)
        st.mem[d.id] = {(0, "i64"): n}
        buf = Region("buffer", "obj", size=16)
        adj = Region("adjacency", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        A = e.arr_get(st, adj, 0, "i32")
        ep = Region("entrypoints", "arr", stride=4, length=m, fields={0: "i32"}, readonly=True)
        E = e.arr_get(st, ep, 0, "i32")
        j = z3.Int("aj")
        for X in (A, E):
            st.assume(z3.ForAll([j], z3.And(X[j] >= 0, X[j] < n), patterns=[X[j]]))
        for p in (DEG(j), OFF(j)):
            st.assume(z3.ForAll([j], z3.And(DEG(j) >= 0, DEG(j) < 1 << 32, OFF(j) >= 0, OFF(j) < 1 << 60), patterns=[p]))
        # phase: 0 start, 1 cleared, 2 sorted; pushed: entry points taken; cur: vertex being expanded + 1;
        # pos: neighbors of cur looked at; pend: neighbor + 1 found unvisited and not yet offered;
        # fin: the buffer said it is done; fixed: query + 1
        gh = Ghost(st, "phase", "pushed", "cur", "pos", "pend", "fin", "fixed", "trk")
        cx = self.cx = dict(n=n, q=q, m=m, A=A, E=E, gh=gh)
        G = lambda k, st: zI(gh.get(e, st, k))
        S = lambda k, st, v: gh.set(e, st, k, norm(v) if not isinstance(v, int) else v)
        ob = lambda st, c, what, I: e.oblige(st, c, what, "pre", I.get("loc", ""))
        ai = lambda x, st: zI(e.as_int(x, st))

        def vadj(e, st, av, I):
            i = ai(av[1], st)
            ob(st, z3.And(G("phase", st) == 2, i + 1 == G("cur", st), G("pos", st) == 0), "the neighbors of the vertex taken from the buffer are expanded", I)
            return Ptr(adj, norm(4 * OFF(i)))

        def vdeg(e, st, av, I):
            i = ai(av[1], st)
            st.assume(DEG(i) >= 0, DEG(i) < 1 << 32)
            return DEG(i)

        def fix(e, st, av, I):
            S("fixed", st, ai(av[0], st) + 1)

        def dist(e, st, av, I):
            a, b = ai(av[0], st), ai(av[1], st)
            ob(st, z3.And(G("fixed", st) == a + 1, a == q, 0 <= b, b < n), "distances are measured from the query, the functor prepared for it, to vertices of the dataset", I)
            return DQ(b)

        def clear(e, st, av, I):
            ob(st, G("phase", st) == 0, "the buffer is emptied before anything is put into it", I)
            S("phase", st, 1)

        def push(e, st, av, I):
            p = G("pushed", st)
            ob(st, z3.And(G("phase", st) == 1, p < m, ai(av[0], st) == E[p], zR(e.as_real(av[1], st)) == DQ(E[p])), "the entry points are put into the emptied buffer in turn with their exact distances", I)
            S("pushed", st, p + 1)

        def sort(e, st, av, I):
            ob(st, z3.And(G("phase", st) == 1, G("pushed", st) == m, G("trk", st) == m), "the buffer is sorted once all entry points are in and recorded", I)
            S("phase", st, 2), S("trk", st, 0)

        def complete(st):
            c = G("cur", st)
            return z3.And(G("phase", st) == 2, G("pend", st) == 0, z3.Or(c == 0, z3.And(G("pos", st) == DEG(c - 1), G("trk", st) == 1)))

        def done(e, st, av, I):
            b = z3.FreshConst(z3.BoolSort(), "done")
            S("fin", st, z3.If(b, z3.IntVal(1), z3.IntVal(2)))
            return b

        def nxt(e, st, av, I):
            ob(st, z3.And(complete(st), G("fin", st) == 2), "the next vertex is taken only after the previous one is fully expanded and while the buffer is not done", I)
            x = fresh_int("next")
            st.assume(0 <= x, x < n)
            S("cur", st, x + 1), S("pos", st, 0), S("fin", st, 0), S("trk", st, 0)
            return x

        def emplace(e, st, av, I):
            c, p, i = G("cur", st), G("pos", st), ai(av[0], st)
            ob(st, z3.And(c > 0, p < DEG(c - 1), i == A[OFF(c - 1) + p], G("pend", st) == 0), "every neighbor is looked at in turn, the one before having been offered to the buffer", I)
            b = z3.FreshConst(z3.BoolSort(), "seen")
            S("pos", st, p + 1)
            S("pend", st, z3.If(b, z3.IntVal(0), i + 1))
            return b

        def insert(e, st, av, I):
            i = ai(av[0], st)
            ob(st, z3.And(G("pend", st) == i + 1, zR(e.as_real(av[1], st)) == DQ(i)), "exactly the neighbors that were not seen before are offered, with their exact distances", I)
            S("pend", st, 0)

        def inrange(e, st, av, I):
            ob(st, z3.And(ai(av[0], st) >= 0, ai(av[0], st) < n), "only vertices of the graph are prefetched", I)

        def tracked(e, st, av, I):
            i, c = ai(av[0], st), ai(av[2], st)
            ph, k, dd = G("phase", st), G("trk", st), zR(e.as_real(av[1], st))
            ob(st, z3.Or(z3.And(ph <= 1, k < m, i == E[k], dd == DQ(i), c == 1), z3.And(ph == 2, k == 0, i + 1 == G("cur", st), dd == DQ(i), c == DEG(i))),
               "the tracker is told every entry point and every expanded vertex, once, with its distance and the number of distances computed", I)
            S("trk", st, k + 1)

        def moved(e, st, av, I):
            i = fresh_int("other")
            st.assume(0 <= i, i < n)
            return i

        e.contracts["vp_b_moved"] = moved
        e.contracts["vp_b_next_distance"] = lambda e, st, av, I: DQ(ai(av[0], st))

        def anyindex(e, st, av, I):
            i = fresh_int("prefetched")
            st.assume(0 <= i, i < ai(av[0], st))
            return i

        e.contracts["vp_any_index"] = anyindex
        any_ = lambda nm: (lambda e, st, av, I: z3.FreshConst(z3.BoolSort(), nm))
        e.contracts.update({"vp_adj": vadj, "vp_deg": vdeg, "vp_fix": fix, "vp_dist": dist, "vp_b_clear": clear, "vp_b_push": push, "vp_b_sort": sort, "vp_b_done": done,
                            "vp_b_next": nxt, "vp_b_emplace": emplace, "vp_b_insert": insert, "vp_prefetch": inrange, "vp_prefetch_node": inrange, "vp_tracked": tracked,
                            "vp_b_enabled": any_("enabled"), "vp_b_isvisited": any_("visited")})
        cx["complete"] = complete
        return [Ptr(g), Ptr(d), q, Ptr(buf), Ptr(ep, 0), m, la, sp], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        gh = cx["gh"]
        G = lambda v, k: zI(gh.get(e, v.state, k))
        out = []
        ts = [("t", lambda v: v.t)]
        for n in names:
            ts.append((n, lambda v, n=n: zI(cget(v, n))))
        for nm, f in ts:
            out.append(("entry points taken: " + nm, lambda v, f=f: G(v, "pushed") == f(v)))
            out.append(("entry points recorded: " + nm, lambda v, f=f: G(v, "trk") == f(v)))
            out.append(("neighbors looked at: " + nm, lambda v, f=f: G(v, "pos") == f(v)))
            out.append(("list position of the neighbor: " + nm, lambda v, f=f: z3.And(G(v, "cur") > 0, f(v) == OFF(G(v, "cur") - 1) + G(v, "pos"))))
            out.append(("prefetch position: " + nm, lambda v, f=f: z3.And(G(v, "cur") > 0, f(v) >= 0, f(v) <= DEG(G(v, "cur") - 1))))
            out.append(("prefetch strict: " + nm, lambda v, f=f: z3.And(G(v, "cur") > 0, f(v) >= 0, f(v) < DEG(G(v, "cur") - 1))))
        out += [("entries range", lambda v: z3.And(0 <= G(v, "pushed"), G(v, "pushed") <= cx["m"])),
                ("recorded range", lambda v: z3.And(0 <= G(v, "trk"), G(v, "trk") <= cx["m"])),
                ("nothing is recorded yet", lambda v: G(v, "trk") == 0),
                ("as many are recorded as taken", lambda v: G(v, "trk") == G(v, "pushed")),
                ("all entry points are recorded", lambda v: G(v, "trk") == cx["m"]),
                ("all entry points are in", lambda v: G(v, "pushed") == cx["m"]),
                ("the vertex is recorded", lambda v: G(v, "trk") == 1),
                ("phase 0", lambda v: z3.And(G(v, "phase") == 0, G(v, "pushed") == 0, G(v, "cur") == 0, G(v, "pend") == 0)),
                ("phase 1", lambda v: z3.And(G(v, "phase") == 1, G(v, "cur") == 0, G(v, "pend") == 0)),
                ("phase 2", lambda v: z3.And(G(v, "phase") == 2, G(v, "pushed") == cx["m"])),
                ("the functor is prepared", lambda v: G(v, "fixed") == cx["q"] + 1),
                ("the last vertex is complete", lambda v: cx["complete"](v.state)),
                ("nothing is pending", lambda v: G(v, "pend") == 0),
                ("vertex", lambda v: z3.And(G(v, "cur") >= 0, G(v, "cur") <= cx["n"])),
                ("expanding", lambda v: z3.And(G(v, "cur") > 0, G(v, "pos") >= 0, G(v, "pos") <= DEG(G(v, "cur") - 1)))]
        return out

    def post(self, e, st, ret, cx):
        G = lambda k: zI(cx["gh"].get(e, st, k))
        return [("the search ends only when the buffer is done and the last vertex is fully expanded", z3.And(G("fin") == 1, cx["complete"](st), G("pushed") == cx["m"]))]


UNITS = [Greedy()]
