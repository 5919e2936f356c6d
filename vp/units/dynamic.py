"""The dynamic index (index/vamana/dynamic_index.h): slot tables over an abstract graph, dataset and id translation."""
import z3
from driver import *

STUBS = ["quiet", "set", "map"]
NOINLINE = ["IDTranslator::", "IDTranslator6insertI", r"robin_map<unsigned int, unsigned int.*::(insert|at|contains|find|emplace|operator\[\])", "::push_back", "::emplace_back", r"::reserve\(", r"::resize\(",
            "std::vector<.*>::insert<", "_M_range_insert", "::~", "get_search_parameters", "::nonmissing_indices", "translate_internal_id"]
I_, R_ = z3.IntSort(), z3.RealSort()
CNT = z3.Function("EMPTYBEFORE", I_, I_)  # empty slots before a slot
VAL = z3.Function("VALIDBEFORE", I_, I_)  # valid slots before a slot
INT = z3.Function("INTERNALOF", I_, I_)
WHO = z3.Function("DELETEDBY", I_, I_)
N2O = z3.Function("OLDID", I_, I_)
O2N = z3.Function("NEWID", I_, I_)
DEG, OFF = z3.Function("DEGREE", I_, I_), z3.Function("LISTAT", I_, I_)
EMPTY, VALID, DELETED = 0, 1, 2


def K(e, n):
    return e.ir["consts"][n]


def is_(p, reg, off):
    return And(isinstance(p, Ptr) and p.reg is reg, Eq(p.off, off)) if isinstance(p, Ptr) and p.reg is reg else z3.BoolVal(False)


class Dyn(Unit):
    props = {"C19"}
    cells = ()

    def common(self, e, st):
        n = fresh_int("slots")
        st.assume(n >= 0, n < 1 << 31)
        s = Region("status", "arr", stride=1, length=None, fields={0: "i8"})
        S0 = e.arr_get(st, s, 0, "i8")
        q = z3.Int("q")
        st.assume(z3.ForAll([q], z3.And(S0[q] >= 0, S0[q] <= 2), patterns=[S0[q]]))
        eps = Region("entrypoints", "arr", stride=4, length=1, fields={0: "i32"})
        E0 = e.arr_get(st, eps, 0, "i32")[0]
        st.assume(E0 >= 0, E0 < n)
        m = Region("index", "obj", size=K(e, "m_sizeof"))
        ms, me = K(e, "m_status"), K(e, "m_entry")
        m.bind = {}
        f = {x: fresh_int(x) for x in ("window", "maxcand", "pruneto", "history")}
        for x in f.values():
            st.assume(x >= 0, x < 1 << 40)
        st.assume(f["history"] <= 1)
        alpha = z3.FreshConst(R_, "alpha")
        st.mem[m.id] = {(K(e, "m_graph"), "i64"): n, (K(e, "m_data"), "i64"): n, (K(e, "m_cws"), "i64"): f["window"], (K(e, "m_maxc"), "i64"): f["maxcand"], (K(e, "m_prune"), "i64"): f["pruneto"],
                        (K(e, "m_alpha"), "f32"): alpha, (K(e, "m_hist"), "i8"): f["history"]}
        for base, reg, size in ((ms, s, n), (me, eps, 4)):
            for k, off in enumerate((0, size, size)):
                m.bind[base + 8 * k] = Ptr(reg, norm(off))
        gh = Ghost(st, *self.cells)
        self.cx = cx = dict(n=n, s=s, S0=S0, eps=eps, E0=E0, m=m, f=f, alpha=alpha, gh=gh)
        cx["G"] = lambda k, st: zI(gh.get(e, st, k))
        cx["put"] = lambda st, **kv: [gh.set(e, st, k, norm(v) if not isinstance(v, int) else v) for k, v in kv.items()]
        cx["ob"] = lambda st, c, what, I: e.oblige(st, c, what, "pre", I.get("loc", ""))
        cx["ai"] = lambda x, st: zI(e.as_int(x, st))
        nop = lambda e, st, av, I: None
        for x in ("~::~vector(", "~::~allocator(", "~::~pair(", "~get_search_parameters"):
            e.contracts[x] = nop
        for k in self.cells:
            gh.set(e, st, k, 0)
        return cx

    def S(self, e, st):
        return e.arr_get(st, self.cx["s"], 0, "i8")

    def size(self, e, st):
        b, en = (e.load(st, Ptr(self.cx["m"], K(e, "m_status") + o), "ptr", {}) for o in (0, 8))
        return zI(en.off) if en.reg is self.cx["s"] else None

    def consistent(self, e, st, n):
        cx = self.cx
        return z3.And(self.size(e, st) == n, *[zI(e.as_int(e.obj_load(st, cx["m"], K(e, k), "i64", {}), st)) == n for k in ("m_graph", "m_data")])

    def setsize(self, e, st, I, what, n):
        m = self.cx["m"]
        e.store(st, Ptr(m, K(e, what)), "i64", norm(n), I)

    def unchanged(self, e, st):
        q = z3.Int("q")
        S = self.S(e, st)
        return z3.BoolVal(True) if S.eq(self.cx["S0"]) else z3.ForAll([q], S[q] == self.cx["S0"][q], patterns=[S[q]])

    def basics(self, e, names, cget):
        gh = self.cx["gh"]
        G = lambda v, k: zI(gh.get(e, v.state, k))
        return G, [("t", lambda v: v.t)] + [(n, lambda v, n=n: zI(cget(v, n))) for n in names]


class IsDeleted(Dyn):
    fn, name = "vp_is_deleted", "MutableVamanaIndex::is_deleted"

    def setup(self, e, st):
        cx = self.common(e, st)
        cx["i"] = fresh_int("i")
        st.assume(cx["i"] >= 0, cx["i"] < cx["n"])
        return [Ptr(cx["m"]), cx["i"]], cx

    def post(self, e, st, ret, cx):
        return [("only valid slots count as present", e.as_bool(ret, st) == (cx["S0"][cx["i"]] != VALID)), ("no slot changes", self.unchanged(e, st))]


class Valid(Dyn):
    fn, name = "vp_builder_valid", "ValidBuilder::operator()"

    def setup(self, e, st):
        cx = self.common(e, st)
        v = Region("statusvector", "obj", size=24, readonly=True)
        v.bind = {0: Ptr(cx["s"], 0), 8: Ptr(cx["s"], norm(cx["n"])), 16: Ptr(cx["s"], norm(cx["n"]))}
        cx["i"] = fresh_int("i")
        st.assume(cx["i"] >= 0, cx["i"] < cx["n"])
        return [Ptr(v), cx["i"], z3.FreshConst(R_, "d")], cx

    def post(self, e, st, ret, cx):
        return [("a search result is valid unless its slot was deleted", e.as_bool(ret, st) == (cx["S0"][cx["i"]] != DELETED)), ("no slot changes", self.unchanged(e, st))]


class DeleteEntry(Dyn):
    fn, name = "vp_delete_entry", "MutableVamanaIndex::delete_entry"

    def setup(self, e, st):
        cx = self.common(e, st)
        cx["i"] = fresh_int("i")
        st.assume(cx["i"] >= 0, cx["i"] < cx["n"], cx["S0"][cx["i"]] == VALID)
        return [Ptr(cx["m"]), cx["i"]], cx

    def post(self, e, st, ret, cx):
        S, q = self.S(e, st), z3.Int("q")
        return [("the slot is deleted, no other changes", z3.ForAll([q], S[q] == z3.If(q == cx["i"], DELETED, cx["S0"][q]), patterns=[S[q]]))]


class Vec32(Dyn):
    """a growing local vector, by contract: its elements live in an array of their own"""

    def vec(self, e, cx, size):
        cx["v"] = Region("vectordata", "arr", stride=size, length=None, fields={0: "i%d" % (8 * size)})
        cx["vty"] = "i%d" % (8 * size)
        cx["vz"] = size

        def setend(e, st, p, n, I):
            e.store(st, Ptr(p.reg, p.off), "ptr", Ptr(cx["v"], 0), I)
            e.store(st, Ptr(p.reg, norm(zI(p.off) + 8)), "ptr", Ptr(cx["v"], norm(size * n)), I)

        def reserve(e, st, av, I):
            cx["put"](st, vn=0)
            setend(e, st, av[0], z3.IntVal(0), I)

        def push(e, st, av, I):
            k = cx["G"]("vn", st)
            e.store(st, Ptr(cx["v"], norm(size * k)), cx["vty"], e.load(st, av[1], cx["vty"], I), I)
            cx["put"](st, vn=k + 1)
            setend(e, st, av[0], k + 1, I)

        cx["setend"] = setend
        e.contracts.update({"~::reserve(": reserve, "~::push_back(": push})

    def V(self, e, st):
        return e.arr_get(st, self.cx["v"], 0, self.cx["vty"])


class NonMissing(Vec32):
    fn, name = "vp_nonmissing", "MutableVamanaIndex::nonmissing_indices"
    cells = ("vn",)

    def setup(self, e, st):
        cx = self.common(e, st)
        q, S0 = z3.Int("q"), cx["S0"]
        st.assume(VAL(0) == 0, z3.ForAll([q], z3.Implies(q >= 0, VAL(q + 1) == VAL(q) + z3.If(S0[q] == VALID, 1, 0)), patterns=[S0[q]]))
        cx["p"] = fresh_int("anyslot")
        st.assume(0 <= cx["p"], cx["p"] < cx["n"])
        self.vec(e, cx, 4)
        e.contracts["~IDTranslator::size"] = lambda e, st, av, I: fresh_int("known")
        r = Region("result", "obj", size=24)
        return [Ptr(r), Ptr(cx["m"])], cx

    def listed(self, e, st, k, i):
        V, S0 = self.V(e, st), self.cx["S0"]
        t = z3.Int("lt")
        return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), z3.And(V[t] >= 0, V[t] < i, S0[V[t]] == VALID, VAL(V[t]) == t)), patterns=[V[t]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G, ts = self.basics(e, names, cget)
        out = [("count", lambda v: G(v, "vn") >= 0)]
        for nm, f in ts:
            out += [("within " + nm, lambda v, f=f: z3.And(0 <= f(v), f(v) <= cx["n"])),
                    ("counted to " + nm, lambda v, f=f: G(v, "vn") == VAL(f(v))),
                    ("listed to " + nm, lambda v, f=f: self.listed(e, v.state, G(v, "vn"), f(v))),
                    ("any to " + nm, lambda v, f=f: z3.Implies(z3.And(cx["p"] < f(v), cx["S0"][cx["p"]] == VALID), z3.And(VAL(cx["p"]) >= 0, VAL(cx["p"]) < G(v, "vn"), self.V(e, v.state)[VAL(cx["p"])] == cx["p"]))),
                    ("at most to " + nm, lambda v, f=f: z3.And(G(v, "vn") <= f(v), 0 <= f(v))),
                    ("ahead to " + nm, lambda v, f=f: z3.ForAll([z3.Int("at")], z3.Implies(z3.And(0 <= z3.Int("at"), z3.Int("at") < G(v, "vn")), self.V(e, v.state)[z3.Int("at")] >= z3.Int("at")), patterns=[self.V(e, v.state)[z3.Int("at")]])),
                    ("any before " + nm, lambda v, f=f: z3.Implies(z3.And(cx["p"] < f(v)), VAL(cx["p"]) <= VAL(f(v))))]
        return out

    def post(self, e, st, ret, cx):
        k, p = cx["G"]("vn", st), cx["p"]
        t = z3.Int("at")
        return [("each listed slot is valid and in order", self.listed(e, st, k, cx["n"])), ("there are as many as valid slots", k == VAL(cx["n"])),
                ("every valid slot is listed", z3.Implies(cx["S0"][p] == VALID, z3.And(VAL(p) < k, self.V(e, st)[VAL(p)] == p))),
                ("new positions are never behind old ones", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), self.V(e, st)[t] >= t), patterns=[self.V(e, st)[t]])),
                ("no slot changes", self.unchanged(e, st))]


class AddPoints(Vec32):
    fn, name = "vp_add_points", "MutableVamanaIndex::add_points"
    cells = ("vn", "ins", "run", "cp", "cl", "bld", "con", "old", "grow")

    def setup(self, e, st):
        cx = self.common(e, st)
        G, put, ob, ai, n, S0, f = (cx[k] for k in ("G", "put", "ob", "ai", "n", "S0", "f"))
        q = z3.Int("q")
        st.assume(CNT(0) == 0, z3.ForAll([q], z3.Implies(q >= 0, CNT(q + 1) == CNT(q) + z3.If(S0[q] == EMPTY, 1, 0)), patterns=[S0[q]]))
        # there are no fewer empty slots before a later slot (by induction from the definition)
        st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), CNT(q + 1) <= CNT(n)), patterns=[S0[q]]))
        num, nid, lo, hi = (fresh_int(x) for x in ("points", "ids", "lo", "hi"))
        st.assume(num >= 0, num < 1 << 31, nid >= 0, nid < 1 << 31, 0 <= lo, lo <= hi, hi <= num)
        self.vec(e, cx, 8)
        pts = Region("points", "obj", size=8, readonly=True)
        st.mem[pts.id] = {(0, "i64"): num}
        idd = Region("iddata", "arr", stride=8, length=nid, fields={0: "i64"}, readonly=True)
        ids = Region("ids", "obj", size=24, readonly=True)
        ids.bind = {0: Ptr(idd, 0), 8: Ptr(idd, norm(8 * nid)), 16: Ptr(idd, norm(8 * nid))}
        cx.update(num=num, nid=nid, lo=lo, hi=hi)
        deg = fresh_int("maxdegree")
        reserve0, push0 = e.contracts["~::reserve("], e.contracts["~::push_back("]
        MS = K(e, "m_status")

        def reserve(e, st, av, I):
            cx["slots"] = av[0].reg.name
            reserve0(e, st, av, I)

        def newsize(st, k, I):
            ob(st, k == n + num - G("vn", st), "the index grows by exactly the slots that are lacking", I)
            ob(st, z3.And(G("ins", st) == 0), "the index grows before the ids are recorded", I)

        def dresize(e, st, av, I):
            newsize(st, ai(av[1], st), I)
            self.setsize(e, st, I, "m_data", ai(av[1], st))

        def gresize(e, st, av, I):
            newsize(st, ai(av[1], st), I)
            ob(st, is_(av[0], cx["m"], K(e, "m_graph")), "the graph is resized", I)
            self.setsize(e, st, I, "m_graph", ai(av[1], st))

        def sresize(e, st, av, I):
            k = ai(av[1], st)
            ob(st, is_(av[0], cx["m"], MS), "the slot table is resized", I)
            newsize(st, k, I)
            x = ai(e.load(st, av[2], "i8", I), st)
            A, N = self.S(e, st), z3.FreshConst(S0.sort(), "resized")
            st.assume(z3.ForAll([q], N[q] == z3.If(z3.And(n <= q, q < k), x, A[q]), patterns=[N[q]]))
            st.assume(z3.ForAll([q], N[q] == z3.If(z3.And(n <= q, q < k), x, A[q]), patterns=[A[q]]))
            st.mem[cx["s"].id][(0, "i8")] = N
            e.note_write(cx["s"], (0, "i8"))
            e.store(st, Ptr(cx["m"], MS + 8), "ptr", Ptr(cx["s"], norm(k)), I)

        def vinsert(e, st, av, I):
            k = G("vn", st)
            a, b = ai(av[2], st), ai(av[3], st)
            ob(st, is_(av[1], cx["v"], norm(8 * k)), "new slots follow the reused ones", I)
            ob(st, a <= b, "a range of new slots", I)
            A, N, t = self.V(e, st), z3.FreshConst(z3.ArraySort(I_, I_), "grown"), z3.Int("gt")
            st.assume(z3.ForAll([t], N[t] == z3.If(z3.And(k <= t, t < k + b - a), a + t - k, A[t]), patterns=[N[t]]))
            st.mem[cx["v"].id][(0, "i64")] = N
            e.note_write(cx["v"], (0, "i64"))
            put(st, vn=k + b - a)
            cx["setend"](e, st, av[0], k + b - a, I)
            return Ptr(cx["v"], norm(8 * k))

        def whole(st, p, I):
            """the vector object p is the list of slots"""
            b, en = (e.load(st, Ptr(p.reg, norm(zI(p.off) + o)), "ptr", I) for o in (0, 8))
            return And(is_(b, cx["v"], 0), is_(en, cx["v"], norm(8 * G("vn", st))))

        def insert(e, st, av, I):
            ob(st, And(is_(av[0], cx["m"], K(e, "m_tr")), is_(av[1], ids, 0), whole(st, av[2], I)), "the ids are recorded for the slots chosen", I)
            ob(st, z3.And(G("vn", st) == num, nid == num, G("cp", st) == 0, G("cl", st) == 0, G("ins", st) == 0, G("run", st) == 0), "the ids are recorded once there is a slot for each point, before anything is overwritten", I)
            ob(st, self.fresh(e, st, num), "points go to distinct empty slots, reusing the first ones", I)
            ob(st, self.consistent(e, st, self.newn()), "graph, data and slot table have the same size", I)
            put(st, ins=1)

        def run_begin(e, st, av, I):
            r = G("run", st)
            ob(st, z3.And(ai(av[0], st) == 0, ai(av[1], st) == num), "all of the points are worked on", I)
            put(st, run=r + 1)

        def run_end(e, st, av, I):
            r = G("run", st)
            put(st, run=r + 1)

        def vset(e, st, av, I):
            k = lo + G("cp", st)
            ob(st, And(is_(av[0], cx["m"], K(e, "m_data")), k < hi, ai(av[1], st) == self.V(e, st)[k], ai(av[2], st) == k, G("run", st) % 2 == 1, G("ins", st) == 1), "each point is copied to its slot", I)
            put(st, cp=G("cp", st) + 1)

        def clear(e, st, av, I):
            k = lo + G("cl", st)
            ob(st, And(is_(av[0], cx["m"], K(e, "m_graph")), k < hi, ai(av[1], st) == self.V(e, st)[k], G("run", st) % 2 == 1, G("ins", st) == 1), "the list of each slot is cleared", I)
            put(st, cl=G("cl", st) + 1)

        def builder(e, st, av, I):
            h = av[5]
            hb = h if z3.is_bool(h) else ai(h, st) != 0
            ob(st, z3.And(zR(e.as_real(av[0], st)) == cx["alpha"], ai(av[1], st) == deg, ai(av[2], st) == f["window"], ai(av[3], st) == f["maxcand"], ai(av[4], st) == f["pruneto"], hb == (f["history"] != 0)),
               "the index's own parameters are used", I)
            put(st, bld=G("bld", st) + 1)

        def construct(e, st, av, I):
            ob(st, And(zR(e.as_real(av[0], st)) == cx["alpha"], ai(av[1], st) == cx["E0"], is_(av[2], cx["v"], 0), ai(av[3], st) == num, G("bld", st) == 1, G("run", st) % 2 == 0, G("cp", st) == hi - lo, G("cl", st) == hi - lo), "all of the new slots are connected, after their data is in place and their lists are empty", I)
            put(st, con=G("con", st) + 1)

        e.contracts.update({"~::reserve(": reserve, "~Vecs::resize(": dresize, "~SlotMetadata>>::resize(": sresize, "~::resize(unsigned long, svs::index::vamana::SlotMetadata": sresize, "vp_resize": gresize, "~::insert<svs::threads": vinsert, "~IDTranslator::insert": insert,
                            "vp_run_begin": run_begin, "vp_run_end": run_end, "vp_lo": lambda e, st, av, I: lo, "vp_hi": lambda e, st, av, I: hi, "vp_tid": lambda e, st, av, I: fresh_int("tid"),
                            "vp_set": vset, "vp_clear_node": clear, "vp_builder": builder, "vp_construct": construct, "vp_max_degree": lambda e, st, av, I: deg})
        cx["w"] = fresh_int("anyslot")
        st.assume(0 <= cx["w"])
        r = Region("result", "obj", size=24)
        return [Ptr(r), Ptr(cx["m"]), Ptr(pts), Ptr(ids)], cx

    def newn(self):
        cx = self.cx
        lack = cx["num"] - CNT(cx["n"])
        return cx["n"] + z3.If(lack > 0, lack, z3.IntVal(0))

    def fresh(self, e, st, k):
        """the first k slots chosen are the first empty ones, then the ones after the end"""
        cx = self.cx
        V, S0, n = self.V(e, st), cx["S0"], cx["n"]
        t = z3.Int("ft")
        return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), z3.Or(z3.And(0 <= V[t], V[t] < n, S0[V[t]] == EMPTY, CNT(V[t]) == t), z3.And(t >= CNT(n), V[t] == n + t - CNT(n)))), patterns=[V[t]])

    def firsts(self, e, st, k, i):
        V, S0 = self.V(e, st), self.cx["S0"]
        t = z3.Int("ft")
        return z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < k), z3.And(V[t] >= 0, V[t] < i, S0[V[t]] == EMPTY, CNT(V[t]) == t)), patterns=[V[t]])

    def pos(self, q):
        n = self.cx["n"]
        return z3.If(q < n, CNT(q), CNT(n) + q - n)

    def became(self, e, st, k):
        cx = self.cx
        S, V, q = self.S(e, st), self.V(e, st), z3.Int("bq")
        p = self.pos(q)
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < self.newn()), S[q] == z3.If(z3.And(0 <= p, p < k, V[p] == q), VALID, z3.If(q < cx["n"], cx["S0"][q], EMPTY))), patterns=[S[q]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G, ts = self.basics(e, names, cget)
        lo, n, num = cx["lo"], cx["n"], cx["num"]
        out = [("count", lambda v: z3.And(0 <= G(v, "vn"), G(v, "vn") <= num)), ("lacking", lambda v: z3.Or(G(v, "vn") < num, num == 0)),
               ("share copied", lambda v: z3.And(0 <= G(v, "cp"), G(v, "cp") <= cx["hi"] - lo)), ("share cleared", lambda v: z3.And(0 <= G(v, "cl"), G(v, "cl") <= cx["hi"] - lo))]
        for nm, f in ts:
            out += [("within " + nm, lambda v, f=f: z3.And(0 <= f(v), f(v) <= n)),
                    ("counted to " + nm, lambda v, f=f: G(v, "vn") == CNT(f(v))),
                    ("first empty ones to " + nm, lambda v, f=f: self.firsts(e, v.state, G(v, "vn"), f(v))),
                    ("more to come after " + nm, lambda v, f=f: z3.Implies(f(v) > 0, z3.Or(G(v, "vn") != num))),
                    ("copied to " + nm, lambda v, f=f: f(v) == lo + G(v, "cp")), ("cleared to " + nm, lambda v, f=f: f(v) == lo + G(v, "cl")),
                    ("became valid to " + nm, lambda v, f=f: z3.And(0 <= f(v), f(v) <= num, self.became(e, v.state, f(v))))]
        return out

    def post(self, e, st, ret, cx):
        S, V = self.S(e, st), self.V(e, st)
        t = z3.Int("pt")
        G = cx["G"]
        w = cx["w"]
        return [("ids are recorded, points copied, lists cleared and connected", z3.And(G("ins", st) == 1, G("run", st) % 2 == 0, G("cp", st) == cx["hi"] - cx["lo"], G("cl", st) == cx["hi"] - cx["lo"], G("con", st) == 1)), ("as many ids as points", cx["num"] == cx["nid"]),
                ("exactly the slots of the new points become valid", self.became(e, st, cx["num"])),
                ("graph, data and slot table have the same size", self.consistent(e, st, self.newn())),
                ("the points' slots are valid", z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < cx["num"]), S[V[t]] == VALID), patterns=[V[t]])),
                ("slots in use stay as they are", z3.Implies(z3.And(w < cx["n"], cx["S0"][w] != EMPTY), S[w] == cx["S0"][w]))]

    def on_throw(self, e, st, cx):
        return [("only as many ids as points are accepted", cx["num"] != cx["nid"]), ("a refused call changes no slot", self.unchanged(e, st)), ("a refused call records nothing", cx["G"]("ins", st) == 0)]


class Delete(Dyn):
    fn, name = "vp_delete_entries", "MutableVamanaIndex::delete_entries"
    cells = ("chk", "k", "del")

    def setup(self, e, st):
        cx = self.common(e, st)
        G, put, ob, ai, n, S0 = (cx[k] for k in ("G", "put", "ob", "ai", "n", "S0"))
        m = fresh_int("deleted")
        st.assume(m >= 0, m < 1 << 31)
        d = Region("iddata", "arr", stride=8, length=m, fields={0: "i64"}, readonly=True)
        A = e.arr_get(st, d, 0, "i64")
        ids = Region("ids", "obj", size=24, readonly=True)
        ids.bind = {0: Ptr(d, 0), 8: Ptr(d, norm(8 * m)), 16: Ptr(d, norm(8 * m))}
        t = z3.Int("dt")
        # known ids name distinct valid slots (C11, class invariant); the ids are distinct
        st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < m), z3.And(0 <= INT(A[t]), INT(A[t]) < n, S0[INT(A[t])] == VALID, WHO(INT(A[t])) == t)), patterns=[A[t]]))
        cx.update(k=m, A=A)

        def check(e, st, av, I):
            b, en = (x if x.reg.kind == "arr" else e.load(st, x, "ptr", I) for x in av[1:3])
            ob(st, And(is_(b, d, 0), is_(en, d, norm(8 * m)), G("k", st) == 0), "all ids are looked up before anything is deleted", I)
            put(st, chk=1)

        def get(e, st, av, I):
            x, k = ai(av[1], st), G("k", st)
            ob(st, z3.And(G("chk", st) == 1, G("del", st) == 0, k < m, x == A[k]), "the slot of each id is deleted while the translation is in place", I)
            put(st, k=k + 1)
            return INT(x)

        def dele(e, st, av, I):
            ob(st, And(is_(av[1], ids, 0), G("k", st) == m, G("del", st) == 0), "all of the ids are forgotten", I)
            put(st, **{"del": 1})

        e.contracts.update({"~check_external_exist": check, "~IDTranslator::get_internal": get, "~delete_external": dele})
        return [Ptr(cx["m"]), Ptr(ids)], cx

    def gone(self, e, st, k):
        cx = self.cx
        S, q = self.S(e, st), z3.Int("bq")
        return z3.ForAll([q], S[q] == z3.If(z3.And(0 <= WHO(q), WHO(q) < k, INT(cx["A"][WHO(q)]) == q), DELETED, cx["S0"][q]), patterns=[S[q]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        G, ts = self.basics(e, names, cget)
        out = [("looked up", lambda v: z3.And(G(v, "chk") == 1, G(v, "del") == 0))]
        for nm, f in ts:
            out += [("deleted to " + nm, lambda v, f=f: z3.And(0 <= f(v), f(v) <= self.cx["k"], G(v, "k") == f(v), self.gone(e, v.state, f(v))))]
        return out

    def post(self, e, st, ret, cx):
        return [("exactly the slots of the ids are deleted", self.gone(e, st, cx["k"])), ("the ids are forgotten", cx["G"]("del", st) == 1)]


class Consolidate(Dyn):
    fn, name = "vp_consolidate_index", "MutableVamanaIndex::consolidate"
    cells = ("probe", "con", "pick")

    def setup(self, e, st):
        cx = self.common(e, st)
        G, put, ob, ai, n, S0, f = (cx[k] for k in ("G", "put", "ob", "ai", "n", "S0", "f"))
        st.assume(S0[cx["E0"]] != EMPTY)
        p, x = fresh_int("probed"), fresh_int("picked")
        st.assume(0 <= p, p < n, 0 <= x, x < n)
        cx["x"] = x

        def tb(v, st):
            return v if z3.is_bool(v) else e.as_bool(v, st)

        def probed(e, st, av, I):
            ob(st, z3.And(tb(av[0], st) == (S0[p] != VALID)), "edges to everything but the valid slots are removed", I)
            put(st, probe=1)

        def entry_ok(e, st, av, I):
            ob(st, z3.And(tb(av[0], st) == (S0[x] == VALID), G("con", st) == 0), "the entry point is chosen among the valid slots", I)
            st.assume(tb(av[0], st))
            put(st, pick=1)

        def consol(e, st, av, I):
            ob(st, z3.And(ai(av[0], st) == f["pruneto"], ai(av[1], st) == f["maxcand"], zR(e.as_real(av[2], st)) == cx["alpha"], G("probe", st) == 1), "the index's own parameters are used", I)
            put(st, con=G("con", st) + 1)

        e.contracts.update({"vp_probe": lambda e, st, av, I: p, "vp_probed": probed, "vp_entry": lambda e, st, av, I: x, "vp_entry_ok": entry_ok, "vp_consolidate": consol})
        return [Ptr(cx["m"])], cx

    def freed(self, e, st, k):
        cx = self.cx
        S, q = self.S(e, st), z3.Int("bq")
        return z3.ForAll([q], S[q] == z3.If(z3.And(0 <= q, q < k, cx["S0"][q] == DELETED), EMPTY, cx["S0"][q]), patterns=[S[q]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        G, ts = self.basics(e, names, cget)
        return [("freed to " + nm, lambda v, f=f: z3.And(0 <= f(v), f(v) <= self.cx["n"], self.freed(e, v.state, f(v)))) for nm, f in ts]

    def post(self, e, st, ret, cx):
        E = e.arr_get(st, cx["eps"], 0, "i32")[0]
        S0 = cx["S0"]
        return [("deleted slots become reusable, all others stay", self.freed(e, st, cx["n"])), ("the graph is consolidated once", cx["G"]("con", st) == 1),
                ("the entry point is valid and moves only if it was deleted", z3.And(S0[E] == VALID, z3.Implies(S0[cx["E0"]] == VALID, E == cx["E0"]), E >= 0, E < cx["n"])), ("sizes stay", self.consistent(e, st, cx["n"]))]


class Compact(Dyn):
    budget, cost = 400, 9
    fn, name = "vp_compact", "MutableVamanaIndex::compact"
    cells = ("mapped", "moved", "tmp", "run", "lo", "hi", "cnt", "start", "k", "j", "bl", "cov", "hit", "res", "last", "adj")

    def setup(self, e, st):
        cx = self.common(e, st)
        G, put, ob, ai, n, S0 = (cx[k] for k in ("G", "put", "ob", "ai", "n", "S0"))
        batch, m, T0 = fresh_int("batch"), fresh_int("kept"), fresh_int("anykept")
        st.assume(batch >= 1, n + batch < 1 << 32, 0 <= m, m <= n, 0 <= T0, T0 < m)
        t, q = z3.Int("ct"), z3.Int("cq")
        # contract of nonmissing_indices (proved above): the valid slots in order
        ids = Region("keptdata", "arr", stride=4, length=m, fields={0: "i32"}, readonly=True)
        N = e.arr_get(st, ids, 0, "i32")
        st.assume(z3.ForAll([t], z3.Implies(z3.And(0 <= t, t < m), z3.And(N[t] >= t, N[t] < n, S0[N[t]] == VALID, O2N(N[t]) == t)), patterns=[N[t]]))
        st.assume(S0[cx["E0"]] == VALID, 0 <= O2N(cx["E0"]), O2N(cx["E0"]) < m, N[O2N(cx["E0"])] == cx["E0"])
        # the graph has been consolidated: edges lead to valid slots only
        adj = Region("adjacency", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        A = e.arr_get(st, adj, 0, "i32")
        st.assume(z3.ForAll([t], z3.And(A[t] >= 0, A[t] < n, 0 <= O2N(A[t]), O2N(A[t]) < m, N[O2N(A[t])] == A[t]), patterns=[A[t]]))
        for p in (DEG(q), OFF(q)):
            st.assume(z3.ForAll([q], z3.And(DEG(q) >= 0, DEG(q) < 1 << 31, OFF(q) >= 0, OFF(q) < 1 << 60), patterns=[p]))
        tl = Region("templists", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        buf = Region("bufferdata", "arr", stride=4, length=None, fields={0: "i32"})
        e.arr_get(st, buf, 0, "i32")
        val = Region("mapvalue", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        MV = e.arr_get(st, val, 0, "i32")
        st.assume(z3.ForAll([q], z3.And(MV[q] == O2N(q)), patterns=[MV[q]]))
        TD, TO = z3.Function("TEMPDEGREE", I_, I_, I_), z3.Function("TEMPAT", I_, I_, I_)
        deg = fresh_int("maxdegree")
        cx.update(kept=m, N=N, A=A, batch=batch, T0=T0, buf=buf, adj=adj)
        ms = K(e, "m_status")

        def nonmissing(e, st, av, I):
            for k, off in enumerate((0, 4 * m, 4 * m)):
                e.store(st, Ptr(av[0].reg, norm(zI(av[0].off) + 8 * k)), "ptr", Ptr(ids, norm(off)), I)

        def minsert(e, st, av, I):
            p = av[-1]
            k, v = (ai(e.load(st, Ptr(p.reg, norm(zI(p.off) + o)), "i32", I), st) for o in (0, 4))
            x = G("mapped", st)
            ob(st, z3.And(x < m, k == N[x], v == x), "each kept slot is mapped to its new position", I)
            put(st, mapped=x + 1)

        def mat(e, st, av, I):
            k = ai(e.load(st, av[1], "i32", I), st)
            ob(st, z3.And(G("mapped", st) == m, 0 <= O2N(k), O2N(k) < m, N[O2N(k)] == k), "only kept slots are translated, with the complete map", I)
            return Ptr(val, norm(4 * k))

        def cdata(e, st, av, I):
            ob(st, And(is_(av[0], cx["m"], K(e, "m_data")), is_(av[1], ids, 0), ai(av[2], st) == m, ai(av[3], st) == batch, G("moved", st) == 0), "the data is compacted to the kept slots", I)
            put(st, moved=1)

        def tnew(e, st, av, I):
            ob(st, z3.And(ai(av[1], st) == batch, ai(av[2], st) == deg), "the buffer holds a batch of full lists", I)
            cx["tmp"] = av[0].reg.name

        def istmp(p):
            return isinstance(p, Ptr) and p.reg.name == cx.get("tmp")

        def run_begin(e, st, av, I):
            r, c, s = G("run", st), ai(av[1], st), G("cov", st)
            ob(st, z3.And(ai(av[0], st) == 0, s < m, c == z3.If(s + batch < m, batch, m - s)), "the positions are worked on in batches, each as large as the buffer", I)
            ob(st, z3.And(r >= 0, r <= 1), "a batch is read, then written", I)
            l, h = fresh_int("lo"), fresh_int("hi")
            st.assume(0 <= l, l <= h, h <= c)
            put(st, run=r + 2, lo=l, hi=h, k=0, cnt=c, adj=0)

        def run_end(e, st, av, I):
            r = G("run", st)
            ob(st, z3.And(G("k", st) == G("hi", st) - G("lo", st)), "every list of the share is done", I)
            put(st, run=z3.If(r == 2, z3.IntVal(1), z3.IntVal(0)), cov=z3.If(r == 3, G("cov", st) + G("cnt", st), G("cov", st)))

        def vadj(e, st, av, I):
            i = ai(av[1], st)
            if istmp(av[0]):
                ob(st, z3.And(G("run", st) == 3, i == G("lo", st) + G("k", st), i < G("hi", st)), "buffered lists are written back in the second pass", I)
                return Ptr(tl, norm(4 * TO(G("cov", st), i)))
            p = G("cov", st) + G("lo", st) + G("k", st)
            ob(st, z3.And(G("run", st) == 2, G("lo", st) + G("k", st) < G("hi", st), i == N[p], i >= G("cov", st)), "the list of the kept slot is read, which is not overwritten yet", I)
            st.assume(DEG(i) >= 0, DEG(i) < 1 << 31)
            put(st, adj=i + 1)
            return Ptr(adj, norm(4 * OFF(i)))

        def vdeg(e, st, av, I):
            i = ai(av[1], st)
            if istmp(av[0]):
                x = TD(G("cov", st), i)
                st.assume(x >= 0, x < 1 << 31)
                return x
            st.assume(DEG(i) >= 0, DEG(i) < 1 << 31)
            return DEG(i)

        def bresize(e, st, av, I):
            k = ai(av[1], st)
            put(st, bl=k)
            for o, off in ((0, 0), (8, 4 * k)):
                e.store(st, Ptr(av[0].reg, norm(zI(av[0].off) + o)), "ptr", Ptr(buf, norm(off)), I)

        def replace(e, st, av, I):
            i, l = ai(av[1], st), ai(av[3], st)
            k, c = G("k", st), G("cov", st)
            if istmp(av[0]):
                o = G("adj", st) - 1
                B, j = e.arr_get(st, buf, 0, "i32"), z3.Int("rj")
                ob(st, And(G("run", st) == 2, i == G("lo", st) + k, o == N[c + G("lo", st) + k], is_(av[2], buf, 0), l == DEG(o)), "each list is buffered at its place in the batch", I)
                ob(st, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < l), B[j] == O2N(A[OFF(o) + j])), patterns=[B[j]]), "the buffered list has the same neighbors under their new positions", I)
            else:
                ob(st, And(is_(av[0], cx["m"], K(e, "m_graph")), G("run", st) == 3, i == c + G("lo", st) + k, is_(av[2], tl, norm(4 * TO(c, G("lo", st) + k))), l == TD(c, G("lo", st) + k)), "each buffered list becomes the list of its new position", I)
            put(st, k=k + 1, adj=0)

        def final(st, I):
            ob(st, z3.And(G("cov", st) == m, G("run", st) == 0, G("moved", st) == 1), "the tables shrink when all lists have moved", I)

        def gresize(e, st, av, I):
            final(st, I)
            ob(st, And(is_(av[0], cx["m"], K(e, "m_graph")), ai(av[1], st) == m), "the graph keeps the kept slots", I)
            self.setsize(e, st, I, "m_graph", ai(av[1], st))

        def dresize(e, st, av, I):
            final(st, I)
            ob(st, ai(av[1], st) == m, "the dataset keeps the kept slots", I)
            self.setsize(e, st, I, "m_data", ai(av[1], st))

        def sresize(e, st, av, I):
            ob(st, And(is_(av[0], cx["m"], ms), ai(av[1], st) == m), "the slot table keeps the kept slots", I)
            e.store(st, Ptr(cx["m"], ms + 8), "ptr", Ptr(cx["s"], norm(ai(av[1], st))), I)

        def vresize(e, st, av, I):
            return (sresize if av[0].reg is cx["m"] else bresize)(e, st, av, I)

        def remap(e, st, av, I):
            o, k = ai(av[1], st), ai(av[2], st)
            ob(st, z3.And(0 <= k, k < m, o == N[k], o != k, k >= G("last", st)), "the ids of moved slots follow them, in order", I)
            put(st, last=k + 1, hit=z3.If(k == T0, G("hit", st) + 1, G("hit", st)))

        e.contracts.update({"~::nonmissing_indices": nonmissing, "~false>::insert(": minsert, "~false>::at(": mat, "vp_compact_data": cdata, "vp_tmp_new": tnew,
                            "vp_run_begin": run_begin, "vp_run_end": run_end, "vp_lo": lambda e, st, av, I: G("lo", st), "vp_hi": lambda e, st, av, I: G("hi", st), "vp_tid": lambda e, st, av, I: fresh_int("tid"),
                            "vp_adj": vadj, "vp_deg": vdeg, "vp_replace": replace, "vp_resize": gresize, "~Vecs::resize(": dresize, "~<unsigned int, std::allocator<unsigned int>>::resize(": vresize, "~SlotMetadata>>::resize(": sresize, "~remap_internal_id": remap, "vp_max_degree": lambda e, st, av, I: deg})
        return [Ptr(cx["m"]), batch], cx

    def moved(self, e, st, k):
        cx = self.cx
        S, q = self.S(e, st), z3.Int("bq")
        return z3.ForAll([q], z3.And(z3.Implies(z3.And(0 <= q, q < k), S[q] == VALID), z3.Implies(q >= k, S[q] == cx["S0"][q])), patterns=[S[q]])

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G, ts = self.basics(e, names, cget)
        m, N, A, T0 = cx["kept"], cx["N"], cx["A"], cx["T0"]
        o = lambda v: G(v, "adj") - 1
        j = z3.Int("tj")
        B = lambda v: e.arr_get(v.state, cx["buf"], 0, "i32")
        share = lambda v: z3.And(0 <= G(v, "k"), G(v, "k") <= G(v, "hi") - G(v, "lo"))
        out = [("share", share), ("between batches", lambda v: z3.And(G(v, "run") == 0, 0 <= G(v, "cov"), G(v, "cov") <= m)), ("mapped", lambda v: G(v, "mapped") == m)]
        for nm, f in ts:
            out += [("mapped to " + nm, lambda v, f=f: z3.And(G(v, "mapped") == f(v), 0 <= f(v), f(v) <= m)),
                    ("covered to " + nm, lambda v, f=f: G(v, "cov") == f(v)),
                    ("list at " + nm, lambda v, f=f: f(v) == G(v, "lo") + G(v, "k")),
                    ("neighbor at " + nm, lambda v, f=f: z3.And(OFF(o(v)) <= f(v), f(v) <= OFF(o(v)) + DEG(o(v)))),
                    ("translated to " + nm, lambda v, f=f: z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < f(v)), B(v)[j] == O2N(A[OFF(o(v)) + j])), patterns=[B(v)[j]])),
                    ("both at " + nm, lambda v, f=f: z3.And(*[z3.Or(zI(cget(v, x)) == f(v), zI(cget(v, x)) == f(v) + OFF(o(v))) for x in names]) if names else z3.BoolVal(False)),
                    ("slots moved to " + nm, lambda v, f=f: z3.And(0 <= f(v), f(v) <= m, self.moved(e, v.state, f(v)))),
                    ("entry to " + nm, lambda v, f=f: z3.And(0 <= f(v), f(v) <= 1, e.arr_get(v.state, cx["eps"], 0, "i32")[0] == z3.If(f(v) > 0, O2N(cx["E0"]), cx["E0"]))),
                    ("ids moved to " + nm, lambda v, f=f: z3.And(G(v, "last") <= f(v), G(v, "hit") == z3.If(z3.And(T0 < f(v), N[T0] != T0), 1, 0)))]
        return out

    def post(self, e, st, ret, cx):
        m, T0 = cx["kept"], cx["T0"]
        E = e.arr_get(st, cx["eps"], 0, "i32")[0]
        return [("all lists have moved", z3.And(cx["G"]("cov", st) == m, cx["G"]("run", st) == 0)), ("all tables have the size of what is kept", self.consistent(e, st, m)), ("exactly the kept slots remain, all valid", self.moved(e, st, m)),
                ("the id of every moved slot follows it once", cx["G"]("hit", st) == z3.If(cx["N"][T0] != T0, 1, 0)), ("the entry point follows its slot", E == O2N(cx["E0"]))]


UNITS = [IsDeleted(), Valid(), DeleteEntry(), NonMissing(), AddPoints(), Delete(), Consolidate(), Compact()]
