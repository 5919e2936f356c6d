"""Graph construction (index/vamana/vamana_build.h) over an abstract graph, dataset, distance, search and pruning."""
import z3
from driver import *

STUBS = ["quiet", "set", "mapx"]
NOINLINE = ["std::sort<", r"^((?!lambda).)*svs::index::vamana::greedy_search<", "greedy_searchIT", "heuristic_prune_neighborsI", r"^void svs::index::vamana::VamanaBuilder<((?!lambda).)*$", "lock_guard",
            "BackedgeBuffer<unsigned int>::add_edge", "BackedgeBuffer<unsigned int>::reset", "::~", r"std::pair<unsigned int, .*>::pair\("]
I_, B_, R_ = z3.IntSort(), z3.BoolSort(), z3.RealSort()
DEG = z3.Function("DEGREE", I_, I_)
OFF = z3.Function("LISTAT", I_, I_)
DF = z3.Function("DIST", I_, I_, R_)
UPV, UPO, UPL = (z3.Function(n, I_, I_) for n in ("UPDVERTEX", "UPDAT", "UPDLEN"))
MB, MN = z3.Function("MAPAT", I_, I_), z3.Function("MAPLEN", I_, I_)
SO, SS = z3.Function("SETAT", I_, I_), z3.Function("SETLEN", I_, I_)
INSET = z3.Function("INSET", I_, I_, B_)
POOLSZ = z3.Int("POOLSIZE")


def K(e, n):
    return e.ir["consts"][n]


def is_(p, reg, off):
    return And(isinstance(p, Ptr), p.reg is reg, Eq(p.off, off)) if isinstance(p, Ptr) else z3.BoolVal(False)


class Build(Unit):
    props = {"C14"}
    cells = ()

    def common(self, e, st):
        n = fresh_int("nodes")
        st.assume(n >= 0, n < 1 << 32)
        g = Region("graph", "obj", size=8)
        st.mem[g.id] = {(0, "i64"): n}
        d = Region("dataset", "obj", size=8, readonly=True)
        st.mem[d.id] = {(0, "i64"): n}
        adj = Region("adjacency", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        A = e.arr_get(st, adj, 0, "i32")
        j = z3.Int("aj")
        st.assume(z3.ForAll([j], z3.And(A[j] >= 0, A[j] < n), patterns=[A[j]]))
        for p in (DEG(j), OFF(j)):
            st.assume(z3.ForAll([j], z3.And(DEG(j) >= 0, DEG(j) < 1 << 32, OFF(j) >= 0, OFF(j) < 1 << 60), patterns=[p]))
        gh = Ghost(st, *self.cells)
        b = Region("builder", "obj", size=K(e, "b_sizeof"), readonly=True)
        deg, win, pool, pt = (fresh_int(x) for x in ("maxdegree", "window", "maxpool", "pruneto"))
        palpha = z3.FreshConst(R_, "palpha")
        hist = fresh_int("history")
        st.assume(hist >= 0, hist <= 1, POOLSZ >= 1, POOLSZ < 1 << 32)
        for x in (deg, win, pool, pt):
            st.assume(x >= 0, x < 1 << 40)
        P, Q = K(e, "b_params"), K(e, "b_params") + 48
        locks = Region("locks", "arr", stride=1, length=n, fields={0: "i8"})
        maps = Region("buckets", "arr", stride=8, length=None, fields={0: "i64"})
        nb = fresh_int("buckets")
        st.assume(nb >= 0, nb < 1 << 40)
        be = K(e, "b_be")
        b.bind = {K(e, "b_graph"): Ptr(g), K(e, "b_data"): Ptr(d), K(e, "b_locks"): Ptr(locks, 0), be + 8: Ptr(maps, 0), be + 16: Ptr(maps, norm(8 * nb))}
        st.mem[b.id] = {(P, "f32"): palpha, (P + 8, "i64"): deg, (P + 16, "i64"): win, (P + 24, "i64"): pool, (P + 32, "i64"): pt, (P + 40, "i8"): hist,
                        (Q, "i64"): fresh_int("lookahead"), (Q + 8, "i64"): fresh_int("step")}
        rb, re_ = fresh_int("first"), fresh_int("last")
        st.assume(0 <= rb, rb <= re_, re_ <= n)
        rng = Region("range", "obj", size=16, readonly=True)
        st.mem[rng.id] = {(0, "i64"): rb, (8, "i64"): re_}
        t = Region("timer", "obj", size=8)
        alpha = z3.FreshConst(R_, "alpha")
        pv = Region("pooldata", "arr", stride=8, length=None, fields={0: "i32", 4: "f32"})
        self.cx = cx = dict(n=n, g=g, d=d, adj=adj, A=A, gh=gh, b=b, deg=deg, win=win, pool=pool, pt=pt, palpha=palpha, hist=hist, locks=locks, maps=maps, nb=nb, rng=rng, rb=rb, re=re_, t=t, alpha=alpha, pv=pv, pobj=None)
        G = cx["G"] = lambda k, st: zI(gh.get(e, st, k))
        S = cx["S"] = lambda st, **kv: [gh.set(e, st, k, norm(v) if not isinstance(v, int) else v) for k, v in kv.items()]
        ob = cx["ob"] = lambda st, c, what, I: e.oblige(st, c, what, "pre", I.get("loc", ""))
        ai = cx["ai"] = lambda x, st: zI(e.as_int(x, st))
        nop = lambda e, st, av, I: None
        e.contracts["vp_pool_size"] = lambda e, st, av, I: POOLSZ
        e.contracts["~::~vector("] = nop
        e.contracts["~::~pair("] = nop
        e.contracts["~::~allocator("] = nop
        if "psz" in self.cells:
            def mine(st, p, I):
                if not isinstance(p, Ptr):
                    raise Unsupported("candidate list is not an object")
                if cx["pobj"] is None:
                    cx["pobj"] = p.reg.name
                ob(st, z3.BoolVal(p.reg.name == cx["pobj"]), "there is one candidate list", I)

            def pclear(e, st, av, I):
                mine(st, av[0], I)
                S(st, psz=0, k=0, j=0, mode=0, srt=0, rs=0, pend=0)

            def psize(e, st, av, I):
                st.assume(G("psz", st) < 1 << 41)
                return G("psz", st)

            def pdata(e, st, av, I):
                mine(st, av[0], I)
                return Ptr(pv, 0)

            def sort(e, st, av, I):
                ob(st, And(is_(av[0], pv, 0), av[1].reg is pv, zI(av[1].off) == 8 * G("psz", st)), "all candidates are sorted", I)
                ob(st, self.collected(st), "the candidates are sorted once all of them are collected", I)
                ob(st, z3.BoolVal("TotalOrder<std::less<void>" in I.get("dem", "")), "the candidates are put into the order of the distance", I)
                S(st, srt=1)

            def resize(e, st, av, I):
                m, z = ai(av[1], st), G("psz", st)
                ob(st, z3.And(G("srt", st) == 1, m == z3.If(z < pool, z, pool)), "the sorted candidates are cut off at the maximal pool size", I)
                S(st, psz=m, rs=1)

            e.contracts.update({"vp_pv_clear": pclear, "vp_pv_size": psize, "vp_pv_data": pdata, "vp_pv_resize": resize, "~std::sort<": sort})
        return cx

    def prune_pre(self, e, st, av, I, limit, alpha, v):
        cx, ob, ai, G = self.cx, self.cx["ob"], self.cx["ai"], self.cx["G"]
        ob(st, And(ai(av[0], st) == limit, zR(e.as_real(av[1], st)) == alpha), "the lists are pruned to the given degree with the given alpha", I)
        ob(st, And(is_(av[2], cx["d"], 0), ai(av[5], st) == v), "the pruned vertex is the one the candidates were collected for", I)
        p, m = e.load(st, av[6], "ptr", I), e.load(st, Ptr(av[6].reg, norm(zI(av[6].off) + 8)), "i64", I)
        ob(st, And(is_(p, cx["pv"], 0), ai(m, st) == G("psz", st), G("srt", st) == 1, G("rs", st) == 1), "all of the sorted candidates are considered", I)

    def basics(self, e, names, cget):
        gh = self.cx["gh"]
        G = lambda v, k: zI(gh.get(e, v.state, k))
        ts = [("t", lambda v: v.t)] + [(n, lambda v, n=n: zI(cget(v, n))) for n in names]
        out = []
        for c in self.cells:
            out.append((c + " unchanged", lambda v, c=c: G(v, c) == zI(v.entry(c)) if hasattr(v, "entry") else z3.BoolVal(False)))
        return G, ts, []


class Generate(Build):
    fn = "vp_generate"
    name = "VamanaBuilder::generate_neighbors"
    cells = ("run", "cp", "cb", "cs", "ct", "cur", "fixed", "src", "k", "j", "mode", "a", "pend", "psz", "srt", "rs", "upd", "done", "r", "setup")

    def collected(self, st):
        cx, G = self.cx, self.cx["G"]
        return z3.And(G("mode", st) == 1, G("pend", st) == 0, G("cur", st) > 0, G("a", st) == DEG(G("cur", st) - 1))

    def setup(self, e, st):
        cx = self.common(e, st)
        G, S, ob, ai, n, A, gh = (cx[k] for k in ("G", "S", "ob", "ai", "n", "A", "gh"))
        lo, hi, tid, m = (fresh_int(x) for x in ("lo", "hi", "tid", "updates"))
        cnt = cx["re"] - cx["rb"]
        st.assume(0 <= lo, lo <= hi, hi <= cnt, 0 <= tid, tid < POOLSZ, m >= 0, m < 1 << 40)
        ep = Region("entrypoints", "obj", size=24, readonly=True)
        trk = Region("tracked", "arr", stride=8, length=None, fields={0: "i32", 4: "f32"})
        z, o1, o2 = K(e, "sn_sizeof"), K(e, "sn_id"), K(e, "sn_dist")
        sb = Region("searchresults", "arr", stride=z, length=None, fields={o1: "i32", o2: "f32"})
        updata = Region("updatedata", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        upent = Region("updateentries", "arr", stride=K(e, "up_sizeof"), length=None, fields={0: "i32"}, readonly=True)
        upd = Region("updatelist", "obj", size=8)
        back = Region("lastupdate", "obj", size=32)
        SN = z3.Function("SOURCES", I_, I_)
        j = z3.Int("uj")
        st.assume(z3.ForAll([j], z3.And(UPO(j) >= 0, UPO(j) < 1 << 60, UPL(j) >= 0, UPL(j) < 1 << 32, UPV(j) >= 0, UPV(j) < n), patterns=[UPL(j)]))
        st.assume(z3.ForAll([j], z3.And(SN(j) >= 0, SN(j) < 1 << 40), patterns=[SN(j)]))
        cx.update(lo=lo, hi=hi, m=m, SN=SN)
        srcs = lambda st: SN(G("src", st))

        def sid(st, k):
            T, B = e.arr_get(st, trk, 0, "i32"), e.arr_get(st, sb, o1, "i32")
            return z3.If(cx["hist"] != 0, T[k], B[k])

        def sdist(st, k):
            T, B = e.arr_get(st, trk, 4, "f32"), e.arr_get(st, sb, o2, "f32")
            return z3.If(cx["hist"] != 0, T[k], B[k])

        self.fill = [(trk, 0, "i32"), (trk, 4, "f32"), (sb, o1, "i32"), (sb, o2, "f32")]
        for r_, o, ty in self.fill:
            e.arr_get(st, r_, o, ty)

        def run_begin(e, st, av, I):
            r = G("run", st)
            ob(st, z3.Or(z3.And(r == 0, ai(av[0], st) == 0, ai(av[1], st) == cnt), r == 2), "the range is worked on, then the updates are applied", I)
            S(st, run=r + 1)

        def run_end(e, st, av, I):
            r = G("run", st)
            ob(st, z3.Implies(r == 1, z3.And(G("done", st) == hi - lo, G("upd", st) == hi - lo)), "every vertex of the share gets one list", I)
            ob(st, z3.Implies(r == 3, G("r", st) == m), "every list found is written to the graph", I)
            S(st, run=r + 1)

        def tls_new(e, st, av, I):
            ob(st, ai(av[1], st) == POOLSZ, "there is a list of updates per thread", I)

        def tls_at(e, st, av, I):
            ob(st, ai(av[1], st) == tid, "a thread uses its own list of updates", I)
            return Ptr(upd)

        def sb_new(e, st, av, I):
            ob(st, ai(av[1], st) == cx["win"], "the search uses the window of the build parameters", I)
            S(st, setup=1)

        def tr_new(e, st, av, I):
            ob(st, ai(e.as_int(av[1], st) if not z3.is_bool(av[1]) else z3.If(av[1], z3.IntVal(1), z3.IntVal(0)), st) == cx["hist"] if not z3.is_bool(av[1]) else av[1] == (cx["hist"] != 0), "the history is recorded exactly when asked for", I)

        def flag(nm):
            def f(e, st, av, I):
                S(st, **{nm: 1})
            return f

        pclear0 = e.contracts["vp_pv_clear"]

        def pclear(e, st, av, I):
            pclear0(e, st, av, I)
            S(st, cp=1)

        def search(e, st, av, I):
            v = ai(e.load(st, av[3], "i64", I), st)
            ob(st, And(is_(av[0], cx["g"], 0), is_(av[1], cx["d"], 0), is_(av[6], ep, 0)), "the graph is searched from the entry points", I)
            ob(st, v == cx["rb"] + lo + G("done", st), "the vertices of the share are searched in turn", I)
            ob(st, z3.And(G("cp", st) == 1, G("cb", st) == 1, G("cs", st) == 1, G("ct", st) == 1, G("setup", st) == 1), "nothing is left over from the vertex before", I)
            for r_, o, ty in self.fill:
                st.mem[r_.id][(o, ty)] = z3.FreshConst(e.arr_get(st, r_, o, ty).sort(), "found")
                e.note_write(r_, (o, ty))
                if ty == "i32":
                    X = st.mem[r_.id][(o, ty)]
                    st.assume(z3.ForAll([j], z3.And(X[j] >= 0, X[j] < n), patterns=[X[j]]))
            f = fresh_int("search")
            S(st, cur=v + 1, fixed=v + 1, src=f, k=0, j=0, mode=0, cp=0, cb=0, cs=0, ct=0)

        def fix(e, st, av, I):
            S(st, fixed=ai(av[0], st) + 1)

        def dist(e, st, av, I):
            a, b = ai(av[0], st), ai(av[1], st)
            ob(st, z3.And(G("cur", st) == a + 1, G("fixed", st) == a + 1, 0 <= b, b < n), "distances are measured from the searched vertex to vertices of the dataset", I)
            return DF(a, b)

        def vadj(e, st, av, I):
            i = ai(av[1], st)
            ob(st, z3.And(G("mode", st) == 0, i + 1 == G("cur", st), G("k", st) == srcs(st), G("j", st) == srcs(st)), "everything the search has found is a candidate before the neighbors of the vertex are added", I)
            st.assume(z3.ForAll([j], z3.Implies(z3.And(OFF(i) <= j, j < OFF(i) + DEG(i)), A[j] != i), patterns=[A[j]]))
            S(st, mode=1, a=0, pend=0)
            return Ptr(cx["adj"], norm(4 * OFF(i)))

        def vdeg(e, st, av, I):
            i = ai(av[1], st)
            st.assume(DEG(i) >= 0, DEG(i) < 1 << 32)
            return DEG(i)

        def push(e, st, av, I):
            i, dd, k, c = ai(av[1], st), zR(e.as_real(av[2], st)), G("k", st), G("cur", st) - 1
            md = G("mode", st)
            ob(st, z3.Or(z3.And(md == 0, c >= 0, k < srcs(st), i == sid(st, k), dd == sdist(st, k)), z3.And(md == 1, G("pend", st) == i + 1, dd == DF(c, i))),
               "candidates are what the search has found, with the distances found, and the neighbors not among them, with their exact distances", I)
            S(st, k=z3.If(md == 0, k + 1, k), pend=z3.If(md == 1, z3.IntVal(0), G("pend", st)), psz=G("psz", st) + 1, srt=0)

        def sadd(e, st, av, I):
            i, q, a, c = ai(av[1], st), G("j", st), G("a", st), G("cur", st) - 1
            md = G("mode", st)
            ob(st, z3.Or(z3.And(md == 0, c >= 0, q < srcs(st), i == sid(st, q)), z3.And(md == 1, a < DEG(c), i == A[OFF(c) + a], G("pend", st) == 0)),
               "what the search has found and then every neighbor is recorded in turn, the one before having become a candidate if it was new", I)
            b = z3.FreshConst(B_, "isnew")
            S(st, j=z3.If(md == 0, q + 1, q), a=z3.If(md == 1, a + 1, a), pend=z3.If(z3.And(md == 1, b), i + 1, z3.IntVal(0)))
            return b

        def up_add(e, st, av, I):
            ob(st, And(is_(av[0], upd, 0), ai(av[1], st) + 1 == G("cur", st), G("upd", st) == G("done", st)), "one update is recorded per searched vertex", I)
            S(st, upd=G("upd", st) + 1)

        def prune(e, st, av, I):
            v = G("cur", st) - 1
            self.prune_pre(e, st, av, I, cx["deg"], cx["alpha"], v)
            ob(st, And(is_(av[7], back, 8), G("upd", st) == G("done", st) + 1, G("fixed", st) == v + 1), "the pruned list is recorded as the update of the vertex", I)
            S(st, done=G("done", st) + 1, srt=0, rs=0)

        def pairc(e, st, av, I):
            this, o = av[0], av[1]
            if not (isinstance(o, Ptr) and o.reg is upent):
                raise Unsupported("copied pair is not an update")
            r, _ = lin_divisible(norm(o.off), K(e, "up_sizeof"))
            r = zI(r)
            st.assume(UPL(r) >= 0)
            e.store(st, Ptr(this.reg, this.off), "i32", UPV(r), I)
            e.store(st, Ptr(this.reg, norm(zI(this.off) + 8)), "ptr", Ptr(updata, norm(4 * UPO(r))), I)
            e.store(st, Ptr(this.reg, norm(zI(this.off) + 16)), "ptr", Ptr(updata, norm(4 * (UPO(r) + UPL(r)))), I)

        def replace(e, st, av, I):
            r = G("r", st)
            ob(st, And(is_(av[0], cx["g"], 0), G("run", st) == 3, r < m, ai(av[1], st) == UPV(r), is_(av[2], updata, norm(4 * UPO(r))), ai(av[3], st) == UPL(r)), "each recorded list becomes the list of its vertex, after all searches", I)
            S(st, r=r + 1)

        inits = dict(run=0, cp=0, cb=0, cs=0, ct=0, cur=0, upd=0, done=0, r=0, setup=0)
        for k, v in inits.items():
            gh.set(e, st, k, v)
        e.contracts.update({
            "vp_run_begin": run_begin, "vp_run_end": run_end, "vp_lo": lambda e, st, av, I: lo, "vp_hi": lambda e, st, av, I: hi, "vp_tid": lambda e, st, av, I: tid,
            "vp_tls_new": tls_new, "vp_tls_at": tls_at, "vp_sb_new": sb_new, "vp_sb_visited": lambda e, st, av, I: None, "vp_sb_clear": flag("cb"), "vp_set_clear": flag("cs"), "vp_tr_clear": flag("ct"), "vp_pv_clear": pclear,
            "vp_tr_new": tr_new, "vp_tr_on": lambda e, st, av, I: cx["hist"] != 0, "vp_tr_begin": lambda e, st, av, I: Ptr(trk, 0), "vp_tr_end": lambda e, st, av, I: Ptr(trk, norm(8 * srcs(st))),
            "vp_sb_size": lambda e, st, av, I: srcs(st), "vp_sb_at": lambda e, st, av, I: Ptr(sb, norm(z * ai(av[1], st))), "~greedy_search": search, "~heuristic_prune_neighbors": prune,
            "vp_fix": fix, "vp_dist": dist, "vp_adj": vadj, "vp_deg": vdeg, "vp_pv_push": push, "vp_set_add": sadd, "vp_up_add": up_add,
            "vp_up_back": lambda e, st, av, I: Ptr(back), "vp_up_begin": lambda e, st, av, I: Ptr(upent, 0), "vp_up_end": lambda e, st, av, I: Ptr(upent, norm(K(e, "up_sizeof") * m)), "~::pair(": pairc, "vp_replace": replace})
        return [Ptr(cx["b"]), Ptr(cx["rng"]), cx["alpha"], Ptr(ep), Ptr(cx["t"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G, ts, out = self.basics(e, names, cget)
        SN = cx["SN"]
        srcs = lambda v: SN(G(v, "src"))
        for nm, f in ts:
            out += [("vertex: " + nm, lambda v, f=f: f(v) == cx["rb"] + cx["lo"] + G(v, "done")),
                    ("candidates taken: " + nm, lambda v, f=f: G(v, "k") == f(v)),
                    ("neighbors: " + nm, lambda v, f=f: f(v) == OFF(G(v, "cur") - 1) + G(v, "a")),
                    ("written: " + nm, lambda v, f=f: f(v) == G(v, "r"))]
        out += [("searching", lambda v: z3.And(G(v, "run") == 1, G(v, "setup") == 1)),
                ("share", lambda v: z3.And(0 <= G(v, "done"), G(v, "done") <= cx["hi"] - cx["lo"], G(v, "upd") == G(v, "done"))),
                ("within share", lambda v: z3.And(0 <= G(v, "done"), G(v, "done") < cx["hi"] - cx["lo"], G(v, "upd") == G(v, "done"))),
                ("current", lambda v: G(v, "cur") == cx["rb"] + cx["lo"] + G(v, "done") + 1),
                ("prepared", lambda v: G(v, "fixed") == G(v, "cur")),
                ("taking", lambda v: z3.And(G(v, "mode") == 0, G(v, "k") == G(v, "j"), 0 <= G(v, "k"), G(v, "k") <= srcs(v))),
                ("adding", lambda v: z3.And(G(v, "mode") == 1, 0 <= G(v, "a"), G(v, "a") <= DEG(G(v, "cur") - 1), G(v, "pend") == 0)),
                ("pool size", lambda v: G(v, "psz") >= 0),
                ("applying", lambda v: z3.And(G(v, "run") == 3, 0 <= G(v, "r"), G(v, "r") <= cx["m"]))]
        return out

    def post(self, e, st, ret, cx):
        return [("the lists are found and written", cx["G"]("run", st) == 4)]


class Reverse(Build):
    fn = "vp_reverse"
    name = "VamanaBuilder::add_reverse_edges"
    cells = ("run", "reset", "cur", "done", "a", "lock", "chk", "chkv", "fixed", "k", "j", "mode", "pend", "psz", "srt", "rs", "map", "kd", "rlen", "pruned")

    def collected(self, st):
        G = self.cx["G"]
        return z3.And(G("mode", st) == 1, G("pend", st) == 0, G("cur", st) > 0, G("a", st) == DEG(G("cur", st) - 1))

    def setup(self, e, st):
        cx = self.common(e, st)
        G, S, ob, ai, n, A, gh = (cx[k] for k in ("G", "S", "ob", "ai", "n", "A", "gh"))
        lo, hi, l2, h2, tid = (fresh_int(x) for x in ("lo", "hi", "lo2", "hi2", "tid"))
        cnt = cx["re"] - cx["rb"]
        st.assume(0 <= lo, lo <= hi, hi <= cnt, 0 <= l2, l2 <= h2, h2 <= cx["nb"], 0 <= tid, tid < POOLSZ)
        kv = Region("overflow", "arr", stride=16, length=None, fields={0: "i32", 8: "i64"}, readonly=True)
        sd = Region("overflowset", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        res = Region("prunedlist", "arr", stride=4, length=None, fields={0: "i32"}, readonly=True)
        self.kv = kv
        KEY, SE = e.arr_get(st, kv, 0, "i32"), e.arr_get(st, sd, 0, "i32")
        j = z3.Int("kj")
        for X in (KEY, SE):
            st.assume(z3.ForAll([j], z3.And(X[j] >= 0, X[j] < n), patterns=[X[j]]))
        for p in (MB(j), MN(j)):
            st.assume(z3.ForAll([j], z3.And(MB(j) >= 0, MB(j) < 1 << 50, MN(j) >= 0, MN(j) < 1 << 50), patterns=[p]))
        for p in (SO(j), SS(j)):
            st.assume(z3.ForAll([j], z3.And(SO(j) >= 0, SO(j) < 1 << 50, SS(j) >= 0, SS(j) < 1 << 50), patterns=[p]))
        cx.update(lo=lo, hi=hi, l2=l2, h2=h2)
        be = K(e, "b_be")

        def run_begin(e, st, av, I):
            r = G("run", st)
            ob(st, z3.Or(z3.And(r == 0, ai(av[0], st) == 0, ai(av[1], st) == cnt, G("reset", st) == 1), z3.And(r == 2, ai(av[1], st) == cx["nb"])), "the overflow is emptied, the range is worked on, then all of the overflow", I)
            S(st, run=r + 1)

        def idle(st):
            return z3.And(G("lock", st) == 0, z3.Or(G("cur", st) == 0, G("a", st) == DEG(G("cur", st) - 1)))

        def run_end(e, st, av, I):
            r = G("run", st)
            ob(st, z3.Implies(r == 1, z3.And(G("done", st) == hi - lo, idle(st))), "every edge of every vertex of the share is reversed", I)
            ob(st, z3.Implies(r == 3, z3.And(l2 + G("map", st) == h2, z3.Or(G("map", st) == 0, G("kd", st) == MN(l2 + G("map", st) - 1)))), "all overflowing vertices of the share are pruned", I)
            S(st, run=r + 1)

        def reset(e, st, av, I):
            ob(st, And(is_(av[0], cx["b"], be), G("run", st) == 0), "the overflow of the pass before is forgotten first", I)
            S(st, reset=1)

        def key(st):
            return MB(l2 + G("map", st) - 1) + G("kd", st)

        def vadj(e, st, av, I):
            i, r = ai(av[1], st), G("run", st)
            ob(st, z3.Or(z3.And(r == 1, idle(st), i == cx["rb"] + lo + G("done", st)), z3.And(r == 3, i + 1 == G("cur", st), G("mode", st) == 0, G("k", st) == SS(key(st)))),
               "the edges of the vertices of the share are taken in turn; the old list follows the overflow", I)
            S(st, cur=i + 1, a=0, pend=0, mode=1, done=z3.If(r == 1, G("done", st) + 1, G("done", st)))
            return Ptr(cx["adj"], norm(4 * OFF(i)))

        def vdeg(e, st, av, I):
            i = ai(av[1], st)
            x = fresh_int("degree")
            c = z3.And(G("run", st) == 1, G("lock", st) > 0)
            st.assume(x >= 0, x < 1 << 32, z3.Implies(z3.Not(c), x == DEG(i)), DEG(i) >= 0, DEG(i) < 1 << 32)
            ob(st, z3.Implies(c, i + 1 == G("lock", st)), "the degree of a vertex is checked while its lock is held", I)
            S(st, chk=z3.If(c, i + 1, z3.IntVal(0)), chkv=x)
            return x

        def lock(e, st, av, I):
            p = av[1]
            ob(st, And(isinstance(p, Ptr), p.reg is cx["locks"]), "a vertex lock is taken", I)
            ob(st, z3.And(G("lock", st) == 0), "one lock is held at a time", I)
            S(st, lock=zI(p.off) + 1, chk=0)

        def unlock(e, st, av, I):
            ob(st, G("lock", st) > 0, "a lock that is held is released", I)
            S(st, lock=0, chk=0)

        def edge(st, o, v):
            a, c = G("a", st), G("cur", st) - 1
            return z3.And(G("run", st) == 1, c >= 0, v == c, a < DEG(c), o == A[OFF(c) + a], G("lock", st) == o + 1, G("chk", st) == o + 1)

        def add(e, st, av, I):
            ob(st, And(is_(av[0], cx["g"], 0), edge(st, ai(av[1], st), ai(av[2], st)), G("chkv", st) < cx["deg"]), "the reverse edge is added under the lock of its source when the list checked under it has room", I)
            S(st, a=G("a", st) + 1, chk=0)
            return fresh_int("newdegree")

        def over(e, st, av, I):
            ob(st, And(is_(av[0], cx["b"], be), edge(st, ai(av[1], st), ai(av[2], st)), G("chkv", st) >= cx["deg"]), "the reverse edge overflows when the list is full", I)
            S(st, a=G("a", st) + 1, chk=0)

        def mapidx(p):
            if not (isinstance(p, Ptr) and p.reg is cx["maps"]):
                raise Unsupported("not a bucket")
            return zI(lin_divisible(norm(p.off), 8)[0])

        def mbegin(e, st, av, I):
            i = mapidx(av[0])
            ob(st, z3.And(G("run", st) == 3, i == l2 + G("map", st), z3.Or(G("map", st) == 0, G("kd", st) == MN(l2 + G("map", st) - 1))), "the buckets of the share are taken in turn, the one before having been pruned", I)
            S(st, kd=0, map=G("map", st) + 1)
            return Ptr(kv, norm(16 * MB(i)))

        def mend(e, st, av, I):
            i = mapidx(av[0])
            return Ptr(kv, norm(16 * (MB(i) + MN(i))))

        def setof(p):
            if not (isinstance(p, Ptr) and p.reg is kv):
                raise Unsupported("not an overflow set")
            return zI(lin_divisible(norm(zI(p.off) - 8), 16)[0])

        def fix(e, st, av, I):
            i = ai(av[0], st)
            ob(st, z3.And(G("run", st) == 3, i == KEY[key(st)]), "the overflowing vertices are taken in turn", I)
            S(st, fixed=i + 1, cur=i + 1)

        def sdata(e, st, av, I):
            q = setof(av[0])
            ob(st, q == key(st), "the overflow of the vertex itself is taken", I)
            return Ptr(sd, norm(4 * SO(q)))

        def dist(e, st, av, I):
            a, b = ai(av[0], st), ai(av[1], st)
            ob(st, z3.And(G("cur", st) == a + 1, G("fixed", st) == a + 1, 0 <= b, b < n), "distances are measured from the overflowing vertex to vertices of the dataset", I)
            return DF(a, b)

        def has(e, st, av, I):
            q, i, a, c = setof(av[0]), ai(av[1], st), G("a", st), G("cur", st) - 1
            ob(st, z3.And(q == key(st), G("mode", st) == 1, c >= 0, a < DEG(c), i == A[OFF(c) + a], G("pend", st) == 0), "every old neighbor is looked up in the overflow, the one before having become a candidate if it is not in it", I)
            S(st, a=a + 1, pend=z3.If(INSET(q, i), z3.IntVal(0), i + 1))
            return INSET(q, i)

        def push(e, st, av, I):
            i, dd, k, c, md = ai(av[1], st), zR(e.as_real(av[2], st)), G("k", st), G("cur", st) - 1, G("mode", st)
            ob(st, z3.And(c >= 0, dd == DF(c, i), z3.Or(z3.And(md == 0, k < SS(key(st)), i == SE[SO(key(st)) + k]), z3.And(md == 1, G("pend", st) == i + 1))),
               "candidates are the overflow and the old neighbors not in it, with their exact distances", I)
            S(st, k=z3.If(md == 0, k + 1, k), pend=z3.If(md == 1, z3.IntVal(0), G("pend", st)), psz=G("psz", st) + 1, srt=0)

        def prune(e, st, av, I):
            v = G("cur", st) - 1
            self.prune_pre(e, st, av, I, cx["pt"], cx["alpha"], v)
            ob(st, G("fixed", st) == v + 1, "the distance is prepared for the pruned vertex", I)
            m = fresh_int("kept")
            st.assume(m >= 0, m <= cx["pt"], m < 1 << 40)
            r = av[7]
            e.store(st, Ptr(r.reg, r.off), "ptr", Ptr(res, 0), I)
            e.store(st, Ptr(r.reg, norm(zI(r.off) + 8)), "ptr", Ptr(res, norm(4 * m)), I)
            S(st, rlen=m, srt=0, rs=0, pruned=v + 1)

        def replace(e, st, av, I):
            i = ai(av[1], st)
            ob(st, And(is_(av[0], cx["g"], 0), i + 1 == G("pruned", st), is_(av[2], res, 0), ai(av[3], st) == G("rlen", st)), "the pruned list becomes the list of the vertex it was computed for", I)
            S(st, pruned=0, kd=G("kd", st) + 1)

        for k in ("run", "reset", "cur", "done", "lock", "chk", "map", "kd", "pruned"):
            gh.set(e, st, k, 0)

        def vlo(e, st, av, I):
            r = gh.get(e, st, "run")
            return lo if str(r) == "1" else l2

        def vhi(e, st, av, I):
            r = gh.get(e, st, "run")
            return hi if str(r) == "1" else h2

        e.contracts.update({
            "vp_run_begin": run_begin, "vp_run_end": run_end, "vp_lo": vlo, "vp_hi": vhi, "vp_tid": lambda e, st, av, I: tid, "~::reset(": reset, "vp_adj": vadj, "vp_deg": vdeg, "~::lock_guard(": lock, "~::~lock_guard(": unlock,
            "vp_add": add, "~BackedgeBuffer<unsigned int>::add_edge(": over, "vp_map_begin": mbegin, "vp_map_end": mend, "vp_fix": fix, "vp_set_data": sdata, "vp_set_size": lambda e, st, av, I: SS(setof(av[0])), "vp_dist": dist, "vp_set_has": has,
            "vp_pv_push": push, "~heuristic_prune_neighbors": prune, "vp_replace": replace})
        return [Ptr(cx["b"]), Ptr(cx["rng"]), cx["alpha"], Ptr(cx["t"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G, ts, out = self.basics(e, names, cget)
        l2 = cx["l2"]
        key = lambda v: MB(l2 + G(v, "map") - 1) + G(v, "kd")
        for nm, f in ts:
            out += [("vertex: " + nm, lambda v, f=f: f(v) == cx["rb"] + cx["lo"] + G(v, "done")),
                    ("neighbors: " + nm, lambda v, f=f: f(v) == OFF(G(v, "cur") - 1) + G(v, "a")),
                    ("bucket: " + nm, lambda v, f=f: f(v) == l2 + G(v, "map")),
                    ("overflowing: " + nm, lambda v, f=f: f(v) == key(v)),
                    ("overflow taken: " + nm, lambda v, f=f: f(v) == SO(key(v)) + G(v, "k"))]
        out += [("reversing", lambda v: z3.And(G(v, "run") == 1, G(v, "reset") == 1, G(v, "lock") == 0)),
                ("share", lambda v: z3.And(0 <= G(v, "done"), G(v, "done") <= cx["hi"] - cx["lo"])),
                ("idle", lambda v: z3.Or(G(v, "cur") == 0, G(v, "a") == DEG(G(v, "cur") - 1))),
                ("current", lambda v: G(v, "cur") == cx["rb"] + cx["lo"] + G(v, "done")),
                ("list", lambda v: z3.And(G(v, "cur") > 0, 0 <= G(v, "a"), G(v, "a") <= DEG(G(v, "cur") - 1))),
                ("pruning", lambda v: z3.And(G(v, "run") == 3, 0 <= G(v, "map"), l2 + G(v, "map") <= cx["h2"])),
                ("in a bucket", lambda v: z3.And(G(v, "map") >= 1, 0 <= G(v, "kd"), G(v, "kd") <= MN(l2 + G(v, "map") - 1))),
                ("in a bucket, strictly", lambda v: z3.And(G(v, "map") >= 1, 0 <= G(v, "kd"), G(v, "kd") < MN(l2 + G(v, "map") - 1))),
                ("buckets done", lambda v: z3.Or(G(v, "map") == 0, G(v, "kd") == MN(l2 + G(v, "map") - 1))),
                ("prepared", lambda v: G(v, "fixed") == G(v, "cur")),
                ("source", lambda v: G(v, "cur") == zI(e.arr_get(v.state, self.kv, 0, "i32")[key(v)]) + 1 if hasattr(self, "kv") else z3.BoolVal(True)),
                ("taking", lambda v: z3.And(G(v, "mode") == 0, 0 <= G(v, "k"), G(v, "k") <= SS(key(v)))),
                ("adding", lambda v: z3.And(G(v, "mode") == 1, G(v, "pend") == 0)),
                ("pool size", lambda v: G(v, "psz") >= 0)]
        return out

    def post(self, e, st, ret, cx):
        return [("the edges are reversed and the overflow is pruned", cx["G"]("run", st) == 4)]


class Construct(Build):
    fn = "vp_construct"
    name = "VamanaBuilder::construct"
    cells = ("cov", "pend", "seen")

    def setup(self, e, st):
        cx = self.common(e, st)
        G, S, ob, ai, n, gh = (cx[k] for k in ("G", "S", "ob", "ai", "n", "gh"))
        ep = fresh_int("entry")
        st.assume(0 <= ep, ep < n)
        S(st, cov=0, pend=0, seen=0)

        def bounds(st, p, I):
            return [ai(e.load(st, Ptr(p.reg, norm(zI(p.off) + o)), "i64", I), st) for o in (0, 8)]

        def gen(e, st, av, I):
            lo, hi = bounds(st, av[1], I)
            ob(st, z3.And(is_(av[0], cx["b"], 0), lo == cx["rb"] + G("cov", st), lo <= hi, hi <= cx["re"], G("pend", st) == 0), "the batches follow one another", I)
            v = av[3]
            b, en = (e.load(st, Ptr(v.reg, norm(zI(v.off) + o)), "ptr", I) for o in (0, 8))
            ob(st, And(b.reg is en.reg, zI(en.off) - zI(b.off) == 4, ai(e.load(st, b, "i32", I), st) == ep), "the search starts at the entry point", I)
            S(st, pend=hi + 1)

        def rev(e, st, av, I):
            lo, hi = bounds(st, av[1], I)
            ob(st, And(is_(av[0], cx["b"], 0), lo == cx["rb"] + G("cov", st), hi + 1 == G("pend", st), zR(e.as_real(av[2], st)) == cx["alpha"]), "the reverse edges of a batch follow its searches, pruned with the given alpha", I)
            S(st, cov=hi - cx["rb"], pend=0)

        e.contracts.update({"~generate_neighbors": gen, "~add_reverse_edges": rev})
        m = cx["m"] = cx["re"] - cx["rb"]
        return [Ptr(cx["b"]), cx["alpha"], ep, Ptr(cx["rng"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G = lambda v, k: zI(cx["gh"].get(e, v.state, k))
        m = cx["m"]
        x = m / 4096 + z3.If(m % 4096 == 0, z3.IntVal(0), z3.IntVal(1))
        nb = z3.If(x > 40, x, z3.IntVal(40))
        out = [("nothing pending", lambda v: G(v, "pend") == 0), ("covered", lambda v: z3.And(0 <= G(v, "cov"), G(v, "cov") <= m))]
        q = m / nb + z3.If(m % nb == 0, z3.IntVal(0), z3.IntVal(1))
        for n_ in names:
            f = lambda v, n_=n_: zI(cget(v, n_))
            out.append(("covered by batches: " + n_, lambda v, f=f: z3.And(f(v) >= 0, f(v) <= nb, G(v, "cov") == z3.If(q * f(v) < m, q * f(v), m))))
        return out

    def post(self, e, st, ret, cx):
        return [("every vertex of the range is in one batch", z3.And(cx["G"]("cov", st) == cx["m"], cx["G"]("pend", st) == 0))]


class Overflow(Unit):
    """BackedgeBuffer: one bucket per run of vertices, one set per vertex, everything under the bucket's lock."""
    props = {"C14"}

    def common(self, e, st):
        bs, nb = fresh_int("bucketsize"), fresh_int("buckets")
        st.assume(bs >= 1, bs < 1 << 32, nb >= 0, nb < 1 << 32)
        b = Region("overflow", "obj", size=56, readonly=True)
        maps = Region("buckets", "arr", stride=8, length=nb, fields={0: "i64"})
        locks = Region("bucketlocks", "arr", stride=40, length=nb, fields={0: "i64"})
        b.bind = {8: Ptr(maps, 0), 16: Ptr(maps, norm(8 * nb)), 32: Ptr(locks, 0), 40: Ptr(locks, norm(40 * nb))}
        st.mem[b.id] = {(0, "i64"): bs}
        gh = Ghost(st, "held", "done", "slot")
        for k in ("held", "done", "slot"):
            gh.set(e, st, k, 0)
        G = lambda k, st: zI(gh.get(e, st, k))
        ob = lambda st, c, what, I: e.oblige(st, c, what, "pre", I.get("loc", ""))
        self.cx = cx = dict(bs=bs, nb=nb, b=b, maps=maps, locks=locks, gh=gh, G=G, ob=ob)

        def lock(e, st, av, I):
            p = av[0]
            if not (isinstance(p, Ptr) and p.reg is locks):
                raise Unsupported("not a bucket lock")
            ob(st, G("held", st) == 0, "one lock is held at a time", I)
            gh.set(e, st, "held", norm(zI(lin_divisible(norm(p.off), 40)[0]) + 1))
            return 0

        def unlock(e, st, av, I):
            gh.set(e, st, "held", 0)

        e.contracts.update({"pthread_mutex_lock": lock, "~::~lock_guard(": unlock})
        return cx

    def idx(self, p):
        if not (isinstance(p, Ptr) and p.reg is self.cx["maps"]):
            raise Unsupported("not a bucket")
        return zI(lin_divisible(norm(p.off), 8)[0])


class AddEdge(Overflow):
    fn = "vp_be_add"
    name = "BackedgeBuffer::add_edge"

    def setup(self, e, st):
        cx = self.common(e, st)
        G, ob, gh = cx["G"], cx["ob"], cx["gh"]
        s, d = fresh_int("source"), fresh_int("target")
        st.assume(0 <= s, s < 1 << 32, 0 <= d, d < 1 << 32, s / cx["bs"] < cx["nb"])
        slot = Region("set", "obj", size=8)

        def mslot(e, st, av, I):
            i = self.idx(av[0])
            ob(st, z3.And(i == s / cx["bs"], zI(e.as_int(av[1], st)) == s, G("held", st) == i + 1), "the edge goes to the set of its source, in the source's bucket, under the bucket's lock", I)
            gh.set(e, st, "slot", 1)
            return Ptr(slot)

        def add(e, st, av, I):
            ob(st, And(is_(av[0], slot, 0), zI(e.as_int(av[1], st)) == d, G("slot", st) == 1, G("held", st) == s / cx["bs"] + 1), "the target is added, under the bucket's lock", I)
            gh.set(e, st, "done", norm(G("done", st) + 1))
            return z3.FreshConst(B_, "isnew")

        e.contracts.update({"vp_map_slot": mslot, "vp_set_add": add})
        return [Ptr(cx["b"]), s, d], cx

    def post(self, e, st, ret, cx):
        return [("the edge is recorded and the lock is released", z3.And(cx["G"]("done", st) == 1, cx["G"]("held", st) == 0))]


class Reset(Overflow):
    fn = "vp_be_reset"
    name = "BackedgeBuffer::reset"

    def setup(self, e, st):
        cx = self.common(e, st)
        G, ob, gh = cx["G"], cx["ob"], cx["gh"]

        def clear(e, st, av, I):
            i = self.idx(av[0])
            ob(st, z3.And(i == G("done", st), G("held", st) == i + 1), "the buckets are emptied in turn, each under its lock", I)
            gh.set(e, st, "done", norm(G("done", st) + 1))

        e.contracts["vp_map_clear"] = clear
        return [Ptr(cx["b"])], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        G = lambda v, k: zI(self.cx["gh"].get(e, v.state, k))
        out = [("unlocked", lambda v: G(v, "held") == 0)]
        for nm in names:
            out.append(("emptied: " + nm, lambda v, nm=nm: z3.And(G(v, "done") == zI(cget(v, nm)), G(v, "done") >= 0, G(v, "done") <= self.cx["nb"])))
        return out

    def post(self, e, st, ret, cx):
        return [("every bucket is empty", z3.And(cx["G"]("done", st) == cx["nb"], cx["G"]("held", st) == 0))]


UNITS = [Generate(), Reverse(), Construct(), AddEdge(), Reset()]
