"""The two-way id translation (core/translation.h) over the contract view of the hash maps."""
import z3
from driver import *

STUBS = ["map", "set"]
NOINLINE = ["all_unique"]
I_ = z3.IntSort()
POS = {0: z3.Function("POSITIONOFEXT", I_, I_), 1: z3.Function("POSITIONOFINT", I_, I_)}
KEYMAX = {0: 1 << 60, 1: 1 << 32}


def K(e, n):
    return e.ir["consts"][n]


class Tr(Unit):
    props = {"C11"}
    bij = True

    def state(self, e, st):
        S = {}
        h = [Region("hase", "arr", stride=1, length=None, fields={0: "i8"}), Region("hasi", "arr", stride=1, length=None, fields={0: "i8"})]
        v = [Region("vale", "arr", stride=4, length=None, fields={0: "i32"}), Region("vali", "arr", stride=8, length=None, fields={0: "i64"})]
        n = fresh_int("entries")
        st.assume(n >= 0, n < 1 << 32)
        t = Region("translator", "obj", size=K(e, "t_sizeof"))
        t.bind = {}
        st.mem[t.id] = {}
        for k, o in enumerate((K(e, "t_e2i"), K(e, "t_i2e"))):
            t.bind[o + K(e, "m_has")] = Ptr(h[k], 0)
            t.bind[o + K(e, "m_val")] = Ptr(v[k], 0)
            st.mem[t.id][(o + K(e, "m_n"), "i64")] = n
        self.cx = cx = dict(t=t, h=h, v=v, n=n)
        cx["H0"], cx["V0"] = [e.arr_get(st, r, 0, "i8") for r in h], [e.arr_get(st, v[0], 0, "i32"), e.arr_get(st, v[1], 0, "i64")]
        for k in (0, 1):
            j = z3.Int("tj")
            st.assume(z3.ForAll([j], z3.And(cx["V0"][k][j] >= 0, cx["V0"][k][j] < KEYMAX[1 - k]), patterns=[cx["V0"][k][j]]))
        for k, g in self.inv(cx["H0"], cx["V0"]):
            st.assume(g)
        return t

    def now(self, e, st):
        cx = self.cx
        return [e.arr_get(st, r, 0, "i8") for r in cx["h"]], [e.arr_get(st, cx["v"][0], 0, "i32"), e.arr_get(st, cx["v"][1], 0, "i64")]

    def inv(self, H, V):
        out = []
        for k, nm in ((0, "external"), (1, "internal")):
            j = z3.Int("bj")
            a, b = k, 1 - k
            body = z3.Implies(z3.And(0 <= j, j < KEYMAX[a], H[a][j] != 0), z3.And(H[b][V[a][j]] != 0, V[b][V[a][j]] == j, V[a][j] >= 0, V[a][j] < KEYMAX[b]))
            out.append(("the two directions stay inverse to each other (%s ids)" % nm, z3.ForAll([j], body, patterns=[H[a][j]])))
        return out

    def count(self, e, st, k):
        o = K(e, ("t_e2i", "t_i2e")[k]) + K(e, "m_n")
        return zI(e.as_int(e.obj_load(st, self.cx["t"], o, "i64", {}), st))

    def ids(self, e, st, name, n, side, size=8):
        r = Region(name, "arr", stride=size, length=n, fields={0: "i%d" % (8 * size)}, readonly=True)
        A = e.arr_get(st, r, 0, "i%d" % (8 * size))
        j = z3.Int("ij")
        st.assume(z3.ForAll([j], z3.And(A[j] >= 0, A[j] < KEYMAX[side]), patterns=[A[j]]))
        return r, A

    def distinct(self, A, n, side):
        j = z3.Int("dj")
        return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), POS[side](A[j]) == j), patterns=[A[j]])

    def inpre(self, A, side, x, t):
        return z3.And(0 <= POS[side](x), POS[side](x) < t, A[POS[side](x)] == x)

    def unchanged(self, e, st):
        cx = self.cx
        H, V = self.now(e, st)
        j = z3.Int("uj")
        out = []
        for k in (0, 1):
            out.append(("a refused call leaves the translation unchanged (%d)" % k, z3.ForAll([j], z3.And(H[k][j] == cx["H0"][k][j], V[k][j] == cx["V0"][k][j]), patterns=[H[k][j], V[k][j]]) if not (H[k].eq(cx["H0"][k]) and V[k].eq(cx["V0"][k])) else z3.BoolVal(True)))
            out.append(("a refused call leaves the number of entries unchanged (%d)" % k, self.count(e, st, k) == cx["n"]))
        return out


class Put(Tr):
    fn = "vp_put"
    name = "IDTranslator::insert_translation"

    def setup(self, e, st):
        t = self.state(e, st)
        cx = self.cx
        x, i = fresh_int("external"), fresh_int("internal")
        st.assume(0 <= x, x < KEYMAX[0], 0 <= i, i < 1 << 64)
        cx.update(x=x, i=i)
        return [Ptr(t), x, i], cx

    def post(self, e, st, ret, cx):
        H, V = self.now(e, st)
        x, i = cx["x"], cx["i"]
        j = z3.Int("pj")
        out = [("the pair is recorded in both directions", z3.And(H[0][x] != 0, V[0][x] == i, H[1][i] != 0, V[1][i] == x))]
        for k, y in ((0, x), (1, i)):
            out.append(("other ids keep their translation (%d)" % k, z3.ForAll([j], z3.Implies(j != y, z3.And(H[k][j] == cx["H0"][k][j], V[k][j] == cx["V0"][k][j])), patterns=[H[k][j]])))
            out.append(("a new id is counted (%d)" % k, self.count(e, st, k) == cx["n"] + z3.If(cx["H0"][k][y] == 0, 1, 0)))
        return out

    def on_throw(self, e, st, cx):
        return [("only internal ids that do not fit are refused", cx["i"] >= 1 << 32)] + self.unchanged(e, st)


class Insert(Tr):
    fn = "vp_insert"
    name = "IDTranslator::insert"

    def setup(self, e, st):
        t = self.state(e, st)
        cx = self.cx
        ne, ni, w = fresh_int("externals"), fresh_int("internals"), fresh_int("anypair")
        st.assume(0 <= ne, ne < 1 << 32, 0 <= ni, ni < 1 << 32, 0 <= w, w < ne)
        re, E = self.ids(e, st, "externalids", ne, 0)
        ri, In = self.ids(e, st, "internalids", ni, 1)
        U = [z3.FreshConst(z3.BoolSort(), x) for x in ("extunique", "intunique")]
        free = z3.FreshConst(z3.BoolSort(), "allfree")
        j = z3.Int("fj")
        st.assume(z3.Implies(free, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ne), cx["H0"][0][E[j]] == 0), patterns=[E[j]])))
        st.assume(z3.Implies(free, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < ni), cx["H0"][1][In[j]] == 0), patterns=[In[j]])))
        for k, A, n in ((0, E, ne), (1, In, ni)):
            st.assume(z3.Implies(U[k], self.distinct(A, n, k)))
        cx.update(ne=ne, ni=ni, E=E, In=In, U=U, free=free, w=w)
        regs = {re.id: (0, ne), ri.id: (1, ni)}

        def unique(e, st, av, I):
            b, en = (x if x.reg.kind == "arr" else e.load(st, x, "ptr", I) for x in av[:2])
            k, n = regs[b.reg.id]
            e.oblige(st, And(en.reg is b.reg, Eq(b.off, 0), zI(en.off) == 8 * n), "all ids are checked for repetitions", "pre", I.get("loc", ""))
            return U[k]

        e.contracts["~all_unique"] = unique
        return [Ptr(t), Ptr(re, 0), ne, Ptr(ri, 0), ni], cx

    def done(self, e, st, t):
        cx = self.cx
        H, V = self.now(e, st)
        E, In = cx["E"], cx["In"]
        s, x = z3.Int("ds"), z3.Int("dx")
        out = [("pairs so far are recorded", z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < t), z3.And(H[0][E[s]] != 0, V[0][E[s]] == In[s], H[1][In[s]] != 0, V[1][In[s]] == E[s])), patterns=[E[s]]))]
        for k, A in ((0, E), (1, In)):
            out.append(("other ids are as before (%d)" % k, z3.ForAll([x], z3.Or(self.inpre(A, k, x, t), z3.And(H[k][x] == cx["H0"][k][x], V[k][x] == cx["V0"][k][x])), patterns=[H[k][x], V[k][x]])))
            out.append(("entries so far are counted (%d)" % k, self.count(e, st, k) == cx["n"] + t))
        return out

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        ts = [("t", lambda v: v.t)]
        for n in names:
            ts.append((n, lambda v, n=n: zI(cget(v, n))))
        out = []
        s = z3.Int("cs")
        for n in names:
            out.append(("%s is a position" % n, lambda v, n=n: z3.And(0 <= zI(cget(v, n)), zI(cget(v, n)) <= cx["ne"], cx["ne"] == cx["ni"])))
        for nm, f in ts:
            for i in range(5):
                out.append(("%d inserted up to %s" % (i, nm), lambda v, f=f, i=i: self.done(e, v.state, f(v))[i][1]))
            for k, A in ((0, cx["E"]), (1, cx["In"])):
                out.append(("free up to %s (%d)" % (nm, k), lambda v, f=f, k=k, A=A: z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < f(v)), cx["H0"][k][A[s]] == 0), patterns=[A[s]])))
        return out

    def post(self, e, st, ret, cx):
        H, V = self.now(e, st)
        w = cx["w"]
        return self.done(e, st, cx["ne"]) + self.inv(H, V) + [
            ("only lists of equal length are accepted", cx["ne"] == cx["ni"]), ("repeated ids are refused", And(*cx["U"])),
            ("ids that already have a translation are refused", And(cx["H0"][0][cx["E"][w]] == 0, cx["H0"][1][cx["In"][w]] == 0))]

    def on_throw(self, e, st, cx):
        return [("nothing valid is refused", z3.Or(cx["ne"] != cx["ni"], z3.Not(cx["U"][0]), z3.Not(cx["U"][1]), z3.Not(cx["free"])))] + self.unchanged(e, st)


class Remap(Tr):
    fn = "vp_remap"
    name = "IDTranslator::remap_internal_id"

    def setup(self, e, st):
        t = self.state(e, st)
        cx = self.cx
        a, b = fresh_int("from"), fresh_int("to")
        st.assume(0 <= a, a < 1 << 32, 0 <= b, b < 1 << 32, cx["H0"][1][a] != 0, cx["H0"][1][b] == 0)
        cx.update(a=a, b=b)
        return [Ptr(t), a, b], cx

    def post(self, e, st, ret, cx):
        H, V = self.now(e, st)
        a, b, H0, V0 = cx["a"], cx["b"], cx["H0"], cx["V0"]
        x = V0[1][a]
        j = z3.Int("rj")
        return self.inv(H, V) + [
            ("the external id now names the new internal id", z3.And(H[0][x] != 0, V[0][x] == b, H[1][b] != 0, V[1][b] == x, H[1][a] == 0)),
            ("other external ids are unchanged", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < KEYMAX[0], j != x), z3.And(H[0][j] == H0[0][j], V[0][j] == V0[0][j])), patterns=[H[0][j]])),
            ("other internal ids are unchanged", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < KEYMAX[1], j != a, j != b), z3.And(H[1][j] == H0[1][j], V[1][j] == V0[1][j])), patterns=[H[1][j]])),
            ("no entry is added or lost", And(self.count(e, st, 0) == cx["n"], self.count(e, st, 1) == cx["n"]))]


class Delete(Tr):
    def __init__(self, side):
        self.side = side
        self.fn = ("vp_del_e", "vp_del_i")[side]
        self.name = "IDTranslator::" + ("delete_external", "delete_internal")[side]

    def setup(self, e, st):
        t = self.state(e, st)
        cx, k = self.cx, self.side
        n, w = fresh_int("deleted"), fresh_int("anydeleted")
        st.assume(0 <= n, n < 1 << 32, n <= cx["n"], 0 <= w, w < n)
        r, A = self.ids(e, st, "ids", n, k, (8, 4)[k])
        st.assume(self.distinct(A, n, k))  # documented precondition
        ex = z3.FreshConst(z3.BoolSort(), "allexist")
        j = z3.Int("xj")
        st.assume(z3.Implies(ex, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), cx["H0"][k][A[j]] != 0), patterns=[A[j]])))
        cx.update(m=n, A=A, ex=ex, w=w)
        return [Ptr(t), Ptr(r, 0), n], cx

    def done(self, e, st, t):
        cx, k = self.cx, self.side
        H, V = self.now(e, st)
        H0, V0, A = cx["H0"], cx["V0"], cx["A"]
        x = z3.Int("dx")
        o = 1 - k
        return [
            ("exactly the given ids are gone", z3.ForAll([x], z3.Implies(x >= 0, H[k][x] == z3.If(self.inpre(A, k, x, t), 0, H0[k][x])), patterns=[H[k][x]])),
            ("exactly their counterparts are gone", z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < KEYMAX[o]), H[o][x] == z3.If(z3.And(H0[o][x] != 0, self.inpre(A, k, V0[o][x], t)), 0, H0[o][x])), patterns=[H[o][x]])),
            ("remaining translations are unchanged", z3.BoolVal(True) if all(V[i].eq(V0[i]) for i in (0, 1)) else And(*[z3.ForAll([x], V[i][x] == V0[i][x], patterns=[V[i][x]]) for i in (0, 1)])),
            ("deleted entries are no longer counted", And(self.count(e, st, 0) == cx["n"] - t, self.count(e, st, 1) == cx["n"] - t))]

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        ts = [("t", lambda v: v.t)]
        for n in names:
            ts.append((n, lambda v, n=n: zI(cget(v, n))))
        out = []
        s = z3.Int("cs")
        for nm, f in ts:
            for i in range(4):
                out.append(("%d deleted up to %s" % (i, nm), lambda v, f=f, i=i: self.done(e, v.state, f(v))[i][1]))
            out.append(("present up to " + nm, lambda v, f=f: z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < f(v)), cx["H0"][self.side][cx["A"][s]] != 0), patterns=[cx["A"][s]])))
        return out

    def post(self, e, st, ret, cx):
        H, V = self.now(e, st)
        return self.done(e, st, cx["m"]) + self.inv(H, V) + [("deleting an unknown id is refused", cx["H0"][self.side][cx["A"][cx["w"]]] != 0)]

    def on_throw(self, e, st, cx):
        return [("nothing valid is refused", z3.Not(cx["ex"]))] + self.unchanged(e, st)


class Get(Tr):
    def __init__(self, fn, side, has):
        self.fn, self.side, self.has = fn, side, has
        self.name = "IDTranslator::" + (("has_external", "has_internal") if has else ("get_internal", "get_external"))[side]

    def setup(self, e, st):
        t = self.state(e, st)
        x = fresh_int("id")
        st.assume(0 <= x, x < KEYMAX[self.side])
        self.cx["x"] = x
        return [Ptr(t), x], self.cx

    def post(self, e, st, ret, cx):
        k, x = self.side, cx["x"]
        if self.has:
            return [("an id exists exactly if it was inserted and not deleted", e.as_bool(ret, st) == (cx["H0"][k][x] != 0))] + self.unchanged(e, st)
        return [("the recorded counterpart is returned", And(cx["H0"][k][x] != 0, zI(e.as_int(ret, st)) == cx["V0"][k][x]))] + self.unchanged(e, st)

    def on_throw(self, e, st, cx):
        return [("only unknown ids are refused", z3.BoolVal(False) if self.has else cx["H0"][self.side][cx["x"]] == 0)] + self.unchanged(e, st)


class Size(Tr):
    fn = "vp_size"
    name = "IDTranslator::size"

    def setup(self, e, st):
        return [Ptr(self.state(e, st))], self.cx

    def post(self, e, st, ret, cx):
        return [("the size is the number of pairs", zI(e.as_int(ret, st)) == cx["n"])]


class Unique(Unit):
    props = {"C11"}
    fn = "vp_unique"
    name = "lib::all_unique"

    def setup(self, e, st):
        n, a, b = fresh_int("n"), fresh_int("a"), fresh_int("b")
        st.assume(0 <= n, n < 1 << 32, 0 <= a, a < b, b < n)
        r = Region("ids", "arr", stride=8, length=n, fields={0: "i64"}, readonly=True)
        A = e.arr_get(st, r, 0, "i64")
        j = z3.Int("uj")
        st.assume(z3.ForAll([j], z3.And(A[j] >= 0, A[j] < KEYMAX[0]), patterns=[A[j]]))
        gh = Ghost(st, "pos", "dup")
        seen = Region("seen", "arr", stride=8, length=None, fields={0: "i64"})
        S = e.arr_get(st, seen, 0, "i64")
        st.assume(z3.ForAll([j], S[j] == 0, patterns=[S[j]]))
        cx = self.cx = dict(n=n, a=a, b=b, A=A, gh=gh, seen=seen)
        gh.set(e, st, "dup", 0)

        def add(e, st, av, I):
            x, p = zI(e.as_int(av[1], st)), zI(gh.get(e, st, "pos"))
            s = zI(e.arr_get(st, seen, 0, "i64")[x])
            e.oblige(st, z3.And(p < n, x == A[p]), "every id is looked at in turn", "pre", I.get("loc", ""))
            S, N, y = e.arr_get(st, seen, 0, "i64"), z3.FreshConst(z3.ArraySort(I_, I_), "seen"), z3.Int("sy")
            st.assume(z3.ForAll([y], N[y] == z3.If(y == x, z3.If(s == 0, p + 1, s), S[y]), patterns=[N[y]]), z3.ForAll([y], z3.Implies(y != x, N[y] == S[y]), patterns=[S[y]]), N[x] == z3.If(s == 0, p + 1, s))
            st.mem[seen.id][(0, "i64")] = N
            e.note_write(seen, (0, "i64"))
            gh.set(e, st, "dup", z3.If(s == 0, z3.IntVal(0), s))
            gh.set(e, st, "pos", norm(p + 1))
            return s == 0

        e.contracts["vp_set_add"] = add
        return [Ptr(r, 0), n], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        gh, A = cx["gh"], cx["A"]
        s, x = z3.Int("us"), z3.Int("ux")
        S = lambda v: e.arr_get(v.state, cx["seen"], 0, "i64")
        P = lambda v: zI(gh.get(e, v.state, "pos"))
        out = [("position is t", lambda v: P(v) == v.t)]
        for n in names:
            out.append(("position is " + n, lambda v, n=n: P(v) == zI(cget(v, n))))
        out += [("ids so far are known by their position", lambda v: z3.ForAll([s], z3.Implies(z3.And(0 <= s, s < P(v)), S(v)[A[s]] == s + 1), patterns=[A[s]])),
                ("nothing else is known", lambda v: z3.ForAll([x], z3.Implies(S(v)[x] != 0, z3.And(S(v)[x] >= 1, S(v)[x] <= P(v), A[S(v)[x] - 1] == x)), patterns=[S(v)[x]])),
                ("range", lambda v: z3.And(P(v) >= 0, P(v) <= cx["n"]))]
        return out

    def post(self, e, st, ret, cx):
        gh, A = cx["gh"], cx["A"]
        r = e.as_bool(ret, st)
        d, p = zI(gh.get(e, st, "dup")), zI(gh.get(e, st, "pos"))
        return [("if all ids are said to be distinct, no two are equal", Implies(r, A[cx["a"]] != A[cx["b"]])),
                ("if ids are said to repeat, two are equal", Implies(Not(r), And(1 <= d, d < p, p <= cx["n"], A[d - 1] == A[p - 1])))]


UNITS = [Unique(), Put(), Insert(), Remap(), Delete(0), Delete(1), Get("vp_has_e", 0, True), Get("vp_has_i", 1, True), Get("vp_get_i", 0, False), Get("vp_get_e", 1, False), Size()]
