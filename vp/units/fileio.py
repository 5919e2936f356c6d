"""Files of vectors (core/io/*.h, core/data/io.h, lib/readwrite.h, lib/file_iterator.h) over a ghost file:
the members of the standard streams are contracts that track the position and compare what is written with what is expected."""
import z3
from driver import *

STUBS = ["quiet"]
NOINLINE = [r"svs::io::vecs::get_dims\(", r"svs::io::binary::get_dims\(", r"svs::io::detail::get_dims<svs::io::v1::Header>\(", r"svs::lib::open_read", r"svs::lib::open_write", r"basic_[io]fstream\("]
I_, R_ = z3.IntSort(), z3.RealSort()
FVR = z3.Function("FILEREAL", I_, I_, R_)  # component of a vector of the file
FVI = z3.Function("FILEINT", I_, I_, I_)
WORD = z3.Function("WORDAT", I_, I_)       # 32-bit word of the file at a byte position
BEG, CUR, END = 0, 1, 2


def K(e, n):
    return e.ir["consts"][n]


class IO(Unit):
    props = {"C18"}
    cells = ("pos", "moves")

    def stream(self, e, st, size, off, name="stream"):
        """an object that contains a stream in a good state at the given offset"""
        s = Region(name, "obj", size=size)
        vt = Region("vtable", "obj", size=64, readonly=True)
        st.mem[vt.id] = {(0, "i64"): z3.IntVal(256)}
        s.bind = {off: Ptr(vt, 24)}
        st.mem[s.id] = {(off + 256 + 32, "i32"): z3.IntVal(0)}
        return s

    def filename(self, st):
        name = Region("name", "obj", size=64)
        st.mem[name.id] = {(8, "i64"): 3}
        name.bind = {0: Ptr(Region("chars", "arr", stride=1, length=4, fields={0: "i8"}, readonly=True), 0)}
        return name

    def common(self, e, st, **kv):
        gh = Ghost(st, *self.cells)
        cx = self.cx = dict(gh=gh, **kv)
        cx["G"] = lambda k, st: zI(gh.get(e, st, k))
        cx["put"] = lambda st, **kv: [gh.set(e, st, k, norm(v) if not isinstance(v, int) else v) for k, v in kv.items()]
        cx["ob"] = lambda st, c, what, I: e.oblige(st, c, what, "pre", I.get("loc", ""))
        cx["ai"] = lambda x, st: zI(e.as_int(x, st))
        for k in self.cells:
            gh.set(e, st, k, 0)
        e.contracts["~basic_ios<char, std::char_traits<char>>::clear("] = lambda e, st, av, I: None
        e.contracts["~std::ios::clear("] = e.contracts["~basic_ios<char, std::char_traits<char>>::clear("]
        return cx

    def seeks(self, e, size=None):
        """seek and tell over the ghost position; size: the length of the file"""
        cx = self.cx
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))

        def seek(e, st, av, I):
            o = ai(av[1], st)
            if len(av) > 2 and "fpos" not in (I.get("callee_d") or ""):
                d = ai(av[2], st)
                d = z3.simplify(d)
                if not z3.is_int_value(d):
                    raise Unsupported("seek with a computed origin")
                d = d.as_long()
                if d == END:
                    if size is None:
                        raise Unsupported("seek from the end")
                    o = z3.If(o >= 1 << 63, o - (1 << 64), o) + size
                elif d == CUR:
                    o = G("pos", st) + z3.If(o >= 1 << 63, o - (1 << 64), o)
            put(st, pos=o)
            return av[0]

        def seekpos(e, st, av, I):
            put(st, pos=ai(av[1], st))
            return av[0]

        def tell(e, st, av, I):
            return [(st, [G("pos", st), fresh_int("mbstate")])]
        for n in ("seekg", "seekp"):
            e.contracts["~::%s(std::fpos" % n] = seekpos
            e.contracts["~::%s(long" % n] = seek
        e.contracts["~::tellg("] = tell
        e.contracts["~::tellp("] = tell


class Append(IO):
    cells = ("pos", "hdr", "k")

    def __init__(self, name, fn, es, hdr, tag, counter=False):
        self.name, self.fn, self.es, self.hdr, self.tag, self.counter = name, fn, es, hdr, tag, counter

    def setup(self, e, st):
        n, cnt, wd = fresh_int("length"), fresh_int("written"), fresh_int("dimension")
        st.assume(n >= 0, n < 1 << 32, cnt >= 0, cnt < 1 << 40, wd >= 0, wd < 1 << 40)
        ty = "f32" if self.es == 4 else "i8"
        A = Region("vector", "arr", stride=self.es, length=n, fields={0: ty}, readonly=True)
        A0 = e.arr_get(st, A, 0, ty)
        cx = self.common(e, st, n=n, A=A, A0=A0, cnt=cnt)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        w = self.stream(e, st, K(e, self.tag + "_sizeof"), K(e, self.tag + "_stream"), "writer")
        if self.counter:
            st.mem[w.id][(K(e, "nw_n"), "i64")] = cnt
        if self.tag != "bw":
            st.mem[w.id][(K(e, self.tag + "_dims"), "i64")] = wd
        cx["w"] = w
        sp = (w, K(e, self.tag + "_stream"))

        def write(e, st, av, I):
            p, m = av[1], z3.simplify(ai(av[2], st))
            k = G("k", st)
            ob(st, And(isinstance(av[0], Ptr) and av[0].reg is sp[0], Eq(av[0].off, sp[1])), "components go to the writer's stream", I)
            if p.reg is A:  # several components at once
                q = fresh_int("count")
                st.assume(m == self.es * q)
                ob(st, And(Eq(p.off, norm(self.es * k)), q >= 0, k + q <= n, G("hdr", st) == self.hdr), "components are written in order", I)
                put(st, k=k + q)
                return av[0]
            if not z3.is_int_value(m):
                raise Unsupported("write of computed length")
            m = m.as_long()
            h = z3.simplify(G("hdr", st))
            if self.hdr and z3.is_int_value(h) and h.as_long() == 0:
                ob(st, m == 4, "the length takes four bytes", I)
                ob(st, ai(e.load(st, p, "i32", I), st) == n, "the length of the vector comes first", I)
                put(st, hdr=1)
                return av[0]
            ob(st, m == self.es, "each component is written with its own size", I)
            x = e.load(st, p, ty, I)
            x = zR(e.as_real(x, st)) if ty == "f32" else ai(x, st)
            ob(st, z3.And(G("hdr", st) == self.hdr, k < n, x == A0[k]), "components are written in order, unchanged", I)
            put(st, k=k + 1)
            return av[0]
        e.contracts["~::write(char const*, long)"] = write
        return [Ptr(w), Ptr(A, 0), n], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G = lambda v, k: cx["G"](k, v.state)
        out = [("written", lambda v: z3.And(0 <= G(v, "k"), G(v, "k") <= cx["n"])), ("header", lambda v: G(v, "hdr") == self.hdr)]
        for nm in names:
            out.append(("written up to " + nm, lambda v, nm=nm: zI(cget(v, nm)) == self.es * G(v, "k")))
            out.append(("written count " + nm, lambda v, nm=nm: zI(cget(v, nm)) == G(v, "k")))
        return out

    def post(self, e, st, ret, cx):
        G = cx["G"]
        out = [("the whole vector is written, after its length where the format stores one", z3.And(G("k", st) == cx["n"], G("hdr", st) == self.hdr))]
        if self.counter:
            out.append(("one vector more is counted", zI(e.as_int(e.obj_load(st, cx["w"], K(e, "nw_n"), "i64", {}), st)) == cx["cnt"] + 1))
        return out


class Header(IO):
    name, fn = "v1::Writer::writeheader", "vp_native_header"
    cells = ("pos", "hdr")

    def setup(self, e, st):
        cnt, dim, u1, u2, p0 = (fresh_int(x) for x in ("written", "dimension", "uuid1", "uuid2", "position"))
        res = z3.Bool("resume")
        for x in (cnt, dim, u1, u2):
            st.assume(x >= 0, x < 1 << 64)
        st.assume(p0 >= K(e, "h_sizeof"), p0 < 1 << 62)
        cx = self.common(e, st, cnt=cnt, dim=dim, u=(u1, u2), p0=p0, res=res)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        w = self.stream(e, st, K(e, "nw_sizeof"), K(e, "nw_stream"), "writer")
        st.mem[w.id].update({(K(e, "nw_n"), "i64"): cnt, (K(e, "nw_dims"), "i64"): dim, (K(e, "nw_uuid"), "i64"): u1, (K(e, "nw_uuid") + 8, "i64"): u2})
        put(st, pos=p0)
        self.seeks(e)

        def write(e, st, av, I):
            p = av[1]
            ld = lambda o: ai(e.load(st, Ptr(p.reg, norm(zI(p.off) + o)), "i64", I), st)
            ob(st, z3.And(G("pos", st) == 0, G("hdr", st) == 0, ai(av[2], st) == K(e, "h_sizeof")), "the header is written once, at the start of the file", I)
            ob(st, z3.And(ld(K(e, "h_magic")) == K(e, "h_number"), ld(K(e, "h_uuid")) == u1, ld(K(e, "h_uuid") + 8) == u2), "the header names the format and the file's identifier", I)
            ob(st, z3.And(ld(K(e, "h_n")) == cnt, ld(K(e, "h_dims")) == dim), "the header holds the number of vectors and their dimension", I)
            put(st, hdr=1, pos=G("pos", st) + K(e, "h_sizeof"))
            return av[0]
        e.contracts["~::write(char const*, long)"] = write
        return [Ptr(w), res], cx

    def post(self, e, st, ret, cx):
        G = cx["G"]
        return [("the header is written", G("hdr", st) == 1), ("writing goes on where it was", z3.Implies(cx["res"], zI(G("pos", st)) == cx["p0"]))]


class Populate(IO):
    fresh_candidates = True
    cells = ("pos", "at", "k", "set", "len")

    def __init__(self, name, fn, es, hdr, tag, base):
        self.name, self.fn, self.es, self.hdr, self.tag, self.base = name, fn, es, hdr, tag, base

    def setup(self, e, st):
        n, d, tot, off = (fresh_int(x) for x in ("vectors", "dims", "infile", "offset"))
        st.assume(n >= 0, n < 1 << 40, d >= 1, d < 1 << 32, tot >= n, tot < 1 << 40, off >= 0, off < 1 << 32)
        cx = self.common(e, st, n=n, d=d)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        t = self.tag
        r = self.stream(e, st, K(e, t + "_sizeof"), 0, "reader")
        base = z3.IntVal(self.base) if self.base is not None else off
        if t == "nr":
            st.mem[r.id].update({(K(e, "nr_n"), "i64"): n, (K(e, "nr_dims"), "i64"): d, (K(e, "nr_off"), "i64"): off})
        else:
            st.mem[r.id].update({(K(e, t + "_max"), "i64"): n, (K(e, t + "_dims"), "i64"): d, (K(e, t + "_n"), "i64"): tot})
        self.seeks(e)
        put(st, pos=fresh_int("anywhere"), at=base)
        ty = "f32" if self.es == 4 else "i8"
        F = FVR if self.es == 4 else FVI
        stride = self.hdr + self.es * d
        cx.update(base=base, stride=stride, F=F, ty=ty)
        q = z3.Int("q")

        def heap(e, st, r, size, I):
            if not isinstance(size, int):  # the buffer of the reader
                r.kind, r.stride, r.length, r.fields, r.name = "arr", self.es, d, {0: ty}, "buffer"
                e.oblige(st, zI(size) == self.es * d, "the buffer holds exactly one vector", "pre", I.get("loc", ""))
        e.heap_hook = heap

        def read(e, st, av, I):
            p, m = av[1], z3.simplify(ai(av[2], st))
            pos, at, k = G("pos", st), G("at", st), G("k", st)
            ob(st, And(isinstance(av[0], Ptr) and av[0].reg is r, Eq(av[0].off, 0)), "the reader's own stream is read", I)
            if self.hdr and z3.is_int_value(m) and m.as_long() == 4 and p.reg.kind != "arr":
                ob(st, z3.And(pos == at, G("len", st) == 0, k < n), "the length of the next vector is read first", I)
                e.store(st, p, "i32", d, I)
                put(st, pos=pos + 4, len=1)
                return av[0]
            ob(st, z3.And(m == self.es * d, pos == at + self.hdr, G("len", st) == (1 if self.hdr else 0), k < n), "a whole vector is read from its place in the file", I)
            if p.reg is None or p.reg.kind != "arr":
                raise Unsupported("read into something else than a buffer")
            ob(st, Eq(p.off, 0), "the vector is read to the start of the buffer", I)
            cx["buf"] = p.reg
            N = z3.FreshConst(e.arr_get(st, p.reg, 0, ty).sort(), "readbuffer")
            st.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < d), N[q] == F(k, q)), patterns=[N[q]]))
            st.mem[p.reg.id][(0, ty)] = N
            e.note_write(p.reg, (0, ty))
            put(st, pos=pos + m, at=at + stride, k=k + 1, len=0)
            return av[0]

        def vset(e, st, av, I):
            i, p = ai(av[0], st), av[1]
            ob(st, z3.And(i == G("set", st), i == G("k", st) - 1, i < n, ai(av[2], st) == d), "each vector read is stored at its own index, once, in order", I)
            B = e.arr_get(st, p.reg, 0, ty)
            ob(st, And(Eq(p.off, 0), z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < d), B[q] == F(i, q)), patterns=[B[q]])), "what is stored is the vector of the file", I)
            put(st, set=i + 1)
        e.contracts["~::read(char*, long)"] = read
        e.contracts["vp_set"] = vset
        data = Region("data", "obj", size=16)
        st.mem[data.id] = {(0, "i64"): fresh_int("datasize"), (8, "i64"): fresh_int("datadims")}
        return [Ptr(data), Ptr(r)], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        cx = self.cx
        G = lambda v, k: cx["G"](k, v.state)
        n, q = cx["n"], z3.Int("q")
        out = [("sets", lambda v: z3.And(0 <= G(v, "set"), G(v, "set") <= n)),
               ("one ahead", lambda v: G(v, "k") == z3.If(G(v, "set") < n, G(v, "set") + 1, n)),
               ("place", lambda v: z3.And(G(v, "pos") == G(v, "at"), G(v, "len") == 0)),
               ("place unless nothing", lambda v: z3.And(z3.Or(n == 0, G(v, "pos") == G(v, "at")), G(v, "len") == 0)),
               ("buffered", lambda v: self.buffered(e, v.state))]
        for nm in names:
            out.append(("set count " + nm, lambda v, nm=nm: zI(cget(v, nm)) == G(v, "set")))
        return out

    def buffered(self, e, st):
        cx = self.cx
        b = cx.get("buf")
        if b is None:
            return z3.BoolVal(True)
        q, B = z3.Int("q"), e.arr_get(st, b, 0, cx["ty"])
        k = cx["G"]("k", st)
        return z3.Implies(k >= 1, z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < cx["d"]), B[q] == cx["F"](k - 1, q)), patterns=[B[q]]))

    def post(self, e, st, ret, cx):
        G = cx["G"]
        return [("every vector asked for is stored", G("set", st) == cx["n"]), ("nothing more is read", G("k", st) == cx["n"])]


class Save(IO):
    name, fn = "io::save", "vp_save"
    cells = ("open", "k", "done")

    def setup(self, e, st):
        n, d = fresh_int("size"), fresh_int("dims")
        st.assume(n >= 0, n < 1 << 40, d >= 0, d < 1 << 40)
        cx = self.common(e, st, n=n, d=d)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        data = Region("data", "obj", size=16, readonly=True)
        st.mem[data.id] = {(0, "i64"): n, (8, "i64"): d}

        def writer(e, st, av, I):
            ob(st, z3.And(ai(av[0], st) == d, G("open", st) == 0), "one writer is opened, for the data's dimension", I)
            put(st, open=1)

        def app(e, st, av, I):
            k = G("k", st)
            ob(st, z3.And(ai(av[0], st) == k, k < n, G("open", st) == 1, G("done", st) == 0), "vectors are written in order, each once", I)
            put(st, k=k + 1)

        def done(e, st, av, I):
            put(st, done=G("done", st) + 1)
        e.contracts.update({"vp_writer": writer, "vp_append": app, "vp_writer_done": done})
        return [Ptr(data), Ptr(Region("file", "obj", size=1))], cx

    def templates(self, e, S0, names, cur0, cget, mods, loop):
        G = lambda v, k: self.cx["G"](k, v.state)
        out = [("opened", lambda v: z3.And(G(v, "open") == 1, G(v, "done") == 0)), ("written", lambda v: z3.And(0 <= G(v, "k"), G(v, "k") <= self.cx["n"]))]
        return out + [("written below " + nm, lambda v, nm=nm: zI(cget(v, nm)) == G(v, "k")) for nm in names]

    def post(self, e, st, ret, cx):
        G = cx["G"]
        return [("every vector is written and the writer is closed", z3.And(G("k", st) == cx["n"], G("done", st) == 1))]


class Dims(IO):
    cells = ("pos",)

    def __init__(self, kind, hint):
        self.kind, self.hint = kind, hint
        self.fn = "vp_%s_dims" % kind
        self.name = {"vecs": "vecs::get_dims (element size %s)", "bin": "binary::get_dims (element size %s)", "native": "get_dims<v1::Header>%s"}[kind] % ("" if hint is None else hint)

    def setup(self, e, st):
        fs, a, b = fresh_int("filesize"), fresh_int("first"), fresh_int("second")
        lim = 1 << (64 if self.kind == "native" else 32)
        st.assume(fs >= 4 if self.kind == "vecs" else fs >= 8, fs < 1 << 50, a >= 0, a < lim, b >= 0, b < lim)
        cx = self.common(e, st, fs=fs, a=a, b=b)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        self.seeks(e, fs)
        put(st, pos=fresh_int("anywhere"))
        s = self.stream(e, st, 520, 0)

        def read(e, st, av, I):
            p, m = av[1], z3.simplify(ai(av[2], st)).as_long()
            pos = G("pos", st)
            ob(st, pos + m <= fs if self.kind != "native" else z3.BoolVal(True), "nothing beyond the end of the file is read", I)
            if self.kind == "vecs":
                if m != 4:
                    raise Unsupported("read of another length")
                e.store(st, p, "i32", z3.If(pos == 0, a, WORD(pos)), I)
                st.assume(WORD(pos) >= 0, WORD(pos) < 1 << 32)
            elif self.kind == "bin":
                ob(st, z3.And(pos == 0, z3.BoolVal(m == 8)), "the header is read", I)
                e.store(st, p, "i64", norm(a + b * (1 << 32)), I)
            else:
                ob(st, z3.And(pos == 0, z3.BoolVal(m == K(e, "h_sizeof"))), "the header is read", I)
                e.store(st, Ptr(p.reg, norm(zI(p.off) + K(e, "h_n"))), "i64", a, I)
                e.store(st, Ptr(p.reg, norm(zI(p.off) + K(e, "h_dims"))), "i64", b, I)
            put(st, pos=pos + m)
            return av[0]
        e.contracts["~::read(char*, long)"] = read
        out = Region("out", "arr", stride=8, length=2, fields={0: "i64"})
        cx["out"] = out
        return ([Ptr(s), z3.IntVal(self.hint), Ptr(out, 0)] if self.hint is not None else [Ptr(s), Ptr(out, 0)]), cx

    def sizes(self, st, cx):
        return [("", None)]

    def post(self, e, st, ret, cx):
        O = e.arr_get(st, cx["out"], 0, "i64")
        fs, a, b = cx["fs"], cx["a"], cx["b"]
        if self.kind == "vecs":
            fit = lambda h: O[0] * (4 + h * a) == fs
            return [("the dimension is the length stored first", O[1] == a),
                    ("the vectors reported fill the file exactly", fit(self.hint) if self.hint else z3.Or(*[fit(h) for h in (1, 2, 4, 8)]))]
        out = [("the number of vectors and the dimension are those of the header", z3.And(O[0] == a, O[1] == b))]
        if self.kind == "bin":
            q = fresh_int("elementsize")
            out.append(("the vectors reported fill the file", z3.Implies(a * b == 0, fs == 8) if not self.hint else fs == 8 + self.hint * (a * b)))
        return out

    def on_throw(self, e, st, cx):
        fs, a, b = cx["fs"], cx["a"], cx["b"]
        if not self.hint or self.kind == "native":
            return []
        k = fresh_int("lines") if self.kind == "vecs" else z3.IntVal(self.hint)
        for (q, _), x, y in list(st.meta.get("dm", {}).values()):  # multiplication is monotone
            q, y = zI(q), zI(y)
            st.assume(z3.Implies(z3.And(y >= 0, k < q), (k + 1) * y <= q * y), z3.Implies(k == q, k * y == q * y), z3.Implies(z3.And(y >= 0, k > q), k * y >= (q + 1) * y))
        return [("a file is refused only if its size does not fit", fs != k * (self.hint * a + 4) if self.kind == "vecs" else fs - 8 != self.hint * (a * b))]


class Open(IO):
    """the readers' constructors over the contract of get_dims"""
    cells = ("asked",)

    def __init__(self, name, fn, es, tag):
        self.name, self.fn, self.es, self.tag = name, fn, es, tag

    def setup(self, e, st):
        n, d, mx = fresh_int("vectors"), fresh_int("dims"), fresh_int("max")
        for x in (n, d, mx):
            st.assume(x >= 0, x < 1 << 64)
        cx = self.common(e, st, n=n, d=d, mx=mx)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        r = Region("reader", "obj", size=K(e, self.tag + "_sizeof"))
        st.mem[r.id] = {}
        cx["r"] = r

        def dims(e, st, av, I):
            agg = isinstance(I.get("t"), dict)
            if self.tag != "nr":
                ob(st, ai(av[-1], st) == self.es, "the size of the reader's elements is what the file is checked against", I)
            put(st, asked=1)
            if not agg:
                raise Unsupported("get_dims returns through memory")
            return [(st, [n, d])]
        e.contracts["~get_dims"] = dims
        nop = lambda e, st, av, I: None
        for k in ("~svs::lib::open_read", "~basic_ifstream", "~std::ifstream::", "~std::filesystem", "~basic_string"):
            e.contracts[k] = nop
        return [Ptr(r), Ptr(self.filename(st)), mx], cx

    def post(self, e, st, ret, cx):
        r, n, mx = cx["r"], cx["n"], cx["mx"]
        ld = lambda k: zI(e.as_int(e.obj_load(st, r, K(e, self.tag + k), "i64", {}), st))
        out = [("the dimension is the file's", ld("_dims") == cx["d"]),
               ("as many vectors as asked for are read, at most those of the file", ld("_n" if self.tag == "nr" else "_max") == z3.If(mx < n, mx, n))]
        out.append(("the vectors start after the header", ld("_off") == K(e, "h_sizeof")) if self.tag == "nr" else ("the file's number of vectors is kept", ld("_n") == n))
        return out

    def on_throw(self, e, st, cx):
        return [("nothing is refused that the file's check accepts", z3.BoolVal(False))]


class Resize(IO):
    def __init__(self, name, fn, tag):
        self.name, self.fn, self.tag = name, fn, tag

    def setup(self, e, st):
        n, d, mx, old = fresh_int("vectors"), fresh_int("dims"), fresh_int("max"), fresh_int("old")
        for x in (n, d, mx, old):
            st.assume(x >= 0, x < 1 << 64)
        t = self.tag
        r = Region("reader", "obj", size=K(e, t + "_sizeof"))
        st.mem[r.id] = {(K(e, t + "_max"), "i64"): old, (K(e, t + "_n"), "i64"): n, (K(e, t + "_dims"), "i64"): d}
        return [Ptr(r), mx], self.common(e, st, n=n, d=d, mx=mx, r=r)

    def post(self, e, st, ret, cx):
        ld = lambda k: zI(e.as_int(e.obj_load(st, cx["r"], K(e, self.tag + k), "i64", {}), st))
        return [("as many vectors as asked for are read, at most those of the file", ld("_max") == z3.If(cx["mx"] < cx["n"], cx["mx"], cx["n"])), ("the file stays the same", z3.And(ld("_n") == cx["n"], ld("_dims") == cx["d"]))]


class AppendTuple(IO):
    name, fn = "v1::Writer<void>::append(tuple)", "vp_native_append_tuple"
    cells = ("pos", "k")

    def setup(self, e, st):
        cnt, wd, a, c = fresh_int("written"), fresh_int("dimension"), fresh_int("id"), fresh_int("byte")
        x = fresh_real("x")
        st.assume(cnt >= 0, cnt < 1 << 40, wd >= 0, wd < 1 << 40, a >= 0, a < 1 << 64, c >= 0, c < 256)
        cx = self.common(e, st, cnt=cnt)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        w = self.stream(e, st, K(e, "nw_sizeof"), K(e, "nw_stream"), "writer")
        st.mem[w.id].update({(K(e, "nw_n"), "i64"): cnt, (K(e, "nw_dims"), "i64"): wd})
        cx["w"] = w

        def write(e, st, av, I):
            k, m = z3.simplify(G("k", st)).as_long(), z3.simplify(ai(av[2], st)).as_long()
            what, size, ty = ((a, 8, "i64"), (x, 4, "f32"), (c, 1, "i8"))[min(k, 2)]
            if k > 2 or m != size:
                ob(st, z3.BoolVal(False), "each component is written once with its own size", I)
                return av[0]
            v = e.load(st, av[1], ty, I)
            ob(st, (zR(e.as_real(v, st)) if ty == "f32" else ai(v, st)) == what, "components are written in order, unchanged", I)
            put(st, k=k + 1)
            return av[0]
        e.contracts["~::write(char const*, long)"] = write
        return [Ptr(w), a, x, c], cx

    def post(self, e, st, ret, cx):
        return [("all components are written", cx["G"]("k", st) == 3), ("one vector more is counted", zI(e.as_int(e.obj_load(st, cx["w"], K(e, "nw_n"), "i64", {}), st)) == cx["cnt"] + 1)]


class Create(IO):
    """the writers' constructors: what the file holds before the first vector"""
    cells = ("pos", "hdr")

    def __init__(self, name, fn, tag):
        self.name, self.fn, self.tag = name, fn, tag

    def setup(self, e, st):
        n, d, u1, u2 = (fresh_int(x) for x in ("vectors", "dims", "uuid1", "uuid2"))
        for x in (n, d, u1, u2):
            st.assume(x >= 0, x < 1 << 64)
        cx = self.common(e, st, n=n, d=d, u=(u1, u2))
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))
        t = self.tag
        w = self.stream(e, st, K(e, t + "_sizeof"), K(e, t + "_stream"), "writer")
        cx["w"] = w
        self.seeks(e)
        size = K(e, "h_sizeof") if t == "nw" else K(e, "bh_sizeof")

        def write(e, st, av, I):
            ob(st, z3.And(G("pos", st) == 0, G("hdr", st) == 0, ai(av[2], st) == size), "one header is written, at the start of the file", I)
            if t == "bw":
                x = ai(e.load(st, av[1], "i64", I), st)
                ob(st, x == n + d * (1 << 32), "the header holds the number of vectors and the dimension", I)
            put(st, hdr=1, pos=G("pos", st) + size)
            return av[0]
        e.contracts["~::write(char const*, long)"] = write
        for k in ("~svs::lib::open_write", "~basic_ofstream", "~std::ofstream::", "~std::filesystem", "~basic_string", "~basic_filebuf", "~ios_base"):
            e.contracts[k] = lambda e, st, av, I: None
        if t == "nw":
            uu = Region("uuid", "obj", size=16, readonly=True)
            st.mem[uu.id] = {(0, "i64"): u1, (8, "i64"): u2}
            return [Ptr(w), Ptr(self.filename(st)), d, Ptr(uu)], cx
        src = self.stream(e, st, 512, 0, "given")
        return [Ptr(w), Ptr(src), n, d], cx

    def post(self, e, st, ret, cx):
        G, w = cx["G"], cx["w"]
        ld = lambda o: zI(e.as_int(e.obj_load(st, w, o, "i64", {}), st))
        size = K(e, "h_sizeof") if self.tag == "nw" else K(e, "bh_sizeof")
        out = [("the vectors will follow the header", z3.And(G("hdr", st) == 1, G("pos", st) == size))]
        if self.tag == "nw":
            out += [("no vector is counted yet", ld(K(e, "nw_n")) == 0), ("the dimension and the identifier are kept", z3.And(ld(K(e, "nw_dims")) == cx["d"], ld(K(e, "nw_uuid")) == cx["u"][0], ld(K(e, "nw_uuid") + 8) == cx["u"][1]))]
        else:
            out.append(("both numbers fit the header", z3.And(cx["n"] < 1 << 32, cx["d"] < 1 << 32)))
        return out

    def on_throw(self, e, st, cx):
        return [("only numbers too large for the header are refused", z3.Or(cx["n"] >= 1 << 32, cx["d"] >= 1 << 32) if self.tag == "bw" else z3.BoolVal(False))]


NF, DF = z3.Function("VECTORSOFFILE", I_, I_), z3.Function("DIMSOFFILE", I_, I_)


class Load(IO):
    cells = ("made", "filled")

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def setup(self, e, st):
        cx = self.common(e, st)
        G, put, ob, ai = (cx[k] for k in ("G", "put", "ob", "ai"))

        def ask(F):
            def f(e, st, av, I):
                v = F(ai(av[0], st))
                st.assume(v >= 0, v < 1 << 40)
                return v
            return f

        def make(e, st, av, I):
            ob(st, z3.And(G("made", st) == 0, ai(av[0], st) == NF(4), ai(av[1], st) == DF(4)), "the dataset is made for exactly the vectors that the reader of its element type finds in the file", I)
            put(st, made=1)

        def fill(e, st, av, I):
            ob(st, z3.And(G("made", st) == 1, G("filled", st) == 0, ai(av[0], st) == 4, ai(av[1], st) == (1 << 64) - 1), "the whole file is read, as elements of the dataset's type", I)
            put(st, filled=1)
        e.contracts.update({"vp_file_n": ask(NF), "vp_file_dims": ask(DF), "vp_make": make, "vp_fill": fill})
        out = Region("out", "obj", size=16)
        st.mem[out.id] = {}
        cx["out"] = out
        return [Ptr(out), Ptr(Region("file", "obj", size=1))], cx

    def post(self, e, st, ret, cx):
        G = cx["G"]
        ld = lambda o: zI(e.as_int(e.obj_load(st, cx["out"], o, "i64", {}), st))
        return [("the dataset is made and filled", z3.And(G("made", st) == 1, G("filled", st) == 1)), ("it has the file's size", z3.And(ld(0) == NF(4), ld(8) == DF(4)))]


class Schema(IO):
    name, fn = "from_magic_number", "vp_schema"

    def setup(self, e, st):
        m = fresh_int("magic")
        st.assume(m >= 0, m < 1 << 64)
        return [m], self.common(e, st, m=m)

    def post(self, e, st, ret, cx):
        r = zI(e.as_int(ret, st, 32))
        m = cx["m"]
        v1 = K(e, "h_number")
        return [("exactly the magic number of the native format selects it", (r == 1) == (m == v1))]


UNITS = [Append("VecsWriter<float>::append", "vp_vecs_append_f32", 4, 1, "vw"), Append("VecsWriter<uint8_t>::append", "vp_vecs_append_u8", 1, 1, "vw"),
         Append("v1::Writer<void>::append(float)", "vp_native_append_f32", 4, 0, "nw", True), Append("v1::Writer<uint8_t>::append", "vp_native_append_u8", 1, 0, "nw", True),
         Append("BinaryWriter<float>::append", "vp_bin_append_f32", 4, 0, "bw"), Header(),
         Populate("populate from vecs (float)", "vp_populate_vecs_f32", 4, 4, "vr", 0), Populate("populate from vecs (uint8_t)", "vp_populate_vecs_u8", 1, 4, "vr", 0),
         Populate("populate from native (float)", "vp_populate_native_f32", 4, 0, "nr", None), Populate("populate from native (uint8_t)", "vp_populate_native_u8", 1, 0, "nr", None),
         Populate("populate from bin (float)", "vp_populate_bin_f32", 4, 0, "br", 8), Save(),
         *[Dims("vecs", h) for h in (0, 1, 2, 4, 8)], *[Dims("bin", h) for h in (0, 1, 2, 4, 8)], Dims("native", None), Schema(),
         Open("VecsReader<float>::VecsReader", "vp_vecs_reader", 4, "vr"), Open("VecsReader<uint8_t>::VecsReader", "vp_vecs_reader_u8", 1, "vr"), Open("BinaryReader<float>::BinaryReader", "vp_bin_reader", 4, "br"),
         Open("v1::NativeFile::reader", "vp_native_reader", 4, "nr"), Load("load_dataset (file that takes the element size)", "vp_load_hinted"), Load("load_dataset (file that knows)", "vp_load_plain"),
         Create("v1::Writer::Writer", "vp_native_writer", "nw"), Create("BinaryWriter::BinaryWriter", "vp_bin_writer", "bw"),
         Resize("VecsReader::resize", "vp_vecs_resize", "vr"), Resize("BinaryReader::resize", "vp_bin_resize", "br"), AppendTuple()]
