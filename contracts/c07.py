"""C07: the shared-memory allocator."""
from contracts.lib import *
from pyvc.containers import PairS, pair_list

UNITS = []
NOTE = (
    "Proof for all memory sizes, free lists, reservation sizes and released ranges of the allocator's functions (FreeMemoryRange, SharedMemoryManager.put); "
    "the loop of SharedMemoryManager.free and whole clusters are also run (bounded). Assumes the contracts of dependencies listed in the evidence; trusts pyvc, z3, cvc5."
)
SMM = MPI + "monitor.shared_memory_manager"
FST, SND = PairS.fst, PairS.snd


def ranges(it, o):
    """(array, length) of the free list of a FreeMemoryRange"""
    l = o.attrs.get("range")
    if not isinstance(l, ListObj):
        raise Unsupported("FreeMemoryRange.range is not a list")
    from pyvc.containers import pair_arr

    return pair_arr(it, l)


def wf(arr, n, LEN):
    i, j = z3.Ints("i!wf j!wf")
    return z3.And(
        n >= 0,
        z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= FST(arr[i]), FST(arr[i]) < SND(arr[i]), SND(arr[i]) <= LEN))),
        z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), SND(arr[i]) < FST(arr[j]))),
    )


def free(arr, n, c):
    i = z3.Int("i!fr")
    return z3.Exists([i], z3.And(0 <= i, i < n, FST(arr[i]) <= c, c < SND(arr[i])))


def at(arr, n, i, c):
    return z3.And(0 <= i, i < n, FST(arr[i]) <= c, c < SND(arr[i]))


def free_implies(p, name, src, dst, c, hyp, alt):
    """for every cell c: free in src and hyp  =>  free in dst, or alt.  The block index is an arbitrary w; the block
    of dst that contains the cell is next to it."""
    (a, n), (b, m) = src, dst
    w = p.fresh("w", IntS)
    p.check(name, z3.Implies(z3.And(at(a, n, w, c), hyp), z3.Or(alt, *[at(b, m, w + d, c) for d in (0, -1, 1)])))


def setup(p):
    it = Interp(p)
    LEN = p.int("memory_len")
    p.assume(LEN.t >= 0)
    o = new(it, glob(it, SMM, "FreeMemoryRange"))
    l = pair_list(it, "free")
    o.attrs["range"] = l
    p.assume(wf(l.arr, l.n, LEN.t))
    p.input("memory_len", LEN)
    p.input("free", lambda m: [(m.eval(FST(l.arr[i]), True), m.eval(SND(l.arr[i]), True)) for i in range(min(6, m.eval(l.n, True).as_long()))])
    c = p.int("cell")
    p.assume(z3.And(0 <= c.t, c.t < LEN.t))
    return it, o, LEN.t, l.arr, l.n, c.t


@unit(UNITS, "FreeMemoryRange.__init__: everything is free")
def u_init(p):
    it = Interp(p)
    LEN = p.int("memory_len")
    p.assume(LEN.t >= 1)
    o = it.call(glob(it, SMM, "FreeMemoryRange"), [LEN])
    a, n = ranges(it, o)
    c = p.int("cell")
    p.assume(z3.And(0 <= c.t, c.t < LEN.t))
    p.check("well-formed", wf(a, n, LEN.t))
    p.check("all cells free", free(a, n, c.t))
    p.post()


@unit(UNITS, "FreeMemoryRange.occupy")
def u_occupy(p):
    it, o, LEN, a0, n0, c = setup(p)
    cnt = p.int("count")
    p.assume(cnt.t >= 1)
    p.input("count", cnt)
    k, r = call_catch(it, meth(it, o, "occupy"), [cnt])
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    a, n = ranges(it, o)
    first, last = it.unpack(r, 2)
    p.check("free list stays sorted, disjoint and merged", wf(a, n, LEN))
    i = z3.Int("i!fit")
    if first is None:
        p.check("fails only if no block fits", z3.Not(z3.Exists([i], z3.And(0 <= i, i < n0, SND(a0[i]) - FST(a0[i]) >= cnt.t))))
        free_implies(p, "failure loses nothing", (a0, n0), (a, n), c, z3.BoolVal(True), z3.BoolVal(False))
        free_implies(p, "failure frees nothing", (a, n), (a0, n0), c, z3.BoolVal(True), z3.BoolVal(False))
        p.check("failure is reported for both ends", last is None)
        p.cover("fails")
    else:
        f, l = intt(first), intt(last)
        p.check("exact length", l - f == cnt.t)
        p.check("inside the memory", z3.And(0 <= f, l <= LEN))
        inr = z3.And(f <= c, c < l)
        p.check("only free cells are handed out", z3.Implies(inr, free(a0, n0, c)))
        free_implies(p, "no free cell is lost", (a0, n0), (a, n), c, z3.Not(inr), z3.BoolVal(False))
        free_implies(p, "no other cell becomes free", (a, n), (a0, n0), c, z3.BoolVal(True), z3.BoolVal(False))
        v = p.fresh("v", IntS)
        p.check("cells handed out are no longer free", z3.Implies(at(a, n, v, c), z3.Not(inr)))
        p.cover("succeeds")
    p.post()


@unit(UNITS, "FreeMemoryRange.release", budget=240)
def u_release(p):
    it, o, LEN, a0, n0, c = setup(p)
    f, l = p.int("first"), p.int("last")
    p.input("first", f)
    p.input("last", l)
    p.assume(z3.And(0 <= f.t, f.t < l.t, l.t <= LEN))
    i = z3.Int("i!rel")
    # the range is not free
    p.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n0), z3.Or(SND(a0[i]) <= f.t, l.t <= FST(a0[i])))))
    k, r = call_catch(it, meth(it, o, "release"), [f, l])
    p.check("no exception", k == "ret")
    if k != "ret":
        return
    a, n = ranges(it, o)
    p.check("free list stays sorted, disjoint and merged", wf(a, n, LEN))
    inr = z3.And(f.t <= c, c < l.t)
    free_implies(p, "free cells stay free", (a0, n0), (a, n), c, z3.BoolVal(True), z3.BoolVal(False))
    free_implies(p, "no other cell becomes free", (a, n), (a0, n0), c, z3.BoolVal(True), inr)
    p.check("the released cells are free", z3.Implies(inr, free(a, n, c)))
    p.post()


# ---------------------------------------------------------------------------------------------------
# SharedMemoryManager: callers are checked against the contracts of FreeMemoryRange proved above.  In the view of a
# caller a FreeMemoryRange is the set of its free cells.
ITEM = z3.Function("item_at", U, U, U)
REF = z3.Function("references_here", U, IntS)
OTHER = z3.Function("references_on_other_hosts", U, BoolS)


def abs_range(it, name, LEN):
    o = new(it, glob(it, SMM, "FreeMemoryRange"))
    o.attrs["$free"] = it.p.reg(ArrObj(LEN, it.p.fresh(name, z3.ArraySort(IntS, BoolS)), EBool))
    c = z3.Int("c!out")
    it.p.assume(z3.ForAll([c], z3.Implies(o.attrs["$free"].arr[c], z3.And(0 <= c, c < LEN))))
    return o


def sum_occupy(it, v):
    o, cnt = v["self"], intt(v.get("count", 1))
    F = o.attrs["$free"]
    it.p.check("requires: occupy a positive length", cnt >= 1)
    c = z3.Int("c!oc")
    f0 = F.arr
    if it.p.choose(2) == 0:
        f = it.p.fresh("first", IntS)
        it.p.assume(z3.ForAll([c], z3.Implies(z3.And(f <= c, c < f + cnt), f0[c])))
        it.p.assume(f0[f])
        F.arr = z3.Lambda([c], z3.And(f0[c], z3.Not(z3.And(f <= c, c < f + cnt))))
        return it.mktuple([Sym(f, "int"), Sym(f + cnt, "int")])
    return it.mktuple([None, None])


def sum_release(it, v):
    o, f, l = v["self"], intt(v["first_index"]), intt(v["last_index"])
    F = o.attrs["$free"]
    c = z3.Int("c!re")
    f0 = F.arr
    it.p.check("requires: released range is a whole live range", z3.And(0 <= f, f < l, l <= F.n))
    it.p.check("requires: released cells are not free", z3.ForAll([c], z3.Implies(z3.And(f <= c, c < l), z3.Not(f0[c]))))
    F.arr = z3.Lambda([c], z3.Or(f0[c], z3.And(f <= c, c < l)))
    return None


SUMS = {SMM + ":FreeMemoryRange.occupy": sum_occupy, SMM + ":FreeMemoryRange.release": sum_release}


class Comm(Native):
    """Allreduce with MAX over one byte per identifier"""

    def __init__(self, ids):
        self.ids = ids

    def m_Allreduce(self, it, send, recv, op):
        n1, n2 = length(it, send), length(it, recv)
        it.p.check("requires: Allreduce buffers have one length", zt(n1) == zt(n2))
        it.p.check("requires: Allreduce takes the maximum", isinstance(op, ExtModule) and op.name.endswith(".MAX"))
        s = send if send.items is None else to_sym(it, ListObj(items=list(send.items)), EInt)
        ids = self.ids()
        sa = s.arr
        recv.items, recv.n, recv.el, recv.cnt = None, zt(n2), EInt, {}
        recv.arr = lam(lambda j: z3.If(z3.Or(sa[j] > 0, OTHER(ids.arr[j])), z3.IntVal(1), z3.IntVal(0)))


class Store(Native):
    def __init__(self, m):
        self.m = m

    def m_get_ref_number(self, it, data_id, service_index):
        it.p.check("requires: reference number read at the object's own record", z3.Implies(self.m.dom[data_id.t], intt(service_index) == fld(it, self.m.val[data_id.t], "service_index")))
        return Sym(REF(data_id.t), "int")

    def m_delete_service_info(self, it, data_id, service_index):
        it.p.check("requires: deleted record is the object's own one", intt(service_index) == fld(it, self.m.val[data_id.t], "service_index"))
        it.list_append(it.ghost.attrs["deleted"], data_id)


def fld(it, t, k):
    return UNBOX_I(ITEM(t, it.str_const(k)))


def mgr_setup(p):
    it = Interp(p, summaries=dict(SUMS))
    cls = glob(it, SMM, "SharedMemoryManager")
    info = it.getattr(glob(it, SMM, "SharedObjectStore"), "INFO_SIZE")
    M = {}
    e, e2 = p.u("e", "MpiDataID"), p.u("e2", "MpiDataID")
    p.track("e", e.t)
    LEN, SLEN = p.int("memory_len").t, p.int("service_len").t
    p.assume(z3.And(LEN >= 0, SLEN >= 0))
    o = new(it, cls)
    d = sym_dict(it, "reservations", EU(None), keyty="MpiDataID", notnone=True)
    o.attrs["_reservation_info"] = d
    o.attrs["free_memory"] = fm = abs_range(it, "free_cells", LEN)
    o.attrs["free_service_indexes"] = fs = abs_range(it, "free_service", SLEN)
    pend = symlist(it, "pending", EU("MpiDataID"))
    it.cnt_facts(pend)
    o.attrs["pending_cleanup"] = pend
    it.ghost.attrs["deleted"] = it.mklist([])
    st = Store(d)
    o.attrs["shared_store"] = st
    own = z3.Function("owner", IntS, U)
    sown = z3.Function("service_owner", IntS, U)

    def inv(dd=None, ff=None, ss=None, own_=None, sown_=None):
        ff = ff if ff is not None else fm.attrs["$free"].arr
        ss = ss if ss is not None else fs.attrs["$free"].arr
        ow, so = own_ or own, sown_ or sown
        x, c = z3.Const("x!inv", U), z3.Int("c!inv")
        f, l, s = fld(it, d.val[x], "first_index"), fld(it, d.val[x], "last_index"), fld(it, d.val[x], "service_index")
        dom = d.dom
        V = d.val

        def fa(vs, body, *pats):
            ok = [q for q in pats if all(z3.is_app(t) and t.num_args() and all(z3.is_const(a) or z3.is_var(a) for a in t.children()) for t in q)]
            return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*q) for q in ok]) if ok else z3.ForAll(vs, body)

        fo, lo_, so_ = fld(it, V[ow(c)], "first_index"), fld(it, V[ow(c)], "last_index"), fld(it, V[so(c)], "service_index")
        return [
            ("reservations are inside of the memory", fa([x], z3.Implies(dom[x], z3.And(0 <= f, f < l, l <= LEN, 0 <= s, s + info <= SLEN)), (dom[x],))),
            ("reserved cells are not free and belong to one reservation", fa([x, c], z3.Implies(z3.And(dom[x], f <= c, c < l), z3.And(z3.Not(ff[c]), ow(c) == x)), (dom[x], ff[c]), (dom[x], own(c)))),
            ("every other cell is free", fa([c], z3.Implies(z3.And(0 <= c, c < LEN, z3.Not(ff[c])), z3.And(dom[ow(c)], fo <= c, c < lo_)), (ff[c],))),
            ("reserved records are not free and belong to one reservation", fa([x, c], z3.Implies(z3.And(dom[x], s <= c, c < s + info), z3.And(z3.Not(ss[c]), so(c) == x)), (dom[x], ss[c]), (dom[x], sown(c)))),
            ("every other record is free", fa([c], z3.Implies(z3.And(0 <= c, c < SLEN, z3.Not(ss[c])), z3.And(dom[so(c)], so_ <= c, c < so_ + info)), (ss[c],))),
            ("free cells are inside of the memory", z3.And(fa([c], z3.Implies(ff[c], z3.And(0 <= c, c < LEN)), (ff[c],)), fa([c], z3.Implies(ss[c], z3.And(0 <= c, c < SLEN)), (ss[c],)))),
        ]

    for _, f in inv():
        p.assume(f)
    return it, o, d, pend, e, inv, own, sown, info


@unit(UNITS, "SharedMemoryManager.put")
def u_put(p):
    it, o, d, pend, e, inv, own, sown, info = mgr_setup(p)
    i = p.u("data_id", "MpiDataID")
    n = p.int("memory_len_req")
    p.assume(n.t >= 1)
    p.assume(z3.Not(d.dom[i.t]))
    dom0, val0 = d.dom, d.val
    f0 = o.attrs["free_memory"].attrs["$free"].arr
    s0 = o.attrs["free_service_indexes"].attrs["$free"].arr
    k, r = call_catch(it, meth(it, o, "put"), [i, n])
    f1 = o.attrs["free_memory"].attrs["$free"].arr
    s1 = o.attrs["free_service_indexes"].attrs["$free"].arr
    c = p.int("cell").t
    if k == "exc":
        p.check("a failed reservation is a MemoryError", exc_name(r) == "MemoryError")
        p.check("a failed reservation leaves the free cells as they were", f1[c] == f0[c])
        p.check("a failed reservation leaves the free records as they were", s1[c] == s0[c])
        p.check("a failed reservation is not recorded", d.dom[e.t] == dom0[e.t])
        p.cover("fails")
    else:
        g = lambda nm: intt(it.getitem(r, nm))
        first, last, srv = g("first_index"), g("last_index"), g("service_index")
        p.check("requested length", last - first == n.t)
        p.check("recorded under its identifier", z3.And(d.dom[i.t], *[fld(it, d.val[i.t], nm) == g(nm) for nm in ("first_index", "last_index", "service_index")]))
        p.check("other reservations are untouched", z3.Implies(e.t != i.t, z3.And(d.dom[e.t] == dom0[e.t], d.val[e.t] == val0[e.t])))
        own2 = lambda c: z3.If(z3.And(first <= c, c < last), i.t, own(c))
        sown2 = lambda c: z3.If(z3.And(srv <= c, c < srv + info), i.t, sown(c))
        for nm, f in inv(own_=own2, sown_=sown2):
            p.check("invariant: " + nm, f)
        p.cover("succeeds")
    p.post()


@unit(UNITS, "SharedMemoryManager.get")
def u_get(p):
    it, o, d, pend, e, inv, own, sown, info = mgr_setup(p)
    dom0 = d.dom
    r = it.call(meth(it, o, "get"), [e])
    if r is None:
        p.check("None only without a reservation", z3.Not(dom0[e.t]))
        p.cover("none")
    else:
        p.check("the recorded reservation", z3.And(dom0[e.t], it.box(r) == d.val[e.t]))
        p.cover("some")
    p.post()


@unit(UNITS, "SharedMemoryManager.clear", budget=240)
def u_clear(p):
    it, o, d, pend, e, inv, own, sown, info = mgr_setup(p)
    lst = symlist(it, "ids", EU("MpiDataID"))
    it.cnt_facts(lst)
    dom0, val0 = d.dom, d.val
    cp0, cl0 = cnt_of(it, pend, "e"), cnt_of(it, lst, "e")
    deleted = it.ghost.attrs["deleted"]
    many = p.choose(2) == 0
    all_ids = it.list_concat(pend, lst)
    o.attrs["monitor_comm"] = Comm(lambda: all_ids) if many else None
    refs = (lambda x: z3.Or(z3.And(dom0[x], REF(x) > 0), OTHER(x))) if many else (lambda x: z3.And(dom0[x], REF(x) > 0))

    def loop_inv(it_, s, k):
        x = z3.Const("x!li", U)
        out = [(n, f) for n, f in inv()]
        out.append(("reservations only disappear", z3.ForAll([x], z3.Implies(d.dom[x], z3.And(dom0[x], d.val[x] == val0[x])))))
        out.append(("values are kept", z3.ForAll([x], d.val[x] == val0[x])))
        out.append(("no referenced object is dropped", z3.ForAll([x], z3.Implies(z3.And(dom0[x], refs(x)), d.dom[x]))))
        out.append(("one record deletion per dropped reservation", cnt_of(it, it.ghost.attrs["deleted"], "e") == z3.If(z3.And(dom0[e.t], z3.Not(d.dom[e.t])), 1, 0)))
        if s.srcl is not None:
            out.append(("unreferenced objects so far are dropped", z3.Implies(z3.And(pcnt(all_ids.arr, e.t, k) > 0, z3.Not(refs(e.t))), z3.Not(d.dom[e.t]))))
            for nm, pl in [("", o.attrs["pending_cleanup"])] + [(nm + " ", l) for nm, l in local_lists(s)]:
                if isinstance(pl, ListObj) and (pl.items is not None and not pl.items or pl.items is None and pl.el.sort == U):
                    out.append((nm + "referenced objects so far are kept pending", cnt_of(it, pl, "e") == z3.If(refs(e.t), pcnt(all_ids.arr, e.t, k), 0)))
            out.append(("objects not listed so far are untouched", z3.Implies(pcnt(all_ids.arr, e.t, k) == 0, d.dom[e.t] == dom0[e.t])))
        return out

    it.inv.append(loop_inv)
    k, r = call_catch(it, meth(it, o, "clear"), [lst])
    p.check("no exception", k == "ret")
    listed = cp0 + cl0 > 0
    for nm, f in inv():
        p.check("invariant: " + nm, f)
    pl = o.attrs["pending_cleanup"]
    p.check("a referenced object keeps its memory", z3.Implies(z3.And(dom0[e.t], refs(e.t)), z3.And(d.dom[e.t], d.val[e.t] == val0[e.t])))
    p.check("an object that is still referenced is tried again later", z3.Implies(z3.And(listed, refs(e.t)), cnt_of(it, pl, "e") >= 1))
    p.check("an unreferenced listed object is released", z3.Implies(z3.And(listed, z3.Not(refs(e.t))), z3.And(z3.Not(d.dom[e.t]), cnt_of(it, pl, "e") == 0)))
    p.check("objects that are not listed are untouched", z3.Implies(z3.Not(listed), z3.And(d.dom[e.t] == dom0[e.t], d.val[e.t] == val0[e.t], cnt_of(it, pl, "e") == 0)))
    p.check("released exactly once", cnt_of(it, it.ghost.attrs["deleted"], "e") == z3.If(z3.And(dom0[e.t], z3.Not(d.dom[e.t])), 1, 0))
    p.post()
