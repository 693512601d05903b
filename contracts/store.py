"""Shared by the contracts: a symbolic LocalObjectStore in an arbitrary state."""
from contracts.lib import *

LOS = MPI + "local_object_store"
OWNER = z3.Function("owner_rank", U, IntS)
NUMBER = z3.Function("data_number", U, IntS)


class MState(Native):
    def __init__(self, rank, **kw):
        self.f_global_rank = rank
        self.f_global_comm = Ignore()
        for k, v in kw.items():
            setattr(self, "f_" + k, v)


def data_id_attr(it, v, name):
    if not (isinstance(v, Sym) and v.k == "u" and v.ty == "MpiDataID"):
        return NotImplemented
    if name == "owner_rank":
        return Sym(OWNER(v.t), "int")
    if name == "data_number":
        return Sym(NUMBER(v.t), "int")
    if name == "_id":
        return p_str(it, v)
    return NotImplemented


def p_str(it, v):
    return Sym(z3.Function("id_text", U, U)(v.t), "u", "str")


def local_store(p, it, rank=None):
    """a LocalObjectStore whose maps are arbitrary"""
    it.attr_hook = data_id_attr
    o = new(it, glob(it, LOS, "LocalObjectStore"))
    it.call(meth(it, o, "__init__"), [])
    names = {"_data_map": EU(None), "_data_id_map": EU("MpiDataID"), "_data_owner_map": EInt, "_sent_data_map": ESet(EInt), "_serialization_cache": EU(None)}
    for n, el in names.items():
        if n not in o.attrs:
            raise Unsupported(f"LocalObjectStore.{n} is gone")
        o.attrs[n] = sym_dict(it, n, el, keyty="MpiDataID")
    for n in o.attrs:
        if n not in names and n != "_data_id_counter":
            raise Unsupported(f"LocalObjectStore.{n} is new")
    c = p.int("_data_id_counter")
    p.assume(c.t >= 0)
    o.attrs["_data_id_counter"] = c
    me = rank if rank is not None else p.int("own_rank")
    it.gover[(MPI + "communication", "MPIState")] = Single(MState(me))
    return o, me


def maps(o):
    return {n: (v.dom, v.val) for n, v in o.attrs.items() if isinstance(v, DictObj)}


def unchanged(o, before, x, but=()):
    return z3.And(*[z3.And(o.attrs[n].dom[x] == d[x], z3.Implies(d[x], o.attrs[n].val[x] == v[x])) for n, (d, v) in before.items() if n not in but])
