"""Contracts and the function-by-function verification driver."""
import time
import traceback
import z3
from .engine import *
from .engine import _Uninit
from .tys import Ty, parse_ty
from . import std


class LostAnchor(Exception):
    pass


class Contract:
    """One function under contract.  Subclasses give: pid, target, clauses (dict name -> text), setup(), post()."""
    pid = None
    target = None            # printed path of the function (crate::module::function)
    title = ''
    no_panic = True
    panics_if = None         # (E, st) -> the condition under which a panic is right
    probes = ()
    dump = None
    budget = 240             # seconds
    clauses = {}             # obligation name -> what it says (for the evidence)
    assumes = []             # text of every precondition / environment assumption
    body = None              # for async functions: verify the coroutine body

    def __init__(self):
        self.probes = []

    def allow_panic(self, what):
        return False

    def overrides(self, E):
        return {}

    def find(self, E):
        f = E.load(self.target)
        if f is None:
            # method: "module::Type::name" or "module::Type as Trait::name"
            m = self.target.rsplit('::', 1)
            p = E.find_method(m[0], None, m[1])
            f = E.load(p) if p else None
        if f is None:
            raise LostAnchor(self.target)
        return f

    def setup(self, E, st, f):
        raise NotImplementedError

    def post(self, E, st, ret):
        raise NotImplementedError

    def loop_inv(self, L):
        return {}

    def execute(self, E, st, f, args):
        """outcomes of the function; async functions: run the constructor, then the body to completion"""
        outs = E.run(f, args, st)
        r = []
        for s, v in outs:
            if isinstance(v, ClosV) and v.name.startswith('{async'):
                r += E.run_async(s, v)
            else:
                r.append((s, v))
        return r


class Result:
    def __init__(self, c):
        self.contract = c
        self.obls = []
        self.error = None      # unsupported construct / lost anchor / timeout
        self.outcomes = 0
        self.secs = 0.0
        self.covers = {}
        self.trusted = {}
        self.inlined = {}
        self.contracts_used = {}
        self.loops = []
        self.queries = 0
        self.solver_secs = 0.0

    @property
    def status(self):
        if self.error:
            return 'undecided'
        if any(o.status == 'refuted' for o in self.obls):
            return 'refuted'
        if any(o.status != 'proved' for o in self.obls):
            return 'undecided'
        if not self.obls or not self.outcomes:
            return 'vacuous'
        if not all(self.covers.values()):
            return 'vacuous'
        return 'proved'


def verify(E, c, verbose=False):
    r = Result(c)
    t0 = time.time()
    E.reset_run()
    E.contract = c
    E.overrides = {}
    E.deadline = time.time() + c.budget
    try:
        f = c.find(E)
        E.overrides = c.overrides(E)
        c.covered = {k: False for k in getattr(c, 'covers', ())}
        st = St()
        args = c.setup(E, st, f)
        outs = c.execute(E, st, f, args)
        r.outcomes = len(outs)
        for s, v in outs:
            for s2, _ in E.forked(s, lambda z: [(z, c.post(E, z, v))]):
                pass
        r.covers = dict(c.covered)
    except (Unsupported, LostAnchor) as e:
        r.error = f'{type(e).__name__}: {e}'
        if verbose:
            traceback.print_exc()
    except PathEnd:
        r.error = 'Unsupported: no path'
    except RecursionError:
        r.error = 'Unsupported: recursion'
    except Exception as e:      # an engine fault must never look like a proof or an alarm
        r.error = f'engine: {type(e).__name__}: {e}'
        if verbose:
            traceback.print_exc()
    r.obls = E.obls
    r.secs = time.time() - t0
    r.trusted, r.inlined, r.contracts_used = dict(E.trusted), dict(E.inlined), dict(E.contracts_used)
    r.loops = list(E.seen_loops)
    r.queries, r.solver_secs = E.nqueries, E.solver_secs
    E.contract = None
    return r


# ---- reading values by name
def case(E, st, v):
    """(variant name, {field: value}) of an enum value, deciding the variant on this path"""
    _, a, vi, fs = std.variant(E, st, v)
    vr = E.db.info(a.ty).variants[vi]
    return vr[0], dict(zip([n for n, _ in vr[2]], fs))


def fields(E, st, v):
    """{field: value} of a struct value"""
    v = std.val(E, st, v)
    a = v if isinstance(v, Agg) else E.explode(st, v)
    info = E.db.info(a.ty) if a.ty is not None and a.ty.kind != 'tuple' else None
    ns = [n for n, _ in info.fields] if info is not None else range(len(a.fields))
    return dict(zip(ns, a.fields))


def rc_value(E, st, v, ty):
    """what an Rc<RefCell<ty>> (or a newtype around it) holds"""
    v = std.val(E, st, v)
    while isinstance(v, Agg) or isinstance(v, Sym):
        v = list(fields(E, st, v).values())[0]
    return E.load_ref(st, RefV(('h', ty, v.ptr)))


def eqv(E, st, a, b):
    return std.eq_val(E, st, a, b)
