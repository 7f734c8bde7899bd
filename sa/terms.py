"""Hash-consed value-graph terms and their normal form.

Every expression of the analysed program is mapped to a node of a value graph.
Smart constructors keep nodes in normal form, so that two program fragments
which compute the same value by different code (loop / comprehension / helper
function, early return / nested if, ...) are mapped to the *same* node.

 * bound variables are named by the height of their binder: alpha-equivalent
   terms are identical nodes;
 * booleans are kept as the set of prime implicants over their atoms (modulo a
   small table of facts relating atoms), existentials are mini-scoped;
 * conditionals are kept as an unordered decision table (`cases`);
 * sequences are kept in comprehension normal form (monad laws).
"""
from __future__ import annotations

import hashlib
import itertools

_intern: dict = {}
_fresh = itertools.count(1)
UNPACKED: dict = {}          # (split call, its other arguments) -> numbers of parts the program insists on


class T:
    __slots__ = ("op", "args", "key", "free", "height", "size", "_h", "closed")

    def __init__(self, op, args):
        self.op = op
        self.args = args
        free = set()
        height = 0
        size = 1
        parts = [op]

        def visit(a):
            nonlocal height, size
            if isinstance(a, T):
                free.update(a.free)
                if a.height > height:
                    height = a.height
                size += a.size
                parts.append(a.key)
            elif isinstance(a, tuple):
                parts.append("(")
                for b in a:
                    visit(b)
                parts.append(")")
            else:
                parts.append(f"{type(a).__name__}:{a!r}")

        for a in args:
            visit(a)
        if op == "fv":
            free.add(args[0])
        if op == "bv":
            free.add(("b", args[0]))
        if op == "lam":
            free.discard(("b", args[0].args[0]))
            height = max(height + 1, args[0].args[0])
        self.free = frozenset(free)
        self.closed = not any(isinstance(f, tuple) for f in free)
        self.height = height
        self.size = size
        self.key = hashlib.blake2b("\x00".join(parts).encode(), digest_size=10).hexdigest()
        self._h = hash((op, self.key))

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)


def mk(op, *args):
    k = (op, args)
    t = _intern.get(k)
    if t is None:
        t = T(op, args)
        _intern[k] = t
    return t


# ------------------------------------------------------------------ types
def ty(name, *args):
    return mk("ty", name, *args)


ANY = ty("Any")
BOOL = ty("bool")
STR = ty("str")
INT = ty("int")
BYTES = ty("bytes")
NONE_T = ty("None")


def optional(t):
    if t.args[0] in ("Any", "None") or is_nullable(t):
        return t
    return ty("Union", t, NONE_T)


def is_nullable(t):
    if t.args[0] in ("Any", "None"):
        return True
    if t.args[0] == "Union":
        return any(is_nullable(a) for a in t.args[1:])
    return False


def strip_none(t):
    if t.args[0] == "Union":
        rest = [a for a in t.args[1:] if a.args[0] != "None"]
        if len(rest) == 1:
            return rest[0]
        return ty("Union", *rest)
    return t


# --------------------------------------------------------------- constants
def const(v):
    if isinstance(v, tuple):
        return mk("tuple", *[const(x) for x in v])
    return mk("const", type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTY_STR = const("")


def is_const(t):
    return t.op == "const"


def cval(t):
    return t.args[1]


# --------------------------------------------------------------- variables
ORIGIN: dict = {}


def fv(typ=ANY, origin=None):
    i = next(_fresh)
    t = mk("fv", i, typ)
    if origin is not None:
        ORIGIN[i] = origin
    return t


def sym(name, typ=ANY):
    return mk("sym", name, typ)


def lam(v, body):
    """abstract free variable `v` (an fv node) out of body"""
    h = _avoid(body, body.height + 1)
    if v.args[0] not in body.free:
        return mk("lam", mk("bv", h, v.args[1]), body)
    for i in range(12):
        h = _avoid(body, h)
        b = mk("bv", h, v.args[1])
        r = rename(body, v, b)
        if r.height + 1 == h or (i > 6 and r.height < h):
            break
        # renormalisation changed the height: the name must stay above every inner binder
        h = r.height + 1 if i <= 6 else max(h, r.height) + 1
    else:
        raise RecursionError("binder naming does not stabilise")
    if ("b", h) not in r.free:
        b = mk("bv", _avoid(r, r.height + 1), v.args[1])
    return mk("lam", b, r)


def _avoid(body, h):
    """binder name: height of the body + 1, unless that name is free in the body (an
    enclosing binder that is being re-closed) - then a temporary, higher one"""
    if ("b", h) in body.free:
        h = max(f[1] for f in body.free if isinstance(f, tuple)) + 1
    return h


def rename(t, old, new):
    """variable for variable substitution.  No simplification can newly apply, so the
    smart constructors are skipped; only key-dependent orderings are restored."""
    ok = _varkey(old)
    memo: dict = {}

    def go(t):
        if ok not in t.free:
            return t
        if t is old:
            return new
        r = memo.get(t)
        if r is None:
            r = step(t)
            memo[t] = r
        return r

    def m(a):
        if isinstance(a, T):
            return go(a)
        if isinstance(a, tuple):
            return tuple(m(x) for x in a)
        return a

    def step(t):
        op = t.op
        if op == "lam":
            b, body = t.args
            nb = go(body)
            if ("b", b.args[0]) in body.free and nb.height + 1 != b.args[0] or _varkey(new) == ("b", b.args[0]):
                v = fv(b.args[1])
                return lam(v, go(rename(body, b, v)))
            if ("b", b.args[0]) not in body.free:
                b = mk("bv", _avoid(nb, nb.height + 1), b.args[1])
            return mk("lam", b, nb)
        args = tuple(m(a) for a in t.args)
        rs = _RESORT.get(op)
        if rs is not None:
            return rs(t, args)
        return mk(op, *args)

    return go(t)


def _rs_bool(t, args):
    if t in _FACTY:
        return bnorm(mk(t.op, *args))
    r = mk(t.op, *sorted(args, key=lambda a: a.key))
    if t in _bn_cache and _bn_cache[t] is t:
        _bn_cache[r] = r
    return r


def _rs_sorted(t, args):
    return mk(t.op, *sorted(args, key=lambda a: a.key))


def _rs_cases(t, args):
    return mk("cases", *sorted(args, key=lambda p: (p[1].key, p[0].key)))


def _rs_set(t, args):
    return mk("set", mk("seq", *sorted(args[0].args, key=lambda a: a.key)))


def _rs_seq(t, args):
    prev = False
    for a in args:
        g = seg_guard(a) is not TRUE
        if g and prev:
            return _mkseq(*args)
        prev = g
    return mk("seq", *args)


def _rs_ex(t, args):
    body = args[1].args[1]
    lits = body.args if body.op == "and" else (body,)
    if any(l.op == "ex" or l.op == "or" for l in lits):
        return _rebuild_ex(*args)
    return mk("ex", *args)


def _rs_sortd(t, args):
    return mk_sorted_hook(*args)


def mk_sorted_hook(*args):
    return _REBUILD["sorted"](*args)


def _rs_call(t, args):
    """the smaller / larger of several values: their order does not matter"""
    if args[0] in ("min", "max") and len(args[1]) == 2 and args[1][1].op == "const" and args[1][0].op == "list":
        seq = args[1][0].args[0]
        if seq.op == "seq" and all(x.op == "u" and x.args[0] is TRUE for x in seq.args):
            l = mk("list", mk("seq", *sorted(seq.args, key=lambda a: a.key)))
            return mk("call", args[0], (l, args[1][1]), *args[2:])
    return mk("call", *args)


_RESORT = {"and": _rs_bool, "or": _rs_bool, "eq": _rs_sorted, "is": _rs_sorted, "cases": _rs_cases, "set": _rs_set,
           "seq": _rs_seq, "ex": _rs_ex, "sorted": _rs_sortd, "call": _rs_call}
_FACTY: set = set()


def lam_type(l):
    return l.args[0].args[1]


def instantiate(l, arg):
    b = l.args[0]
    body = l.args[1]
    if ("b", b.args[0]) not in body.free:
        return body
    if arg.op in ("fv", "bv") and arg.args[1] is b.args[1]:
        return rename(body, b, arg)
    return subst(body, {b: arg})


def open_lam(l, origin=None):
    v = fv(lam_type(l), origin)
    return v, instantiate(l, v)


_REBUILD: dict = {}


def _varkey(v):
    return v.args[0] if v.op == "fv" else ("b", v.args[0]) if v.op == "bv" else None


def subst(t, m):
    keys = {_varkey(k) for k in m if k.op in ("fv", "bv")}
    memo: dict = {}

    def go(t):
        if t in m:
            return m[t]
        if not (keys & t.free):
            return t
        r = memo.get(t)
        if r is None:
            r = map_children(t, go)
            memo[t] = r
        return r

    return go(t)


def map_children(t, f):
    """rebuild node through its smart constructor with children mapped"""
    if t.op == "lam":
        v, body = _open_raw(t)
        nb = f(body)
        if nb is body:
            return t
        return lam(v, nb)

    def m(a):
        if isinstance(a, T):
            return f(a)
        if isinstance(a, tuple):
            return tuple(m(x) for x in a)
        return a

    args = [m(a) for a in t.args]
    rb = _REBUILD.get(t.op)
    if rb is not None:
        return rb(*args)
    return mk(t.op, *args)


_open_cache: dict = {}


def _open_raw(l):
    v = fv(lam_type(l))
    return v, instantiate(l, v)


def replace(t, m):
    """replace whole sub-terms (not only variables), rebuilding through constructors"""
    memo: dict = {}

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t)
        if r is None:
            if not any(isinstance(a, (T, tuple)) for a in t.args) or t.op in ("ty", "fv", "sym", "bv"):
                r = t
            else:
                r = map_children(t, go)
            memo[t] = r
        return r

    return go(t)


def subterms(t, seen=None):
    """all sub-terms (bodies of lambdas included, with bound variables in place)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                w = list(a)
                while w:
                    b = w.pop()
                    if isinstance(b, T):
                        st.append(b)
                    elif isinstance(b, tuple):
                        w.extend(b)
    return seen


# ---------------------------------------------------------------- booleans
def boolean(t):
    return t.op in ("and", "or", "not") or t is TRUE or t is FALSE


MAXATOMS = 11


def _atoms_of(t, acc):
    if t.op in ("and", "or", "not"):
        for a in t.args:
            _atoms_of(a, acc)
    elif t is TRUE or t is FALSE:
        pass
    else:
        acc.add(t)


def _ev(t, asg):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.op == "and":
        return all(_ev(a, asg) for a in t.args)
    if t.op == "or":
        return any(_ev(a, asg) for a in t.args)
    if t.op == "not":
        return not _ev(t.args[0], asg)
    return asg[t]


def _tt(t, idx, n, full, masks):
    """truth table of t as an integer bit mask"""
    if t is TRUE:
        return full
    if t is FALSE:
        return 0
    if t.op == "and":
        r = full
        for a in t.args:
            r &= _tt(a, idx, n, full, masks)
        return r
    if t.op == "or":
        r = 0
        for a in t.args:
            r |= _tt(a, idx, n, full, masks)
        return r
    if t.op == "not":
        return full & ~_tt(t.args[0], idx, n, full, masks)
    return masks[idx[t]]


_bn_cache: dict = {}


def bnorm(t):
    """canonical form of a boolean combination"""
    r = _bn_cache.get(t)
    if r is None:
        r = _bnorm(t)
        _bn_cache[t] = r
        _bn_cache[r] = r
    return r


def _masks(n):
    full = (1 << (1 << n)) - 1
    masks = []
    for i in range(n):
        block = (1 << (1 << i)) - 1
        m = 0
        step = 1 << (i + 1)
        for j in range(1 << i, 1 << n, step):
            m |= block << j
        masks.append(m)
    return full, masks


def _bnorm(t):
    if not boolean(t):
        return t
    acc: set = set()
    _atoms_of(t, acc)
    if not acc:
        return TRUE if _ev(t, {}) else FALSE
    atoms = sorted(acc, key=lambda a: a.key)
    n = len(atoms)
    if n > MAXATOMS:
        return _nnf(t)
    full, masks = _masks(n)
    idx = {a: i for i, a in enumerate(atoms)}
    f = _tt(t, idx, n, full, masks)
    dc = 0
    for i in range(n):
        for j in range(n):
            if i < j:
                if excludes(atoms[i], atoms[j]):
                    dc |= masks[i] & masks[j]
                if covers(atoms[i], atoms[j]):
                    dc |= full & ~masks[i] & ~masks[j]
            if i != j and implies_atom(atoms[i], atoms[j]):
                dc |= masks[i] & ~masks[j] & full
    facty = dc != 0
    f &= ~dc & full
    if f == 0:
        return FALSE
    fd = f | dc
    if fd == full:
        return TRUE
    primes = _primes(fd, n, full, masks)
    imps = []
    for cube in primes:
        m = full
        for i, pol in cube:
            m &= masks[i] if pol else full & ~masks[i]
        real = m & ~dc
        if real == 0:
            continue
        imps.append((cube, real))
    # absorption modulo the facts
    keep = []
    order = sorted(imps, key=lambda c: (len(c[0]), [(i, not p) for i, p in c[0]]))
    for k, (cube, real) in enumerate(order):
        absorbed = False
        for k2, (c2, r2) in enumerate(order):
            if k2 == k:
                continue
            if real & ~r2 == 0 and (real != r2 or k2 < k):
                absorbed = True
                break
        if not absorbed:
            keep.append((cube, real))
    out = []
    for cube, _ in keep:
        lits = [atoms[i] if pol else mk("not", atoms[i]) for i, pol in cube]
        out.append(_raw_and(lits))
    r = out[0] if len(out) == 1 else mk("or", *sorted(out, key=lambda a: a.key))
    if facty:
        _FACTY.add(r)
        _FACTY.update(out)
    return r


def _raw_and(lits):
    if not lits:
        return TRUE
    if len(lits) == 1:
        return lits[0]
    return mk("and", *sorted(lits, key=lambda a: a.key))


def _primes(f, n, full, masks):
    """all prime implicants by iterated consensus on truth tables (n small)"""
    # recursive: primes(f) via Shannon expansion
    from functools import lru_cache

    @lru_cache(None)
    def rec(f, i):
        if f == 0:
            return ()
        if f == full:
            return (frozenset(),)
        if i == n:
            return ()
        m = masks[i]
        # cofactors expressed on full space
        sh = 1 << i
        f1 = f & m
        f1 = f1 | (f1 >> sh)
        f0 = f & ~m & full
        f0 = f0 | (f0 << sh)
        f0 &= full
        both = f0 & f1
        pb = rec(both, i + 1)
        p0 = rec(f0, i + 1)
        p1 = rec(f1, i + 1)
        res = list(pb)
        sb = set(pb)

        def covered(c):
            return any(b <= c for b in sb)

        for c in p0:
            if not covered(c):
                res.append(c | {(i, False)})
        for c in p1:
            if not covered(c):
                res.append(c | {(i, True)})
        return tuple(res)

    return [tuple(sorted(c)) for c in rec(f, 0)]


def _nnf(t):
    if t.op == "not":
        a = t.args[0]
        if a.op == "not":
            return _nnf(a.args[0])
        if a.op == "and":
            return _nnf(mk("or", *[mk("not", x) for x in a.args]))
        if a.op == "or":
            return _nnf(mk("and", *[mk("not", x) for x in a.args]))
        return t
    if t.op in ("and", "or"):
        zero, one = (FALSE, TRUE) if t.op == "and" else (TRUE, FALSE)
        out = set()
        for a in t.args:
            a = _nnf(a)
            if a is zero:
                return zero
            if a is one:
                continue
            if a.op == t.op:
                out.update(a.args)
            else:
                out.add(a)
        for a in out:
            if (a.args[0] if a.op == "not" else mk("not", a)) in out:
                return zero
        # absorption
        inner = "or" if t.op == "and" else "and"
        for a in list(out):
            if a.op == inner and any(b in out for b in a.args):
                out.discard(a)
        if not out:
            return one
        if len(out) == 1:
            return next(iter(out))
        return mk(t.op, *sorted(out, key=lambda a: a.key))
    return t


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return bnorm(mk("not", a))


def and_(*xs):
    xs = [x for x in xs if x is not TRUE]
    if any(x is FALSE for x in xs):
        return FALSE
    if not xs:
        return TRUE
    if len(xs) == 1:
        return xs[0]
    return bnorm(mk("and", *xs))


def or_(*xs):
    xs = [x for x in xs if x is not FALSE]
    if any(x is TRUE for x in xs):
        return TRUE
    if not xs:
        return FALSE
    if len(xs) == 1:
        return xs[0]
    return bnorm(mk("or", *xs))


_REBUILD["and"] = and_
_REBUILD["or"] = or_
_REBUILD["not"] = not_


def implicants(t):
    """list of implicants, each a tuple of literals"""
    if t is FALSE:
        return []
    if t is TRUE:
        return [()]
    if t.op == "or":
        return [x.args if x.op == "and" else (x,) for x in t.args]
    if t.op == "and":
        return [t.args]
    return [(t,)]


def is_dnf(t):
    for imp in implicants(t):
        for l in imp:
            a = l.args[0] if l.op == "not" else l
            if a.op in ("and", "or", "not"):
                return False
    return True


def entails(a, b):
    return and_(a, not_(b)) is FALSE


# facts between atoms -------------------------------------------------------
def _eqc(a):
    """(subject, constant) for atoms  subject == constant"""
    if a.op == "eq":
        x, y = a.args
        if x.op == "const":
            return y, x
        if y.op == "const":
            return x, y
    return None


def excludes(a, b):
    """a and b cannot both hold"""
    ea, eb = _eqc(a), _eqc(b)
    if ea and eb and ea[0] is eb[0] and ea[1] is not eb[1]:
        return True
    # x == None excludes nonempty(x), truthy(x), isinstance(x, C), matches
    for p, q in ((a, b), (b, a)):
        e = _eqc(p)
        if e and e[1] is NONE:
            x = e[0]
            if q.op == "ex" and q.args[0] is x:
                return True
            if q.op in ("truthy", "isa") and q.args[0] is x:
                return True
            if q.op == "ge" and q.args[0].op == "len" and q.args[0].args[0] is x:
                return True
        if e and e[1] is EMPTY_STR:
            x = e[0]
            if q.op in ("truthy",) and q.args[0] is x:
                return True
            if q.op == "ex" and q.args[0] is x:
                return True
    if a.op == "call" and b.op == "call" and {a.args[0], b.args[0]} == {"m:is_file", "m:is_dir"} and a.args[1] == b.args[1]:
        return True
    return False


def covers(a, b):
    """a or b always holds"""
    for p, q in ((a, b), (b, a)):
        e = _eqc(p)
        if e and e[1] is EMPTY_STR and typeof(e[0]) is STR:
            if q.op == "truthy" and q.args[0] is e[0]:
                return True
            if q.op == "ex" and q.args[0] is e[0] and q.args[1].args[1] is TRUE:
                return True
    ea, eb = _eqc(a), _eqc(b)
    if ea and eb and ea[0] is eb[0] and typeof(ea[0]) is BOOL:
        return True
    return False


_imp_cache: dict = {}


def implies_atom(a, b):
    if a is b:
        return True
    k = (a, b)
    r = _imp_cache.get(k)
    if r is None:
        r = _implies_atom(a, b)
        _imp_cache[k] = r
    return r


def _implies_atom(a, b):
    if a.op == "ge" and b.op == "ge" and a.args[0] is b.args[0]:
        if is_const(a.args[1]) and is_const(b.args[1]):
            return cval(a.args[1]) >= cval(b.args[1])
    if a.op == "ge" and a.args[0].op == "len" and b.op == "ex" and b.args[0] is a.args[0].args[0]:
        return b.args[1].args[1] is TRUE and is_const(a.args[1]) and cval(a.args[1]) >= 1
    if a.op == "ex" and b.op == "ex":
        return _ex_implies(a, b)
    if a.op == "call" and b.op == "call" and a.args[0] in ("m:is_file", "m:is_dir") and b.args[0] == "m:exists" and a.args[1] == b.args[1]:
        return True
    return False


def ex_block(a):
    """flatten ex(s1, λx. A & ex(s2, λy. B)) into vars [(v, src)], literals"""
    v, body = open_lam(a.args[1], origin=a.args[0])
    vs = [(v, a.args[0])]
    lits = []
    for imp in (implicants(body) if body.op != "or" else [(body,)]):
        for l in imp:
            if l.op == "ex":
                vs2, l2 = ex_block(l)
                vs += vs2
                lits += l2
            else:
                lits.append(l)
    return vs, lits


def _ex_implies(a, b):
    va, la = ex_block(a)
    vb, lb = ex_block(b)
    if len(va) > 4 or len(vb) > 4:
        return False
    sa = set(la)

    def rec(i, m):
        if i == len(vb):
            for l in lb:
                l2 = subst(l, m) if m else l
                if l2 is TRUE or l2 in sa:
                    continue
                if any(implies_lit(x, l2) for x in sa):
                    continue
                return False
            return True
        v, src = vb[i]
        src2 = subst(src, m) if m else src
        for w, wsrc in va:
            if wsrc is src2:
                m2 = dict(m)
                m2[v] = w
                if rec(i + 1, m2):
                    return True
        return False

    return rec(0, {})


def implies_lit(a, b):
    if a is b:
        return True
    if a.op == "not" and b.op == "not":
        if a.args[0].op in ("and", "or") or b.args[0].op in ("and", "or"):
            return False
        return implies_atom(b.args[0], a.args[0])
    if a.op != "not" and b.op != "not":
        return implies_atom(a, b)
    if b.op == "not" and a.op != "not":
        return excludes(a, b.args[0])
    return False


# ---------------------------------------------------------------- assume
def lits_of(c):
    """literals that certainly hold when c holds"""
    if c.op == "and":
        return list(c.args)
    if c.op == "or":
        imps = [set(i) for i in implicants(c)]
        common = set.intersection(*imps)
        return list(common)
    if c is TRUE or c is FALSE:
        return []
    return [c]


def assume(t, c):
    """simplify t knowing that c holds"""
    ls = lits_of(c)
    if not ls:
        return t
    m = {}
    for l in ls:
        if l.op == "not":
            if l.args[0] is not t:
                m[l.args[0]] = FALSE
            else:
                return FALSE
        elif l.op == "or":
            continue
        else:
            if l is t:
                return TRUE
            m[l] = TRUE
    if not m:
        return t
    # quick reject
    subs = subterms(t)
    if not any(k in subs for k in m):
        return t
    return replace(t, m)


# ---------------------------------------------------------------- cases
def cases(pairs):
    """decision table: list of (cond, value), mutually exclusive"""
    flat = []
    for c, v in pairs:
        if c is FALSE:
            continue
        if v.op == "cases":
            for c2, v2 in v.args:
                flat.append((and_(c, c2), v2))
        else:
            flat.append((c, v))
    flat = [(c, v) for c, v in flat if c is not FALSE]
    if not flat:
        return mk("undef")
    if len(flat) > 1 and flat[0][1].op in ("list", "dict") and all(v.op == flat[0][1].op for _, v in flat) \
            and flat[0][1].args[0].args:
        # what all alternatives start with does not depend on the choice
        k = 0
        segs = [v.args[0].args for _, v in flat]
        while all(len(x) > k for x in segs) and all(x[k] is segs[0][k] for x in segs):
            k += 1
        if k:
            op = flat[0][1].op
            rest = cases([(c, mk(op, mk("seq", *v.args[0].args[k:]))) for c, v in flat])
            if rest.op == op:
                pre = mk("seq", *segs[0][:k])
                return mk_list(cat(pre, rest.args[0])) if op == "list" else mk_dict(cat(pre, rest.args[0]))
    ls = [v for _, v in flat if v.op == "listset"]
    if ls and len(flat) > 1 and all(v is ls[0].args[0] or v.op == "listset" and v.args[:2] == ls[0].args[:2] for _, v in flat):
        l, i = ls[0].args[:2]
        return mk("listset", l, i, cases([(c, v.args[2] if v.op == "listset" else getitem(l, i)) for c, v in flat]))
    groups: dict = {}
    for c, v in flat:
        if v.op in ("sym", "fv", "attr"):
            if any(l is is_none(v) for l in lits_of(c)):
                v = NONE
        elif v.op not in ("const", "bv"):
            v = assume(v, c)
        groups.setdefault(v, []).append(c)
    if len(groups) == 1:
        return next(iter(groups))
    conds = {v: or_(*cs) for v, cs in groups.items()}
    dom = or_(*conds.values())
    if dom is not TRUE:
        conds = {v: assume(c, dom) for v, c in conds.items()}
    if all(typeof(v) is BOOL for v in conds):
        if dom is TRUE or True:
            return or_(*[and_(c, v) for v, c in conds.items()])
    kinds = {v.op for v in conds}
    if kinds <= {"list"}:
        return mk_list(merge_guarded([(c, v.args[0]) for v, c in conds.items()]))
    if kinds <= {"set"}:
        common = set.intersection(*[set(v.args[0].args) for v in conds])
        return mk_set(cat(mk("seq", *common), *[guard_seq(c, mk("seq", *[x for x in v.args[0].args if x not in common]))
                                                for v, c in conds.items()]))
    if kinds <= {"list", "set", "sym", "attr", "getitem", "fv", "bv", "call", "slice", "sorted"} and all(_is_listty(v) for v in conds) \
            and any(v.op == "list" for v in conds):
        return mk_list(merge_guarded([(c, iter_of(v)) for v, c in conds.items()]))
    if kinds <= {"dict"}:
        return mk_dict(merge_guarded([(c, v.args[0]) for v, c in conds.items()]))
    return _mkcases(conds)


def _order_ok(conds):
    return True


def _is_listty(v):
    t = strip_none(typeof(v))
    return t.args[0] == "list" and not (v.op == "const")


def _mkcases(conds):
    items = sorted(((c, v) for v, c in conds.items()), key=lambda p: (p[1].key, p[0].key))
    items = [(c, v) for c, v in items if c is not FALSE]
    if len(items) == 1:
        return items[0][1]
    for i, (c, x) in enumerate(items):
        for j, (d, y) in enumerate(items):
            if i == j or is_const(x) or is_const(y):
                continue
            for p, q in ((x, y), (y, x)):
                atom = mk("ge", p, q)
                if not (_mentions(c, atom) and _mentions(d, atom)):
                    continue
                # c: x is chosen under A and the comparison; y otherwise under A
                for pol in (TRUE, FALSE):
                    a = replace(c, {atom: pol})
                    if a is FALSE or replace(c, {atom: not_(pol)}) is not FALSE or and_(a, not_(replace(d, {atom: not_(pol)}))) is not FALSE:
                        continue
                    n = "max" if (p is x) == (pol is TRUE) else "min"
                    new = {v: k for k, v in items if v is not x and v is not y}
                    mm = minmax(n, x, y)
                    new[mm] = or_(a, new.get(mm, FALSE))
                    rest = and_(replace(d, {atom: TRUE}), not_(a))
                    if rest is not and_(replace(d, {atom: FALSE}), not_(a)):
                        continue
                    new[y] = rest
                    return _mkcases(new)
    return mk("cases", *items)


def minmax(n, a, b):
    """the smaller / larger of two values"""
    return call(n, (mk("list", cat(*[unit(x) for x in sorted((a, b), key=lambda t: t.key)])), NONE))


_REBUILD["cases"] = lambda *pairs: cases(list(pairs))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return cases([(c, a), (not_(c), b)])


def lift(f, *args, limit=12):
    """apply f to args, lifting `cases` out of the arguments"""
    combos = [(TRUE, ())]
    for a in args:
        if isinstance(a, T) and a.op == "cases":
            new = []
            for c, done in combos:
                for c2, v in a.args:
                    cc = and_(c, c2)
                    if cc is not FALSE:
                        new.append((cc, done + (v,)))
            combos = new
        else:
            combos = [(c, done + (a,)) for c, done in combos]
        if len(combos) > limit:
            return f(*args)
    if len(combos) == 1:
        return f(*combos[0][1])
    return cases([(c, f(*done)) for c, done in combos])


# ---------------------------------------------------------------- sequences
EMPTY = mk("seq")


def unit(e, guard=TRUE):
    if guard is FALSE:
        return EMPTY
    if e.op == "cases":
        return cat(*[unit(v, and_(guard, c)) for c, v in sorted(e.args, key=lambda p: p[1].key)])
    return mk("seq", mk("u", guard, e))


def _mkseq(*segs):
    out = []
    for s in segs:
        if s.op == "seq":
            out.extend(s.args)
        elif s.op == "u":
            if s.args[0] is not FALSE:
                out.append(s)
        else:
            if s.args[1].args[1] is not EMPTY:
                out.append(s)
    # merge adjacent mutually exclusive units in canonical order
    i = 0
    while i + 1 < len(out):
        a, b = out[i], out[i + 1]
        if a.op == "u" and b.op == "u" and a.args[0] is not TRUE and b.args[0] is not TRUE:
            if and_(a.args[0], b.args[0]) is FALSE:
                if a.args[1] is b.args[1]:
                    out[i:i + 2] = [mk("u", or_(a.args[0], b.args[0]), a.args[1])]
                    i = max(i - 1, 0)
                    continue
                ea, eb = a.args[1], b.args[1]
                if ea.op == "ev" and eb.op == "ev" and ea.args[:2] == eb.args[:2] and ea.args[0] == "set":
                    g = or_(a.args[0], b.args[0])
                    out[i:i + 2] = [mk("u", g, ev("set", ea.args[1], assume(cases([(a.args[0], ea.args[2]), (b.args[0], eb.args[2])]), g)))]
                    i = max(i - 1, 0)
                    continue
                if b.args[1].key < a.args[1].key:
                    out[i], out[i + 1] = b, a
                    i = max(i - 1, 0)
                    continue
        if a.op == "u" and b.op == "u" and a.args[0] is b.args[0] and a.args[1].op == "ev" and b.args[1].op == "ev" \
                and a.args[1].args[0] == "ensure" and _ensured_by(a.args[1], b.args[1]):
            out[i:i + 1] = []
            i = max(i - 1, 0)
            continue
        if a.op == "b" and b.op == "b" and a.args[0] is b.args[0]:
            m = _merge_exclusive(a, b)
            if m is not None:
                out[i:i + 2] = [m]
                i = max(i - 1, 0)
                continue
        if (a.op == "b" or b.op == "b") and b.key < a.key:
            ga = seg_guard(a)
            if ga is not TRUE:
                gb = seg_guard(b)
                if gb is not TRUE and and_(ga, gb) is FALSE:
                    out[i], out[i + 1] = b, a
                    i = max(i - 1, 0)
                    continue
        i += 1
    return mk("seq", *out)


_seg_guard: dict = {}


def seg_guard(s):
    """a condition without which the segment contributes nothing (an over-approximation)"""
    if s.op == "u":
        return s.args[0]
    r = _seg_guard.get(s)
    if r is None:
        b, body = s.args[1].args
        if not any(u.op == "u" and u.args[0] is TRUE for u in body.args):
            out = []
            for u in body.args:
                g = seg_guard(u)
                out.append(TRUE if g is TRUE else
                           or_(*[and_(*[l for l in imp if ("b", b.args[0]) not in l.free]) for imp in implicants(g)]))
            r = or_(*out)
        else:
            r = TRUE
        _seg_guard[s] = r
    return r


def _ensured_by(a, b):
    """the event b creates the entry that `ensure` a asks for"""
    p, q = a.args[1], b.args[1]
    if q[:len(p)] != p:
        return False
    if len(q) > len(p):
        return b.args[0] != "del"
    return b.args[0] in ("append", "add", "ensure") and (b.args[0] != "ensure" or a is b)


def _seg_guards(s):
    """list of guards at the leaves (x-free view not attempted)"""
    return [u.args[0] for u in s.args if u.op == "u"]


def _merge_exclusive(a, b):
    """c -> [A(x) for x in s] ++ !c -> [B(x) for x in s]  =  [c?A(x):B(x) for x in s]"""
    v, ba = open_lam(a.args[1], origin=a.args[0])
    bb = instantiate(b.args[1], v)
    if not all(u.op == "u" for u in ba.args + bb.args):
        return None

    if not ba.args or not bb.args:
        return None

    def outer(s):
        """what the guards say independently of the element (an over-approximation)"""
        return or_(*[and_(*[l for l in imp if v.args[0] not in l.free]) for u in s.args for imp in implicants(u.args[0])])

    if and_(outer(ba), outer(bb)) is not FALSE:
        return None
    merged = cat(ba, bb)
    r = mk_b(a.args[0], v, merged)
    return r.args[0] if len(r.args) == 1 else None


def cat(*seqs):
    return _mkseq(*[s for s in seqs])


_REBUILD["seq"] = lambda *segs: cat(*[s if s.op == "seq" else mk("seq", s) for s in segs])


def guard_seq(g, s):
    if g is TRUE:
        return s
    if g is FALSE:
        return EMPTY
    out = []
    for seg in s.args:
        if seg.op == "u":
            gg = and_(g, seg.args[0])
            if gg is not FALSE:
                e = assume(seg.args[1], g) if seg.args[1].op not in ("const", "sym", "fv", "bv") else seg.args[1]
                out.append(unit(e, gg))
        else:
            v, body = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], v, guard_seq(g, body)))
    return cat(*out)


def mk_b(src, v, body):
    """{ body(v) : v <- src }   src is an opaque iterable term"""
    if body is EMPTY:
        return EMPTY
    if src.op == "cases":
        return cat(*[guard_seq(c, bind_val(s, v, body)) for c, s in sorted(src.args, key=lambda p: p[1].key)])
    di = _drop_index(src, v, body)
    if di is not None:
        return bind_val(*di)
    if src.op == "range" and src.args[0] is const(0) and len(src.args) == 2 and src.args[1].op == "len" \
            and v.args[0] not in body.free:
        x = src.args[1].args[0]      # repetition: once per element of x
        return bind_val(x, fv(elem_type(x), origin=x), body)
    at = only_at(src, v, body)
    if at is not None:
        return guard_seq(*at)
    # within the body the source is known to be non-empty
    ne = mk("ex", src, mk("lam", mk("bv", 1, v.args[1]), TRUE))
    if _mentions(body, ne):
        body = replace(body, {ne: TRUE})
    isnone = eq(src, NONE)
    if isnone.op == "eq" and _mentions(body, isnone):
        body = replace(body, {isnone: FALSE})
    if body is EMPTY:
        return EMPTY
    return mk("seq", mk("b", src, lam(v, body)))


def _drop_index(src, v, body):
    """for i, x in enumerate(s) with i unused  ->  for x in s"""
    if src.op not in ("enumerate", "items") or v.args[0] not in body.free:
        return None
    if src.op == "items":
        return None
    g1 = mk("getitem", v, const(1))
    w = fv(elem_type(src.args[0]), origin=src.args[0])
    b2 = replace(body, {g1: w})
    if v.args[0] in b2.free:
        return None
    return src.args[0], w, b2


def _mentions(t, x):
    return x in subterms(t)


def bind_val(val, v, body):
    """bind over a *value* (not necessarily opaque)"""
    return bind(iter_of(val), v, body)


def bind(s, v, body):
    """monadic bind over a sequence: body (seq) with v := each element"""
    if body.op != "seq":
        raise AssertionError(body)
    out = []
    for seg in s.args:
        if seg.op == "u":
            g, e = seg.args
            r = subst(body, {v: e}) if v.args[0] in body.free else body
            out.append(guard_seq(g, r))
        else:
            w, inner = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], w, bind(inner, v, body)))
    return cat(*out)


def _rebuild_b(src, l):
    v, body = open_lam(l, origin=src)
    if src.op in ("list", "set", "tuple", "dict", "tup", "cases", "const"):
        return bind_val(src, v, body)
    return mk_b(src, v, body)


def _rebuild_u(g, e):
    if e.op == "cases" or g is FALSE:
        return unit(e, g)
    return mk("u", g, e)


_REBUILD["b"] = _rebuild_b
_REBUILD["u"] = _rebuild_u


def iter_of(t):
    """sequence obtained by iterating over the value t"""
    if t.op in ("list", "set", "tup"):
        return t.args[0]
    if t.op == "tuple":
        return cat(*[unit(e) for e in t.args])
    if t.op == "dict":
        return dict_keys(t)
    if t.op == "cases":
        return cat(*[guard_seq(c, iter_of(v)) for c, v in sorted(t.args, key=lambda p: p[1].key)])
    if t is NONE:
        return EMPTY
    if t.op == "const" and isinstance(cval(t), (str, bytes)):
        if cval(t) == "":
            return EMPTY
        if isinstance(cval(t), str):
            return cat(*[unit(const(ch)) for ch in cval(t)])
    if t.op == "items":
        d = t.args[0]
        kt, vt = kv_types(typeof(d))
        x = fv(kt, origin=mk("keys", d))
        return mk_b(mk("keys", d), x, unit(mk("tuple", x, getitem(d, x))))
    if t.op == "values":
        d = t.args[0]
        kt, vt = kv_types(typeof(d))
        x = fv(kt, origin=mk("keys", d))
        return mk_b(mk("keys", d), x, unit(getitem(d, x)))
    tt = strip_none(typeof(t))
    if tt.args[0] in ("dict", "defaultdict", "Mapping") and t.op != "keys":
        t = mk("keys", t)
    x = fv(elem_type(t), origin=t)
    return mk_b(t, x, unit(x))


def mk_list(s):
    # eta: [x for x in src] is src itself when src is list typed
    if len(s.args) == 1 and s.args[0].op == "b":
        src, l = s.args[0].args
        body = l.args[1]
        if len(body.args) == 1 and body.args[0].op == "u" and body.args[0].args[0] is TRUE \
                and body.args[0].args[1] is l.args[0]:
            if strip_none(typeof(src)).args[0] == "list":
                return src
    return mk("list", s)


def mk_set(s):
    segs = []
    for seg in _split(s):
        segs.append(seg)
    uniq: dict = {}
    # merge same-element units: or their guards
    units: dict = {}
    others = set()
    for seg in segs:
        if seg.op == "u":
            units.setdefault(seg.args[1], []).append(seg.args[0])
        else:
            others.add(seg)
    out = [mk("u", or_(*gs), e) for e, gs in units.items()] + list(others)
    return mk("set", mk("seq", *sorted(out, key=lambda a: a.key)))


def _split(s):
    """split a (set-like) sequence into single-leaf segments"""
    out = []
    for seg in s.args:
        if seg.op == "u":
            for imp in implicants(seg.args[0]):
                out.append(mk("u", _raw_and(list(imp)), seg.args[1]))
        else:
            v, body = open_lam(seg.args[1], origin=seg.args[0])
            inner = _split(body)
            for i in inner:
                if v.args[0] not in i.free:
                    # element independent of v: guard by non-emptiness
                    g = mk_ex(seg.args[0], v, TRUE)
                    r = guard_seq(g, mk("seq", i))
                    out.extend(r.args)
                elif i.op == "u" and v.args[0] not in i.args[1].free:
                    g = mk_ex(seg.args[0], v, i.args[0])
                    for imp in implicants(g):
                        out.append(mk("u", _raw_and(list(imp)), i.args[1]))
                else:
                    r = mk_b(seg.args[0], v, mk("seq", i))
                    out.extend(r.args)
    return out


def _rb_list(s):
    return mk_list(s)


_REBUILD["list"] = mk_list
_REBUILD["set"] = mk_set


# ------------------------------------------------------------ existentials
def exists(s, v, p):
    """exists v in sequence s. p"""
    if p is FALSE:
        return FALSE
    parts = []
    for seg in s.args:
        if seg.op == "u":
            g, e = seg.args
            q = subst(p, {v: e}) if v.args[0] in p.free else p
            parts.append(and_(g, q))
        else:
            w, inner = open_lam(seg.args[1], origin=seg.args[0])
            parts.append(mk_ex(seg.args[0], w, exists(inner, v, p)))
    return or_(*parts)


def disjuncts(s):
    """the condition under which the sequence s is non-empty, as a list of independent disjuncts"""
    out = []
    for seg in s.args:
        if seg.op == "u":
            out += _split_or(seg.args[0])
        else:
            w, inner = open_lam(seg.args[1], origin=seg.args[0])
            for d in disjuncts(inner):
                out += _split_or(mk_ex(seg.args[0], w, d))
    return out


def _split_or(t, depth=0):
    if t is FALSE:
        return []
    if t.op == "or":
        return [x for a in t.args for x in _split_or(a, depth)]
    if t.op == "and" and depth < 2:
        for a in t.args:
            if a.op == "or" and len(a.args) <= 6:
                rest = [x for x in t.args if x is not a]
                return [y for x in a.args for y in _split_or(and_(*rest, x), depth + 1)]
    return [t]


def anyof(*ds):
    """disjunction of independently stated conditions, kept as a set of minimal disjuncts"""
    flat = []
    for d in ds:
        flat += d.args if d.op == "anyof" else _split_or(d)
    flat = list(dict.fromkeys(x for x in flat if x is not FALSE))
    if any(x is TRUE for x in flat):
        return TRUE
    lits = {d: frozenset(implicants(d)[0]) for d in flat}
    # resolution: A & l, A & !l  ->  A
    for _ in range(4):
        new = {}
        items = list(lits.items())
        for i, (d, a) in enumerate(items):
            for e, b in items[i + 1:]:
                x, y = a - b, b - a
                if len(x) == 1 and len(y) == 1:
                    p, q = next(iter(x)), next(iter(y))
                    if (p.args[0] if p.op == "not" else mk("not", p)) is q:
                        c = a & b
                        t = and_(*c)
                        if t is TRUE:
                            return TRUE
                        if t not in lits:
                            new[t] = frozenset(c)
        if not new:
            break
        lits.update(new)
    keep = []
    for d, a in lits.items():
        for e, b in lits.items():
            if e is not d and _weaker(b, a) and not (_weaker(a, b) and d.key < e.key):
                break
        else:
            keep.append(d)
    if not keep:
        return FALSE
    if len(keep) == 1:
        return keep[0]
    return mk("anyof", *sorted(keep, key=lambda t: t.key))


_REBUILD["anyof"] = anyof


def _weaker(b, a):
    """conjunction of the literals a implies that of b"""
    return all(l in a or any(implies_lit(x, l) for x in a) for l in b)


def forall(s, v, p):
    return not_(exists(s, v, not_(p)))


def nonempty(t):
    v = fv()
    return exists(t if t.op == "seq" else iter_of(t), v, TRUE)


def mk_ex(src, v, body):
    if body is FALSE:
        return FALSE
    if src.op == "distinct":
        return exists(iter_of(src.args[0]), v, body)
    if src.op in ("sorted", "reversed"):
        return exists(iter_of(src.args[0]), v, body)
    if src.op in ("list", "set", "tuple", "dict", "tup", "cases"):
        return exists(iter_of(src), v, body)
    if src.op == "seq":
        return exists(src, v, body)
    if src.op == "enumerate":
        if v.args[0] not in body.free:
            return exists(iter_of(src.args[0]), v, body)
        di = _drop_index(src, v, body)
        if di is not None:
            return exists(iter_of(di[0]), di[1], di[2])
    if not is_dnf(body):
        body2 = body
        imps = [(body2,)] if body.op != "or" else [(x,) if x.op != "and" else x.args for x in body.args]
    else:
        imps = implicants(body)
    out = []
    vid = v.args[0]
    for imp in imps:
        free = [l for l in imp if vid not in l.free]
        dep = [l for l in imp if vid in l.free]
        # one-point rule
        done = False
        for l in dep:
            if l.op == "eq":
                x, y = l.args
                if x is v and vid not in y.free:
                    e = y
                elif y is v and vid not in x.free:
                    e = x
                else:
                    continue
                rest = [subst(q, {v: e}) for q in dep if q is not l]
                if not rest:
                    break
                w = fv(v.args[1], origin=src)
                out.append(and_(*free, *rest, _ex_atom(src, w, [eq(w, e)])))
                done = True
                break
        if done:
            continue
        if not dep:
            out.append(and_(*free, _ex_atom(src, v, [])))
        else:
            out.append(and_(*free, _ex_atom(src, v, dep)))
    return or_(*out)


def _ex_atom(src, v, dep):
    vid = v.args[0]
    body = and_(*dep)
    if body is FALSE:
        return FALSE
    # membership of something drawn from src itself
    if dep:
        for f in body.free:
            if not isinstance(f, tuple) and f != vid and ORIGIN.get(f) is src:
                w = mk("fv", f, v.args[1]) if (("fv", (f, v.args[1])) in _intern) else None
                if w is not None and subst(body, {v: w}) is TRUE:
                    return TRUE
    # flatten + permute independent quantifiers
    blocks = [(v, src)]
    lits = []

    def flat(ls):
        for l in ls:
            if l.op == "ex" and vid in l.free:
                vs2, l2 = _open_ex(l)
                blocks.append(vs2)
                flat(l2)
            else:
                lits.append(l)

    flat(dep if body.op == "or" else [x for i in [implicants(body)[0] if len(implicants(body)) == 1 else (body,)] for x in i])
    if len(blocks) == 1:
        if body.op == "or":
            return mk("ex", src, lam(v, body))
        cl = _congruence(lits, {vid: 0})
        if cl is not None:
            if cl is FALSE:
                return FALSE
            inn = [l for l in cl if vid in l.free]
            return and_(*[l for l in cl if vid not in l.free], mk("ex", src, lam(v, _raw_and(_dedup(inn)) if inn else TRUE)))
        return mk("ex", src, lam(v, _raw_and(lits) if lits else TRUE))
    if len(blocks) > 4:
        return mk("ex", src, lam(v, body))
    best = None
    for perm in itertools.permutations(blocks):
        ok = True
        seen = set()
        allv = {b[0].args[0] for b in blocks}
        for (w, s) in perm:
            if (s.free & allv) - seen:
                ok = False
                break
            seen.add(w.args[0])
        if not ok:
            continue
        cur = _congruence(lits, {w.args[0]: i for i, (w, _) in enumerate(perm)})
        if cur is FALSE:
            return FALSE
        if cur is None:
            cur = list(lits)
        for (w, s) in reversed(perm):
            inn = [l for l in cur if w.args[0] in l.free]
            cur = [l for l in cur if w.args[0] not in l.free]
            cur.append(mk("ex", s, lam(w, _raw_and(_dedup(inn)))))
        t = _raw_and(_dedup(cur))
        if best is None or (t.size, t.key) < (best.size, best.key):
            best = t
    return best


def _congruence(lits, level):
    """replace equals by equals inside a conjunction: every class of equal terms is named by its outermost member.
    `level` orders the variables bound by the block.  None: nothing to do"""
    eqs = [l for l in lits if l.op == "eq" and l.args[0].op != "const" and l.args[1].op != "const"
           and typeof(l.args[0]) is typeof(l.args[1]) and typeof(l.args[0]) in (STR, INT)]
    if not eqs or len(lits) < 2:
        return None
    parent: dict = {}

    def find(t):
        while parent.get(t, t) is not t:
            t = parent[t]
        return t

    for l in eqs:
        x, y = l.args
        parent.setdefault(x, x)
        parent.setdefault(y, y)
        parent[find(x)] = find(y)
    classes: dict = {}
    for t in parent:
        classes.setdefault(find(t), []).append(t)

    def rank(t):
        return (max((level.get(f, -1) for f in t.free), default=-1), t.size, t.key)

    m = {}
    new = []
    for members in classes.values():
        rep = min(members, key=rank)
        for t in members:
            if t is not rep:
                m[t] = rep
                new.append(eq(rep, t))
    drop = set(eqs)
    for l in lits:
        if l in drop:
            continue
        r = replace(l, m)
        if r is FALSE:
            return FALSE
        if r is not TRUE:
            new += list(r.args) if r.op == "and" else [r]
    return new


def _dedup(l):
    return list(dict.fromkeys(l))


def _open_ex(l):
    v, body = open_lam(l.args[1], origin=l.args[0])
    if body.op == "or":
        return (v, l.args[0]), [body]
    imps = implicants(body)
    return (v, l.args[0]), list(imps[0])


def _rebuild_ex(src, l):
    v, body = open_lam(l, origin=src)
    if src.op in ("items", "values"):
        return exists(iter_of(src), v, body)
    if src.op == "const":
        return exists(iter_of(src), v, body)
    return mk_ex(src, v, body)


_REBUILD["ex"] = _rebuild_ex


def member(x, cont):
    """x in cont"""
    if cont.op == "cases":
        return or_(*[and_(c, member(x, v)) for c, v in cont.args])
    if x.op == "cases":
        return or_(*[and_(c, member(v, cont)) for c, v in x.args])
    tt = strip_none(typeof(cont))
    if tt is STR or (cont.op == "const" and isinstance(cval(cont), str)):
        if is_const(x) and is_const(cont):
            return const(cval(x) in cval(cont))
        return mk("substr", x, cont)
    v = fv(elem_type(cont))
    s = iter_of(cont)
    return exists(s, v, eq(v, x))


# ---------------------------------------------------------------- equality
DATACLASS_EQ: dict = {}   # class qualname -> tuple of field names


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "cases" or b.op == "cases":
        return lift(eq, a, b)
    if a.op == "const" and b.op == "const":
        return const(a.args[1] == b.args[1])
    if a is NONE or b is NONE:
        x = b if a is NONE else a
        if never_none(x):
            return FALSE
        return mk("eq", *sorted((NONE, x), key=lambda t: t.key))
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        x, c = (b, a) if a in (TRUE, FALSE) else (a, b)
        if typeof(x) is BOOL:
            return x if c is TRUE else not_(x)
        if typeof(x).args[0] in ("list", "dict", "set", "frozenset", "tuple", "str", "bytes"):
            return FALSE
    if a.op == "tuple" and b.op == "tuple":
        if len(a.args) != len(b.args):
            return FALSE
        return and_(*[eq(x, y) for x, y in zip(a.args, b.args)])
    if a.op == "hash" and b.op == "hash":
        return eq(a.args[0], b.args[0])
    if a.op in ("cls", "type") and b.op == a.op:
        return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == "cls" and (is_const(y) or strip_none(typeof(y)).args[0] in
                              ("str", "int", "bool", "bytes", "list", "set", "dict", "tuple", "frozenset")):
            return FALSE
        if x.op in ("list", "set", "tup") and x.args[0] is EMPTY:
            if strip_none(typeof(y)).args[0] in ("list", "set", "tuple", "frozenset") and not is_nullable(typeof(y)):
                return not_(nonempty(y))
        if x.op == "tuple" and not x.args and y.op == "tup":
            return not_(nonempty(y))
        if x.op == "const" and x.args[1] == 0 and x.args[0] == "int" and y.op == "len":
            return not_(nonempty(y.args[0]))
        if x.op == "const" and x.args[0] == "int" and y.op == "len":
            z = y.args[0]
            if z.op == "call" and z.args[0] in ("m:split", "m:rsplit") and not z.args[2] and len(z.args[1]) == 3 and z.args[1][2] is const(1):
                hit = mk("substr", z.args[1][1], z.args[1][0])
                return hit if x.args[1] == 2 else not_(hit) if x.args[1] == 1 else FALSE
        if x is EMPTY_STR and typeof(y) is STR:
            return not_(mk("truthy", y))
    ta, tb = typeof(a), typeof(b)
    if ta is BOOL and tb is BOOL:
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if ta is tb and ta.args[0] in DATACLASS_EQ and (a.op != "enum"):
        return and_(*[eq(attr(a, f), attr(b, f)) for f in DATACLASS_EQ[ta.args[0]]])
    if a.op == "enum" and b.op == "enum":
        return FALSE
    return mk("eq", *sorted((a, b), key=lambda t: t.key))


_REBUILD["eq"] = eq


def never_none(t):
    if t.op in ("list", "set", "dict", "tuple", "tup", "lam", "fstr", "new", "sorted", "len",
                "cls", "ref", "clo", "hash", "join", "keys", "items", "values", "seq", "enum", "obj"):
        return True
    if t.op == "const":
        return t is not NONE
    if boolean(t) or t.op in ("ex", "eq", "ge", "substr", "truthy", "isa"):
        return True
    if t.op == "call" and t.args[0] == "enter" and t.args[1][0].op == "call" and t.args[1][0].args[0] in (
            "build.env.DefaultIsolatedEnv", "tempfile.TemporaryDirectory", "zipfile.ZipFile"):
        return True
    if t.op == "undef":
        return False
    typ = typeof(t)
    return not is_nullable(typ)


def is_none(t):
    return eq(t, NONE)


def truthy(t):
    if t.op == "cases":
        return or_(*[and_(c, truthy(v)) for c, v in t.args])
    if t.op == "const":
        return const(bool(cval(t)))
    typ = typeof(t)
    if typ is BOOL:
        return t
    if t.op in ("list", "set", "dict", "tup"):
        return nonempty(t)
    if t.op == "tuple":
        return const(bool(t.args))
    st = strip_none(typ)
    nn = TRUE if never_none(t) else not_(is_none(t))
    n = st.args[0]
    if n in ("list", "set", "dict", "defaultdict", "tuple", "frozenset", "Mapping", "Collection", "Sequence"):
        return and_(nn, nonempty(t))
    if n == "int":
        if t.op == "len":
            return nonempty(t.args[0])
        return and_(nn, not_(eq(t, const(0))))
    if n == "str" or n == "bytes":
        return and_(nn, mk("truthy", t))
    if n == "bool":
        return eq(t, TRUE)
    if t.op in ("new", "cls", "ref", "clo", "lam", "obj", "enum"):
        return TRUE
    if n not in ("Any", "Union") and not is_nullable(typ) and n in KNOWN_TRUTHY:
        return TRUE
    if n in KNOWN_TRUTHY:
        return nn
    return mk("truthy", t)


KNOWN_TRUTHY: set = {"re.Match", "Path", "re.Pattern"}


def _rb_truthy(t):
    return truthy(t)


_REBUILD["truthy"] = _rb_truthy


def ge(a, b):
    """a >= b"""
    if a.op == "cases" or b.op == "cases":
        return lift(ge, a, b)
    if is_const(a) and is_const(b):
        try:
            return const(a.args[1] >= b.args[1])
        except TypeError:
            pass
    if a.op == "len" and is_const(b) and b.args[0] == "int":
        if b.args[1] <= 0:
            return TRUE
        if b.args[1] == 1:
            return nonempty(a.args[0])
    if b.op == "len" and is_const(a) and a.args[0] == "int":
        # a >= len(x)  <=>  not (len(x) >= a+1)
        return not_(ge(b, const(a.args[1] + 1)))
    if is_const(a) and a.args[0] == "int" and typeof(b) is INT:
        return not_(ge(b, const(a.args[1] + 1)))
    if typeof(a) is INT and typeof(b) is INT and b.key < a.key and not is_const(b):
        pass
    return mk("ge", a, b)


def lt(a, b):
    return not_(ge(a, b))


_REBUILD["ge"] = ge


def length(t):
    if t.op == "cases":
        return lift(length, t)
    if t.op == "tuple":
        return const(len(t.args))
    if t.op == "const" and isinstance(cval(t), (str, bytes)):
        return const(len(cval(t)))
    if t.op in ("list", "tup"):
        s = t.args[0]
        if all(seg.op == "u" and seg.args[0] is TRUE for seg in s.args):
            return const(len(s.args))
        # the elements do not matter
        if t.op == "list":
            return mk("len", mk("list", _count_form(s)))
    if t.op == "set" and all(seg.op == "u" and seg.args[0] is TRUE and is_const(seg.args[1]) for seg in t.args[0].args):
        return const(len(t.args[0].args))
    if t.op in ("sorted", "reversed"):
        return length(t.args[0])
    return mk("len", t)


def _count_form(s):
    """replace elements by a dummy: only the number of elements matters"""
    out = []
    for seg in s.args:
        if seg.op == "u":
            out.append(mk("u", seg.args[0], const(0)))
        else:
            v, b = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk("b", seg.args[0], lam(v, _count_form(b))))
    return mk("seq", *out)


def _rb_len(t):
    if t.op == "list":
        return length(t)
    return length(t)


_REBUILD["len"] = _rb_len


# ---------------------------------------------------------------- attributes
ATTR_TYPE = None   # callback(type T, name) -> type T or None
TYPE_CB = None


def attr(o, name):
    if o.op == "cases":
        return lift(lambda x: attr(x, name), o)
    if o.op == "new":
        for f, v in o.args[1]:
            if f == name:
                return v
    return mk("attr", o, name)


_REBUILD["attr"] = attr


def getitem(o, k):
    if o.op == "cases" or k.op == "cases":
        return lift(getitem, o, k)
    if o.op == "tuple" and is_const(k) and isinstance(cval(k), int):
        if -len(o.args) <= cval(k) < len(o.args):
            return o.args[cval(k)]
    if o.op == "dict":
        return dict_lookup(o, k)
    if o.op in ("list", "tup") and is_const(k) and isinstance(cval(k), int):
        s = o.args[0]
        i = cval(k)
        if i >= 0 and _units(s.args[:i + 1], i + 1):
            return s.args[i].args[1]
        if i < 0 and _units(s.args[len(s.args) + i:] if len(s.args) >= -i else (), -i):
            return s.args[i].args[1]
        if i == -1:
            n = _tail(s.args)
            if n:
                return _last_of(s.args, n)
        if cval(k) == 0:
            return first(s)
    return mk("getitem", o, k)


_REBUILD["getitem"] = getitem


def _tail(segs):
    """number of trailing guarded units of which at least one is certainly there (0: unknown)"""
    cover = FALSE
    for n in range(1, min(len(segs), 10) + 1):
        x = segs[-n]
        if x.op != "u":
            return 0
        cover = or_(cover, x.args[0])
        if cover is TRUE:
            return n
    return 0


def _last_of(segs, n):
    """the last element that is there"""
    out, later = [], FALSE
    for x in reversed(segs[-n:]):
        out.append((and_(x.args[0], not_(later)), x.args[1]))
        later = or_(later, x.args[0])
    return cases(out)


def _drop_last(segs, n):
    out, later = [], FALSE
    for x in reversed(segs[-n:]):
        out.append(unit(x.args[1], and_(x.args[0], later)))
        later = or_(later, x.args[0])
    return cat(mk("seq", *segs[:-n]), *reversed(out))


def _units(segs, n):
    """n elements that are certainly there, one each"""
    return len(segs) == n and all(x.op == "u" and x.args[0] is TRUE for x in segs)


def mk_slice(o, lo, hi, step):
    """o[lo:hi:step]; known elements at the ends are dropped"""
    if o.op == "cases":
        return lift(lambda x: mk_slice(x, lo, hi, step), o)
    if lo is const(0):
        lo = NONE
    if lo is NONE and hi is NONE and step is NONE and strip_none(typeof(o)).args[0] == "list":
        return mk_list(iter_of(o))
    if o.op in ("list", "tup") and all(is_const(x) for x in (lo, hi, step)) and step is NONE:
        a, b = cval(lo) or 0, cval(hi)
        segs = o.args[0].args
        if _units(segs, len(segs)):
            return mk(o.op, mk("seq", *segs[a:b])) if o.op == "list" else mk("tup", mk("seq", *segs[a:b]))
        if a >= 0 and b is None and _units(segs[:a], a):
            return mk_list(mk("seq", *segs[a:]))
        if a == 0 and b == -1 and _tail(segs):
            return mk_list(_drop_last(segs, _tail(segs)))
        if a == 0 and b is not None and b < 0 and len(segs) >= -b and _units(segs[b:], -b):
            return mk_list(mk("seq", *segs[:b]))
    return mk("slice", o, lo, hi, step)


_REBUILD["slice"] = mk_slice


def first(s):
    """first element of a sequence known to be non-empty"""
    if s.args and s.args[0].op == "u":
        g, e = s.args[0].args
        if g is TRUE:
            return e
        rest = mk("seq", *s.args[1:])
        if rest is EMPTY:
            return e
        return ite(g, e, first(rest))
    if len(s.args) > 1 and s.args[0].op == "b":
        head = mk("seq", s.args[0])
        return ite(nonempty(head), first(head), first(mk("seq", *s.args[1:])))
    e = sole(s)
    return mk("first", s) if e is None else e


def sole(s):
    """the one value all elements of the sequence have"""
    els = set()

    def leaves(q):
        for seg in q.args:
            if seg.op == "u":
                els.add(seg.args[1])
            else:
                leaves(seg.args[1].args[1])

    leaves(s)
    if len(els) == 1:
        e = next(iter(els))
        if not any(isinstance(f, tuple) for f in e.free):
            return e
    return None


_REBUILD["first"] = first


def last(s):
    if s.args and s.args[-1].op == "u":
        g, e = s.args[-1].args
        if g is TRUE:
            return e
        rest = mk("seq", *s.args[:-1])
        if rest is EMPTY:
            return e
        return ite(g, e, last(rest))
    if len(s.args) > 1 and s.args[-1].op == "b":
        tail = mk("seq", s.args[-1])
        return ite(nonempty(tail), last(tail), last(mk("seq", *s.args[:-1])))
    e = sole(s)
    return mk("last", s) if e is None else e


_REBUILD["last"] = last


# ---------------------------------------------------------------- dicts
# a dict value is ("dict", seq of events); event = ev(kind, path, value)
def ev(kind, path, value=NONE):
    return mk("ev", kind, tuple(path), value)


def mk_dict(s):
    segs = list(s.args)
    # constant keys: one event per key, where the key was first set
    if _fixed_keys(segs):
        out: dict = {}
        ok = True
        for x in segs:
            k = x.args[1].args[1][0]
            if k in out:
                # overwritten: last wins if unconditional
                if x.args[0] is TRUE:
                    out[k] = x
                else:
                    old = out[k]
                    g = x.args[0]
                    val = ite(g, x.args[1].args[2], old.args[1].args[2])
                    og = or_(g, old.args[0])
                    u = unit(ev("set", (k,), val), og)
                    out[k] = mk("u", og, ev("set", (k,), val))
            else:
                out[k] = x
        if ok:
            segs = list(out.values())
    return mk("dict", mk("seq", *segs))


def _fixed_keys(segs):
    return segs and all(x.op == "u" and x.args[1].op == "ev" and x.args[1].args[0] == "set"
                        and len(x.args[1].args[1]) == 1 and _constlike(x.args[1].args[1][0]) for x in segs)


def unordered_dict(d):
    """as a mapping: the order of constant keys is irrelevant"""
    segs = d.args[0].args
    if not _fixed_keys(segs):
        return d
    return mk("dict", mk("seq", *sorted(segs, key=lambda x: x.args[1].args[1][0].key)))


_REBUILD["dict"] = mk_dict


def _constlike(k):
    return k.op in ("const", "enum") or (k.op == "tuple" and all(_constlike(a) for a in k.args))


def _rb_ev(kind, path, value):
    return mk("ev", kind, path, value)


_REBUILD["ev"] = _rb_ev


def merge_guarded(parts):
    """merge event logs of exclusive branches sharing a common prefix"""
    seqs = [(c, list(s.args)) for c, s in parts]
    prefix = []
    while all(s for _, s in seqs) and all(s[0] is seqs[0][1][0] for _, s in seqs):
        prefix.append(seqs[0][1][0])
        for _, s in seqs:
            s.pop(0)
    tail = cat(*[guard_seq(c, mk("seq", *s)) for c, s in sorted(seqs, key=lambda p: p[0].key)])
    return cat(mk("seq", *prefix), tail)


def ensure_form(segs):
    """`if k not in d: d[k] = x`  is  ensure(k):=x"""
    out = list(segs)
    hit = False
    for i, x in enumerate(out):
        if x.op == "u" and x.args[0] is not TRUE and x.args[1].op == "ev" and x.args[1].args[0] == "set" and len(x.args[1].args[1]) == 1:
            g, e = x.args
            there = dict_contains(mk("dict", mk("seq", *out[:i])), e.args[1][0])
            if there.op != "ex" or not _mentions(g, there):
                continue
            if replace(g, {there: TRUE}) is FALSE:
                out[i] = mk("u", replace(g, {there: FALSE}), ev("ensure", e.args[1], e.args[2]))
                hit = True
    return list(cat(mk("seq", *out)).args) if hit else segs


def only_at(src, v, body):
    """a body over distinct elements that does something for one element only: (condition, body for it)"""
    if not unique_src(src) or v.args[0] not in body.free:
        return None
    keys = None
    vid = v.args[0]

    def guards(s):
        for seg in s.args:
            if seg.op == "u":
                yield seg.args[0]
            else:
                yield from guards(seg.args[1].args[1])

    def needed(g):
        """values v must equal for g to hold"""
        if g.op == "eq" and v in g.args:
            y = g.args[0] if g.args[1] is v else g.args[1]
            if vid not in y.free and not any(isinstance(f, tuple) for f in y.free):
                return {y}
        elif g.op == "and":
            return set().union(*map(needed, g.args))
        elif g.op == "or":
            return set.intersection(*map(needed, g.args))
        return set()

    for g in guards(body):
        here = needed(g)
        keys = here if keys is None else keys & here
        if not keys:
            return None
    if not keys:
        return None
    k = min(keys, key=lambda t: (t.size, t.key))
    return mk_ex(src, v, eq(v, k)), subst(body, {v: k})


def dict_keys(d):
    """iteration over the keys of a built dict"""
    s = d.args[0]
    if all(x.op == "u" and x.args[0] is TRUE and x.args[1].op == "ev" and _constlike(x.args[1].args[1][0]) for x in s.args):
        ks = dict.fromkeys(x.args[1].args[1][0] for x in s.args)
        return cat(*[unit(k) for k in ks])
    e = fv()
    ks = map_events(s, lambda evt: evt.args[1][0])
    if unique_elems(ks):
        return ks
    t = mk("distinct", mk("list", ks))
    x = fv(ANY, origin=t)
    return mk_b(t, x, unit(x))


def _rb_distinct(t):
    s = iter_of(t)
    if unique_elems(s):
        return mk_list(s)
    return mk("distinct", t)


_REBUILD["distinct"] = _rb_distinct


def unique_elems(s):
    """elements of the sequence are known to be pairwise distinct"""
    if not s.args:
        return True
    if len(s.args) != 1:
        return False
    seg = s.args[0]
    if seg.op == "u":
        return True
    src, l = seg.args
    body = l.args[1]
    if len(body.args) != 1 or body.args[0].op != "u":
        return False
    return body.args[0].args[1] is l.args[0] and unique_src(src)


def unique_src(src):
    if src.op in ("keys", "distinct", "set", "distinctby"):
        return True
    if src.op == "sorted":
        return unique_src(src.args[0])
    return strip_none(typeof(src)).args[0] in ("set", "frozenset")


def map_events(s, f):
    out = []
    for seg in s.args:
        if seg.op == "u":
            e = seg.args[1]
            if e.op == "ev":
                out.append(unit(f(e), seg.args[0]))
            else:
                out.append(unit(mk("evkey", e), seg.args[0]))
        else:
            v, b = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], v, map_events(b, f)))
    return cat(*out)


def dict_contains(d, k):
    if d.op != "dict":
        return member(k, d)
    v = fv()
    ks = map_events(d.args[0], lambda e: e.args[1][0])
    return exists(ks, v, eq(v, k))


def map_leaves(s, f):
    """apply f to every element of a sequence"""
    out = []
    for seg in s.args:
        if seg.op == "u":
            out.append(unit(f(seg.args[1]), seg.args[0]))
        else:
            v, b = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], v, map_leaves(b, f)))
    return cat(*out)


def ev_kinds(s, acc=None):
    acc = set() if acc is None else acc
    for seg in s.args:
        if seg.op == "u":
            if seg.args[1].op == "ev":
                acc.add((seg.args[1].args[0], len(seg.args[1].args[1])))
            else:
                acc.add(("?", 0))
        else:
            ev_kinds(seg.args[1].args[1], acc)
    return acc


def _default_for(kinds):
    return None


def dict_lookup(d, k):
    """value stored under k (assumed present)"""
    s = d.args[0]
    kinds = ev_kinds(s)
    if not kinds:
        return mk("getitem", d, k)
    if all(kd == "set" and n == 1 for kd, n in kinds):
        # literal keys
        flat = []
        static = True
        for seg in s.args:
            if seg.op == "u":
                e = seg.args[1]
                flat.append((and_(seg.args[0], eq(e.args[1][0], k)), e.args[2]))
            else:
                static = False
        if static:
            # later wins
            pairs = []
            rest = TRUE
            for c, v in reversed(flat):
                pairs.append((and_(rest, c), v))
                rest = and_(rest, not_(c))
            pairs = [(c, v) for c, v in pairs if c is not FALSE]
            if not pairs:
                return mk("getitem", d, k)
            return cases(pairs)
        if len(s.args) == 1 and s.args[0].op == "b":
            src, l = s.args[0].args
            v, body = open_lam(l, origin=src)
            if len(body.args) == 1 and body.args[0].op == "u":
                g, e = body.args[0].args
                if e.args[1][0] is v:
                    # { x: f(x) for x in src }[k]  =  f(k)
                    return subst(e.args[2], {v: k})
                # key is an injective-looking function of v: last match
        m = lookup_seq(s, k)
        if m is None:
            return mk("getitem", d, k)
        return last(m)
    if all(kd in ("append", "add", "ensure", "extend", "set") for kd, n in kinds) and all(n == 1 for kd, n in kinds) \
            and (("set", 1) not in kinds or _set_first(s)):
        m = lookup_seq(s, k, True)
        if m is None:
            return mk("getitem", d, k)
        if any(kd == "add" for kd, _ in kinds) or all(kd == "ensure" for kd, _ in kinds) and "set" in {x for x, _ in kinds}:
            return mk_set(m)
        return mk_list(m)
    if all(n >= 2 or kd == "ensure" for kd, n in kinds):
        # nested dict: strip the first path element
        return mk_dict(sub_events(s, k))
    return mk("getitem", d, k)


def _set_first(s):
    """lists stored once per key at the beginning of the log, extended afterwards"""
    a = s.args[0]
    if a.op == "b" and unique_src(a.args[0]):
        u = a.args[1].args[1].args
        if not (len(u) == 1 and u[0].op == "u" and u[0].args[1].op == "ev" and u[0].args[1].args[1] == (a.args[1].args[0],)):
            return False
        e = u[0].args[1]
    elif a.op == "u" and a.args[0] is TRUE and a.args[1].op == "ev":
        e = a.args[1]
    else:
        return False
    return e.args[0] == "set" and strip_none(typeof(e.args[2])).args[0] == "list" and ("set", 1) not in ev_kinds(mk("seq", *s.args[1:]))


def sub_events(s, k):
    out = []
    for seg in s.args:
        if seg.op == "u":
            e = seg.args[1]
            kind, path, val = e.args
            if len(path) >= 2:
                out.append(unit(ev(kind, path[1:], val), and_(seg.args[0], eq(path[0], k))))
        else:
            v, b = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], v, sub_events(b, k)))
    return cat(*out)


def lookup_seq(s, k, listy=False, before=FALSE):
    """elements of the list stored under k (None: no closed form); `before`: the entry is already there"""
    out = []
    for seg in s.args:
        if seg.op == "u":
            e = seg.args[1]
            kind, path, val = e.args
            hit = eq(path[0], k)
            g = and_(seg.args[0], hit)
            if kind == "ensure":
                if val.op not in ("list", "set") or val.args[0] is not EMPTY:
                    if before is None or strip_none(typeof(val)).args[0] != "list":
                        return None
                    out.append(guard_seq(and_(g, not_(before)), iter_of(val)))
            elif kind == "extend":
                out.append(guard_seq(g, val))
            elif kind == "set" and strip_none(typeof(val)).args[0] == "list" and listy:
                out.append(guard_seq(g, iter_of(val)))
            else:
                out.append(unit(val, g))
            if before is not None:
                before = or_(before, g)
        else:
            v, b = open_lam(seg.args[1], origin=seg.args[0])
            own = unique_src(seg.args[0]) and all(x.op == "u" and x.args[1].op == "ev" and x.args[1].args[1][0] is v for x in b.args)
            inner = lookup_seq(b, k, listy, before if own else None)
            if inner is None:
                return None
            out.append(mk_b(seg.args[0], v, inner))
            if before is not None:
                before = or_(before, dict_contains(mk("dict", mk("seq", seg)), k))
    return cat(*out)


def dict_items(d):
    if d.op == "dict":
        ks = dict_keys(d)
        x = fv()
        s = d.args[0]
        # {f(x): g(x) for x in src} with provably unique keys -> iterate pairs directly
        if all(seg.op == "u" and seg.args[0] is TRUE and _constlike(seg.args[1].args[1][0]) and seg.args[1].args[0] == "set"
               and len(seg.args[1].args[1]) == 1 for seg in s.args):
            return cat(*[unit(mk("tuple", seg.args[1].args[1][0], seg.args[1].args[2])) for seg in s.args])
        if all(kd == "set" and n == 1 for kd, n in ev_kinds(s)) and unique_elems(map_events(s, lambda e: e.args[1][0])):
            return map_events(s, lambda e: mk("tuple", e.args[1][0], e.args[2]))
        return bind(ks, x, unit(mk("tuple", x, getitem(d, x))))
    return iter_of(mk("items", d))


def dict_values(d):
    if d.op == "dict":
        x = fv()
        it = dict_items(d)
        return bind(it, x, unit(getitem(x, const(1))))
    return iter_of(mk("values", d))


# ---------------------------------------------------------------- strings
def fstr(*parts):
    combos = [p for p in parts if p.op == "cases"]
    if combos:
        return lift(fstr, *parts)
    out = []
    for p in parts:
        if p.op == "fstr":
            out.extend(p.args)
        elif p.op == "const" and isinstance(cval(p), str):
            if cval(p) == "":
                continue
            out.append(p)
        else:
            out.append(p)
    res = []
    for p in out:
        if res and res[-1].op == "const" and p.op == "const" and isinstance(cval(res[-1]), str) and isinstance(cval(p), str):
            res[-1] = const(cval(res[-1]) + cval(p))
        else:
            res.append(p)
    if not res:
        return EMPTY_STR
    if len(res) == 1 and (res[0].op == "const" or typeof(res[0]) is STR):
        return res[0]
    return mk("fstr", *res)


_REBUILD["fstr"] = fstr


def join(sep, s):
    """sep.join(sequence)"""
    if is_const(sep) and all(seg.op == "u" and seg.args[0] is TRUE for seg in s.args):
        parts = []
        for i, seg in enumerate(s.args):
            if i:
                parts.append(sep)
            parts.append(seg.args[1])
        return fstr(*parts)
    if sep is EMPTY_STR:
        return mk("join", sep, _split_units(s))
    return mk("join", sep, s)


def _split_units(s):
    out = []
    for seg in s.args:
        if seg.op == "u":
            e = seg.args[1]
            if e.op == "fstr":
                for p in e.args:
                    out.append(unit(p, seg.args[0]))
            elif e.op == "join" and e.args[0] is EMPTY_STR:
                out.append(guard_seq(seg.args[0], e.args[1]))
            else:
                out.append(mk("seq", seg))
        else:
            v, b = open_lam(seg.args[1], origin=seg.args[0])
            out.append(mk_b(seg.args[0], v, _split_units(b)))
    return cat(*out)


_REBUILD["join"] = join


# ---------------------------------------------------------------- calls
CALL_SIMPLIFY: dict = {}
CALL_TYPE: dict = {
    # a TOML document: tables of tables
    "m:read": lambda t: ty("dict", STR, ty("dict", STR, ty("dict", STR, ANY)))
    if len(t.args[1]) == 1 and t.args[1][0].op == "call" and t.args[1][0].args[0] == "tomlkit.toml_file.TOMLFile" else None,
}


def call(name, args=(), kwargs=()):
    """pure application of an external / opaque function"""
    kw = tuple(sorted(kwargs)) if kwargs else ()
    combos = [a for a in args if a.op == "cases"] + [v for _, v in kw if v.op == "cases"]
    if combos:
        n = len(args)
        names = [k for k, _ in kw]

        def f(*xs):
            return call(name, tuple(xs[:n]), tuple(zip(names, xs[n:])))

        r = lift(f, *args, *[v for _, v in kw])
        if r.op != "call":
            return r
    h = CALL_SIMPLIFY.get(name)
    if h is not None:
        r = h(args, dict(kw))
        if r is not None:
            return r
    return mk("call", name, tuple(args), kw)


_REBUILD["call"] = lambda name, args, kw: (mk("call", name, args, kw) if any(
    a.op == "cases" for a in args) else call(name, args, kw))


def tuple_(*xs):
    return mk("tuple", *xs)


# ---------------------------------------------------------------- typeof
def elem_type(t):
    typ = strip_none(typeof(t))
    n = typ.args[0]
    if n in ("list", "set", "frozenset", "Iterable", "Collection", "Generator", "Sequence", "Iterator") and len(typ.args) > 1:
        return typ.args[1]
    if n in ("dict", "defaultdict", "Mapping") and len(typ.args) > 1:
        return typ.args[1]
    if n == "str":
        return STR
    if n == "tuple" and len(typ.args) == 2:
        return typ.args[1]
    return ANY


def kv_types(typ):
    typ = strip_none(typ)
    if typ.args[0] in ("dict", "defaultdict", "Mapping") and len(typ.args) > 2:
        return typ.args[1], typ.args[2]
    return ANY, ANY


_ty_cache: dict = {}


def typeof(t):
    r = _ty_cache.get(t)
    if r is None:
        r = _typeof(t)
        _ty_cache[t] = r
    return r


def _typeof(t):
    op = t.op
    if op == "const":
        n = t.args[0]
        return NONE_T if n == "NoneType" else ty(n)
    if op in ("sym", "fv", "bv"):
        return t.args[1]
    if op == "ref" and t.args[1].args[0] not in ("list", "set", "dict"):
        return t.args[1]
    if op in ("and", "or", "not", "eq", "ex", "ge", "substr", "truthy", "isa", "hasdup", "earlier", "is", "raises", "subset", "hasattr"):
        return BOOL
    if op == "cases":
        ts = list(dict.fromkeys(typeof(v) for _, v in t.args))
        if len(ts) == 1:
            return ts[0]
        nn = [x for x in ts if x is not NONE_T]
        if len(nn) == 1:
            return optional(nn[0])
        bases = {strip_none(x).args[0] for x in nn}
        if len(bases) == 1:
            best = max((strip_none(x) for x in nn), key=lambda x: x.size)
            return optional(best) if NONE_T in ts or any(is_nullable(x) for x in ts) else best
        return ANY
    if op == "list":
        return ty("list", _seq_elem(t.args[0]))
    if op == "set":
        return ty("set", _seq_elem(t.args[0]))
    if op == "tup":
        return ty("tuple", _seq_elem(t.args[0]))
    if op == "tuple":
        return ty("tuple", *[typeof(a) for a in t.args]) if len(t.args) != 1 else ty("tuple1", typeof(t.args[0]))
    if op == "dict":
        return _dict_type(t)
    if op == "new":
        return ty(t.args[0])
    if op == "enum":
        return ty(t.args[0])
    if op == "call" and t.args[0] == "opt":
        return dict(t.args[2])["$ty"]
    if op == "attr":
        if t.args[1] == "__abstractmethods__":
            return ty("set", STR)
        r = ATTR_TYPE(typeof(t.args[0]), t.args[1]) if ATTR_TYPE else None
        return r or ANY
    if op == "getitem":
        typ = strip_none(typeof(t.args[0]))
        n = typ.args[0]
        if n in ("dict", "defaultdict", "Mapping") and len(typ.args) > 2:
            return typ.args[2]
        if n in ("list", "Sequence") and len(typ.args) > 1:
            return typ.args[1]
        if n == "tuple" and is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
            i = cval(t.args[1])
            if 0 <= i < len(typ.args) - 1:
                return typ.args[1 + i]
        if n == "str":
            return STR
        return ANY
    if op in ("fstr", "join"):
        if op == "join" and is_const(t.args[0]) and isinstance(cval(t.args[0]), bytes):
            return BYTES
        return STR
    if op in ("len", "hash", "sum"):
        return INT
    if op in ("first", "last"):
        return _seq_elem(t.args[0])
    if op in ("sorted", "reversed", "slice"):
        et = elem_type(t.args[0])
        if op == "slice" and strip_none(typeof(t.args[0])).args[0] in ("str", "bytes"):
            return strip_none(typeof(t.args[0]))
        return ty("list", et)
    if op in ("distinct", "distinctby", "until"):
        return ty("list", elem_type(t.args[0]))
    if op == "enumerate":
        return ty("list", ty("tuple", INT, elem_type(t.args[0])))
    if op == "zip":
        return ty("list", ty("tuple", *[elem_type(a) for a in t.args]))
    if op == "range":
        return ty("list", INT)
    if op == "items":
        kt, vt = kv_types(typeof(t.args[0]))
        return ty("list", ty("tuple", kt, vt))
    if op == "values":
        return ty("list", kv_types(typeof(t.args[0]))[1])
    if op in ("removed1",):
        return typeof(t.args[0])
    if op == "keys":
        return ty("Collection", kv_types(typeof(t.args[0]))[0])
    if op == "call":
        n = t.args[0]
        f = CALL_TYPE.get(n)
        if f is not None:
            r = f(t) if callable(f) else f
            if r is not None:
                return r
        if TYPE_CB is not None:
            r = TYPE_CB(t)
            if r is not None:
                return r
        return ANY
    if op == "obj":
        return ty(t.args[0])
    if op == "fold":
        return t.args[0]
    return ANY


def _seq_elem(s):
    ts = set()

    def go(q):
        for seg in q.args:
            if seg.op == "u":
                ts.add(typeof(seg.args[1]))
            else:
                go(seg.args[1].args[1])

    go(s)
    if len(ts) == 1:
        return next(iter(ts))
    nn = {x for x in ts if x is not NONE_T}
    if len(nn) == 1 and ts:
        return optional(next(iter(nn)))
    return ANY


def _dict_type(d):
    kts, vts = set(), set()
    for_paths = []

    def go(q):
        for seg in q.args:
            if seg.op == "u":
                e = seg.args[1]
                if e.op != "ev":
                    kts.add(ANY)
                    vts.add(ANY)
                    continue
                kind, path, val = e.args
                kts.add(typeof(path[0]))
                if len(path) == 1:
                    if kind == "set":
                        vts.add(typeof(val))
                    elif kind == "append":
                        vts.add(ty("list", typeof(val)))
                    elif kind == "add":
                        vts.add(ty("set", typeof(val)))
                    elif kind == "extend":
                        vts.add(ty("list", _seq_elem(val)))
                    elif kind == "ensure":
                        pass
                else:
                    vts.add(ty("dict"))
            else:
                go(seg.args[1].args[1])

    go(d.args[0])
    k = next(iter(kts)) if len(kts) == 1 else ANY
    v = next(iter(vts)) if len(vts) == 1 else ANY
    return ty("dict", k, v)


# ---------------------------------------------------------------- printing
def show(t, depth=9):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op = t.op
    if op == "const":
        return repr(t.args[1])
    if op == "sym":
        return t.args[0]
    if op == "fv":
        return f"v{t.args[0]}"
    if op == "bv":
        return f"x{t.args[0]}"
    if op == "ty":
        return t.args[0] + ("[" + ",".join(show(a) for a in t.args[1:]) + "]" if len(t.args) > 1 else "")
    if op == "lam":
        return f"λ{show(t.args[0])}. {show(t.args[1], d)}"
    if op == "and":
        return "(" + " ∧ ".join(show(a, d) for a in t.args) + ")"
    if op == "or":
        return "(" + " ∨ ".join(show(a, d) for a in t.args) + ")"
    if op == "not":
        return "¬" + show(t.args[0], d)
    if op == "eq":
        return f"{show(t.args[0], d)} == {show(t.args[1], d)}"
    if op == "ex":
        return f"∃{show(t.args[1].args[0])}∈{show(t.args[0], d)}: {show(t.args[1].args[1], d)}"
    if op == "attr":
        return f"{show(t.args[0], d)}.{t.args[1]}"
    if op == "getitem":
        return f"{show(t.args[0], d)}[{show(t.args[1], d)}]"
    if op == "call":
        a = [show(x, d) for x in t.args[1]] + [f"{k}={show(v, d)}" for k, v in t.args[2]]
        return f"{t.args[0]}({', '.join(a)})"
    if op == "cases":
        return "{" + "; ".join(f"{show(c, d)} → {show(v, d)}" for c, v in t.args) + "}"
    if op == "seq":
        return "⟨" + ", ".join(show(a, d) for a in t.args) + "⟩"
    if op == "u":
        return show(t.args[1], d) if t.args[0] is TRUE else f"[{show(t.args[0], d)}]→{show(t.args[1], d)}"
    if op == "b":
        return f"{show(t.args[1].args[1], d)} for {show(t.args[1].args[0])}∈{show(t.args[0], d)}"
    if op == "fstr":
        return "f'" + "".join(str(a.args[1]) if a.op == "const" else "{" + show(a, d) + "}" for a in t.args) + "'"
    if op == "new":
        return f"{t.args[0].rsplit('.', 1)[-1]}({', '.join(f + '=' + show(v, d) for f, v in t.args[1])})"
    if op == "ev":
        return f"{t.args[0]}{show(t.args[1], d)}:={show(t.args[2], d)}"
    if op == "tuple":
        return "(" + ", ".join(show(a, d) for a in t.args) + ")"
    return f"{op}(" + ", ".join(show(a, d) for a in t.args) + ")"
