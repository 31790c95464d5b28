"""Abstract state: a store of terms, the facts known on the current path (with linear entailment), an event log."""
from .terms import *

SIGNED_OPS = ("signed",)


def fm_unsat(cons, cap=160):
    """Fourier-Motzkin: is the conjunction of p <= 0 infeasible over the rationals?  cons: list of (c, dict)."""
    cons = [(c, d) for c, d in cons]
    while True:
        for c, d in cons:
            if not d and c > 0:
                return True
        cons = [(c, d) for c, d in cons if d]
        if not cons:
            return False
        # pick the variable with the fewest products
        occ = {}
        for c, d in cons:
            for v, k in d.items():
                o = occ.setdefault(v, [0, 0])
                o[0 if k > 0 else 1] += 1
        v = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x.id))
        pos = [x for x in cons if x[1].get(v, 0) > 0]
        neg_ = [x for x in cons if x[1].get(v, 0) < 0]
        rest = [x for x in cons if v not in x[1]]
        if len(pos) * len(neg_) + len(rest) > cap:
            return False
        new = {}
        for c1, d1 in pos:
            for c2, d2 in neg_:
                k1, k2 = d1[v], -d2[v]
                c = c1 * k2 + c2 * k1
                d = {}
                for x, k in d1.items():
                    d[x] = d.get(x, 0) + k * k2
                for x, k in d2.items():
                    d[x] = d.get(x, 0) + k * k1
                d = {x: k for x, k in d.items() if k}
                key = tuple(sorted(((x.id, k) for x, k in d.items())))
                if key not in new or new[key][0] < c:
                    new[key] = (c, d)
        cons = rest + list(new.values())


OTHER = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}


class State:
    __slots__ = ("store", "ints", "bools", "variants", "nvariants", "eqs", "nes", "events", "choice")

    def __init__(self):
        self.store = {}
        self.ints = ()
        self.bools = {}
        self.variants = {}
        self.nvariants = {}
        self.eqs = ()
        self.nes = ()
        self.events = ()
        self.choice = ()

    def copy(self):
        s = State.__new__(State)
        s.store = dict(self.store)
        s.ints = self.ints
        s.bools = self.bools
        s.variants = self.variants
        s.nvariants = self.nvariants
        s.eqs = self.eqs
        s.nes = self.nes
        s.events = self.events
        s.choice = self.choice
        return s

    # ------------------------------------------------------------ events
    def ev(self, *e):
        self.events = self.events + (e,)

    # ------------------------------------------------------------ equality classes of opaque terms
    def rep(self, t):
        """Representative of t under the equalities assumed on this path."""
        if not self.eqs:
            return t
        cls = {t}
        ch = True
        while ch:
            ch = False
            for a, b in self.eqs:
                if a in cls and b not in cls:
                    cls.add(b)
                    ch = True
                elif b in cls and a not in cls:
                    cls.add(a)
                    ch = True
        return min(cls, key=lambda x: x.id)

    def same(self, a, b):
        if a is b:
            return True
        if self.eqs:
            if self.rep(a) is self.rep(b):
                return True
            # congruence over structure
            m = {}
            for x, y in self.eqs:
                r = self.rep(x)
                for z in (x, y):
                    if z is not r:
                        m[z] = r
            for _ in range(3):
                a2, b2 = subst(a, m), subst(b, m)
                if a2 is b2:
                    return True
                if a2 is a and b2 is b:
                    break
                a, b = a2, b2
        return False

    # ------------------------------------------------------------ linear reasoning
    def implied(self, atom):
        """Always-true constraints p <= 0 about one atom."""
        op = atom.op
        r = []
        if op not in SIGNED_OPS:
            r.append(scale(atom, -1))
        if op == "rem" and len(atom.args) == 2:
            r.append(add(sub(atom, atom.args[1]), I(1)))
        elif op == "min":
            for a in atom.args:
                r.append(sub(atom, a))
        elif op == "max":
            for a in atom.args:
                r.append(sub(a, atom))
        elif op == "div" and atom.args[1].op == "int" and atom.args[1].args[0] > 0:
            n = atom.args[1].args[0]
            x = atom.args[0]
            r.append(sub(scale(atom, n), x))
            r.append(sub(x, add(scale(atom, n), I(n - 1))))
        elif op == "mul" and len(atom.args) == 2:
            for f, o in ((atom.args[0], atom.args[1]), (atom.args[1], atom.args[0])):
                if sub(I(1), f) in self.ints:
                    r.append(sub(o, atom))
        elif op == "nextpow2":
            r.append(sub(atom.args[0], atom))
            r.append(sub(I(1), atom))
        elif op == "trailing_zeros":
            r.append(sub(atom, I(64)))
        elif op == "band":
            for a in atom.args:
                r.append(sub(atom, a))
        return r

    def _cons(self, goal):
        todo = [goal] + list(self.ints)
        cons = []
        seen = set()
        # relevance closure by shared atoms
        gatoms = set(parts(goal)[1])
        pool = [(p, parts(p)) for p in self.ints]
        used = [False] * len(pool)
        work = list(gatoms)
        cons.append(parts(goal))
        for a in work:
            seen.add(a)
        while work:
            a = work.pop()
            for p in self.implied(a):
                cp = parts(p)
                cons.append(cp)
                for x in cp[1]:
                    if x not in seen:
                        seen.add(x)
                        work.append(x)
            for i, (p, cp) in enumerate(pool):
                if not used[i] and a in cp[1]:
                    used[i] = True
                    cons.append(cp)
                    for x in cp[1]:
                        if x not in seen:
                            seen.add(x)
                            work.append(x)
        return cons

    def unsat_with(self, p):
        """Is p <= 0 infeasible with the known facts?"""
        return fm_unsat(self._cons(p))

    def _posfactor(self, p, le=False):
        """Divide p by a common positive factor (monomials).  For p <= 0 also with the constant 1: q*f + 1 <= 0 iff q + 1 <= 0."""
        c, d = parts(p)
        if le and c == 1 and d:
            p0 = sub(p, I(1))
            q = self._posfactor(p0)
            return p if q is p0 else add(q, I(1))
        if c != 0 or not d:
            return p
        for m in list(d):
            fs = m.args if m.op == "mul" else (m,)
            for f in fs:
                q = exact_div(p, f)
                if q is not None and self.unsat_with(f):
                    return self._posfactor(q)
            break
        return p

    def decide(self, c):
        op = c.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op == "le0":
            p = c.args[0]
            if self.unsat_with(p):
                return False
            if self.unsat_with(sub(I(1), p)):
                return True
            q = self._posfactor(p, True)
            if q is not p:
                return self.decide(le0(q))
            return None
        if op == "eq0":
            p = c.args[0]
            if c in self.bools:
                return self.bools[c]
            a = self.unsat_with(sub(I(1), p))     # p >= 1 impossible
            b = self.unsat_with(add(p, I(1)))     # p <= -1 impossible
            if a and b:
                return True
            if (a and self.unsat_with(p)) or (b and self.unsat_with(scale(p, -1))) or self.unsat_eq(p):
                return False
            q = self._posfactor(p)
            if q is not p:
                return self.decide(eq(q, I(0), True))
            if self.eqs:
                cc, d = parts(p)
                m = {}
                for x, y in self.eqs:
                    r = self.rep(x)
                    for z in (x, y):
                        if z is not r:
                            m[z] = r
                p2 = subst(p, m)
                if p2 is not p:
                    return self.decide(eq(p2, I(0), True))
            return None
        if op == "eq":
            if c in self.bools:
                return self.bools[c]
            a, b = c.args
            if self.same(a, b):
                return True
            ra, rb = self.rep(a), self.rep(b)
            for x, y in self.nes:
                rx, ry = self.rep(x), self.rep(y)
                if (rx is ra and ry is rb) or (rx is rb and ry is ra):
                    return False
            return None
        if op == "and":
            a, b = self.decide(c.args[0]), self.decide(c.args[1])
            if a is False or b is False:
                return False
            if a is True and b is True:
                return True
            return None
        if op == "is":
            return self.isvar(c.args[0], c.args[1])
        if c in self.bools:
            return self.bools[c]
        if self.eqs:
            for k, v in self.bools.items():
                if k.op == op and len(k.args) == len(c.args) and all(
                        (x is y) or (isinstance(x, Term) and isinstance(y, Term) and self.same(x, y))
                        for x, y in zip(k.args, c.args)):
                    return v
        return None

    def unsat_eq(self, p):
        cons = self._cons(p)
        c, d = parts(p)
        return fm_unsat(cons + [(-c, {k: -v for k, v in d.items()})])

    def isvar(self, t, name):
        v = self.variant(t)
        if v is not None:
            return v == name
        if name in self.nvariants.get(t, ()):
            return False
        return None

    def variant(self, t):
        if t.op == "agg":
            return t.args[2]
        if t.op == "with":
            return self.variant(t.args[0])
        r = self.variants.get(t)
        if r is None and self.eqs:
            for k, v in self.variants.items():
                if self.same(k, t):
                    return v
        return r

    def setvar(self, t, name):
        """Assume t is variant name. Returns state or None."""
        v = self.variant(t)
        if v is not None:
            return self if v == name else None
        if name in self.nvariants.get(t, ()):
            return None
        while t.op == "with":
            t = t.args[0]
        s = self.copy()
        s.variants = dict(self.variants)
        s.variants[t] = name
        return s

    def setnvar(self, t, name):
        v = self.variant(t)
        if v is not None:
            return None if v == name else self
        while t.op == "with":
            t = t.args[0]
        s = self.copy()
        s.nvariants = dict(self.nvariants)
        s.nvariants[t] = s.nvariants.get(t, frozenset()) | {name}
        return s

    def assume(self, c, val=True):
        """State with the fact c == val added, or None when contradictory."""
        if not val:
            c = neg(c)
        d = self.decide(c)
        if d is True:
            return self
        if d is False:
            return None
        s = self.copy()
        r = self._assume(s, c)
        if r is not None and c.op in ("le0", "eq0"):
            for k, v in r.bools.items():
                if k.op == "eq0" and not v:
                    p = k.args[0]
                    if r.decide(le0(p)) is not None and r.decide(le0(scale(p, -1))) is not None:
                        continue
                    if r.unsat_with(add(p, I(1))):
                        r.ints = r.ints + (sub(I(1), p),)
                    elif r.unsat_with(sub(I(1), p)):
                        r.ints = r.ints + (add(p, I(1)),)
        return r

    def _assume(self, s, c):
        if c.op == "le0":
            s.ints = self.ints + (c.args[0],)
            q = self._posfactor(c.args[0], True)
            if q is not c.args[0]:
                s.ints = s.ints + (q,)
        elif c.op == "eq0":
            s.ints = self.ints + (c.args[0], scale(c.args[0], -1))
            q = self._posfactor(c.args[0])
            if q is not c.args[0]:
                s.ints = s.ints + (q, scale(q, -1))
            # an equality between two atoms also merges the terms
            cc, dd = parts(c.args[0])
            if cc == 0 and len(dd) == 2 and sorted(dd.values()) == [-1, 1]:
                a, b = dd
                s.eqs = self.eqs + ((a, b),)
        elif c.op == "eq":
            s.eqs = self.eqs + (c.args,)
        elif c.op == "and":
            r = s.assume(c.args[0])
            return None if r is None else r.assume(c.args[1])
        elif c.op == "is":
            return s.setvar(c.args[0], c.args[1])
        elif c.op == "not":
            x = c.args[0]
            if x.op == "eq":
                s.nes = self.nes + (x.args,)
            elif x.op == "is":
                return s.setvar(x.args[0], OTHER[x.args[1]]) if x.args[1] in OTHER else s.setnvar(x.args[0], x.args[1])
            elif x.op == "eq0":
                s.bools = dict(self.bools)
                s.bools[x] = False
                fq = self._posfactor(x.args[0])
                if fq is not x.args[0] and fq.op != "int":
                    s = self._assume(s, neg(eq(fq, I(0), True)))
                # integers: sharpen when one side is already excluded
                p = x.args[0]
                q = None
                if self.unsat_with(add(p, I(1))):
                    q = sub(I(1), p)
                elif self.unsat_with(sub(I(1), p)):
                    q = add(p, I(1))
                if q is not None:
                    s.ints = s.ints + (q,)
                    q2 = self._posfactor(q, True)
                    if q2 is not q:
                        s.ints = s.ints + (q2,)
            else:
                s.bools = dict(self.bools)
                s.bools[x] = False
        else:
            s.bools = dict(self.bools)
            s.bools[c] = True
        return s

    def facts_str(self):
        out = ["%s <= 0" % show(p) for p in self.ints]
        out += ["%s%s" % ("" if v else "!", show(k)) for k, v in self.bools.items()]
        out += ["%s is %s" % (show(k), v) for k, v in self.variants.items()]
        out += ["%s is not %s" % (show(k), "/".join(v)) for k, v in self.nvariants.items()]
        out += ["%s == %s" % (show(a), show(b)) for a, b in self.eqs]
        out += ["%s != %s" % (show(a), show(b)) for a, b in self.nes]
        return out
