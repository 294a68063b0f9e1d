"""Path exploration core of symion: a dynamic symbolic executor for Python.

Every branch on a symbolic value calls Engine.decide(); the alternatives are explored by
re-execution along recorded decision prefixes, with one incremental z3 solver whose scopes follow
the prefix.  A path is one feasible equivalence class of inputs; an assertion on a path is
discharged by the solver for *all* inputs of the class (pc and not cond unsatisfiable).
"""
import os
import time
import z3

DEBUG = bool(os.environ.get('SYMION_DEBUG'))


class EngineSignal(BaseException):
    """Control flow of the engine: never caught by the code under test."""


class PathAbort(EngineSignal):
    """The path ends here (assumption infeasible, budget exhausted, ...)."""
    def __init__(self, reason):
        BaseException.__init__(self, reason)
        self.reason = reason


class PathStop(EngineSignal):
    """The harness ends the path normally before its end."""


class Stats(object):
    FIELDS = ('paths', 'decisions', 'forks', 'queries', 'checks', 'checks_concrete', 'unknown', 'concretized',
              'pinned', 'assume_infeasible', 'aborted', 'witnesses', 'violations')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.notes = {}

    def note(self, key):
        self.notes[key] = self.notes.get(key, 0) + 1

    def merge(self, other):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(other, f))
        self.solver_s += other.solver_s
        for k, v in other.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def as_dict(self):
        d = dict((f, getattr(self, f)) for f in self.FIELDS)
        d['solver_s'] = round(self.solver_s, 3)
        d['notes'] = dict(self.notes)
        return d


# A decision is a tuple:
#   ('b', bool)       branch, both sides were (or may be) feasible
#   ('f', bool)       branch forced (the other side is infeasible); not an alternative
#   ('v', value, bool) "expression equals value" during enumeration of a concretised value
#   ('l', bool)       lemma asked of the solver (never an alternative)
#   ('p', value)      pinned value (incomplete enumeration)


class Engine(object):
    def __init__(self):
        self.active = False
        self.solver = None
        self.stats = Stats()
        self.timeout_ms = 1000
        self.names, self.part_results = {}, {}
        self.timeout2_ms = 30000
        self.max_decisions = 4000
        self.max_enum = 300
        self.reset_solver()

    # ---------------------------------------------------------------- solver plumbing
    def reset_solver(self):
        self.solver = z3.SimpleSolver()
        self.solver.set('timeout', self.timeout_ms)
        self.scope_trace = []     # decisions whose constraints are asserted, one scope each
        self.base_scope = False

    def _check(self, *extra):
        t = time.time()
        self.stats.queries += 1
        r = self.solver.check(*extra)
        self.last = self.solver
        if r == z3.unknown:
            r = self._sliced(extra)
        if r == z3.unknown:
            # another opinion from the preprocessing bit-vector solver
            s2 = z3.SolverFor('QF_BV')
            s2.set('timeout', self.timeout2_ms)
            s2.add(self.solver.assertions())
            s2.add(*extra)
            r = s2.check()
            self.last = s2
            self.stats.note('second solver')
        dt = time.time() - t
        self.stats.solver_s += dt
        if DEBUG and dt > 1.5:
            import traceback
            fr = [f for f in traceback.extract_stack() if '/verif/symion/engine' not in f.filename][-6:]
            self.stats.note('slow %s: %s' % (r, ' | '.join('%s:%d %s' % (f.filename.split('/')[-1], f.lineno, f.line) for f in fr)), )
            open('/tmp/slow_%d_%d.smt2' % (os.getpid(), self.stats.queries), 'w').write(self._dump(extra))
        if r == z3.unknown:
            self.stats.unknown += 1
            self.stats.note('solver unknown: ' + self.last.reason_unknown())
        return r

    # The constraints of a path often fall into parts that share no variable.  A part can be decided on its own: the
    # path condition is satisfiable (an invariant of decide), so a query is as satisfiable as the parts it touches.
    def _names(self, e):
        i = e.get_id()
        hit = self.names.get(i)
        if hit is None:
            seen, todo, out = set(), [e], set()
            while todo:
                x = todo.pop()
                j = x.get_id()
                if j in seen:
                    continue
                seen.add(j)
                if z3.is_app(x):
                    d = x.decl()
                    if d.kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add((d.name(), d.arity() > 0))
                    todo.extend(x.children())
            hit = self.names[i] = (e, frozenset(out))
        return hit[1]

    def _parts(self, constraints):
        """Groups of constraints that share no uninterpreted symbol."""
        groups = []
        for c in constraints:
            names, members = set(self._names(c)), [c]
            rest = []
            for g in groups:
                if g[0] & names:
                    names |= g[0]
                    members = g[1] + members
                else:
                    rest.append(g)
            groups = rest + [(names, members)]
        return groups

    def _solve_part(self, members):
        """(result, values of the constants) of a conjunction."""
        key = frozenset(c.get_id() for c in members)
        hit = self.part_results.get(key)
        if hit is None:
            self.stats.note('part solved alone')
            s = z3.SolverFor('QF_BV')
            s.set('timeout', self.timeout2_ms)
            s.add(*members)
            r = s.check()
            values = None
            if r == z3.sat:
                m = s.model()
                if all(d.arity() == 0 for d in m.decls()):
                    values = [(d(), m[d]) for d in m.decls()]
            hit = self.part_results[key] = (members, r, values)
        return hit[1:]

    def _sliced(self, extra):
        if len(self.names) > 20000:
            self.names, self.part_results = {}, {}
        parts = self._parts(list(self.solver.assertions()) + list(extra))
        if len(parts) < 2:
            return z3.unknown
        values = []
        touched = set()
        for c in extra:
            touched |= self._names(c)
        for names, members in sorted(parts, key=lambda g: 0 if g[0] & touched else 1):
            r, v = self._solve_part(members)
            if r == z3.unsat:
                return r
            if r != z3.sat or v is None:
                return z3.unknown
            values += v
        # a model of all the parts together
        s = z3.SolverFor('QF_BV')
        s.add(*[x == v for x, v in values])
        if s.check() != z3.sat:
            return z3.unknown
        self.last = s
        return z3.sat

    def _dump(self, extra):
        s = z3.Solver()
        s.add(self.solver.assertions())
        s.add(*extra)
        return s.to_smt2()

    # ---------------------------------------------------------------- running paths
    def begin(self, prefix):
        """Prepare the solver for a path that starts with the decisions in prefix."""
        common = 0
        n = min(len(prefix), len(self.scope_trace))
        while common < n and prefix[common] == self.scope_trace[common]:
            common += 1
        extra = len(self.scope_trace) - common
        if not self.base_scope:
            self.solver.push()
            self.base_scope = True
            self.axioms_kept = -1
        else:
            # axioms made before decision k live in scope k-1; they are complete if the previous
            # path went on to take decision k
            self.axioms_kept = common if extra > 0 else common - 1
        if extra:
            self.solver.pop(extra)
            del self.scope_trace[common:]
        self.retained = common      # decisions < retained have their scopes asserted
        self.prefix = prefix
        self.trace = []
        self.model = None
        self.alternatives = []
        self.fresh_n = 0
        self.inputs = []            # (name, kind, term)
        self.observations = []
        self.defs = {}
        self.keep = []
        self.failures = []
        self.incomplete = False
        self.dead = None
        self.active = True
        if not hasattr(self, 'deadline'):
            self.deadline = None

    def end(self):
        self.active = False

    def new_config(self):
        """Forget all scopes (the variables of another harness configuration follow)."""
        self.names, self.part_results = {}, {}
        if self.base_scope:
            self.solver.pop(len(self.scope_trace) + 1)
        self.scope_trace = []
        self.base_scope = False

    def assert_axiom(self, cond):
        """Adds a constraint that is total over inputs (a definition) or an assumption."""
        if cond is True:
            return
        if len(self.trace) <= self.axioms_kept:
            return
        self.solver.add(cond)
        if self.model is not None:
            if not z3.is_true(self.model.eval(cond, model_completion=True)):
                self.model = None

    def define(self, cond, term, values):
        """An axiom that defines new variables by the value of a term: values(v) gives theirs."""
        if self.model is not None and len(self.trace) > self.axioms_kept:
            v = self.model.eval(term, model_completion=True)
            for d, x in values(v.as_long()):
                self.model.update_value(d, z3.BitVecVal(x, d.size()))
        self.assert_axiom(cond)

    def _push(self, decision, cond):
        """Record a decision; assert its constraint in a new scope unless already there."""
        k = len(self.trace)
        self.trace.append(decision)
        self.stats.decisions += 1
        if k < self.retained:
            return
        self.solver.push()
        self.scope_trace.append(decision)
        if cond is not None:
            self.solver.add(cond)

    def _die(self, reason):
        if reason == 'infeasible':
            # decisions keep the path condition satisfiable: a definition contradicts it
            self.incomplete = True
            self.stats.note('contradictory path condition')
        self.dead = reason
        raise PathAbort(reason)

    def _entry(self):
        if self.dead:
            raise PathAbort(self.dead)
        if len(self.trace) >= self.max_decisions:
            self.incomplete = True
            self.stats.note('path cut: decision bound %d' % self.max_decisions)
            self._die('decision bound')
        if self.deadline is not None and time.time() > self.deadline:
            self.incomplete = True
            self._die('deadline')

    def _get_model(self):
        """A model of the path condition (None if it is infeasible)."""
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.last.model()
            elif r == z3.unsat:
                return None
            else:
                self.incomplete = True
                self._die('solver unknown')
        return self.model

    def decide(self, cond):
        """Truth of the z3 Bool cond on this path; forks if both are feasible."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self._entry()
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            side = d[1]
            self._push(d, c if side else z3.Not(c))
            return side
        m = self._get_model()
        if m is None:
            self._die('infeasible')
        v = m.eval(c, model_completion=True)
        side = z3.is_true(v)
        if not side and not z3.is_false(v):
            raise RuntimeError('model evaluation of %s' % c)
        other = z3.Not(c) if side else c
        r = self._check(other)
        if r == z3.sat:
            self.stats.forks += 1
            self.alternatives.append((k, ('b', not side)))
            self._push(('b', side), c if side else z3.Not(c))
        elif r == z3.unsat:
            self._push(('f', side), c if side else z3.Not(c))
        else:
            self.incomplete = True
            self._push(('f', side), c if side else z3.Not(c))
        return side

    def enumerate_value(self, expr, to_py, limit=None, what='value'):
        """A concrete value of the z3 term expr on this path; all feasible values are explored
        (up to a limit, beyond which the path is marked incomplete)."""
        e = z3.simplify(expr)
        if z3.is_bv_value(e):
            return to_py(e)
        limit = limit or self.max_enum
        self.stats.concretized += 1
        if DEBUG:
            import traceback
            fr = [f for f in traceback.extract_stack() if '/repo/' in f.filename or '/harness/' in f.filename
                  or 'pypy' in f.filename]
            if fr:
                self.stats.note('conc %s:%d %s' % (fr[-1].filename.split('/')[-1], fr[-1].lineno, fr[-1].line))
        count = 0
        while True:
            self._entry()
            k = len(self.trace)
            if k < len(self.prefix):
                d = self.prefix[k]
                val = z3.BitVecVal(d[1], e.size())
                if d[0] == 'p':
                    self._push(d, e == val)
                    return to_py(val)
                cond = e == val
                self._push(d, cond if d[2] else z3.Not(cond))
                if d[2]:
                    return to_py(val)
                count += 1
                continue
            m = self._get_model()
            if m is None:
                self._die('infeasible')
            val = m.eval(e, model_completion=True)
            raw = val.as_long()
            if count >= limit:
                self.stats.pinned += 1
                self.stats.note('pinned ' + what)
                self.incomplete = True
                self._push(('p', raw), e == val)
                return to_py(val)
            r = self._check(e != val)
            if r == z3.sat:
                self.stats.forks += 1
                self.alternatives.append((k, ('v', raw, False)))
            elif r == z3.unknown:
                self.incomplete = True
            self._push(('v', raw, True), e == val)
            return to_py(val)

    def assume(self, cond):
        """Restrict the path to cond."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return
        self._entry()
        if z3.is_false(c):
            self.stats.assume_infeasible += 1
            self._die('assumption')
        self.assert_axiom(c)
        if len(self.trace) >= len(self.prefix):
            if self._get_model() is None:
                self.stats.assume_infeasible += 1
                self._die('assumption')

    def lemma(self, cond):
        """Is cond implied by the path condition?  Recorded as a decision, so that a re-execution
        takes the same way without asking again."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self._entry()
        k = len(self.trace)
        if k < len(self.prefix):
            d = self.prefix[k]
            self._push(d, c if d[1] else None)
            return d[1]
        m = self._get_model()
        if m is None:
            self._die('infeasible')
        if z3.is_true(m.eval(c, model_completion=True)):
            yes = self._check(z3.Not(c)) == z3.unsat
        else:
            yes = False
        self._push(('l', yes), c if yes else None)
        return yes

    def known_equal(self, group, x, eq):
        """An earlier key of the group that provably equals x (with its value), else None."""
        for y, v in self.defs.get(group, ()):
            c = eq(x, y)
            if c is True or (c is not False and self.lemma(c)):
                return v
        return None

    def remember(self, group, x, v):
        self.defs.setdefault(group, []).append((x, v))

    def fresh(self, hint, bits):
        self.fresh_n += 1
        return z3.BitVec('%s!%d' % (hint, self.fresh_n), bits)

    def valid(self, cond):
        """('proved', None) if cond holds for every input of the path, else ('refuted', model)."""
        c = z3.simplify(cond)
        self.stats.checks += 1
        if z3.is_true(c):
            self.stats.checks_concrete += 1
            return 'proved', None
        self._entry()
        if self.model is not None and z3.is_false(self.model.eval(c, model_completion=True)):
            return 'refuted', self.model
        r = self._check(z3.Not(c))
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'refuted', self.last.model()
        self.incomplete = True
        return 'unknown', None


ENGINE = Engine()
