"""An integer programming back end behind the interface the library uses (python-mip): models are kept here and solved by HiGHS;
the run decides when the search stops early, which feasible solutions it saw, and that it finds nothing in time."""
import numpy as np

from harness.backends import State


class Exact:
    """what mip asks of a solver (mip.Solver)"""
    def __init__(self, model, name='', sense=''):
        self.model, self.name = model, name
        self.cols, self.rows, self.sense, self.const, self.start = [], [], sense or 'MIN', 0., []
        self.pool, self.values, self.bound = [], [], None

    def __del__(self):
        pass

    # -- columns
    def add_var(self, obj=0., lb=0., ub=float('inf'), var_type='C', column=None, name=''):
        assert column is None
        self.cols.append([float(obj), float(lb), float(ub), var_type, name])

    def var_get_lb(self, v): return self.cols[v.idx][1]
    def var_set_lb(self, v, x): self.cols[v.idx][1] = float(x)
    def var_get_ub(self, v): return self.cols[v.idx][2]
    def var_set_ub(self, v, x): self.cols[v.idx][2] = float(x)
    def var_get_obj(self, v): return self.cols[v.idx][0]
    def var_set_obj(self, v, x): self.cols[v.idx][0] = float(x)
    def var_get_var_type(self, v): return self.cols[v.idx][3]
    def var_set_var_type(self, v, x): self.cols[v.idx][3] = x
    def var_get_name(self, i): return self.cols[i][4]
    def var_get_index(self, name): return next((i for i, c in enumerate(self.cols) if c[4] == name), -1)
    def var_get_x(self, v): return self.pool[0][v.idx] if self.pool else None
    def var_get_xi(self, v, i): return self.pool[i][v.idx] if i < len(self.pool) else None
    def num_cols(self): return len(self.cols)
    def num_int(self): return sum(c[3] in 'BI' for c in self.cols)

    def remove_vars(self, gone):
        keep = [i for i in range(len(self.cols)) if i not in set(gone)]
        new = {i: k for k, i in enumerate(keep)}
        self.cols = [self.cols[i] for i in keep]
        self.rows = [[{new[i]: a for i, a in r[0].items() if i in new}, *r[1:]] for r in self.rows]
        self.pool = []

    # -- rows
    def add_constr(self, e, name=''):
        terms = {v.idx: float(a) for v, a in e.expr.items()}
        assert all(0 <= i < len(self.cols) for i in terms) and e.sense in ('<', '>', '='), e
        self.rows.append([terms, e.sense, -float(e.const), name])

    def constr_get_expr(self, c):
        import mip
        terms, sense, rhs, _ = self.rows[c.idx]
        return mip.LinExpr([self.model.vars[i] for i in terms], list(terms.values()), -rhs, sense)

    def constr_set_expr(self, c, e):
        self.rows[c.idx][:3] = [{v.idx: float(a) for v, a in e.expr.items()}, e.sense, -float(e.const)]

    def constr_get_rhs(self, i): return self.rows[i][2]
    def constr_set_rhs(self, i, x): self.rows[i][2] = float(x)
    def constr_get_name(self, i): return self.rows[i][3]
    def constr_get_index(self, name): return next((i for i, r in enumerate(self.rows) if r[3] == name), -1)
    def num_rows(self): return len(self.rows)
    def num_nz(self): return sum(len(r[0]) for r in self.rows)

    def remove_constrs(self, gone):
        gone = set(gone)
        self.rows = [r for i, r in enumerate(self.rows) if i not in gone]

    # -- objective, parameters
    def set_objective(self, e, sense=''):
        for c in self.cols:
            c[0] = 0.
        for v, a in e.expr.items():
            self.cols[v.idx][0] += float(a)
        self.const = float(e.const)
        s = sense or e.sense
        if s in ('MIN', 'MAX'):
            self.sense = s

    def get_objective(self):
        import mip
        return mip.LinExpr([self.model.vars[i] for i, c in enumerate(self.cols) if c[0]], [c[0] for c in self.cols if c[0]], self.const, self.sense)

    def get_objective_const(self): return self.const
    def set_objective_const(self, x): self.const = x
    def get_objective_sense(self): return self.sense
    def set_objective_sense(self, s): self.sense = s.strip().upper()
    def get_objective_value(self): return self.values[0] if self.values else None
    def get_objective_value_i(self, i): return self.values[i]
    def get_objective_bound(self): return self.bound
    def get_num_solutions(self): return len(self.pool)
    def set_start(self, start): self.start = list(start)
    def set_processing_limits(self, max_time=0, max_nodes=0, max_sol=0): pass
    def set_num_threads(self, n): pass
    def get_verbose(self): return 0
    def set_verbose(self, v): pass
    def get_emphasis(self): return self.__dict__.get('emphasis')
    def set_emphasis(self, e): self.emphasis = e
    def set_max_seconds(self, x): pass
    def set_max_nodes(self, x): pass
    def set_max_solutions(self, x): pass
    def set_mip_gap(self, x): pass
    def set_mip_gap_abs(self, x): pass
    def get_log(self): return []
    def write(self, path): pass
    def get_problem_name(self): return self.name
    def set_problem_name(self, name): self.name = name

    # -- the search
    def milp(self, cost, keep=None):
        """a vector minimising cost, None if there is none; keep: values lost at most by the model's own objective"""
        from scipy.optimize import Bounds, LinearConstraint, milp
        from scipy.sparse import csr_matrix
        n, i, j, a, lo, hi = len(self.cols), [], [], [], [], []
        for k, (terms, sense, rhs, _) in enumerate(self.rows):
            for c, x in terms.items():
                i.append(k), j.append(c), a.append(x)
            lo.append(-np.inf if sense == '<' else rhs)
            hi.append(np.inf if sense == '>' else rhs)
        cons = [LinearConstraint(csr_matrix((a, (i, j)), (len(self.rows), n)), lo, hi)] if self.rows else []
        for presolve in (True, False):      # HiGHS itself fails ("solve error") on a few models it simplifies
            r = milp(cost, integrality=[c[3] in 'BI' for c in self.cols], constraints=cons,
                     bounds=Bounds([c[1] for c in self.cols], [c[2] for c in self.cols]), options={'mip_rel_gap': 0., 'presolve': presolve})
            if r.status in (0, 2, 3):
                break
        else:
            State.run.gave_up = True       # no answer of the stand-in: the run judges nothing of it
            return None, 4
        if r.status in (2, 4) or r.x is None:
            return None, r.status
        return [float(round(x)) if c[3] in 'BI' else float(x) for x, c in zip(r.x, self.cols)], 0

    def worth(self, x):
        return sum(c[0] * a for c, a in zip(self.cols, x)) + self.const

    def optimize(self, relax=False):
        from mip import OptimizationStatus as S
        assert not relax
        run = State.run
        run.event('optimize', len(self.cols), len(self.rows))
        self.pool, self.values, self.bound = [], [], None
        if run.early == 'nothing':
            run.faults['back ends stopped before any solution'] += 1
            return S.NO_SOLUTION_FOUND
        sign = 1 if self.sense == 'MIN' else -1
        best, status = self.milp([sign * c[0] for c in self.cols])
        if best is None:
            return {2: S.INFEASIBLE, 3: S.UNBOUNDED}.get(status, S.NO_SOLUTION_FOUND)
        seen = [best]
        for _ in range(run.rng.choice([0, 0, 1, 2, 3])):       # others met on the way
            x, _ = self.milp([run.rng.choice([-1, 0, 1]) for _ in self.cols])
            if x is not None and x not in seen:
                seen.append(x)
        if run.early:
            run.faults['back ends stopped at a first solution'] += 1
            seen = seen[1:] or seen
        seen.sort(key=lambda x: sign * self.worth(x))
        self.pool, self.values = seen, [self.worth(x) for x in seen]
        self.bound = self.worth(best)
        return S.FEASIBLE if run.early else S.OPTIMAL


def install():
    import mip
    import mip.cbc
    mip.cbc.SolverCbc = Exact
