"""simulations with arbitrary trajectories: the external solver's own loop (interpreted) runs the repository's interface, with
the integration step replaced by one that returns arbitrary (symbolic) states, and the location of state events scripted"""
import numpy as np
import numpy as real_np

from vlib.scn import *


class Step:
    """stands for the integration method: after dt the states are arbitrary values"""
    order = 1

    def __init__(self, run):
        self.run = run
        self.initial_step = run.max_step
        self.step_func = self.step

    def get_solver_state(self, *a):
        return (0,)

    def step(self, interface, t_start, dt, y, yold, order, solve_state):
        t = t_start + dt
        if dt > 0 or self.run.last is None:
            y = self.run.states_at(t)
        # the method evaluates the model at the new point
        interface.set_states(y)
        interface.get_deriv(t, y)
        return t, y, True, 0, solve_state, 1.0


class Run:
    """one simulation `s` of model m over the times `times` (concrete).  state_events: {time: [indices of events]}"""

    def __init__(self, ctx, s, m, times, max_step=1e9, state_events=None, tag='r', states=None, record=True, lo=-1e3, hi=1e3):
        self.ctx, self.s, self.m, self.times, self.max_step, self.tag = ctx, s, m, times, max_step, tag
        self.lo, self.hi = lo, hi
        self.n, self.last = 0, None
        self.given = states
        self.nstates = len(m.numba_model.state_idx)
        self.rows, self.pauses, self.log = [], [], []
        self.pending = dict(state_events or {})
        sv = s.solver
        sv._method = Step(self)
        sv.method_options = dict(max_step=max_step, min_step=0.0, atol=1e-6, rtol=1e-3, strict_eval=True)
        sv._init_roller = lambda order: (order + 2, real_np.zeros(order + 2), real_np.zeros((order + 2, self.nstates), dtype=object))
        iface = self.iface = sv.interface
        # (setting attributes asks numba for their types)
        object.__setattr__(iface, 'get_state_events', self.events)
        object.__setattr__(iface, 'get_state_event_results', lambda t, y, ev: real_np.zeros(len(ev)))
        if record:
            for name in ('historian_update', 'post_step'):
                self.wrap(iface, name)

    def wrap(self, iface, name):
        real = getattr(type(iface), name).__get__(iface)

        def call(t, y):
            if name == 'historian_update':
                self.rows.append((t, self.snapshot()))
            r = real(t, y)
            self.log.append((name, t, r))
            return r
        object.__setattr__(iface, name, call)

    def snapshot(self):
        return dict(values_of(self.m))

    def states_at(self, t):
        self.n += 1
        if self.given is not None:
            y = self.given(t)
        else:
            y = [self.ctx.real('%s_y%d_%d' % (self.tag, self.n, i), self.lo, self.hi) for i in range(self.nstates)]
        self.last = np.array(y)
        return self.last

    def events(self, g, state_events, roller, order, tol, imax, t_previous, y_previous, t, y):
        due = sorted(k for k in self.pending if t_previous < k <= t)
        if not due:
            return t, y, g, False, 0
        te = due[0]
        which, seen = self.pending[te] if isinstance(self.pending[te], tuple) else (self.pending[te], 0)
        if seen:
            del self.pending[te]
        else:
            self.pending[te] = (which, 1)
            self.ye = self.states_at(te)
        for i in which:
            state_events[i].set()
        return te, self.ye, g, True, -1

    def solve(self):
        self.s.time = real_np.array(self.times, dtype=float)
        self.s.solve()
        return self

    def step(self, t, dt):
        return self.s.step_solve(t, dt)


def history(m):
    """[(time, {name: value})] as recorded, for every logged name"""
    df = m.historian_df
    names = sorted(m.logged_variables)
    times = list(df['time'])
    cols = {n: list(df[n]) for n in names}
    return [(times[k], {n: cols[n][k] for n in names}) for k in range(len(times))]


def check_history(ctx, m, rows, tag='history', names=None):
    got = history(m)
    ctx.check(len(got) == len(rows), '%s: %d rows are stored, %d are recorded' % (tag, len(rows), len(got)))
    for k, (t, vals) in enumerate(rows):
        ctx.eq(got[k][0], t, '%s: time of row %d' % (tag, k))
        for n in (names or sorted(got[k][1])):
            ctx.eq(got[k][1][n], vals[n], '%s: %s in row %d' % (tag, n, k))
