"""
The simulator's seams.

Everything nondeterministic that pyactr touches is taken over here, from outside, at public surfaces:

* the event loop        simpy.core.Environment.step: every step is bracketed, so the whole observable
                        state is recorded between any two steps (virtual and real-time environments);
* randomness            numpy.random.logistic / gamma / multivariate_normal: draws come from the run's
                        own seeded source, which can also be told to draw extreme or coinciding values;
* the host clock        simpy.rt.monotonic / sleep and time.sleep / monotonic: a simulated clock;
* output                sys.stdout: recorded, with the step in which it was written.

Nothing in /repo is changed for this.
"""

import math
import random
import sys

import numpy as np
import simpy
import simpy.core
import simpy.rt

from . import canon

CURRENT = None        # recorder whose simulation is being stepped or built
BUILDING = None       # list that collects module instances while a simulation is being built
INSTALLED = False

_real = {}


class StepLimit(BaseException):
    """Raised by the recorder when a run exceeds its bound on steps (not an Exception: nothing may catch it)."""


class WallStop(BaseException):
    pass


class Draws:
    """Seeded replacement of numpy's global generator."""

    def __init__(self, cfg):
        cfg = cfg or {}
        self.rng = random.Random(cfg.get("seed", 0))
        self.extreme = cfg.get("extreme", 0.0)
        self.tie = cfg.get("tie", 0.0)
        self.grid = cfg.get("grid", 0)
        self.last = {}
        self.log = []        # (step, kind, args, value)
        self.extremes = 0
        self.ties = 0

    def uniform(self, kind):
        r = self.rng.random()
        u = self.rng.random()
        if r < self.tie and kind in self.last:
            self.ties += 1
            return self.last[kind]
        if r > 1 - self.extreme:
            self.extremes += 1
            u = self.rng.choice([1e-6, 1 - 1e-6, 1e-4, 1 - 1e-4, 0.5])
        u = min(max(u, 1e-9), 1 - 1e-9)
        self.last[kind] = u
        return u

    def note(self, step, kind, args, val):
        self.log.append((step, kind, args, val))

    def logistic(self, step, loc, scale, size):
        if size is None:
            n = 1
        else:
            n = int(np.prod(size))
        out = []
        for _ in range(n):
            u = self.uniform("l%s" % scale)
            v = loc + scale * math.log(u / (1 - u))
            out.append(v)
            self.note(step, "logistic", (float(loc), float(scale)), v)
        if size is None:
            return np.float64(out[0])
        return np.array(out).reshape(size)

    def gamma(self, step, shape, scale, size):
        u = self.uniform("g")
        # Wilson-Hilferty approximation of the gamma quantile: smooth in u, good enough as a source of draws
        z = _probit(u)
        c = 1 - 1 / (9 * shape) + z / (3 * math.sqrt(shape))
        v = shape * max(c, 0.0) ** 3 * scale
        if self.grid:
            v = round(v / self.grid) * self.grid
        v = max(v, 0.0)
        self.note(step, "gamma", (float(shape), float(scale)), v)
        if size is None:
            return np.float64(v)
        return np.full(size, v)

    def mvn(self, step, mean, cov):
        out = []
        for i, m in enumerate(mean):
            u = self.uniform("n%d" % i)
            out.append(float(m) + math.sqrt(max(0.0, float(cov[i][i]))) * _probit(u))
        self.note(step, "mvn", (tuple(map(float, mean)), tuple(float(cov[i][i]) for i in range(len(mean)))), tuple(out))
        return np.array(out)


def _probit(p):
    """Inverse normal distribution function (Acklam)."""
    a = [-3.969683028665376e+01, 2.209460984245205e+02, -2.759285104469687e+02, 1.383577518672690e+02, -3.066479806614716e+01, 2.506628277459239e+00]
    b = [-5.447609879822406e+01, 1.615858368580409e+02, -1.556989798598866e+02, 6.680131188771972e+01, -1.328068155288572e+01]
    c = [-7.784894002430293e-03, -3.223964580411365e-01, -2.400758277161838e+00, -2.549732539343734e+00, 4.374664141464968e+00, 2.938163982698783e+00]
    d = [7.784695709041462e-03, 3.224671290700398e-01, 2.445134137142996e+00, 3.754408661907416e+00]
    if p < 0.02425:
        q = math.sqrt(-2 * math.log(p))
        return (((((c[0] * q + c[1]) * q + c[2]) * q + c[3]) * q + c[4]) * q + c[5]) / ((((d[0] * q + d[1]) * q + d[2]) * q + d[3]) * q + 1)
    if p > 1 - 0.02425:
        return -_probit(1 - p)
    q = p - 0.5
    r = q * q
    return (((((a[0] * r + a[1]) * r + a[2]) * r + a[3]) * r + a[4]) * r + a[5]) * q / (((((b[0] * r + b[1]) * r + b[2]) * r + b[3]) * r + b[4]) * r + 1)


class HostClock:
    """Simulated wall clock with faults: early and late wake-ups, coarse ticks, slow steps (stalls)."""

    def __init__(self, cfg):
        cfg = cfg or {}
        self.rng = random.Random(cfg.get("seed", 0))
        self.now = float(cfg.get("base", 1000.0))
        self.tick = cfg.get("tick", 0.0)
        self.late = cfg.get("late", 0.0)
        self.late_max = cfg.get("late_max", 0.0)
        self.early = cfg.get("early", 0.0)
        self.stall = cfg.get("stall", 0.0)
        self.stall_max = cfg.get("stall_max", 0.0)
        self.counts = {"late": 0, "early": 0, "stall": 0, "sleep": 0}
        self.sleeps = 0

    def monotonic(self):
        if self.tick:
            return math.floor(self.now / self.tick + 1e-9) * self.tick
        return self.now

    def sleep(self, d):
        self.counts["sleep"] += 1
        self.sleeps += 1
        if self.sleeps > 200000:
            raise StepLimit("sleeping forever")
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        r = self.rng.random()
        if r < self.early and d > 1e-6:
            self.counts["early"] += 1
            d = d * self.rng.random()
        elif r < self.early + self.late:
            self.counts["late"] += 1
            d = d + self.rng.random() * self.late_max
        # a sleep makes progress on every host
        self.now += max(d, 1e-9 if not self.tick else self.tick)

    def work(self, lag=0.0):
        """Time taken by the computation of one step; the host never falls a second behind."""
        if self.stall and self.rng.random() < self.stall:
            room = min(self.stall_max, 0.9 - lag - self.tick - self.late_max)
            if room > 0:
                self.counts["stall"] += 1
                self.now += self.rng.random() * room


class Stdout:
    def __init__(self, rec):
        self.rec = rec

    def write(self, s):
        self.rec.out.append((self.rec.i, s))
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


class Step:
    __slots__ = ("i", "t", "ev", "s", "wall", "ready")

    def __init__(self, i, t, ev, s, wall=None):
        self.i, self.t, self.ev, self.s, self.wall = i, t, ev, s, wall
        self.ready = None


class Snap:
    """Observable state between two steps."""
    __slots__ = ("bufs", "raw_len", "states", "dms", "util", "stim", "focus", "attn")

    def key(self):
        return (self.bufs, self.states, self.dms, self.util, self.stim, self.focus, self.attn)


MODULE_STATES = ("state", "preparation", "processor", "execution")


class Recorder:
    """Records one simulation of one model."""

    def __init__(self, draws, clock=None, limit=20000, light=False):
        self.draws = draws
        self.clock = clock
        self.limit = limit
        self.light = light
        self.steps = []
        self.out = []
        self.i = 0
        self.sim = None
        self.env = None
        self.buffers = {}
        self.dm_list = []
        self.model = None
        self.environment = None
        self.last_event = None
        self.stimuli = []
        self._seen_chunks = {}
        self._stim_ids = {}
        self.mutated = []
        self.envs = []
        self.initial = None
        self._prev = None
        self.wall0 = 0.0
        self.t0 = 0.0

    # -- set up

    def attach(self, model, sim, buffers, dms, environment):
        self.model = model
        self.sim = sim
        self.buffers = buffers
        self.dm_list = dms
        self.environment = environment
        self.initial = self.snap()
        self._prev = self.initial

    # -- recording

    def canon(self, c):
        key = id(c)
        hit = self._seen_chunks.get(key)
        if hit is not None and hit[0] is c:
            return hit[1]
        k = canon.chunk(c)
        self._seen_chunks[key] = (c, k)
        return k

    def check_mutation(self):
        for c, k in list(self._seen_chunks.values()):
            now = canon.chunk(c)
            if now != k:
                self.mutated.append((self.i, k, now))
                self._seen_chunks[id(c)] = (c, now)

    def snap(self):
        s = Snap()
        bufs, lens, states = {}, {}, {}
        for name, b in self.buffers.items():
            content = [self.canon(c) if hasattr(c, "typename") else ("!", repr(c)) for c in b]
            bufs[name] = tuple(content)
            st = []
            for attr in MODULE_STATES:
                try:
                    st.append(getattr(b, attr))
                except AttributeError:
                    st.append(None)
            states[name] = tuple(st)
        s.bufs = bufs
        s.states = states
        s.dms = tuple(tuple((self.canon(c), tuple(float(x) for x in dm[c])) for c in dm) for dm in self.dm_list)
        rules = self.model.productions
        s.util = {name: rules[name]["utility"] for name in rules}
        if self.environment is not None:
            s.stim = self.environment.stimulus
            f = self.environment.current_focus
            s.focus = tuple(f) if f is not None else None
        else:
            s.stim = None
            s.focus = None
        s.attn = None
        for b in self.buffers.values():
            if self.environment is not None and hasattr(b, "autoattending") and hasattr(b, "current_focus"):
                s.attn = tuple(float(x) for x in b.current_focus)      # where attention is
        p = self._prev
        if p is not None and p.stim is not s.stim and p.stim == s.stim and self.environment.stimulus is not self.environment.stimulus:
            s.stim = p.stim        # (copies: it cannot be told whether the same screen is shown again)
        if p is not None and p.stim is s.stim and p.key() == s.key():
            return p
        return s

    def before(self, env):
        self.i += 1
        if self.i > self.limit:
            raise StepLimit("more than %d steps" % self.limit)

    def after(self, env):
        ev = None
        cur = self.sim.current_event if self.sim is not None else None
        if cur is not None and cur is not self.last_event:
            self.last_event = cur
            ev = (float(cur.time), cur.proc, str(cur.action))
        s = self.snap() if not self.light else None
        self._prev = s
        self.steps.append(Step(self.i, float(env.now), ev, s, self.clock.now if self.clock else None))
        if self.clock:
            self.clock.work(self.clock.now - self.wall0 - (float(env.now) - self.t0))
            self.steps[-1].ready = self.clock.now


def install():
    """Take over the seams (once per process)."""
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    import time

    from pyactr import motor, vision

    orig_step = simpy.core.Environment.step
    orig_init = simpy.core.Environment.__init__

    def step(self):
        global CURRENT
        rec = self.__dict__.get("_dst_rec")
        if rec is None:
            return orig_step(self)
        rec.before(self)
        prev, CURRENT = CURRENT, rec
        try:
            return orig_step(self)
        finally:
            CURRENT = prev
            rec.after(self)

    def init(self, *a, **k):
        orig_init(self, *a, **k)
        if CURRENT is not None:
            self._dst_rec = CURRENT
            CURRENT.envs.append(self)
            CURRENT.env = self

    simpy.core.Environment.step = step
    simpy.core.Environment.__init__ = init

    def capture(cls, kind):
        oi = cls.__init__

        def __init__(self, *a, **k):
            oi(self, *a, **k)
            if BUILDING is not None and type(self) is cls:
                BUILDING.append((kind, self))
        __init__.__wrapped__ = oi
        cls.__init__ = __init__

    capture(motor.Motor, "manual")
    capture(vision.Visual, "visual")
    capture(vision.VisualLocation, "visual_location")

    def logistic(loc=0.0, scale=1.0, size=None):
        return CURRENT.draws.logistic(CURRENT.i, loc, scale, size)

    def gamma(shape, scale=1.0, size=None):
        return CURRENT.draws.gamma(CURRENT.i, shape, scale, size)

    def mvn(mean, cov, size=None, *a, **k):
        return CURRENT.draws.mvn(CURRENT.i, mean, cov)

    for name, fn in (("logistic", logistic), ("gamma", gamma), ("multivariate_normal", mvn)):
        _real[name] = getattr(np.random, name)

        def wrapper(*a, _fn=fn, _orig=_real[name], **k):
            if CURRENT is None:
                return _orig(*a, **k)
            return _fn(*a, **k)
        setattr(np.random, name, wrapper)

    _real["sleep"], _real["monotonic"] = time.sleep, time.monotonic
    _real["rt_sleep"], _real["rt_monotonic"] = simpy.rt.sleep, simpy.rt.monotonic

    def clock():
        return CURRENT.clock if CURRENT is not None and CURRENT.clock else HOST

    def fake_sleep(d):
        c = clock()
        return c.sleep(d) if c is not None else _real["sleep"](d)

    def fake_monotonic():
        c = clock()
        return c.monotonic() if c is not None else _real["monotonic"]()

    time.sleep = fake_sleep
    simpy.rt.sleep = fake_sleep
    simpy.rt.monotonic = fake_monotonic


HOST = None      # the clock of the host of the current run, when the run has one
