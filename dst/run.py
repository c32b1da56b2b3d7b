"""
Executing a specification under the simulator: spec -> Run (one Recorder per session).

A spec describes one or more *sessions*: successive simulations of the same model, each driven in its own
way and possibly abandoned in the middle (the model, with its declarative memory, is what survives).
"""

import io
import random
import sys
import traceback
import warnings

import numpy as np
import simpy

from pyactr import utilities

from . import seam
from . import spec as specmod

END_REST, END_TIME, END_LIMIT, END_ERROR = "rest", "time", "limit", "error"


class Run:
    def __init__(self, spec):
        self.spec = spec
        self.recs = []
        self.built = None

    @property
    def rec(self):
        return self.recs[0]


def frames(tb, n=4):
    out = []
    for f in traceback.extract_tb(tb):
        if "/pyactr/" in f.filename:
            out.append("%s:%s" % (f.filename.rsplit("/", 1)[1], f.name))
    return out[-n:]


def root_exception(e):
    seen = set()
    while e.__cause__ is not None and id(e) not in seen:
        seen.add(id(e))
        e = e.__cause__
    return e


def describe(e):
    r = root_exception(e)
    return {"type": type(e).__name__, "msg": str(e)[:400], "root": type(r).__name__, "frames": frames(r.__traceback__) or frames(e.__traceback__)}


def drive(sim, session, rec, max_time):
    """Drive one simulation; returns how it ended."""
    mode = session.get("mode", "run")
    if mode == "run":
        sim.run(max_time)
    elif mode == "slices":
        for c in session["cuts"]:
            if sim.show_time() < c < max_time:
                sim.run(c)
        if sim.show_time() < max_time:
            sim.run(max_time)
    elif mode == "rerun":
        # to the end, and then on and on although nothing is left to do
        sim.run(max_time)
        for k in range(session.get("times", 2)):
            sim.run(max_time + 1 + k)
    elif mode in ("step", "steps", "mix"):
        rng = random.Random(session.get("seed", 0))
        try:
            while sim.show_time() < max_time:
                if mode == "step":
                    sim.step()
                elif mode == "steps":
                    sim.steps(1 + rng.randrange(4))
                else:
                    r = rng.random()
                    if r < 0.5:
                        sim.step()
                    elif r < 0.7:
                        sim.steps(1 + rng.randrange(5))
                    else:
                        t = sim.show_time() + rng.choice([0.001, 0.05, 0.05, 0.1, 0.085, 0.2])
                        if sim.show_time() < t < max_time:
                            sim.run(t)
                        else:
                            sim.run(max_time)
        except simpy.core.EmptySchedule:
            return END_REST
    else:
        raise ValueError(mode)
    return None


def run_spec(spec, light=False):
    seam.install()
    random.seed(0)
    np.random.seed(0)
    run = Run(spec)
    prev_out, prev_err = sys.stdout, sys.stderr
    sys.stderr = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            run.built = specmod.build_model(spec)
            sessions = spec.get("sessions") or [{"mode": "run"}]
            for k, session in enumerate(sessions):
                one_session(run, spec, session, k, light)
    finally:
        sys.stdout, sys.stderr = prev_out, prev_err
    return run


def one_session(run, spec, session, k, light):
    rng = dict(spec.get("rng") or {})
    rng["seed"] = rng.get("seed", 0) + 1000003 * k
    clock = None
    realtime = bool(session.get("realtime"))
    if realtime:
        clock = seam.HostClock(session.get("clock"))
    seam.HOST = clock
    rec = seam.Recorder(seam.Draws(rng), clock, limit=spec.get("limit", 6000), light=light)
    rec.session = session
    rec.exc = None
    rec.end = None
    run.recs.append(rec)
    sys.stdout = seam.Stdout(rec)
    max_time = session.get("max_time", spec.get("max_time", 1.0))
    try:
        sim = specmod.start(spec, run.built, rec, gui=may_show(spec, session), trace=session.get("trace", True), realtime=realtime)
        rec.now0 = float(sim.show_time())
        end = drive(sim, session, rec, max_time)
        rec.end = end or END_TIME
    except seam.StepLimit as e:
        rec.end = END_LIMIT
        rec.exc = {"type": "StepLimit", "msg": str(e)}
    except (KeyboardInterrupt, SystemExit, seam.WallStop):
        raise
    except BaseException as e:
        rec.end = END_ERROR
        rec.exc = describe(e)
    finally:
        sys.stdout = sys.__stdout__
        seam.HOST = None
    rec.check_mutation()
    rec.final = rec.snap() if rec.initial is not None else None
    rec.t_end = float(rec.env.now) if rec.env is not None else None
    rec.rest = at_rest(rec.env)
    return rec


def may_show(spec, session):
    """Ask for a window where there can be none (no environment, or no tkinter)?"""
    from pyactr import simulation
    return bool(session.get("gui")) and (not spec.get("env") or not simulation.GUI)


def at_rest(env):
    """Is nothing left that could happen? (simpy puts the event that ended a run() back in the queue, without callbacks.)"""
    if env is None:
        return False
    return not any(item[-1].callbacks for item in env._queue)
