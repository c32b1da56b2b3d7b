"""
A simulated window system and thread scheduler for the GUI front end (C18).

install() must run before pyactr is imported: it puts a fake tkinter in place and takes over threading.Thread, the queue
and time.sleep. The threads are real ones, but only the one that holds the baton runs; a seeded scheduler decides at every
yield point (queue and window operations, simulation steps, sleeping, and the lines of pyactr/simulation.py) who goes on.
"""

import queue as _queue
import random
import sys
import threading as _threading
import types

RealThread = _threading.Thread
RealSemaphore = _threading.Semaphore
RealQueue = _queue.Queue
SCHED = None
INSTALLED = False


class TooLong(BaseException):
    pass


class Scheduler:
    def __init__(self, cfg):
        cfg = cfg or {}
        self.rng = random.Random(cfg.get("seed", 0))
        self.cfg = cfg
        self.weight = cfg.get("window", 0.5)      # how often the window thread goes on, when either can
        self.line = cfg.get("line", 0.1)          # how often a line of the front end is a yield point
        self.starve = cfg.get("starve", 0.0)      # how often one thread is left alone for a long stretch
        self.close = cfg.get("close")             # the user closes the window at this poll
        self.limit = cfg.get("limit", 400000)
        self.points = 0
        self.switches = 0
        self.preempted = 0
        self.starved = 0
        self.alone = 0
        self.only = None
        self.main = Task(self, "window")
        self.main.state = "running"
        self.main.thread_id = _threading.get_ident()
        self.tasks = [self.main]
        self.current = self.main
        self.polls = 0
        self.log = []            # what happened, in order: (what, ...)
        self.dead = False
        self.sleep_total = 0.0
        self.ended_points = None

    # -- tasks

    def spawn(self, fn, name):
        t = Task(self, name)
        self.tasks.append(t)

        def body():
            t.sem.acquire()
            self.current = t
            t.thread_id = _threading.get_ident()
            sys.settrace(self.tracer if self.line else None)
            try:
                if not self.dead:
                    fn()
            except TooLong:
                pass
            except BaseException as e:
                t.exc = e
            finally:
                sys.settrace(None)
                t.state = "done"
                self.log.append(("ended", name, type(t.exc).__name__ if t.exc is not None else None, self.polls))
                self.handover(t)
        t.thread = RealThread(target=body, daemon=True)
        t.state = "ready"
        t.thread.start()
        return t

    def runnable(self, t):
        return t.state == "ready" or t.state == "running" or (t.state == "blocked" and t.cond())

    def handover(self, t):
        """Thread t is over or blocked: someone else goes on."""
        others = [x for x in self.tasks if x is not t and self.runnable(x)]
        if not others:      # whoever waits, waits in vain, and is to find out
            others = [x for x in self.tasks if x is not t and x.state == "blocked"]
        if not others:
            return False
        nxt = self.rng.choice(others)
        self.wake(nxt)
        return True

    def wake(self, nxt):
        nxt.state = "running"
        self.current = nxt
        self.switches += 1
        nxt.sem.release()

    def point(self, tag=None):
        """A moment at which another thread may go on."""
        me = self.current
        if me.thread_id != _threading.get_ident():
            return
        if self.dead:
            raise TooLong()
        self.points += 1
        if self.points > self.limit:
            self.dead = True
            raise TooLong()
        others = [x for x in self.tasks if x is not me and self.runnable(x)]
        if not others:
            return
        if self.alone > 0:
            self.alone -= 1
            if self.runnable(self.only):
                if self.only is me:
                    return
                self.switch(me, self.only)
                return
        if self.starve and self.rng.random() < self.starve:
            self.only = self.rng.choice([me] + others)
            self.alone = self.rng.choice([20, 100, 400])
            self.starved += 1
            if self.only is me:
                return
            self.switch(me, self.only)
            return
        pick = self.main if self.rng.random() < self.weight else self.rng.choice([x for x in [me] + others if x is not self.main] or [me])
        if pick is me or not self.runnable(pick):
            return
        self.switch(me, pick)

    def switch(self, me, other):
        me.state = "ready"
        other.state = "running"
        self.current = other
        self.switches += 1
        other.sem.release()
        me.sem.acquire()
        self.current = me
        me.state = "running"
        if self.dead:
            raise TooLong()

    def block(self, cond):
        """Wait until cond(); False if nobody is left who could make it true."""
        me = self.current
        while not cond():
            me.state, me.cond = "blocked", cond
            others = [x for x in self.tasks if x is not me and self.runnable(x)]
            if not others:
                me.state = "running"
                return False
            self.wake(self.rng.choice(others))
            me.sem.acquire()
            self.current = me
            me.state = "running"
            if self.dead:
                raise TooLong()
        return True

    def finish(self):
        """After the main thread is through: let the others come to their end; True if they do."""
        steps0 = len([x for x in self.log if x[0] == "step"])
        try:
            while any(t.state != "done" for t in self.tasks if t is not self.main):
                if len([x for x in self.log if x[0] == "step"]) - steps0 > 50:
                    self.dead = True
                    break
                others = [x for x in self.tasks if x is not self.main and self.runnable(x)]
                if not others:
                    break
                self.alone = 0
                self.switch(self.main, self.rng.choice(others))
        except TooLong:
            pass
        left = [t for t in self.tasks if t is not self.main and t.state != "done"]
        self.dead = True
        for t in left:
            t.sem.release()
            t.thread.join(5)
        return not left, len([x for x in self.log if x[0] == "step"]) - steps0

    def tracer(self, frame, event, arg):
        if not frame.f_code.co_filename.endswith("simulation.py") or "pyactr" not in frame.f_code.co_filename:
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and self.rng.random() < self.line:
            self.preempted += 1
            self.point("line")
        return self.local


class Task:
    def __init__(self, sched, name):
        self.name = name
        self.sem = RealSemaphore(0)
        self.state = "new"
        self.cond = None
        self.exc = None
        self.thread = None
        self.thread_id = None


class Thread:
    """threading.Thread under the scheduler."""

    def __new__(cls, *a, **k):
        if SCHED is None:
            return RealThread(*a, **k)
        return object.__new__(cls)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs or {}
        self.name = name or "worker"
        self.daemon = daemon
        self.task = None

    def start(self):
        self.task = SCHED.spawn(lambda: self.run(), "simulation")
        SCHED.log.append(("started",))
        SCHED.point("start")

    def run(self):
        if self.target is not None:
            self.target(*self.args, **self.kwargs)

    def is_alive(self):
        SCHED.point("alive")
        return self.task is not None and self.task.state != "done"

    def join(self, timeout=None):
        if timeout is not None:
            SCHED.point("join")
            return
        SCHED.block(lambda: self.task is None or self.task.state == "done")


class Lock:
    """threading.Lock and RLock under the scheduler."""
    again = False

    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = SCHED.current if SCHED is not None else None
        if SCHED is not None:
            SCHED.point("lock")
        if self.n and not (self.again and self.owner is me):
            if not blocking or SCHED is None:
                return False
            if not SCHED.block(lambda: self.n == 0):
                SCHED.log.append(("stuck",))
                raise RuntimeError("deadlock")
        self.owner, self.n = me, self.n + 1
        return True

    def release(self):
        if not self.n:
            raise RuntimeError("release unlocked lock")
        self.n -= 1
        if SCHED is not None:
            SCHED.point("unlock")

    def locked(self):
        return self.n > 0

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    again = True


class Event:
    """threading.Event under the scheduler."""

    def __init__(self):
        self.flag = False

    def is_set(self):
        if SCHED is not None:
            SCHED.point("flag")
        return self.flag

    isSet = is_set

    def set(self):
        if SCHED is not None:
            SCHED.point("flag")
        self.flag = True
        if SCHED is not None:
            SCHED.point("flag")

    def clear(self):
        if SCHED is not None:
            SCHED.point("flag")
        self.flag = False

    def wait(self, timeout=None):
        if SCHED is None or self.flag:
            return self.flag
        if timeout is not None:
            SCHED.sleep_total += timeout
            SCHED.point("wait")
            return self.flag
        if not SCHED.block(lambda: self.flag):
            SCHED.log.append(("stuck",))
            raise RuntimeError("deadlock")
        return True


class Queue(RealQueue):
    """queue.Queue under the scheduler (never blocks the process)."""

    def put(self, item, block=True, timeout=None):
        if SCHED is None:
            return RealQueue.put(self, item, block, timeout)
        SCHED.point("put")
        RealQueue.put(self, item, False)
        SCHED.point("put")

    def get(self, block=True, timeout=None):
        if SCHED is None:
            return RealQueue.get(self, block, timeout)
        SCHED.point("get")
        if block and timeout is None:
            if not SCHED.block(lambda: len(self.queue) > 0):
                SCHED.log.append(("stuck",))
                raise _queue.Empty
        x = RealQueue.get(self, False)
        SCHED.point("get")
        return x

    def qsize(self):
        if SCHED is not None:
            SCHED.point("qsize")
        return RealQueue.qsize(self)

    def empty(self):
        if SCHED is not None:
            SCHED.point("empty")
        return RealQueue.empty(self)

    def put_nowait(self, item):
        return self.put(item, False)

    def get_nowait(self):
        return self.get(False)


# ---------------------------------------------------------------- the window

class TclError(Exception):
    pass


TEXT_OPTIONS = {"activefill", "activestipple", "anchor", "angle", "disabledfill", "disabledstipple", "fill", "font", "justify", "offset", "state",
                "stipple", "tags", "tag", "text", "underline", "width"}
OVAL_OPTIONS = {"activedash", "activefill", "activeoutline", "activeoutlinestipple", "activestipple", "activewidth", "dash", "dashoffset", "disableddash",
                "disabledfill", "disabledoutline", "disabledoutlinestipple", "disabledstipple", "disabledwidth", "fill", "offset", "outline", "outlineoffset",
                "outlinestipple", "state", "stipple", "tags", "tag", "width"}
COLOURS = {"red", "green", "blue", "black", "white", "grey", "gray", "yellow", "orange", "purple", "brown", "pink"}


def check_options(kind, opts):
    legal = TEXT_OPTIONS if kind == "text" else OVAL_OPTIONS
    for k, v in opts.items():
        if k not in legal:
            raise TclError('unknown option "-%s"' % k)
        if k in ("fill", "outline", "activefill", "disabledfill") and str(v) and not str(v).startswith("#") and str(v).lower() not in COLOURS:
            raise TclError('unknown color name "%s"' % v)
        if k in ("width", "angle", "underline"):
            try:
                float(v)
            except (TypeError, ValueError):
                raise TclError('bad screen distance "%s"' % v)
        if k == "state" and v not in ("normal", "hidden", "disabled", ""):
            raise TclError('bad state "%s"' % v)
        if k == "anchor" and v not in ("n", "ne", "e", "se", "s", "sw", "w", "nw", "center"):
            raise TclError('bad anchor "%s"' % v)
        if k == "justify" and v not in ("left", "right", "center"):
            raise TclError('bad justification "%s"' % v)


class Canvas:
    def __init__(self, master=None, **kw):
        self.items = {}
        self.n = 0
        self.master = master
        if master is not None:
            master.canvases.append(self)

    def pack(self, **kw):
        pass

    grid = place = pack

    def alive(self):
        if self.master is not None and self.master.destroyed:
            raise TclError("invalid command name")

    def changed(self):
        SCHED.log.append(("canvas", self.texts(), self.ovals()))

    def texts(self):
        return tuple(sorted((str(i["opts"].get("text", "")), i["at"]) for i in self.items.values() if i["kind"] == "text"))

    def ovals(self):
        return tuple(i["at"] for i in self.items.values() if i["kind"] == "oval")

    def create(self, kind, *coords, **opts):
        self.alive()
        SCHED.point("draw")
        flat = []
        for c in coords:
            if isinstance(c, (list, tuple)):
                flat += list(c)
            else:
                flat.append(c)
        try:
            flat = [float(x) for x in flat]
        except (TypeError, ValueError):
            raise TclError("bad screen distance")
        if len(flat) != (2 if kind == "text" else 4):
            raise TclError("wrong # coordinates: expected %d, got %d" % (2 if kind == "text" else 4, len(flat)))
        check_options(kind, opts)
        self.n += 1
        tags = opts.pop("tags", opts.pop("tag", ()))
        self.items[self.n] = {"kind": kind, "at": tuple(flat), "opts": dict(opts), "tags": self.tags(tags)}
        self.changed()
        return self.n

    @staticmethod
    def tags(t):
        return set(t.split()) if isinstance(t, str) else set(t)

    def create_text(self, *coords, **opts):
        return self.create("text", *coords, **opts)

    def create_oval(self, *coords, **opts):
        return self.create("oval", *coords, **opts)

    def find(self, what):
        if isinstance(what, int):
            return [what] if what in self.items else []
        if what == "all":
            return list(self.items)
        return [i for i, x in self.items.items() if what in x["tags"] or str(i) == what]

    def find_withtag(self, tag):
        self.alive()
        SCHED.point("draw")
        return tuple(self.find(tag))

    def find_all(self):
        return self.find_withtag("all")

    def delete(self, *what):
        self.alive()
        SCHED.point("draw")
        for w in what:
            for i in self.find(w):
                del self.items[i]
        self.changed()

    def itemconfig(self, what, **opts):
        self.alive()
        SCHED.point("draw")
        for i in self.find(what):
            check_options(self.items[i]["kind"], opts)
            o = dict(opts)
            if "tags" in o or "tag" in o:
                self.items[i]["tags"] = self.tags(o.pop("tags", o.pop("tag", ())))
            self.items[i]["opts"].update(o)
        self.changed()

    itemconfigure = itemconfig

    def coords(self, what, *c):
        self.alive()
        for i in self.find(what):
            if c:
                flat = []
                for x in c:
                    flat += list(x) if isinstance(x, (list, tuple)) else [x]
                self.items[i]["at"] = tuple(float(x) for x in flat)
            else:
                return list(self.items[i]["at"])
        self.changed()

    def move(self, what, dx, dy):
        for i in self.find(what):
            a = self.items[i]["at"]
            self.items[i]["at"] = tuple(x + (dx, dy)[n % 2] for n, x in enumerate(a))
        self.changed()

    def update(self):
        SCHED.point("draw")

    update_idletasks = update


class Tk:
    def __init__(self, *a, **k):
        self.timers = []
        self.n = 0
        self.now = 0
        self.destroyed = False
        self.quitting = False
        self.canvases = []
        self.handlers = {}
        SCHED.root = self
        SCHED.log.append(("window",))

    def wm_title(self, *a):
        pass

    title = geometry = wm_geometry = config = configure = resizable = wm_title

    def protocol(self, name, fn=None):
        self.handlers[name] = fn

    wm_protocol = protocol

    def after(self, ms, fn=None, *args):
        if self.destroyed:
            raise TclError("can't invoke \"after\" command: application has been destroyed")
        if fn is None:
            SCHED.point("after")
            return
        self.n += 1
        self.timers.append((self.now + ms, self.n, fn, args))
        return "after#%d" % self.n

    def after_idle(self, fn, *args):
        return self.after(0, fn, *args)

    def after_cancel(self, ident):
        self.timers = [t for t in self.timers if "after#%d" % t[1] != ident]

    def mainloop(self, n=0):
        SCHED.log.append(("mainloop",))
        while not self.destroyed and not self.quitting:
            SCHED.point("loop")
            if SCHED.close is not None and SCHED.polls >= SCHED.close:
                SCHED.log.append(("closed by the user",))
                fn = self.handlers.get("WM_DELETE_WINDOW")
                if fn is not None:
                    fn()
                else:
                    self.destroy()
                SCHED.close = None
                continue
            if not self.timers:
                # nothing will ever happen in this window
                if not SCHED.block(lambda: bool(self.timers) or self.destroyed or self.quitting):
                    SCHED.log.append(("window stays",))
                    raise TooLong()
                continue
            self.timers.sort(key=lambda t: t[:2])
            due, _, fn, args = self.timers.pop(0)
            self.now = max(self.now, due)
            SCHED.polls += 1
            SCHED.log.append(("poll", SCHED.polls))
            try:
                fn(*args)
            except (SystemExit, KeyboardInterrupt, TooLong):
                raise
            except Exception as e:      # Tk reports it and goes on
                SCHED.log.append(("callback failed", type(e).__name__, str(e)[:200]))
            SCHED.log.append(("polled", SCHED.polls, [(c.texts(), c.ovals()) for c in self.canvases]))
            over = [x for x in SCHED.log if x[0] == "ended"]
            if over and SCHED.polls > over[0][3] + 5:
                SCHED.log.append(("window stays",))
                raise TooLong()

    def update(self):
        SCHED.point("update")

    update_idletasks = update

    def destroy(self):
        self.destroyed = True

    def quit(self):
        self.quitting = True


def install():
    """Before pyactr is imported."""
    global INSTALLED
    if INSTALLED:
        return
    if any(m == "pyactr" or m.startswith("pyactr.") for m in sys.modules):
        raise RuntimeError("the window system has to be replaced before pyactr is imported")
    INSTALLED = True
    tk = types.ModuleType("tkinter")
    tk.Tk, tk.Canvas, tk.TclError = Tk, Canvas, TclError
    tk.END, tk.ALL = "end", "all"
    sys.modules["tkinter"] = tk
    import simpy, simpy.rt, numpy, numpy.random, pyparsing      # so that only pyactr gets the replaced modules
    fake = types.ModuleType("threading")
    fake.__dict__.update({k: v for k, v in vars(_threading).items() if not k.startswith("__")})
    fake.Thread, fake.Event, fake.Lock, fake.RLock = Thread, Event, Lock, RLock
    fakeq = types.ModuleType("queue")
    fakeq.__dict__.update({k: v for k, v in vars(_queue).items() if not k.startswith("__")})
    fakeq.Queue = fakeq.SimpleQueue = Queue
    real = {k: sys.modules.get(k) for k in ("threading", "queue")}
    sys.modules.update(threading=fake, queue=fakeq)
    try:
        import pyactr
    finally:
        sys.modules.update(real)
    import time
    real_sleep = time.sleep

    def sleep(d):
        if SCHED is None:
            return real_sleep(d)
        if d < 0:
            raise ValueError("sleep length must be non-negative")
        SCHED.sleep_total += d
        SCHED.log.append(("sleep", d))
        SCHED.point("sleep")
    time.sleep = sleep
