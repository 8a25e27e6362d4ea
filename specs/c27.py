"""C27: a distribution report computed by helper processes is the one computed without"""
import contextlib, io, itertools, multiprocessing, os, pickle, random, re, shutil, signal, tempfile, threading, time
from pv.api import *
from specs.c10 import Options

MODULES = ("javatools", "javatools.pack", "javatools.opcodes", "javatools.change", "javatools.classdiff", "javatools.dirutils", "javatools.ziputils",
           "javatools.manifest", "javatools.jardiff", "javatools.distdiff")


# ---------------------------------------------------------------- contracts: what the queues may do is assumed, nothing else

class World:
    """queues lose and repeat nothing, and deliver the work to helpers, and their results back, in any order (order: which of the waiting tasks is done next)"""
    def __init__(self, order):
        self.order, self.queues, self.started, self.visible, self.inside = list(order), [], [], [], False

    def queue(self):
        q = Queue(self)
        self.queues.append(q)
        return q

    def work(self, results):
        """some helper does some task"""
        for q in self.queues:
            waiting = [x for x in q.items if x is not None]
            if q is not results and waiting:
                task = waiting[self.order.pop(0) % len(waiting)]
                q.items = [x for x in q.items if x is not task]
                ensure(len(self.started) > 0, "there is a helper to do the work")
                p = self.started[0]
                self.visible, self.inside = [task, None], True
                p.target(*p.args)
                self.inside = False
                ensure(self.visible == [], "a helper goes on until it is told to stop")
                return
        ensure(False, "a result is awaited that nobody is working on")

    def finished(self):
        stops = [x for q in self.queues for x in q.items if x is None]
        left = [x for q in self.queues for x in q.items if x is not None]
        ensure(left == [], "all work is done and all of its results are taken")
        ensure(len(stops) >= len(self.started), "every helper is told to stop")


class Queue:
    def __init__(self, world):
        self.world, self.items = world, []

    def put(self, x):
        self.items.append(x)

    def get(self):
        w = self.world
        if w.inside:
            return w.visible.pop(0)
        if not self.items:
            w.work(self)
        return self.items.pop(0)


class Process:
    world = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.daemon = target, args, daemon

    def start(self):
        Process.world.started.append(self)

    def join(self, timeout=None):
        pass

    def is_alive(self):
        return False


class Swapped:
    """multiprocessing's queues and processes replaced, also where a module has imported them"""
    def __init__(self, module, queue, process):
        self.where = [m for m in (multiprocessing, module)]
        self.new = {"Queue": queue, "Process": process}

    def __enter__(self):
        self.old = []
        for m in self.where:
            for n in ("Queue", "Process"):
                if hasattr(m, n):
                    self.old.append((m, n, getattr(m, n)))
                    setattr(m, n, self.new[n])

    def __exit__(self, *a):
        for m, n, x in self.old:
            setattr(m, n, x)


def stub(L, base, k, v, events):
    """an arbitrary finding: what it says before and after being checked is unknown, and after being cleared it says nothing"""
    class Finding(base):
        def __init__(self):
            self.checked = self.cleared = False
            self.changed, self.description = False, None
            self.entry, self.label = v["entry"], v["label"]

        def check(self):
            events.append(k)
            self.checked = True

        def is_change(self):
            if self.cleared:
                return False
            return v["changed"] if self.checked else v["before"]

        def is_ignored(self, options):
            if self.cleared:
                return False
            return v["ignored"]

        def get_description(self):
            return "cleared" if self.cleared else v["desc"]

        def clear(self):
            self.cleared = True

    return Finding()


def finding(w, k, some):
    return {"type": w.choice("type%d" % k, some), "before": w.bool("before%d" % k), "changed": w.bool("changed%d" % k), "ignored": w.bool("ignored%d" % k),
            "desc": w.str("desc%d" % k, lo=1), "label": w.str("label%d" % k), "entry": w.str("entry%d" % k)}


class Rpt:
    def __init__(self, options):
        self.options, self.ran = options, []

    def setup(self):
        pass

    def subreporter(self, entry, name):
        return self

    def run(self, change):
        self.ran.append(bool(change.is_change()))


@contract
class Merged(Contract):
    """the findings, in order, with their verdicts, whoever did the work and in whichever order it came back"""
    prop = "C27"
    name = "merged findings"
    functions = ("javatools.distdiff:DistReport.mp_check_impl", "javatools.distdiff:_mp_run_check", "javatools.distdiff:DistReport.check_impl", "javatools.distdiff:DistReport.check",
                 "javatools.change:squash")
    bound = "up to three findings, every order of the results of their sub-reports, one or three helpers; the queues are assumed to lose and repeat nothing"
    must_cover = ("alone", "helpers", "nothing to do")
    summaries = {}
    maxpaths = 20000

    def inputs(self, w):
        n = w.choice("n", (0, 1, 2, 3))
        fs = [finding(w, k, ("jar", "class", "other") if n < 3 else ("jar", "other")) for k in range(n)]
        m = sum(1 for f in fs if f["type"] != "other")
        return fs, w.choice("order", tuple(itertools.product(*[range(m - j) for j in range(m)]))), w.choice("helpers", (0, 1, 3))

    def run(self, L, inp):
        D = L.distdiff
        fs, order, helpers = inp
        events = []
        bases = {"jar": D.DistJarReport, "class": D.DistClassReport, "other": D.DistContentChange}

        class Whole(D.DistReport):
            def collect_impl(self):
                return iter([stub(L, bases[f["type"]], k, f, events) for k, f in enumerate(fs)])
        opts = Options(1)
        opts.processes = helpers
        rpt = Rpt(opts)
        world = Process.world = World(order)
        with Swapped(D, world.queue, Process):
            c = Whole("left", "right", rpt)
            c.check()
            world.finished()
        ensure(len(world.started) <= helpers, "no more helpers than asked for")
        kept = [(x.is_change(), x.is_ignored(opts), x.get_description(), x.entry) for x in c.changes]
        return bool(c.is_change()), kept, sorted(events), rpt.ran

    def spec(self, inp):
        fs, order, helpers = inp
        some = False
        for f in fs:
            some = some or bool(f["changed"])
        cover("alone" if not helpers else "helpers" if order else "nothing to do")
        return some, [(f["changed"], f["ignored"], f["desc"], f["entry"]) for f in fs], list(range(len(fs))), [some]


# ---------------------------------------------------------------- whole reports, under drawn schedules

class Stopped(BaseException):
    pass


class Scheduler:
    """helpers take turns: each runs until it next uses a queue, and which goes on is drawn"""
    def __init__(self, r):
        self.r, self.helpers, self.failed, self.stop = r, [], [], False

    def queue(self, *a, **k):
        return TurnQueue(self)

    def process(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        return Turns(self, target, args, kwargs or {})

    def enabled(self):
        return [h for h in self.helpers if h.running and h.ready()]

    def step(self):
        h = self.r.choice(self.enabled())
        h.go.set()
        h.parked.wait()
        h.parked.clear()

    def some(self):
        while self.enabled() and self.r.random() < 0.6:
            self.step()

    def until(self, ready):
        while not ready():
            if not self.enabled():
                raise AssertionError("everyone is waiting for everyone else")
            self.step()

    def end(self):
        while self.enabled():
            self.step()
        left = [h for h in self.helpers if h.running]
        if self.failed:
            raise self.failed[0]
        if left:
            raise AssertionError("%d helpers are never told to stop" % len(left))

    def kill(self):
        self.stop = True
        for h in self.helpers:
            if h.running:
                h.go.set()
                h.parked.wait()


class Turns:
    def __init__(self, s, target, args, kwargs):
        self.s, self.target, self.args, self.kwargs, self.daemon = s, target, args, kwargs, None
        self.go, self.parked, self.running, self.ready = threading.Event(), threading.Event(), False, lambda: True
        self.exitcode = None

    def start(self):
        self.running = True
        self.s.helpers.append(self)
        self.thread = threading.Thread(target=self.main, daemon=True)
        self.thread.start()
        self.parked.wait()
        self.parked.clear()
        self.s.some()

    def main(self):
        try:
            self.turn(lambda: True)
            self.target(*self.args, **self.kwargs)
        except Stopped:
            pass
        except Exception as e:
            self.s.failed.append(e)
        self.running, self.exitcode = False, 0
        self.parked.set()

    def turn(self, ready):
        self.ready = ready
        self.parked.set()
        self.go.wait()
        self.go.clear()
        if self.s.stop:
            raise Stopped()

    def join(self, timeout=None):
        self.s.until(lambda: not self.running)

    def is_alive(self):
        return self.running

    def terminate(self):
        pass


class TurnQueue:
    """what is put is copied, as it is for another process, at some time before it is got"""
    def __init__(self, s):
        self.s, self.items = s, []

    def here(self):
        for h in self.s.helpers:
            if h.running and threading.current_thread() is h.thread:
                return h

    def put(self, x, *a, **k):
        h = self.here()
        if h:
            h.turn(lambda: True)
        self.items.append((True, pickle.dumps(x)) if self.s.r.random() < 0.5 else (False, x))
        if not h:
            self.s.some()

    def get(self, *a, **k):
        h = self.here()
        if h:
            h.turn(lambda: bool(self.items))
        else:
            self.s.some()
            self.s.until(lambda: bool(self.items))
        copied, x = self.items.pop(0)
        return pickle.loads(x if copied else pickle.dumps(x))

    def empty(self):
        return not self.items

    def qsize(self):
        return len(self.items)

    def close(self):
        pass

    join_thread = cancel_join_thread = close


def files(top):
    out = {}
    for d, _, names in os.walk(top):
        for n in names:
            with open(os.path.join(d, n), "rb") as f:
                out[os.path.relpath(os.path.join(d, n), top)] = f.read()
    return out


def options_alike(data):
    return re.sub(rb'"processes": \d+', b'"processes": N', data)


OPTIONS = ((), ("--ignore-manifest",), ("--ignore-filenames=*.jar",), ("--ignore-trailing-whitespace", "--show-ignored"), ("--show-unchanged",), ("-j",), ("--shallow",))


class Whole(Contract):
    prop = "C27"
    functions = ("javatools.distdiff:main", "javatools.distdiff:cli_dist_diff", "javatools.distdiff:DistReport.check", "javatools.distdiff:DistReport.mp_check_impl",
                 "javatools.distdiff:_mp_run_check", "javatools.report:Reporter.subreporter", "javatools.report:Reporter.run")
    symbolic = False
    must_cover = ("several sub-reports", "same", "different")

    def inputs(self, w):
        return {"seed": w.int("seed", 0, 2 ** 31), "processes": w.int("processes", 1, 5), "schedule": w.int("schedule", 0, 2 ** 31)}

    def report(self, L, args, d, processes):
        out = io.StringIO()
        top = os.path.join(d, "out")
        with contextlib.redirect_stdout(out):
            code = L.distdiff.main(["distdiff"] + args + ["--processes", str(processes), "--report-dir", top, os.path.join(d, "l"), os.path.join(d, "r")])
        # a report says with which options it was made
        got = {n: options_alike(b) for n, b in files(top).items()}
        shutil.rmtree(top, ignore_errors=True)
        return code, options_alike(out.getvalue().encode("utf8")), got

    def run(self, L, inp):
        from specs.c23 import TreeMaker, write_tree
        r = random.Random(inp["seed"])
        maker = TreeMaker(r)
        left, right = maker.make()
        for n in ("d/A.class", "d/B.class", "d/x.jar", "e/y.jar", "f/A.class"):
            if r.random() < 0.6:
                left[n], right[n] = maker.entry(n.replace("B.c", "A.c")), maker.entry(n.replace("B.c", "A.c"))
        args = list(r.choice(OPTIONS)) + ["--report=text,json"]
        with tempfile.TemporaryDirectory() as d:
            write_tree(left, os.path.join(d, "l"))
            write_tree(right, os.path.join(d, "r"))
            alone = self.report(L, args, d, 0)
            helped = self.helped(L, inp, args, d)
        reports = len([n for n in alone[2] if n.endswith(".json")])
        return alone, helped, reports

    def post(self, inp, got):
        ensure(got[0] == "ret", "the report is computed: %r" % (got[1],))
        alone, helped, reports = got[1]
        cover("same" if alone[0] == 0 else "different")
        if reports > 2:
            cover("several sub-reports")
        ensure(alone[0] == helped[0], "exit status %r instead of %r" % (helped[0], alone[0]))
        ensure(sorted(alone[2]) == sorted(helped[2]), "sub-reports %r instead of %r" % (sorted(helped[2]), sorted(alone[2])))
        for n in alone[2]:
            ensure(alone[2][n] == helped[2][n], "content of %s: %r instead of %r" % (n, helped[2][n][:300], alone[2][n][:300]))
        ensure(alone[1] == helped[1], "printed %r instead of %r" % (helped[1][:600], alone[1][:600]))


@contract
class Scheduled(Whole):
    name = "reports under drawn schedules"
    bound = "drawn trees; one to five helpers taking turns at every use of a queue, in a drawn order"
    cases_quick = 250
    cases_thorough = 4000

    def helped(self, L, inp, args, d):
        s = Scheduler(random.Random(inp["schedule"]))
        try:
            with Swapped(L.distdiff, s.queue, s.process):
                got = self.report(L, args, d, inp["processes"])
                s.end()
            return got
        finally:
            s.kill()


@contract
class Processes(Whole):
    name = "reports by real processes"
    bound = "drawn trees; one to five processes scheduled by the system"
    cases_quick = 12
    cases_thorough = 200

    def helped(self, L, inp, args, d):
        # in a session of its own, which can be ended if it does not end
        answer = os.path.join(d, "answer")
        pid = os.fork()
        if not pid:
            code = 1
            try:
                os.setsid()
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                got = self.report(L, args, d, inp["processes"])
                for p in multiprocessing.active_children():
                    p.join()
                with open(answer, "wb") as f:
                    pickle.dump(got, f)
                code = 0
            finally:
                os._exit(code)
        until, status = time.time() + 15, None
        try:
            while os.waitpid(pid, os.WNOHANG)[0] == 0:
                ensure(time.time() < until, "the report is done, and every helper stops")
                time.sleep(0.01)
            status = 0
        finally:
            try:
                os.killpg(pid, signal.SIGKILL)
            except OSError:
                pass
            if status is None:
                os.waitpid(pid, 0)
        with open(answer, "rb") as f:
            return pickle.load(f)
