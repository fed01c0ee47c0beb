"""Analyses of one check on several cores: each job runs in a forked process
and returns plain data."""
import multiprocessing
import os
import sys
import threading
import traceback

_ctx = {}


def _run(i):
    fn, args = _ctx["jobs"][i]
    out = []

    def body():
        try:
            out.append(("ok", fn(*args)))
        except Exception as e:
            traceback.print_exc()
            out.append(("error", "%s: %s" % (type(e).__name__, str(e)[:300])))
    sys.setrecursionlimit(1000000)
    threading.stack_size(1 << 29)
    t = threading.Thread(target=body)
    t.start()
    t.join()
    return out[0] if out else ("error", "the analysis ended without a result")


def run_jobs(jobs):
    """Results, in order: ("ok", value) or ("error", text)."""
    if len(jobs) < 2 or os.environ.get("YV_SERIAL"):
        _ctx["jobs"] = jobs
        return [_run(i) for i in range(len(jobs))]
    _ctx["jobs"] = jobs
    c = multiprocessing.get_context("fork")
    with c.Pool(min(8, len(jobs))) as p:
        return p.map(_run, range(len(jobs)), chunksize=1)


class Stats:
    """What an analysis covered, as plain data."""
    def __init__(self, R=None):
        self.analysed, self.nstates, self.callsites = set(), 0, 0

    def use(self, E):
        self.analysed |= set(E.analysed)
        self.nstates += E.nstates
        self.callsites += E.callsites

    def plain(self):
        return (self.analysed, self.nstates, self.callsites)

    @staticmethod
    def of(p):
        s = Stats()
        s.analysed, s.nstates, s.callsites = p
        return s
