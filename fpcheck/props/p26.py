"""P26: the work queue and its event loop, over simulated completion schedules."""
import json
import logging
import os
import shutil
import tempfile
from argparse import Namespace

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field, scene as L, simmpi

ASSUMPTIONS = ["MPI is simulated: completed requests become inactive, the order of completed indices is arbitrary, nothing is lost by MPI itself",
               "no source is crowded out of the patch it seeds (the patch size limit is at least the number of sources ranked before it)",
               "children answer with the documented keys final, covs and out"]


def dispatcher(world):
    mpi = simmpi.module(world)
    import forcepho.dispatcher as d
    d.MPI = mpi
    log = logging.getLogger("fpcheck-dispatcher")
    log.setLevel(logging.CRITICAL)
    d.logger = log
    return d


# --- the queue ---

def queue_st():
    op = st.one_of(st.tuples(st.just("submit"), st.booleans()), st.tuples(st.just("submit"), st.booleans()),
                   st.tuples(st.just("finish"), st.integers(0, 7)), st.tuples(st.just("finish"), st.integers(0, 7)),
                   st.tuples(st.just("collect"), st.sampled_from(["no", "no", "yes", "all"])),
                   st.tuples(st.just("close"), st.sampled_from([False, False, True])))
    return st.fixed_dictionaries(dict(n=st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 40)), seed=st.integers(0, 9999), ops=st.integers(6, 40).flatmap(lambda k: st.lists(op.map(list), min_size=k, max_size=k))))


def queue(case, info):
    n = case["n"]
    world = simmpi.World(n, case["seed"], lambda c, t, tag: dict(child=c, task=t["task"]))
    d = dispatcher(world)
    q = d.MPIQueue(world, n)
    out = {}             # child -> task number
    k = 0
    most = got_total = 0

    def state(when):
        check(len(q.idle) == len(set(q.idle)) and set(q.idle) == set(range(1, n + 1)) - set(out), "%s: idle children %s, outstanding %s", when, q.idle, sorted(out))
        check(sorted(q.busy) == sorted(out), "%s: busy children %s, outstanding %s", when, q.busy, sorted(out))
    state("start")
    for op, arg in case["ops"]:
        if op == "submit":
            k += 1
            task = dict(task=k)
            before = len(world.sent)
            if len(out) == n:
                try:
                    q.submit(task, tag=k)
                    ok = True
                except RuntimeError:
                    ok = False
                check(not ok and len(world.sent) == before, "a task was accepted although every child is busy")
            else:
                c = q.submit(task, tag=k)
                check(len(world.sent) == before + 1 and world.sent[-1] == (c, task, k), "submission %s sent %s", (c, task, k), world.sent[before:])
                check(c not in out, "child %s got a second task", c)
                out[c] = k
        elif op == "finish":
            w = world.working()
            if w:
                world.finish(w[arg % len(w)])
        elif op == "collect":
            ready = set(world.finished())
            try:
                if arg == "no":
                    res = q.collect()
                elif arg == "yes":
                    res = q.collect(blocking=True)
                else:
                    res = q.collect(blocking="all")
            except RuntimeError:
                check(arg == "yes" and not out, "collect (%s) refused with %d tasks outstanding", arg, len(out))
                state("refused collect")
                continue
            check(not (arg == "yes" and not out), "a blocking collect with nothing outstanding returned %s", res)
            res = list(res)
            who = [r["child"] for r in res]
            check(len(who) == len(set(who)), "a result was returned twice: %s", res)
            for r in res:
                check(out.get(r["child"]) == r["task"], "result %s does not belong to an outstanding task %s", r, out)
            check(ready <= set(who), "finished children %s, collected %s", sorted(ready), sorted(who))
            if arg == "no":
                check(set(who) == ready, "a non-blocking collect returned %s when %s had finished", who, ready)
            elif arg == "yes":
                check(len(who) >= 1, "a blocking collect returned nothing")
            else:
                check(set(who) == set(out), "collecting all left %s", sorted(set(out) - set(who)))
            most = max(most, len(who))
            got_total += len(who)
            for c in who:
                del out[c]
        elif op == "close":
            if not arg and out:
                continue
            try:
                q.closeout()
                ok = True
            except RuntimeError:
                ok = False
            check(ok == (not out), "closing with %d tasks outstanding %s", len(out), "worked" if ok else "was refused")
            want = 1 if ok else 0
            check(all(v == want for v in world.killed.values()), "shutdown messages per child: %s", world.killed)
            if ok:
                break
        state(op)
    info.label("workers-%d" % n, "batch-%d" % min(most, 4))
    info.trivial_if(got_total < 2)


# --- the event loop ---

def loop_st():
    return st.fixed_dictionaries(dict(
        field=field.field_st(nmin=3, nmax=10, ext=10.0, large=(30,), wrap=True), n=st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 20)), seed=st.integers(0, 9999), eager=st.sampled_from([0.0, 0.3, 0.8]),
        draws=st.sampled_from([20, 24, 30]), target=st.sampled_from([5, 20, 30]), maxactive=st.integers(1, 5), maxradius=st.sampled_from([2.0, 4.0, 6.0]), infile=st.booleans()))


def loop(case, info):
    cat, bands = field.catalog(case["field"])
    nsrc, P = len(cat), len(bands) + 6
    # a patch has room for its seed: sources that others always crowd out are never reached (see DESIGN.md)
    xy = field.coords(cat)
    outer = np.hypot(xy[:, None, 0] - xy[None, :, 0], xy[:, None, 1] - xy[None, :, 1]) + 3 * cat["rhalf"][None, :]
    need = max(int((outer[i] <= outer[i, i] + 1e-6).sum()) for i in range(nsrc))
    maxactive = max(case["maxactive"], need)
    out, tasks, answers = {}, {}, {}

    def work(child, task, tag):
        act = task["active"].copy()
        idx = [int(i) for i in act["source_index"]]
        rs = np.random.RandomState(int(tag) + 17)
        for b in bands:
            act[b] = rs.uniform(1, 40, len(act))
        act["sersic"] = rs.uniform(1.1, 4.5, len(act))
        covs = rs.uniform(0.1, 1, (len(act), P, P))
        answers[tag] = act.copy()
        return dict(final=act, covs=covs, out=Namespace(fixed=task["fixed"]), fpcheck_tag=tag)

    class Watch(simmpi.World):
        def send(self, obj, dest, tag=0):
            self.drift()
            super().send(obj, dest, tag)
            if obj is not None:
                idx = [int(i) for i in obj["active"]["source_index"]]
                for t, other in out.items():
                    check(not set(idx) & set(other), "sources %s are active in tasks %s and %s at the same time", set(idx) & set(other), t, tag)
                check(tag not in tasks, "two tasks carry the number %s", tag)
                tasks[tag] = idx
                out[tag] = idx
                for c in bands + L.SHAPES:
                    check(field.same_col(c, obj["active"][c], latest[c][idx]), "task %s was sent out-of-date %s", tag, c)
                want = np.zeros((len(idx) * P, len(idx) * P))
                for k, i in enumerate(idx):
                    want[k * P:(k + 1) * P, k * P:(k + 1) * P] = latest_cov[i]
                check(np.shape(obj["cov"]) == want.shape and np.allclose(obj["cov"], want), "task %s was not sent the latest covariances of its sources %s", tag, idx)
                check([int(b["source_index"]) for b in obj["bounds"]] == [0] * len(idx) or len(obj["bounds"]) == len(idx), "bounds of task %s", tag)

        def _deliver(self, req, status):
            msg = super()._deliver(req, status)
            t = msg["fpcheck_tag"]
            idx = out.pop(t)
            for c in bands + L.SHAPES:
                latest[c][idx] = msg["final"][c]
            latest_cov[idx] = msg["covs"]
            history.append(t)
            return msg
    history = []
    latest_cov = np.array([np.eye(P)] * nsrc)
    hdr = fits.Header()
    hdr["FILTERS"] = ",".join(bands)
    tmp = tempfile.mkdtemp(prefix="disp-")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        raw = (cat.copy(), hdr)
        if case["infile"]:
            fits.HDUList([fits.PrimaryHDU(header=hdr), fits.BinTableHDU(cat.copy())]).writeto("cat.fits")
            raw = "cat.fits"
        from forcepho.superscene import rectify_catalog
        rect = rectify_catalog((cat.copy(), hdr))[0]
        latest = {c: rect[c].copy() for c in bands + L.SHAPES}
        world = Watch(case["n"], case["seed"], work, eager=case["eager"])
        d = dispatcher(world)
        np.random.seed(case["seed"])
        cfg = Namespace(raw_catalog=raw, maxactive_per_patch=maxactive, patch_maxradius=case["maxradius"], target_draws=case["target"],
                        scene_catalog="scene.fits", sampling_draws=case["draws"], ntry_checkout=4)
        d.do_parent(world, config=cfg)
        final = fits.getdata("scene.fits")
        with open("scene_log.json") as f:
            log = json.load(f)
        with open("patchlog.dat") as f:
            plog = json.load(f)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
    check(sorted(history) == sorted(tasks), "tasks %s were sent, results of %s received", sorted(tasks), sorted(history))
    check(all(v == 1 for v in world.killed.values()), "shutdown messages per child: %s", world.killed)
    npatch = np.zeros(nsrc, int)
    for idx in tasks.values():
        npatch[idx] += 1
    check(np.array_equal(final["n_patch"], npatch), "patches per source %s, results received %s", final["n_patch"].tolist(), npatch.tolist())
    check(np.array_equal(final["n_iter"], npatch * case["draws"]), "iterations per source %s, expected %s", final["n_iter"].tolist(), (npatch * case["draws"]).tolist())
    check(np.all(final["n_iter"] >= case["target"]), "stopped before the target: %s", final["n_iter"].tolist())
    check(not final["is_active"].any(), "sources left active at the end: %s", np.flatnonzero(final["is_active"]).tolist())
    for c in bands + L.SHAPES:
        check(np.array_equal(final[c], latest[c]), "final %s is not that of the last result", c)
    check(plog.keys() == {str(t) for t in tasks} and all(plog[str(t)]["sources"] == tasks[t] for t in tasks), "patch log %s, tasks %s", plog, tasks)
    want = {}
    for t in history:
        for i in tasks[t]:
            want.setdefault(str(i), []).append(str(t))
    check(log["sourcelog"] == want, "source log %s, expected %s", log["sourcelog"], want)
    check(sorted(log["patchlog"]) == sorted(str(t) for t in tasks), "patches logged %s, tasks %s", log["patchlog"], sorted(tasks))
    info.label("workers-%d" % case["n"], "tasks-%d" % min(len(tasks) // 4, 5))
    info.trivial_if(len(tasks) < 2)


def subs():
    return [
        Sub("queue", queue_st, queue, quick=3000, shards=3, rule="histories of submissions, completions, collections and shutdowns over 1-7 children", nontrivial_rule="at least two results collected"),
        Sub("loop", loop_st, loop, quick=400, shards=5, budget=60, rule="the parent's event loop on generated fields until the target is reached, with generated completion schedules", nontrivial_rule="at least two tasks"),
    ]
