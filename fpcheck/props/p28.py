"""P28: scene state files."""
import json
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field, scene as L, server

ASSUMPTIONS = ["the state file holds the source catalog, and the log next to it the patch history; bounds are derived again "
               "from the catalog on restart, as the code documents"]


def case_st():
    wr = st.fixed_dictionaries(dict(op=st.sampled_from(["write", "flush", "restart", "exit"]), name=st.booleans()))
    return st.fixed_dictionaries(dict(set=server.settings_st(), field=field.field_st(nmin=1, nmax=10, ext=18.0, large=(12, 40, 300), wrap=True),
                                      ops=st.lists(st.one_of(server.op_st(), server.op_st(), wr), min_size=3, max_size=20)))


def verify(led, path):
    cat = fits.getdata(path)
    src = led.db.sourcecat
    check(len(cat) == led.n, "state file has %d rows, scene %d", len(cat), led.n)
    check(set(cat.dtype.names) >= set(src.dtype.names), "columns missing from the state file: %s", set(src.dtype.names) - set(cat.dtype.names))
    for c in led.pcols:
        check(np.array_equal(cat[c], led.par[c]), "column %s of the state file differs from the scene", c)
    check(np.array_equal(cat["n_iter"], led.niter) and np.array_equal(cat["n_patch"], led.npatch), "counters differ in the state file")
    for c in ("id", "source_index", "roi", "is_active", "is_valid"):
        check(np.array_equal(cat[c], src[c]), "column %s of the state file differs from the scene", c)
    with open(path.replace(".fits", "_log.json")) as f:
        log = json.load(f)
    check(log["patchlog"] == [t for t, i in led.log], "patch log in the file %s, expected %s", log["patchlog"], [t for t, i in led.log])
    want = {}
    for t, idx in led.log:
        for i in idx:
            want.setdefault(str(i), []).append(t)
    check(log["sourcelog"] == want, "source log in the file %s, expected %s", log["sourcelog"], want)
    return cat


def body(case, info):
    d = tempfile.mkdtemp()
    writes = 0
    try:
        sf = os.path.join(d, "state.fits")
        led = server.Ledger(case, statefile=sf)
        for k, o in enumerate(case["ops"]):
            if o["op"] == "out":
                led.checkout(o, info)
            elif o["op"] == "in":
                led.checkin(o, info)
            elif o["op"] == "write":
                f = os.path.join(d, "other%d.fits" % k) if o["name"] else None
                led.db.writeout(f) if f else led.db.writeout()
                verify(led, f or sf)
                led.compare("after writing the state")
                writes += 1
            elif o["op"] == "flush":
                if led.out:
                    # check the oldest patch in with flush
                    act, fix = led.out.pop(0)
                    idx = act["source_index"].astype(int)
                    led.db.checkin_region(act, fix, niter=3, taskID="f%d" % k, flush=True)
                    led.niter[idx] += 3
                    led.npatch[idx] += 1
                    led.log.append(("f%d" % k, idx.tolist()))
                    led.compare("after a flushed check-in")
                    verify(led, sf)
                    writes += 1
            elif o["op"] == "exit":
                try:
                    with led.db as db:
                        check(db is led.db, "the context manager returns another object")
                        if o["name"]:
                            raise KeyError("stop")
                except KeyError:
                    pass
                verify(led, sf)
                writes += 1
            else:
                # a crash: outstanding patches are lost, the scene is rebuilt from the file
                led.db.writeout()
                cat = verify(led, sf)
                new = np.zeros(len(cat), dtype=led.db.sourcecat.dtype)
                for c in new.dtype.names:
                    new[c] = cat[c]
                led2 = server.Ledger.__new__(server.Ledger)
                led2.__dict__.update(led.__dict__)
                led2.db = server.build(case, new, led.bands, sf)
                led2.out, led2.log = [], []
                led2.bounds = led2.db.bounds_catalog.copy()
                p = len(led.pcols)
                led2.cov = np.stack([np.eye(p)] * led.n)
                led2.cat0 = new.copy()
                led = led2
                led.compare("after a restart")
                info.label("restarted")
                writes += 1
        led.check_logs()
        led.db.writeout()
        verify(led, sf)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    info.trivial_if(led.niter.sum() == 0 or not writes)


def subs():
    return [Sub("history", case_st, body, quick=900, shards=6, budget=60,
                rule="check-outs, check-ins, writes, flushes, context exits and restarts from the state file",
                nontrivial_rule="iterations were recorded and a state file was written in between")]
