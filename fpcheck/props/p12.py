"""P12: scene check-out/check-in bookkeeping over generated histories."""
from hypothesis import strategies as st

from ..core import Sub, check
from ..lib import field, server

ASSUMPTIONS = ["check-ins return the fixed sources that were handed out with the patch",
               "every source's outer radius is smaller than the maximum patch radius (otherwise a circular patch has no member)"]


def case_st():
    reset = st.just(dict(op="reset"))
    return st.fixed_dictionaries(dict(set=server.settings_st(), field=field.field_st(nmin=1, nmax=16, ext=18.0, large=(12, 40, 300, -60), wrap=True),
                                      ops=st.lists(st.one_of(server.op_st(), server.op_st(), server.op_st(), reset), min_size=4, max_size=25)))


def chain_case():
    """Long chains of overlapping sources, where groups are larger than the patch limit and reach other patches."""
    def mk(d):
        n = d["n"]
        src = [dict(x=round((i - n / 2) * d["step"], 3), y=d["wig"] * (i % 2), rhalf=0.1, roi=round(d["step"] * 0.7, 3)) for i in range(n)]
        return dict(set=dict(d["set"], cls="linked", useroi=True, boundary=d["boundary"], maxactive=d["maxactive"]),
                    field=dict(ra0=50.0, dec0=d["dec"], nb=1, src=src, seed=3), ops=d["ops"])
    return st.fixed_dictionaries(dict(n=st.integers(5, 24), step=st.sampled_from([0.5, 1.0, 2.0]), wig=st.sampled_from([0.0, 0.2]),
                                      dec=st.sampled_from([0.0, -40.0]), boundary=st.sampled_from([2.0, 4.0]),
                                      maxactive=st.integers(3, 12), set=server.settings_st(),
                                      ops=st.lists(server.op_st(), min_size=2, max_size=20))).map(mk)


def body(case, info):
    led = server.Ledger(case)
    for o in case["ops"]:
        if o["op"] == "out":
            r = led.checkout(o, info)
            if r is not None:
                led.bounds_and_covs(r[1])
        elif o["op"] == "in":
            led.checkin(o, info)
        else:
            led.db.reset()
            led.out = []
            led.niter[:] = 0
            led.npatch[:] = 0
            led.compare("after a reset")
    led.check_logs()
    # hand everything back; nothing stays behind
    while led.out:
        led.checkin(dict(k=len(led.out) // 2, niter=1, rng=1, cov=False, bounds=False, task=False, move=False, shuffle=False), info)
    check(led.db.n_active == 0 and led.db.n_fixed == 0, "counts left over: %s active, %s fixed", led.db.n_active, led.db.n_fixed)
    check(bool((led.db.sourcecat["is_valid"] > 0).all()), "sources left unavailable")
    info.label(case["set"]["cls"], "patches-%d" % min(led.given_out, 5), "refused-%d" % min(led.refused, 3))
    info.trivial_if(led.given_out < 2)


def subs():
    return [
        Sub("history", case_st, body, quick=2400, shards=6, budget=70,
            rule="check-outs (seeded or drawn), check-ins in any order, resets; circular and linked scenes, any limits; ledger compared after every step",
            nontrivial_rule="at least two patches handed out"),
        Sub("chains", chain_case, body, quick=800, shards=2, budget=70,
            rule="chains of overlapping sources longer than a patch", nontrivial_rule="at least two patches handed out"),
    ]
