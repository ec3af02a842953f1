"""Record runs of the real code, validate them against a trace specification,
report those that are not behaviours of it (after repeating the run)."""
import copy, json
import noc, vt


def run_all(envs, timeout=120):
    vt.pmap(lambda e: e.configure(), envs)
    noc.build(envs)
    vt.note("built %d binaries for %d scenarios" % (len({e.key for e in envs}), len(envs)))
    res = vt.pmap(lambda e: noc.run(e, timeout), envs)
    vt.note("ran")
    return res


def describe(tr, l):
    ev = tr["ev"]
    lo = max(0, l - 4)
    return "event %d of %d: %s  (before it: %s)" % (l, len(ev), json.dumps(ev[l]) if l < len(ev) else "end of trace",
                                                 json.dumps(ev[lo:l]))


def judge(chk, items, spec, rerun=None, extra_cfg="", label=lambda i: str(i), keyf=lambda i, l, tr: None, replay=lambda i: {},
          **kw):
    """items: traces.  rerun(i) gives the trace of a second run (None: same)."""
    bad, st, tr = vt.validate(spec, items, extra_cfg, **kw)
    chk.states += st
    chk.trans += tr
    chk.traces += len(items)
    for i, l, s, what in bad:
        again = rerun(i) if rerun else None
        if again is not None:
            b2, s2, t2 = vt.validate(spec, [again], extra_cfg, **kw)
            chk.states += s2
            chk.trans += t2
            if not b2:
                vt.note("run %s not repeated, ignored" % label(i))
                continue
            _, l, s, what = b2[0]
            t = again
        else:
            t = items[i]
        d = describe(t, l)
        chk.violation("%s: %s: %s" % (label(i), what, d),
                      dict(replay(i), event=l, trace=t["ev"][:l + 1], cfg=t["cfg"], state=s), key=keyf(i, l, t))
    return bad


def must_reject(chk, spec, trace, mutate, extra_cfg="", name="corrupted trace", **kw):
    """The specification has to reject a trace with one falsified record."""
    t = copy.deepcopy(trace)
    if mutate(t) is False:
        return False
    bad, st, tr = vt.validate(spec, [t], extra_cfg, **kw)
    if not bad:
        raise vt.Broken("self-test: %s accepted by %s" % (name, spec))
    chk.extra["selftest_rejected"] = chk.extra.get("selftest_rejected", 0) + 1
    return True


def env_data(e):
    return {"name": e.name, "config.yml": e.yaml, "scenario": e.scn,
            "output": getattr(e, "out", "")[-1500:], "exit": getattr(e, "rc", None)}


def must_reject_all(chk, spec, trace, muts, extra_cfg="", **kw):
    """Every falsified copy of the trace has to be rejected; one falsehood each."""
    ts, names = [], []
    for name, mut in muts:
        t = copy.deepcopy(trace)
        if mut(t) is not False:
            ts.append(t)
            names.append(name)
    if not ts:
        return 0
    bad, st, tr = vt.validate(spec, ts, extra_cfg, limit=99, **kw)
    miss = set(range(len(ts))) - {b[0] for b in bad}
    if miss:
        raise vt.Broken("self-test: accepted by %s: %s" % (spec, ", ".join(names[i] for i in sorted(miss))))
    chk.extra["selftest_rejected"] = chk.extra.get("selftest_rejected", 0) + len(ts)
    return len(ts)


def must_reject_each(chk, spec, muts, **kw):
    """Like must_reject_all with a trace of its own for each falsehood: (name, falsified trace)."""
    for lo in range(0, len(muts), 16):
        part = muts[lo:lo + 16]
        bad, st, tr = vt.validate(spec, [t for n, t in part], limit=99, **kw)
        miss = set(range(len(part))) - {b[0] for b in bad}
        if miss:
            raise vt.Broken("self-test: accepted by %s: %s" % (spec, ", ".join(part[i][0] for i in sorted(miss))))
    chk.extra["selftest_rejected"] = chk.extra.get("selftest_rejected", 0) + len(muts)
    return len(muts)
