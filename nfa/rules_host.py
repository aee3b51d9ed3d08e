"""Host code keeps away from device memory (C46)."""
from .absint import S, has_unk
from .lab import Law, show
from .rules import rule
from . import rules
from . import rules_conc as RC
from .kern import KInterp
from .report import Report

HOST = ("SerialExecutor", "CPUExecutor")


def onhost(I, A, st):
    """is the memory of that array known to be host memory on this path"""
    ex = st.store.get(("arrx", A))
    if ex is None:
        ex = I.execs(A, st)
    if ex is None or has_unk(ex):
        return None
    return hostexec(ex, st)


def hostexec(ex, st):
    """is that executor known to be one of the host on this path"""
    ex = st.nz(ex)
    if ex == S("SerialExecutor") or ex[0] == "any" and any(h in str(ex[1]) for h in HOST):
        return True
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == "anytype" and k[1] == ex:
            if v is True and any(h in str(k[2]) for h in HOST) or v is False and "GPUExecutor" in str(k[2]):
                return True
            if v is True:
                return False
    return False


# the rules whose runs are watched: between them they enter every function that handles fields
QUICK = ("C25", "C28", "C31", "C32", "C33", "C35", "C38", "C41", "C45")
MORE = ("C21", "C22", "C24", "C26", "C27", "C29", "C30", "C40")


def watch(rep, pid):
    """runs the rules of that property and tells what their functions do to arrays outside of launches: [(law, hits)]"""
    mine, laws, hits = Report(pid, rep.tier, rep.seed), [], []

    def hook(self, A, idx, st, how):
        # fields run with their own memory are the subject of C18 to C20
        if st.fn is None or not isinstance(A, tuple) or A[0] == "mem" or A[0] == "new" and A[2] in ("block", "nvdata"):
            return
        hits.append((A, how, st.site(), onhost(self, A, st)))

    def done(law):
        laws.append((law, list(hits)))
        hits.clear()
    KInterp.hosthook, Law.watcher = hook, done
    try:
        for f in rules.RULES[pid]:
            hits.clear()
            f(mine)
    finally:
        KInterp.hosthook, Law.watcher = None, None
    rep.labs += mine.labs
    return laws


@rule("C46")
def c46(rep):
    rep.limit = True
    rep.rule("host-access", "code that runs on the host touches only arrays that are known to be in host memory", 60)
    n = 0
    for pid in QUICK + (MORE if rep.tier == "thorough" else ()):
        for law, hits in watch(rep, pid):
            n += 1
            with Law(law.lab, "host-access", "%s: %s" % (law.rid, law.what), law.f, key="host:%s:%s" % (law.rid, law.what)) as L:
                L.lab.rep = rep
                L.npaths += law.npaths
                judge(law.lab, L, hits)
    rep.assumptions.append("%d runs watched" % n)


def judge(W, L, hits):
    seen = set()
    for A, how, site, ok in hits:
        k = (A, how, site)
        if k in seen or ok is True:
            continue
        seen.add(k)
        t = "%s: %s, which may be in device memory, is %s on the host" % (RC.where(W, site), show(A)[:100], how)
        if ok is None:
            L.unds.append(t)
        else:
            L.fails.append((t, []))
