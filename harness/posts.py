"""Offline checkers over the event logs recorded by the monitored processes."""
import os

def same_transcripts(runs, tier, seed, exes, work):
    """C17: the transcripts of all builds and processor configurations must be equal."""
    viols, errs = [], []
    logs = {}
    for r in runs:
        d = logs.setdefault(r.variant, {})
        p = os.path.join(r.outdir, "%d.tr" % r.shard)
        if not os.path.exists(p): errs.append("no transcript for %s shard %d" % (r.variant, r.shard)); continue
        for l in open(p, errors="replace"):
            fam, case, what, dig = l.split()
            d[(fam, int(case))] = (what, dig, r)
    if errs: return viols, errs, {}
    names = list(logs)
    base = logs[names[0]]
    n = 0
    for v in names[1:]:
        if set(logs[v]) != set(base): errs.append("transcripts of %s and %s cover different cases" % (names[0], v)); continue
        for k, (what, dig, r) in logs[v].items():
            n += 1
            if base[k][:2] != (what, dig):
                viols.append((r, k[0], k[1], "%s and %s give different results for %s / %s" % (names[0], v, base[k][0], what)))
                if len(viols) > 20: break
    return viols, errs, {"transcript_comparisons": n, "configurations_compared": len(names), "evaluations": n}
