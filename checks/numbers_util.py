"""turning findings of the abstract interpretation into reports"""
import ir

BROKEN = {'unmodelled', 'budget'}


def sig(f):
    return ','.join(f.prog.tstr(f.vars[d]['t']) for d in f.params)


def report(prop, rep, found, kinds):
    """a function whose interpretation met a construct without a transfer function is not judged (and is listed in the
    evidence); the run gives no answer only when that happens to many functions"""
    off = {}
    for kind, fn, n, text, label, f in found:
        if kind in BROKEN:
            off.setdefault(f.key, '%s (%s): %s at %s' % (f.qn, sig(f), text, fn.loc(n)))
    rep.count('functions_not_judged', len(off))
    rep.notes += sorted(set(off.values()))
    if len(off) > 12:
        raise ir.AnalysisBroken('%s: %d functions could not be interpreted, e.g. %s' % (prop, len(off), list(off.values())[0]))
    seen = set()
    for kind, fn, n, text, label, f in found:
        if f.key in off or kind not in kinds:
            continue
        ident = '%s|%s|%s' % (fn.qn, sig(fn), text)
        if ident in seen:
            continue
        seen.add(ident)
        rep.violation(ident, '%s: in %s (analysed from %s, operands %s): %s' % (fn.loc(n), fn.qn, f.qn, label, text))
