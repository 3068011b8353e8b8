#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property on /repo's current source. 0 holds, 1 violation, 2 no answer."""
import sys, os, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/lib')
sys.path.insert(0, HERE + '/checks')
sys.setrecursionlimit(20000)
import ir

REG = {
    'N01': 'integers', 'N02': 'integers', 'N03': 'integers', 'N04': 'integers', 'N05': 'integers', 'N06': 'scalars', 'N07': 'scalars',
    'N08': 'dense', 'P01': 'canon', 'P02': 'inorder', 'H01': 'heaps', 'M01': 'packed', 'A01': 'verified', 'A02': 'verified', 'A03': 'product', 'D02': 'builds', 'D01': 'hidden', 'L01': 'alias', 'S01': 'stale', 'T01': 'merge', 'K01': 'orders', 'O01': 'owns', 'M03': 'degree',
}


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    m = importlib.import_module(REG[prop])
    rep = ir.Report(prop, tier, '')
    try:
        m.run(prop, tier, rep)
    except Exception as e:
        if not isinstance(e, ir.AnalysisBroken):
            import traceback
            traceback.print_exc()
        print('NO-ANSWER property=%s %s' % (prop, e))
        return 2
    return ir.finish(rep)


sys.exit(main())
