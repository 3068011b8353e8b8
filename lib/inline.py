"""Expands calls of library functions and lambdas inside a function body, so that the flow rules see through helpers.
expand(fn, want, depth): want(fn, node, callee) -> bool decides per call. Returns fn itself when nothing is expanded."""
import copy
import ir

LIMIT = 30000


def has_return_value(callee):
    s = callee.prog.tstr(callee.o.get('ret')) if callee.o.get('ret') is not None else 'void'
    return s != 'void'


def expand(fn, want, depth=4, note=None):
    if not fn.blocks:
        return fn
    cur = fn
    stack = {fn.key}
    origin = {}
    for rnd in range(depth):
        todo = []
        for b in cur.rpo():
            for e in cur.blocks[b]['e']:
                if isinstance(e, dict):
                    continue
                x = cur.nodes[e]
                if x['k'] not in ('Call', 'Ctor') or x.get('inl'):
                    continue
                g = cur.prog.fns.get(x.get('f'))
                if g is None or not g.blocks or g.key in origin.get(e, stack):
                    continue
                if x['k'] == 'Ctor':
                    continue
                if want(cur, e, g):
                    todo.append((e, g))
        if not todo:
            break
        if cur is fn:
            cur = clone(fn)
        for e, g in todo:
            if len(cur.nodes) + len(g.nodes) > LIMIT:
                continue
            n0 = len(cur.nodes)
            if splice(cur, e, g):
                chain = origin.get(e, stack) | {g.key}
                for i in range(n0, len(cur.nodes)):
                    origin[i] = chain
                if note is not None:
                    note.add(g.qn)
        cur._rpo = cur._preds = cur._parent = None
    return cur


def clone(fn):
    o = dict(fn.o)
    o['nodes'] = [dict(x) for x in fn.nodes]
    o['vars'] = [dict(v) for v in fn.vars]
    o['blocks'] = [dict(b, e=list(b['e']), s=list(b['s'])) for b in fn.blocks.values()]
    f = ir.Fn(o, fn.prog)
    f.params = list(fn.params)
    f.source = fn
    return f


def splice(cur, e, g):
    call = cur.nodes[e]
    c = call.get('c', [])
    lam = bool(g.o.get('lambda'))
    obj = None
    args = list(c)
    if call.get('obj'):
        obj = c[0]
        args = c[1:]
    elif call.get('op') and g.cls and not g.o.get('static') and len(c) == len(g.params) + 1:
        obj = c[0]
        args = c[1:]
    if len(args) < len(g.params):
        return False
    if any(a < 0 for a in args[:len(g.params)]):
        return False
    # the block holding the call
    B = None
    for b in cur.blocks.values():
        if e in b['e']:
            B = b
            break
    if B is None:
        return False
    pos = B['e'].index(e)
    n0, v0 = len(cur.nodes), len(cur.vars)
    b0 = max(cur.blocks) + 1
    # variables
    vmap = {}
    outer = {}
    if lam:
        for d, v in enumerate(cur.vars):
            outer[(v['n'], v['l'])] = d
    for d, v in enumerate(g.vars):
        if lam and d not in g.params and (v['n'], v['l']) in outer and is_captured(g, d):
            vmap[d] = outer[(v['n'], v['l'])]
            continue
        if v['k'] in ('global', 'staticlocal', 'enumc'):
            nv = dict(v)
        else:
            nv = dict(v)
            if nv['k'] == 'param':
                nv['k'] = 'local'
        vmap[d] = len(cur.vars)
        cur.vars.append(nv)
    # return value
    ret = None
    if has_return_value(g):
        ret = len(cur.vars)
        cur.vars.append({'n': '$' + g.name, 't': g.o.get('ret'), 'l': call.get('l', 0), 'k': 'local'})
    # nodes
    shift = lambda i: i + n0 if i is not None and i >= 0 else i
    for x in g.nodes:
        y = dict(x)
        if 'c' in y:
            y['c'] = [shift(i) for i in y['c']]
        if y['k'] == 'Ref' and 'd' in y:
            y['d'] = vmap.get(y['d'], y['d'])
        if y['k'] == 'Decl':
            y['vars'] = [dict(v, d=vmap[v['d']], **({'i': shift(v['i'])} if 'i' in v else {}), **({'bind': [vmap[q] for q in v['bind']]} if 'bind' in v else {})) for v in y['vars']]
        if y['k'] == 'Return':
            if ret is not None and y.get('c') and y['c'][0] >= 0:
                y = {'k': 'Decl', 'l': y.get('l', 0), 't': y.get('t', -1), 'c': list(y['c']), 'vars': [{'d': ret, 'i': y['c'][0]}], 'inlret': True}
            else:
                y = {'k': 'Nop', 'l': y.get('l', 0), 't': -1, 'c': []}
        for fld in ('init', 'cond', 'body', 'range', 'inc'):
            pass
        y['ln'] = g.line
        cur.nodes.append(y)
    if obj is not None and not lam:
        for i in range(n0, len(cur.nodes)):
            y = cur.nodes[i]
            if y['k'] == 'This':
                if call.get('arrow'):
                    cur.nodes[i] = {'k': 'Cast', 'l': y['l'], 't': y.get('t', -1), 'c': [obj], 'inlthis': True}
                else:
                    cur.nodes[i] = {'k': 'Un', 'op': '&', 'l': y['l'], 't': y.get('t', -1), 'c': [obj], 'inlthis': True}
            elif y['k'] == 'Mem' and not y.get('svar') and (not y.get('c') or y['c'][0] < 0):
                q = len(cur.nodes)
                cur.nodes.append({'k': 'Cast' if call.get('arrow') else 'Un', 'op': '&', 'l': y['l'], 't': -1, 'c': [obj]})
                y['c'] = [q]
                y['arrow'] = True
    # parameter binding
    pre = []
    for p, a in zip(g.params, args):
        q = len(cur.nodes)
        cur.nodes.append({'k': 'Decl', 'l': call.get('l', 0), 't': -1, 'c': [a], 'vars': [{'d': vmap[p], 'i': a}]})
        pre.append(q)
    # blocks
    cont = b0
    mapb = {}
    nb = b0 + 1
    for b in g.blocks:
        mapb[b] = nb
        nb += 1
    C = {k: v for k, v in B.items() if k not in ('e', 'id')}
    C['id'] = cont
    C['e'] = B['e'][pos + 1:]
    B['e'] = B['e'][:pos] + pre
    for k in ('cond', 'tk', 'tn', 'nr', 'case', 'default'):
        if k in B and k not in ('case', 'default'):
            del B[k]
    for k in ('case', 'default'):
        C.pop(k, None)
    B['s'] = [mapb[g.entry]]
    for b, blk in g.blocks.items():
        nbk = dict(blk)
        nbk['id'] = mapb[b]
        nbk['e'] = [shift(x) if not isinstance(x, dict) else {k: (shift(v) if k == 'i' else v) for k, v in x.items()} for x in blk['e']]
        for k in ('cond', 'tn'):
            if k in nbk and isinstance(nbk[k], int):
                nbk[k] = shift(nbk[k])
        nbk['s'] = [mapb[s] if s >= 0 else s for s in blk['s']]
        if b == g.exit:
            nbk['s'] = [cont]
        cur.blocks[mapb[b]] = nbk
    cur.blocks[cont] = C
    # the call expression now names the returned value
    if ret is not None:
        cur.nodes[e] = {'k': 'Ref', 'd': ret, 'n': '$' + g.name, 'l': call.get('l', 0), 't': call.get('t', -1), 'lv': call.get('lv', 0), 'inl': g.key}
    else:
        cur.nodes[e] = {'k': 'Nop', 'l': call.get('l', 0), 't': -1, 'c': [], 'inl': g.key}
    cur._rpo = cur._preds = cur._parent = None
    return True


_cap = {}


def is_captured(g, d):
    s = _cap.get(g.key)
    if s is None:
        s = set()
        declared = set()
        for x in g.nodes:
            if x['k'] == 'Decl':
                for v in x['vars']:
                    declared.add(v['d'])
                    declared |= set(v.get('bind', ()))
        for q, v in enumerate(g.vars):
            if q not in declared and q not in g.params and v['k'] not in ('global', 'enumc'):
                s.add(q)
        _cap[g.key] = s
    return d in s
