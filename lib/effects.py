"""Transitive effects of functions on state outside their arguments: global variables, randomness, clocks, output.

gw(f): set of names of globals that calling f may write; pseudo names '!random', '!clock', '!io', '!env' stand for random draws,
time, output or input streams and the environment."""
import flow
from flow import Flow

STREAMS = ('std::cout', 'std::cerr', 'std::clog', 'std::cin')
RANDOM = {'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'random_shuffle'}
CLOCK = {'time', 'clock', 'gettimeofday', 'clock_gettime', 'now', 'chrono'}
ENV = {'getenv', 'setenv', 'system', 'get_id', 'getpid', 'gethostname'}
IO = {'printf', 'fprintf', 'puts', 'putchar', 'perror', 'fputs', 'fputc', 'fwrite', 'fopen', 'remove', 'rename', 'fread', 'scanf', 'getline'}

_st = {}


def global_of(fn, d):
    v = fn.vars[d]
    if v['k'] in ('global', 'staticlocal'):
        return v.get('qn', v['n'])
    return None


def call_class(x):
    fq = x.get('fq', '')
    nm = fq.split('::')[-1]
    if nm in RANDOM and (fq == nm or fq.startswith('std::')):
        return '!random'
    if nm in CLOCK and (fq == nm or fq.startswith('std::')):
        return '!clock'
    if nm in ENV and (fq == nm or fq.startswith('std::')):
        return '!env'
    if nm in IO and (fq == nm or fq.startswith('std::')):
        return '!io'
    if x.get('cls', '').startswith('std::random_device'):
        return '!random'
    return None


def inserts(f, n):
    """operator[] of an associative container inserts"""
    x = f.nodes[n]
    if x['k'] == 'Call' and x.get('op') == '[]' and x.get('cls') in ('std::map', 'std::unordered_map'):
        return [(p, False, 'modify') for p in Flow.of(f).places(x['c'][0])]
    return []


def direct(f):
    """globals and pseudo state f itself touches: [(name, node)]"""
    fl = Flow.of(f)
    out = []
    for i in flow.reach_nodes(f):
        x = f.nodes[i]
        for (root, path), strong, kind in list(fl.writes(i)) + inserts(f, i):
            if root[0] == 'g':
                n = root[1]
                out.append(('!io' if n in STREAMS else n, i))
        if x['k'] in ('Call', 'Ctor'):
            p = call_class(x)
            if p:
                out.append((p, i))
    return out


def compute(prog):
    if _st.get('prog') is prog:
        return _st['gw']
    gw = {f.key: {} for f in prog.fns.values()}
    callers = {}
    for f in prog.fns.values():
        for n, i in direct(f):
            gw[f.key].setdefault(n, (f.key, i))
        for x in f.nodes:
            if x['k'] in ('Call', 'Ctor', 'Lambda', 'FnRef') and x.get('f') in prog.fns:
                callers.setdefault(x['f'], set()).add(f.key)
    work = [k for k in gw if gw[k]]
    while work:
        k = work.pop()
        for c in callers.get(k, ()):
            ch = False
            for n, w in gw[k].items():
                if n not in gw[c]:
                    gw[c][n] = w
                    ch = True
            if ch:
                work.append(c)
    _st['prog'] = prog
    _st['gw'] = gw
    return gw
