"""fuzz.py SEED N: random small functions, each with random variants; the comparison's verdict against running them.
same + outputs differ = UNSOUND; different/all + outputs equal = SUSPECT (look at it)."""
import sys, os, random, subprocess, tempfile, shutil, copy; sys.path.insert(0, '/verif'); sys.setrecursionlimit(30000)
import threading; threading.stack_size(512 * 1024 * 1024)
R = random.Random(int(sys.argv[1])); N = int(sys.argv[2])
# AST: ('v',name) ('c',k) ('b',op,a,b) ('a',arr,idx)
VARS = ['n', 'm', 'x', 'y', 'z']
def expr(env, d=0):
    r = R.random()
    if d > 2 or r < .35: return ('v', R.choice(env))
    if r < .5: return ('c', R.randint(0, 3))
    if r < .65: return ('a', R.choice(['v', 'w']), idx(env, d + 1))
    if r < .72: return ('q', cond(env, d + 1), expr(env, d + 1), expr(env, d + 1))
    return ('b', R.choice(['+', '+', '-', '*']), expr(env, d + 1), expr(env, d + 1))
def idx(env, d):
    return ('v', R.choice(env)) if R.random() < .7 else ('b', '+', ('v', R.choice(env)), ('c', 1))
def cond(env, d=0):
    r = R.random()
    if r < .2 and d < 2: return ('l', R.choice(['&&', '||']), cond(env, d + 1), cond(env, d + 1))
    return ('r', R.choice(['<', '<=', '==', '!=', '>']), expr(env, d + 1), expr(env, d + 1))
class G:
    def __init__(s): s.k = 0
    def block(s, env, mut, depth, inloop, n=None):
        out = []; env = list(env); mut = list(mut)
        for _ in range(n or R.randint(1, 3)):
            r = R.random()
            if r < .18:
                s.k += 1; nm = 't%d' % s.k
                out.append(['decl', nm, expr(env)]); env.append(nm); mut.append(nm)
            elif r < .48 and mut:
                out.append(['asg', R.choice(['=', '+=', '=', '+=']), ('v', R.choice(mut)), expr(env)])
            elif r < .62:
                out.append(['asg', R.choice(['=', '=', '+=']), ('a', R.choice(['v', 'w']), idx(env, 1)), expr(env)])
            elif r < .76 and depth < 3:
                out.append(['if', cond(env), s.block(env, mut, depth + 1, inloop), s.block(env, mut, depth + 1, inloop) if R.random() < .4 else []])
            elif r < .92 and depth < 2:
                s.k += 1; i = 'i%d' % s.k
                b = s.block(env + [i], mut, depth + 1, True)
                out.append(['for', i, ('c', R.choice([0, 0, 0, 1])), R.choice([('v', 'n'), ('v', 'm'), ('c', 3), ('v', 'n')]), b])
            elif inloop and r < .97:
                out.append(['if', cond(env), [[R.choice(['break', 'continue'])]], []])
            elif depth > 0:
                out.append(['if', cond(env), [['return', expr(env)]], []])
            else:
                out.append(['asg', '+=', ('v', 'x'), expr(env)])
        return out
def se(e):
    k = e[0]
    if k == 'v': return e[1]
    if k == 'c': return str(e[1])
    if k == 'a': return '%s[%s]' % (e[1], se(e[2]))
    if k == 'q': return '(%s ? %s : %s)' % (se(e[1]), se(e[2]), se(e[3]))
    return '(%s %s %s)' % (se(e[2]), e[1], se(e[3]))
def ss(b, t=1):
    o = []
    p = '  ' * t
    for s in b:
        k = s[0]
        if k == 'decl': o.append(p + 'int %s = %s;' % (s[1], se(s[2])))
        elif k == 'asg': o.append(p + '%s %s %s;' % (se(s[2]), s[1], se(s[3])))
        elif k == 'if':
            o.append(p + 'if (%s) {' % se(s[1])); o += ss(s[2], t + 1)
            if s[3]: o.append(p + '} else {'); o += ss(s[3], t + 1)
            o.append(p + '}')
        elif k == 'for': o.append(p + 'for (int %s = %s; %s < %s; ++%s) {' % (s[1], se(s[2]), s[1], se(s[3]), s[1])); o += ss(s[4], t + 1); o.append(p + '}')
        elif k == 'while': o.append(p + 'int %s = %s;' % (s[1], se(s[2]))); o.append(p + 'while (%s < %s) {' % (s[1], se(s[3]))); o += ss(s[4], t + 1); o.append(p + '  ++%s;' % s[1]); o.append(p + '}')
        elif k == 'call': o.append(p + s[1] + ';')
        elif k == 'return': o.append(p + 'return %s;' % se(s[1]))
        elif k == 'call': o.append(p + '%s;' % s[1])
        else: o.append(p + k + ';')
    return o
def stmts(b, out):
    for i, s in enumerate(b):
        out.append((b, i))
        if s[0] == 'if': stmts(s[2], out); stmts(s[3], out)
        if s[0] == 'for': stmts(s[4], out)
    return out
def exprs_of(s):
    k = s[0]
    return {'decl': [2], 'asg': [3], 'if': [1], 'for': [3], 'return': [1]}.get(k, [])
def mutexpr(e):
    k = e[0]
    if R.random() < .4 and k in ('b', 'r', 'l', 'q', 'a'):
        i = R.choice([j for j in range(1, len(e)) if isinstance(e[j], tuple)])
        return e[:i] + (mutexpr(e[i]),) + e[i + 1:]
    if k == 'c': return ('c', e[1] + R.choice([-1, 1]))
    if k == 'v': return R.choice([('b', '+', e, ('c', 1)), ('b', '-', e, ('c', 1)), ('v', R.choice(VARS))])
    if k == 'b': return R.choice([('b', R.choice('+-*'), e[2], e[3]), ('b', e[1], e[3], e[2]), e[2]])
    if k == 'r': return R.choice([('r', R.choice(['<', '<=', '==', '!=', '>']), e[2], e[3]), ('r', e[1], e[3], e[2])])
    if k == 'l': return R.choice([('l', '&&' if e[1] == '||' else '||', e[2], e[3]), e[2], e[3], ('l', e[1], e[3], e[2])])
    if k == 'a': return ('a', 'w' if e[1] == 'v' else 'v', e[2])
    if k == 'q': return ('q', e[1], e[3], e[2])
    return e
NEG = {'>=': '<', '<': '>=', '<=': '>', '==': '!=', '!=': '==', '>': '<='}
def neg(c):
    return ('r', NEG[c[1]], c[2], c[3]) if c[0] == 'r' else ('l', '&&' if c[1] == '||' else '||', neg(c[2]), neg(c[3]))
def hascont(b):
    return any(s[0] == 'continue' or (s[0] == 'if' and (hascont(s[2]) or hascont(s[3]))) for s in b)
def variant(b):
    b = copy.deepcopy(b); what = []
    for _ in range(R.choice([1, 1, 1, 2])):
        L = stmts(b, [])
        blk, i = R.choice(L); s = blk[i]; r = R.random()
        if r < .3:
            es = exprs_of(s)
            if es: j = es[0]; s[j] = mutexpr(s[j]); what.append('expr')
        elif r < .38: 
            if s[0] != 'decl': blk.pop(i); what.append('drop')
        elif r < .5 and i + 1 < len(blk):
            if s[0] != 'decl' and blk[i + 1][0] not in ('decl', 'break', 'continue', 'return') : blk[i], blk[i + 1] = blk[i + 1], blk[i]; what.append('swap')
        elif r < .62 and s[0] == 'if':
            s[1] = neg(s[1]); s[2], s[3] = s[3], s[2]; what.append('neg')
        elif r < .7 and s[0] == 'for' and not hascont(s[4]):
            s[0] = 'while'; what.append('while')
        elif r < .8 and s[0] in ('asg', 'decl'):
            nm = 'u%d' % R.randint(100, 999); j = exprs_of(s)[0]
            blk.insert(i, ['decl', nm, s[j]]); s[j] = ('v', nm); what.append('temp')
        elif r < .86 and s[0] == 'if' and not s[3]:
            # nested condition
            if s[1][0] == 'l' and s[1][1] == '&&': c = s[1]; s[1] = c[2]; s[2] = [['if', c[3], s[2], []]]; what.append('nest')
        elif r < .93:
            what.append('dup'); 
            if s[0] == 'asg': blk.insert(i, copy.deepcopy(s))
        elif s[0] == 'asg' and s[1] == '+=':
            s[1] = '='; s[3] = ('b', '+', s[2], s[3]); what.append('plus')
    return b, what
HELP = []
def clean(b):
    return all(s[0] not in ('break', 'continue', 'return') and (s[0] != 'if' or clean(s[2]) and clean(s[3])) and (s[0] not in ('for', 'while') or clean(s[4])) for s in b)
def names(b, env):
    return env
def swapc(e):
    FL = {'<': '>', '>': '<', '<=': '>=', '==': '==', '!=': '!=', '>=': '<='}
    if e[0] == 'r': return ('r', FL[e[1]], e[3], e[2])
    if e[0] == 'b' and e[1] in '+*': return ('b', e[1], e[3], e[2])
    return e
def subv(e, nm, by):
    if e[0] == 'v' and e[1] == nm: return by
    return tuple(subv(x, nm, by) if isinstance(x, tuple) else x for x in e)
def substb(b, nm, by):
    for s in b:
        for j, x in enumerate(s):
            if isinstance(x, tuple): s[j] = subv(x, nm, by)
            elif isinstance(x, list): substb(x, nm, by)
def visible(b, target, env):
    env = list(env)
    for s in b:
        if s is target: return env
        if s[0] == 'decl': env.append(s[1])
        if s[0] == 'if':
            for y in (s[2], s[3]):
                r = visible(y, target, env)
                if r: return r
        if s[0] in ('for', 'while'):
            r = visible(s[4], target, env + [s[1]])
            if r: return r
            if s[0] == 'while': env.append(s[1])
    return None
def refac(b, tag):
    b = copy.deepcopy(b); what = []
    for _ in range(R.choice([1, 2, 3, 4])):
        L = stmts(b, []); 
        blk, i = R.choice(L); s = blk[i]; r = R.choice(['neg', 'while', 'temp', 'nest', 'plus', 'contin', 'bound', 'shift', 'swapc', 'ternary', 'helper', 'swap', 'else'])
        if r == 'neg' and s[0] == 'if': s[1] = neg(s[1]); s[2], s[3] = s[3], s[2]
        elif r == 'while' and s[0] == 'for' and not hascont(s[4]): s[0] = 'while'
        elif r == 'temp' and s[0] in ('asg', 'decl'):
            nm = 'u%d' % R.randint(100, 999); j = exprs_of(s)[0]; blk.insert(i, ['decl', nm, s[j]]); s[j] = ('v', nm)
        elif r == 'nest' and s[0] == 'if' and not s[3] and s[1][0] == 'l' and s[1][1] == '&&': c = s[1]; s[1] = c[2]; s[2] = [['if', c[3], s[2], []]]
        elif r == 'plus' and s[0] == 'asg' and s[1] == '+=': s[1] = '='; s[3] = ('b', '+', s[2], s[3])
        elif r == 'contin' and s[0] == 'for' and s[4] and s[4][-1][0] == 'if' and not s[4][-1][3]:
            t = s[4].pop(); s[4] += [['if', neg(t[1]), [['continue']], []]] + t[2]
        elif r == 'bound' and s[0] == 'for' and s[3][0] == 'v' and s[3][1] in ('n', 'm'):
            nm = 'u%d' % R.randint(100, 999); blk.insert(i, ['decl', nm, s[3]]); s[3] = ('v', nm)
        elif r == 'shift' and s[0] == 'for':
            substb(s[4], s[1], ('b', '-', ('v', s[1]), ('c', 1))); s[2] = ('c', s[2][1] + 1); s[3] = ('b', '+', s[3], ('c', 1))
        elif r == 'swapc':
            es = exprs_of(s)
            if not es: continue
            s[es[0]] = swapc(s[es[0]])
        elif r == 'ternary' and s[0] == 'asg' and s[3][0] == 'q':
            q = s[3]; blk[i] = ['if', q[1], [['asg', s[1], s[2], q[2]]], [['asg', s[1], s[2], q[3]]]]
        elif r == 'helper' and s[0] in ('if', 'for', 'asg') and clean([s]):
            env = visible(b, s, VARS); nm = 'h%s_%d' % (tag, len(HELP))
            HELP.append('static void %s(%s, int* v, int* w) {\n%s\n}\n' % (nm, ', '.join('int& ' + x for x in env), '\n'.join(ss([s]))))
            blk[i] = ['call', '%s(%s, v, w)' % (nm, ', '.join(env))]
        elif r == 'swap' and i + 1 < len(blk) and s[0] != 'decl' and blk[i + 1][0] not in ('decl', 'break', 'continue', 'return'): blk[i], blk[i + 1] = blk[i + 1], blk[i]
        elif r == 'else' and s[0] == 'if' and s[3] and i == len(blk) - 1 and s[2] and s[2][-1][0] == 'return': blk += s[3]; s[3] = []
        else: continue
        what.append(r)
    return b, what
MODE = sys.argv[4] if len(sys.argv) > 4 else 'mut'
def fn(name, b):
    return 'int %s(int n, int m, int* v, int* w) {\n  int x = 0; int y = 1; int z = n;\n%s\n  return x + y * 3 + z * 5;\n}\n' % (name, '\n'.join(ss(b)))
def main():
    from vlib import facts as FX, compare as CP
    src = ''; pairs = []; bodies = {}
    for k in range(N):
        g = G(); b = g.block(VARS, ['x', 'y', 'z'], 0, False, R.randint(2, 4))
        src += fn('f%d_0' % k, b); bodies['f%d_0' % k] = b
        for j in range(1, 4):
            n0 = len(HELP)
            vb, what = variant(b) if MODE == 'mut' else refac(b, '%d_%d' % (k, j))
            if not what: continue
            src += ''.join(HELP[n0:])
            src += fn('f%d_%d' % (k, j), vb); pairs.append((k, j, what))
    d = tempfile.mkdtemp(); os.makedirs(d + '/src'); open(d + '/src/snd.cpp', 'w').write(src)
    # truth
    names = sorted({'f%d_0' % k for k, j, w in pairs} | {'f%d_%d' % (k, j) for k, j, w in pairs})
    main_ = '#include <cstdio>\n#include <cstdlib>\n#include <csetjmp>\n#include <cstring>\n#define int long long\nstruct A { int d[400]; int dummy; int& operator[](int i) { return (i >= -150 && i < 250) ? d[i + 150] : dummy; } };\n#define ARR A&\n'
    main_ += src.replace('int* v, int* w', 'A& v, A& w')
    main_ += 'typedef int (*F)(int, int, A&, A&);\nstruct E { const char* n; F f; } T[] = {%s};\n' % ','.join('{"%s", %s}' % (n, n) for n in names)
    main_ += '''
#undef int
int main() { for (auto& e : T) { unsigned long long h = 1469598103934665603ull; 
 for (int s = 0; s < 400; ++s) { srand(s + 7); A v, w; for (int i = 0; i < 400; ++i) { v.d[i] = rand() % 7 - 2; w.d[i] = rand() % 7 - 2; } v.dummy = w.dummy = 0;
 long long r = e.f(rand() % 6, rand() % 6, v, w); h = h * 1099511628211ull + (unsigned long long) r; for (int i = 0; i < 400; ++i) { h = h * 1099511628211ull + (unsigned long long) v.d[i]; h = h * 1099511628211ull + (unsigned long long) w.d[i]; } }
 printf("%s %llu\\n", e.n, h); } }
'''
    open(d + '/run.cpp', 'w').write(main_)
    r = subprocess.run(['g++', '-w', '-fwrapv', '-O1', '-o', d + '/run', d + '/run.cpp'], capture_output=True, text=True)
    if r.returncode: print(r.stderr[:1000]); return
    out = subprocess.run(['timeout', '100', d + '/run'], capture_output=True, text=True).stdout
    H = dict(l.split() for l in out.split('\n') if l)
    FX.ensure_tool(); FX.units = lambda repo: [('snd', d + '/src/snd.cpp', [])]
    F = FX.load(d); by = {f['n']: f for f in F.fns.values()}
    cm = CP.Comparer(F, F); cm.changed = lambda fk: True
    hk = {f['fk'] for f in F.fns.values() if f['n'].startswith('h')}
    cm.policies = lambda: [('calls', lambda fn: True)]
    st = {}
    for k, j, what in pairs:
        a, b = 'f%d_0' % k, 'f%d_%d' % (k, j)
        if a not in H or b not in H: continue
        eq = H[a] == H[b]
        try: r = cm.compare(by[a], by[b])
        except Exception as e: print('EXC', a, b, repr(e)[:200]); continue
        v = r.verdict
        if v == 'different': v += '/' + ('order' if r.order else CP.certain(r))
        st[(v, eq)] = st.get((v, eq), 0) + 1
        bad = 'UNSOUND' if v == 'same' and not eq else 'FALSE' if MODE != 'mut' and eq and v != 'same' else 'SUSPECT' if v in ('different/all', 'different/order') and eq else ''
        if bad:
            print('=====', bad, v, what, r.why)
            A, B = fn(a, bodies[a]), None
            lo = src.index('int %s(' % b); hi = src.index('\n}\n', lo)
            if len(sys.argv) > 3:
                import difflib
                X = fn('f', bodies[a]).split('\n'); Y = src[lo:hi + 3].replace(b, 'f').split('\n')
                print('\n'.join(X)); print('\n'.join(l for l in difflib.unified_diff(X, Y, lineterm='', n=0) if l[0] in '+-' and l[:3] not in ('+++', '---')))
    for k in sorted(st): print(k, st[k])
    shutil.rmtree(d)
t = threading.Thread(target=main); t.start(); t.join()
