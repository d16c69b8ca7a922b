"""C07: names resolve lexically; duplicates and unknown names are errors."""
from vlib import core, gen, isa, large, model, render, scatter
from vlib.common import expect_image, expect_reject

TECHNIQUE = 'runtime differential monitoring against a reference scoping model (accept/reject and image)'
LEVEL_NOTE = 'Programs over small name pools in which definitions and references collide; sampled.'
RULE = ('pool: programs over a small pool of names in which definitions and references collide freely (global and local '
        'labels, constants, any letter case); the scoping model says either the exact image or that the program must be '
        'rejected; near: a legal program with one definition duplicated, removed, moved or one reference redirected; files: both spread over nested include files and macros that are called once; large: many or long names. '
        'Distinct: the source texts.')
ASSUMPTIONS = ['A constant may refer to every global label and to constants defined earlier.']


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('pool', 3500 * n), ('near', 3000 * n), ('files', 1200 * n), ('large', 200 * n)]


def recase(rng, s):
    return rng.choice([s, s, s.upper(), s.capitalize()])


def pool_program(rng):
    glob = ['a', 'b', 'c_1', 'd.e'][:rng.randrange(2, 5)]
    loc = ['.a', '.b', '.loop'][:rng.randrange(1, 4)]
    consts = ['k', 'm', 'a', 'n$']
    stmts = []
    used = set()
    local_used = set()
    careful = rng.random() < 0.75
    for _ in range(rng.choice([3, 8, 14])):
        k = rng.randrange(10)
        if k < 2:
            n = rng.choice(glob)
            if careful and n in used:
                continue
            used.add(n)
            local_used = set()
            stmts.append(('label', recase(rng, n)))
        elif k < 4:
            n = rng.choice(loc)
            if careful and n in local_used:
                continue
            local_used.add(n)
            stmts.append(('label', recase(rng, n)))
        elif k == 4:
            n = rng.choice(consts)
            if careful and n in used:
                continue
            used.add(n)
            e = rng.randrange(200) if rng.random() < 0.5 else ('name', rng.choice(glob + consts + (loc if rng.random() < .1 else [])))
            stmts.append(('const', recase(rng, n), e if rng.random() < 0.7 else ('+', e, 1), rng.choice(['=', 'equ'])))
        elif k == 5:
            stmts.append(('byte', [rng.randrange(256)] * rng.randrange(1, 4)))
        else:
            names = (list(used) or glob) if careful and rng.random() < 0.85 else glob + consts
            names = names + ((list(local_used) or loc) if careful and rng.random() < 0.8 else loc)
            e = ('name', recase(rng, rng.choice(names)))
            m = rng.randrange(4)
            if m == 0:
                stmts.append(('word', [e, ('+', e, 3)]))
            elif m == 1:
                stmts.append(('instr', isa.BY_MNEMONIC['jmpf'][0], [e]))
            elif m == 2:
                stmts.append(('byte', [('lo', e)]))
            else:
                stmts.append(('instr', isa.BY_MNEMONIC['mov'][0], [('lo', e), 5]))
    return stmts


def decide(ctx, stmts, rng, what):
    src = render.program(stmts, render.Random(rng, 0.4), lambda: rng.random() < 0.3)
    ctx.write('in.s', src)
    ctx.case(src, any(st[0] in ('label', 'const') for st in stmts))
    try:
        image = model.assemble(stmts)
    except model.Reject as r:
        why = ' '.join(r.why.split()[:2])
        ctx.counters['rejected: ' + why] += 1
        expect_reject(ctx, 'in.s', '%s (%s)' % (what, r.why))
        return False
    ctx.counters['accepted'] += 1
    expect_image(ctx, 'in.s', image, what)
    ctx.sample({'source': src[:500], 'image': core.short(image)})
    return True


def names_in(e):
    if isinstance(e, tuple):
        if e[0] == 'name':
            yield e[1]
        else:
            for x in e[1:]:
                yield from names_in(x)


def redirect(e, old, new):
    if isinstance(e, tuple):
        if e[0] == 'name':
            return ('name', new) if e[1] == old else e
        return (e[0],) + tuple(redirect(x, old, new) for x in e[1:])
    return e


def map_exprs(st, f):
    if st[0] == 'instr':
        return ('instr', st[1], [f(x) if not k == 'ri' else x for k, x in zip(st[1].kinds, st[2])])
    if st[0] in ('byte', 'word'):
        return (st[0], [x if isinstance(x, bytes) else f(x) for x in st[1]])
    if st[0] == 'const':
        return ('const', st[1], f(st[2]), st[3])
    return st


def exprs_of(st):
    if st[0] == 'instr':
        return [x for k, x in zip(st[1].kinds, st[2]) if k != 'ri']
    if st[0] in ('byte', 'word'):
        return [x for x in st[1] if not isinstance(x, bytes)]
    return [st[2]] if st[0] == 'const' else []


def run_case(ctx, kind, i, rng):
    if kind == 'pool':
        decide(ctx, pool_program(rng), rng, 'pool program')
    elif kind == 'large':
        large.check(ctx, rng, [large.names, large.names, large.many_names])
    elif kind == 'near':
        decide(ctx, near_program(rng), rng, 'program with a changed definition')
    else:
        # the same over several files: includes don't make scopes
        p = pool_program(rng) if rng.random() < 0.6 else near_program(rng)
        if rng.random() < 0.6:
            ctx.case(scatter.write(ctx, rng, p, share=rng.choice([0.1, 0.3, 0.6])))
        else:
            split(ctx, p, rng)
        try:
            image = model.assemble(p)
        except model.Reject as r:
            ctx.counters['rejected over files'] += 1
            expect_reject(ctx, 'in.s', 'names over files (%s)' % r.why)
            return
        ctx.counters['accepted over files'] += 1
        expect_image(ctx, 'in.s', image, 'names over files')


def near_program(rng):
    p = gen.Program(rng, rng.choice([10, 25]), {'label': 4, 'local': 4, 'const': 4, 'instr': 6, 'org': 0.1})
    stmts = list(p.stmts)
    defs = [n for n, st in enumerate(stmts) if st[0] in ('label', 'const')]
    uses = [(n, nm) for n, st in enumerate(stmts) for e in exprs_of(st) for nm in names_in(e)]
    k = rng.randrange(7)
    if k == 0 and defs:                                  # duplicate a definition
        d = rng.choice(defs)
        at = rng.randrange(len(stmts) + 1)
        st = stmts[d]
        st = (st[0], recase(rng, st[1])) + st[2:]
        stmts.insert(at, st)
    elif k == 1 and defs:                                # remove one
        del stmts[rng.choice(defs)]
    elif k == 2 and defs:                                # move one
        st = stmts.pop(rng.choice(defs))
        stmts.insert(rng.randrange(len(stmts) + 1), st)
    elif k == 3 and uses:                                # refer to something that isn't there
        n, nm = rng.choice(uses)
        new = nm + rng.choice(['x', '_', '1']) if rng.random() < 0.6 else ('.' + nm).replace('..', '')
        stmts[n] = map_exprs(stmts[n], lambda e: redirect(e, nm, new))
    elif k == 4 and uses and defs:                       # refer to something else
        n, nm = rng.choice(uses)
        new = stmts[rng.choice(defs)][1]
        stmts[n] = map_exprs(stmts[n], lambda e: redirect(e, nm, new))
    elif k == 5 and len(defs) > 1:                       # two definitions under one name
        a, b = rng.sample(defs, 2)
        stmts[a] = (stmts[a][0], recase(rng, stmts[b][1])) + stmts[a][2:]
    return stmts


def split(ctx, p, rng):
    cut = sorted(rng.choices(range(len(p) + 1), k=2))
    a, b, c = p[:cut[0]], p[cut[0]:cut[1]], p[cut[1]:]
    ctx.write('mid.s', render.program(b, render.Random(rng, 0.3)))
    src = render.program(a, render.Random(rng, 0.3)) + ' .include "mid.s"\n' + render.program(c, render.Random(rng, 0.3))
    ctx.write('in.s', src)
    ctx.case(src + '\0' + repr(b))
