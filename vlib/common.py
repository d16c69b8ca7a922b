"""Helpers shared by the checks."""
from vlib import core, isa, model, render


def expect_image(ctx, source, image, what, out='out.bin', **details):
    """Assembles the file `source` and compares with the model's image."""
    data, r = ctx.assemble(source, out)
    if data != image:
        if data is None:
            raise core.Violation('%s: legal program rejected%s' % (what, ' by a crash' if r.crashed else ''),
                                 result=r.describe(), **details)
        raise core.Violation('%s: wrong output: %s' % (what, core.diff(image, data)),
                             expected=image, actual=data, **details)
    return data


def expect_reject(ctx, source, what, out='out.bin', existing=None, **details):
    """Assembling the file `source` must fail, cleanly and without output."""
    if existing is None:
        ctx.remove(out)
    else:
        ctx.write(out, existing)
    r = ctx.run('assemble', source, '-o', out)
    data = ctx.read(out)
    if r.rc == 0:
        raise core.Violation('%s: accepted' % what, result=r.describe(), output=data, **details)
    if r.crashed:
        raise core.Violation('%s: crashed' % what, result=r.describe(), **details)
    if data != existing:
        raise core.Violation('%s: rejected, but the output file was changed' % what, result=r.describe(), output=data,
                             **details)
    if not r.err.strip():
        raise core.Violation('%s: rejected without an explanation' % what, result=r.describe(), **details)
    return r


def shapes(form):
    """How the operands of a form look: '#', '@' or 'e'."""
    return ''.join({'i8': '#', 'ri': '@'}.get(k, 'e') for k in form.kinds)


def shape_text(shape, values):
    return ', '.join({'#': '#%s', '@': '@R%s', 'e': '%s'}[s] % v for s, v in zip(shape, values))


def verdict(stmts):
    """(image, None) or (None, reason) by the model."""
    try:
        return model.assemble(stmts), None
    except model.Reject as e:
        return None, e


def source_of(stmts, rng, wild=True):
    s = render.Random(rng) if wild else render.Plain()
    return render.program(stmts, s, lambda: rng.random() < 0.3)


def count_forms(ctx, stmts):
    for st in stmts:
        if st[0] == 'instr':
            ctx.counters['instr ' + st[1].name] += 1
        else:
            ctx.counters['stmt ' + st[0]] += 1


__all__ = ['isa', 'model', 'render', 'core', 'expect_image', 'expect_reject', 'shapes', 'shape_text', 'verdict',
           'source_of', 'count_forms']
