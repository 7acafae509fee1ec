"""Operations aborted at a trace point by an interrupt or a failed allocation."""

from . import core
from .core import Tracer
from .core import twin

KINDS = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}

class Finished(Exception):
    """The operation ended without reaching the point."""

def _sites(ctx, f, spec, lines, calls, limit):
    """In a twin: position of a point among those that f() passes."""
    t = Tracer(lines=lines, calls=calls, record=True, limit=limit)
    try:
        t.run(f)
        out = 'ok'
    except core.StepLimit:
        out = 'limit'
    except Exception as e:
        out = type(e).__name__
    k = core.pick_point(t.sites, spec)
    if k is None:
        return [None, None, out, 0, 0]
    return [k, core.site_name(t.sites[k]), out, len(t.sites), len(set(t.sites))]

def aborted(ctx, f, spec, kind, lines=('sppl',), calls=('scipy',), limit=400000):
    """Run f() and raise inside it at the point that spec says.

    Returns (how, result): how is 'aborted' when the injected exception came
    out, 'swallowed' when f() went on, 'other' when another exception came out,
    'none' when f() has no such point."""
    (k, site, out, n, distinct) = twin(ctx, _sites, f, spec, lines, calls, limit,
        keep=False)  # so that f() takes the same steps again
    if k is None:
        return ('none', None)
    exc = KINDS[kind]
    def act(j, frame):
        t.targets.clear()
        raise exc('injected')
    t = Tracer(lines=lines, calls=calls, targets={k: None}, act=act)
    ctx.log('abort', kind, 'at', site, 'point', k, 'of', n)
    try:
        r = t.run(f)
        how = 'swallowed'
    except exc as e:
        (how, r) = ('aborted', None)
        # Frames must not keep objects of the aborted operation alive.
        e.__traceback__ = None
        e.__context__ = None
    except Exception as e:
        (how, r) = ('other', type(e).__name__)
    if t.targets:
        # Not reached: the operation is not the same as in the twin.
        raise core.HarnessError('point %d of %d not reached' % (k, n))
    ctx.fault('%s_%s' % (kind, how))
    ctx.state('abort', kind, site)
    return (how, r)
