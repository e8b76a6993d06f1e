"""Memory safety and defined behaviour of the native code: the workloads of all properties under AddressSanitizer and
UndefinedBehaviorSanitizer, under Cython's bounds checks, and with freshly allocated memory filled in two different ways."""
import ctypes
from .. import meta
from ..worker import Violation

M_PERTURB = -6
FILL = (0x41, 0xC1)            # as doubles large and of different signs
libc = ctypes.CDLL(None)
TOL = 1e-9


class Hook:
    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.group = ctx, rng, ctx.job['group']

    def __call__(self, name, f, a, k):
        ctx = self.ctx
        name = getattr(f, '__name__', name)
        s = self.rng.randrange(2 ** 32)
        out = []
        again = self.group == 'fill' and not isinstance(f, type) and not name.startswith(('fit', 'run_'))
        for fill in FILL if again else FILL[:1]:
            if self.group == 'fill':
                libc.mallopt(M_PERTURB, fill)
            meta.seed(s)
            try:
                out.append(f(*a, **k))
            except IndexError as e:
                ctx.fail('index:%s' % name, '%s: an index is out of bounds: %s' % (name, e))
                raise Violation()
            except Exception:
                raise Violation()
        sig = meta.signature(out[0])
        ctx.observed(self.group, (name, sig) if out[0] is not None and not meta.trivial(out[0]) else None)
        if again:
            d = meta.walk(out[0], out[1], TOL, 'result')
            if d:
                ctx.fail('uninitialised:%s' % name, '%s: the result depends on what freshly allocated memory contains: %s' % (name, d))
        return out[0]


WORKLOADS = meta.workloads(Hook)
