import numpy as np


class Violation(Exception):
    def __init__(self, msg, detail=None):
        super().__init__(msg)
        self.detail = detail


def short(x, n=12):
    """JSON-able short rendering of a value for samples and witnesses."""
    if isinstance(x, np.ndarray):
        f = x.ravel()
        return dict(shape=list(x.shape), head=[short(v) for v in f[:n].tolist()])
    if isinstance(x, (np.floating, np.integer, np.bool_)):
        return x.item()
    if isinstance(x, complex):
        return [x.real, x.imag]
    if isinstance(x, dict):
        return {str(k): short(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [short(v, n) for v in x[:n]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)[:200]


class Mon:
    """Collects monitor verdicts and what they were about."""

    def __init__(self, variant, tier):
        self.variant, self.tier = variant, tier
        self.violations, self.events, self.sigs, self.samples = [], {}, set(), []
        self.cases = self.checks = 0
        self.known_hits = {}
        self.i = -1
        self.ctx = {}

    def start(self, i):
        self.i = i
        self.cases += 1
        self.ctx = {}

    def describe(self, **kw):
        """Attach the description of the current case (used as witness and sample)."""
        self.ctx.update(kw)

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + int(n)

    def sig(self, *features):
        """Count the current case as non-trivial, under a discretised signature."""
        self.sigs.add("|".join(str(f) for f in features))
        if len(self.samples) < 3 and self.ctx:
            self.samples.append(dict(case=self.i, signature=[str(f) for f in features], **{k: short(v) for k, v in self.ctx.items()}))

    def check(self, ok, msg, **detail):
        self.checks += 1
        if not ok:
            raise Violation(msg, dict(case=self.i, context={k: short(v, 30) for k, v in self.ctx.items()},
                                      **{k: short(v, 30) for k, v in detail.items()}))

    def close(self, got, want, msg, atol=1e-6, rtol=1e-5, **detail):
        """Array comparison; nan == nan, inf == inf."""
        self.checks += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.check(False, msg + ": shape %s, expected %s" % (got.shape, want.shape), got=got, want=want, **detail)
        if got.size == 0:
            return
        with np.errstate(all="ignore"):
            tol = atol + rtol * np.abs(want)
            ok = (np.abs(got - want) <= tol) | (got == want) | (np.isnan(got) & np.isnan(want))
        if not np.all(ok):
            bad = np.argwhere(~ok)
            k = tuple(bad[0]) if got.ndim else ()
            self.check(False, msg + ": %d of %d values differ, first at %s: got %r, expected %r" % (
                len(bad), got.size, list(map(int, k)), got[k].item(), want[k].item()), **detail)

    def equal(self, got, want, msg, **detail):
        self.checks += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            self.check(False, msg + ": got %s, expected %s" % (short(g, 60), short(w, 60)), **detail)

    def raises(self, exc, fn, msg, **detail):
        self.checks += 1
        try:
            r = fn()
        except exc as e:
            return e
        except Exception as e:
            raise Violation(msg + ": raised %s: %s" % (type(e).__name__, e), {k: short(v, 30) for k, v in detail.items()})
        raise Violation(msg + ": accepted, returned %s" % (short(r),), {k: short(v, 30) for k, v in detail.items()})

    def known(self, key):
        self.known_hits[key] = self.known_hits.get(key, 0) + 1

    def violation(self, msg, detail):
        self.violations.append(dict(case=self.i, message=msg, detail=detail if detail is not None else
                                    {k: short(v, 30) for k, v in self.ctx.items()}))

    def export(self):
        return dict(violations=self.violations, events=self.events, sigs=sorted(self.sigs), samples=self.samples, cases=self.cases,
                    checks=self.checks, known=self.known_hits)
