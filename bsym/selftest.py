"""setup_cmd: checks that the engine works here (z3, numpy stubs, forking) before any check runs."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bsym import core, stubs  # noqa: E402

stubs.install()
import numpy as np  # noqa: E402


def h(ctx):
    x, y = ctx.real('x'), ctx.real('y')
    a = np.array([x, y], dtype=object)
    ctx.eq('square', np.dot(a, a) + 2 * x * y, (x + y) ** 2)
    ctx.eq('abs', abs(x) if x > 0 else -abs(x), x)
    ctx.eq('trig', np.sin(a)[0] ** 2 + np.cos(a)[0] ** 2, 1)


def bad(ctx):
    x = ctx.real('x')
    ctx.check('wrong', x * x > x)


c = core.Ctx().explore(h)
assert not c.failures and c.stats['paths'] == 2, c.failures
c = core.Ctx().explore(bad)
assert c.failures and c.failures[0]['kind'] == 'assert'
print('engine self-test passed: z3', core.z3.get_version_string())
