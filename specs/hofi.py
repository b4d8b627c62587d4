"""The scenarios of hof.py over a trivially copyable element type (a specialised path for such elements is judged too)."""
import os

_d = os.path.dirname(os.path.abspath(__file__))
_s = open(os.path.join(_d, 'hof.py')).read()
for _a, _b in (("'P'", "'int'"), ("'P_eq'", "'eq'"), ('* 24', '* 4'), ("c.elem('x')", "c.elem('x', 'int')"), ("Scenario(f'", "Scenario(f'int."),
               ("Scenario(name", "Scenario('int.' + name")):
    _s = _s.replace(_a, _b)
exec(compile(_s, 'hofi', 'exec'))


def source(tier):
    s = open(os.path.join(os.path.dirname(_d), 'drivers', 'hof.cpp')).read()
    return s.replace('using namespace vp;\n', 'using namespace vp;\n#define P int\n', 1)
