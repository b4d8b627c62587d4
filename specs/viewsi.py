"""The scenarios of views.py over a trivially copyable element type."""
import os

_s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'views.py')).read()
for _a, _b in (("'P'", "'int'"), ('* 24', '* 4'), ("Scenario(name", "Scenario('int.' + name"), ("using namespace efp;", "using namespace efp;\\n#define P int")):
    _s = _s.replace(_a, _b, -1 if _a[:5] != 'using' else 1)
exec(compile(_s, 'viewsi', 'exec'))
