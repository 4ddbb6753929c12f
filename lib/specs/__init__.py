SPECS = {}
ASSUMPTIONS = {}
def prop(pid, harnesses, assumptions=()):
    SPECS.setdefault(pid, []).extend(harnesses)
    ASSUMPTIONS.setdefault(pid, []).extend(assumptions)
from . import basic, laws, terms, variables, inference, memory, decision, cycle, nal, nar, parse
