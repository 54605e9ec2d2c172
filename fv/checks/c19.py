"""C19 - the documented interface exists and works as written."""
from ..lib import *
from ..names import Names

RULE = ("Kind inference over the package together with all documented examples (README, documentation pages, example programs, doc strings): every import "
        "resolves, every name is bound, every attribute exists on an object its receiver can be, every call fits the signature of what it calls, a chained "
        "call has a result, and a documented result is of the documented kind.")


def run(prog, rep):
    Names(prog, rep).run()
    rep.assume("documented parameter types are what users pass")
