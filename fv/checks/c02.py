"""C02 - every event is handled exactly once and false alarms never."""
from .. import beach, loop

RULE = ("Typestate analysis: the event loop is interpreted over all short histories of an arbitrary queue and over one arbitrary iteration; each handler "
        "is interpreted from symbolic consistent beach lines.  Each event taken must be handled once or be a false alarm; afterwards every valid pending "
        "event must concern three consecutive arcs and be cancellable by its arc, and an event must have been scheduled for exactly the new "
        "triples that have a circle and are clockwise.")


def run(prog, rep):
    rep.each(lambda: loop.run(prog, rep, "C02"),
             lambda: beach.run(prog, rep, "C02"))
