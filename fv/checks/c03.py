"""C03 - observers receive the documented notifications, each exactly once."""
from .. import beach, loop, subject

RULE = ("Protocol analysis: the event loop is interpreted over all short histories of an arbitrary queue and over one arbitrary iteration, with a ghost "
        "trace of takings, handlers and messages that must follow take, handle, report; and the subject's operations are interpreted over lists of "
        "observers, with observers that attach and detach while they are told.")


def run(prog, rep):
    rep.each(lambda: loop.run(prog, rep, "C03"),
             lambda: subject.run(prog, rep),
             lambda: beach.run(prog, rep, "C03"))
