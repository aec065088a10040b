# What each check is built from. Sources under /repo are taken from the working tree as it is.
# mode: seq   - code under test with AddressSanitizer, sequential choice tree
#       sched - code under test instrumented for the controlled scheduler (mc/vsched.cc)
# base: sub   - Base.h left out, its non-folly includes instead (as the repository's own build here does)
#       shim  - the whole Base.h over the stand-ins in /verif/shim
CHECKS = {}
def C(id, src, repo, mode="seq", base="sub", flags=(), link=(), technique=None, note=None, gen=None, thorough=True, asm=()):
    CHECKS[id] = dict(id=id, src=list(src), repo=list(repo), mode=mode, base=base, flags=list(flags),
                      link=list(link), technique=technique, note=note, gen=gen, asm=list(asm))

SCHED_T = "stateless model checking of the real code: all interleavings under a controlled scheduler, preemption-bounded"
SEQ_T = "bounded exhaustive exploration of operation sequences on the real code against a reference model"

from registry_checks import register
register(C, SCHED_T, SEQ_T)
