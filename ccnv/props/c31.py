import re
from ..engine import Violation
from ..phasegen import RunCheck

LINE = re.compile(r"\s*(>>|<<|\*\*\*)\s*(\w+)\s*$")

def wrong(want, text):
    """What is wrong with the trace, if anything."""
    got = []
    for line in text.split("\n"):
        m = LINE.match(line)
        if m: got.append((m.group(1)[0], m.group(2)))
        elif line.strip(): got.append(("", line))
    i = 0
    for w in want:
        if w[0] in "><*":
            while i < len(got) and got[i][0] == "": i += 1
            if i >= len(got) or got[i] != w: return "%s is reported instead of %s" % (got[i] if i < len(got) else "nothing", w)
            i += 1
        else:
            # a message, right after what was reported last
            if i >= len(got) or got[i][0] != "" or not re.search(r"\b%s\b" % re.escape(w[1] or ""), got[i][1]): return "there is no message for %s" % (w,)
            i += 1
    rest = [x for x in got[i:] if x[0]]
    return "unexpected report of %s" % (rest[0],) if rest else None

class C31(RunCheck):
    id = "C31"
    quick, thorough = 450, 8000
    rule = ("a case is a specification with nested phases and cycles and four to eight run histories with a verbosity, which passes may change, gates, "
            "error signals and several runs per process; it is non-trivial if some history reported at least five phases and actions")
    profile = dict(nodes=(1, 4), passes=(1, 4), travs=(0, 2), phases=(1, 6), nsattrs=0, attrs=1, enums=(0, 0), data=False, actions=4, expanded=30)
    runs = dict(notify=0.2, errors=0.04, edit=0.1, renew=0.3, check=0.3, verbose=0.9, loud=0.04, toggle=0.03)

    def interesting(self, spec, lay, m):
        return sum(x[0] in "><*" for x in m.trace) >= 5

    def extra(self, m, r, text):
        why = wrong(m.trace, r.err)
        if why: raise Violation("%s in the trace\n%s\nwanted: %s\n%s" % (why, r.err[:1500], m.trace[:60], text))

check = C31()
