"""Known findings: genuine defects recorded, not repaired.  See KNOWN_FINDINGS.txt."""
import os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def load(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out
