"""Names of the functions of the tree the contracts were written for. A function which is not among them (a helper extracted since) is
never taken as a reader or an effect by name: its body is executed (vc/symex.py, opaque mode)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vc"))
import front, symex
P, e = front.load()
open(os.path.join(os.path.dirname(symex.__file__), "known.txt"), "w").write("\n".join(sorted({symex.bare(f.n) for f in P.fn.values() if not f.sys and not f.key.startswith("lambda@")})) + "\n")
