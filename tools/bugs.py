"""Plants each mistake that PdfSerial knows into the modelled design and
expects the models to notice: their invariants are not vacuous."""
import os, re, sys, tempfile, shutil
sys.path.insert(0, "/verif")
import run as R
CASES = {"parens": "MCStrings", "backslash": "MCStrings", "cr": "MCStrings", "octal": "MCStrings",
         "hash": "MCStrings", "emptyname": "MCSyntax", "endstream": "MCDocument", "freelink": "MCDocument",
         "startxref": "MCDocument", "width": "MCDocument", "scanstring": "MCRenumber", "scanstream": "MCRenumber",
         "scandigits": "MCRenumber", "scanescape": "MCRenumber", "oplimit": "MCOperands", "generation": "MCDocument"}
d = tempfile.mkdtemp()
bad = 0
for bug, m in CASES.items():
    if sys.argv[1:] and bug not in sys.argv[1:]:
        continue
    if f'"{bug}"' not in "".join(open(os.path.join(R.SPEC, f)).read() for f in os.listdir(R.SPEC) if f.endswith(".tla")):
        continue
    cfg = open(f"{R.SPEC}/{m}.cfg").read()
    cfg = re.sub(r'Bug = "\w+"', f'Bug = "{bug}"', cfg).replace("Dump = TRUE", "Dump = FALSE")
    open(f"{d}/{bug}.cfg", "w").write(cfg)
    out = R.tlc(m + ".tla", f"{d}/{bug}.cfg", f"{d}/{bug}", args=["-workers", "4"])
    try:
        v = R.verdict(out)
    except R.Broken as e:
        v = "BROKEN " + str(e)[:500]
    print(bug, m, "->", v or "NOT NOTICED", flush=True)
    bad += not v
shutil.rmtree(d)
sys.exit(bad > 0)
