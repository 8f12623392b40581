import json, os, glob
matrix = []
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d)); matrix.append((os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
DETECT = {}
T = open("/verif/tools/design.body").read()
rows = "\n".join("| %s | %s | %s | %s |" % (i, p, n, DETECT.get(i, p)) for i, p, n in matrix)
open("/verif/DESIGN.md", "w").write(T.replace("@@MATRIX@@", "| planted change | property | needs | caught by |\n|---|---|---|---|\n" + rows))
