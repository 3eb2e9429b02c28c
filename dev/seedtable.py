"""dev: rewrite the planted-bug table at the end of DESIGN.md"""
import glob, json
s = open('/verif/DESIGN.md').read().split("<!-- table -->")[0]
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split('/')[-2], m["property"], m["needs"].replace("|", "/")))
open('/verif/DESIGN.md', 'w').write(s + "<!-- table -->\n" + "\n".join(rows) + "\n")
