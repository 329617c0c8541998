"""usage: plant.py SPEC.py [IDS...]
SPEC defines BUGS = {id: dict(prop, edits=[(file, old, new)], demo=text,
needs, breaks)}.  Writes seeded/<id>/ after confirming in /repo: demo passes
without and fails with the change, stable tests pass with it; then reports
whether the property's quick check catches it.  /repo is restored."""
import json, os, subprocess, sys
R, V = "/repo", "/verif"
PK = "parametricmatrixmodels/"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns["BUGS"])
    for i in ids:
        b = ns["BUGS"][i]
        assert sh(f"git -C {R} status --short").stdout == "", "dirty repo"
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        try:
            for f, o, n in b["edits"]:
                p = f"{R}/{PK}{f}"
                s = open(p).read()
                assert s.count(o) == 1, (i, f, s.count(o))
                open(p, "w").write(s.replace(o, n))
            diff = sh(f"git -C {R} diff").stdout
            open(f"{d}/patch.diff", "w").write(diff)
            open(f"{d}/demo.py", "w").write(b["demo"])
            open(f"{d}/demo.sh", "w").write(
                '#!/bin/bash\n. /opt/vp/env.sh\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            json.dump(dict(property=b["prop"], needs=b["needs"],
                           what_it_breaks=b["breaks"]),
                      open(f"{d}/meta.json", "w"), indent=1)
            r1 = sh(f"bash {d}/demo.sh", cwd=R)
            t = sh("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/p.json"
                   ) if "notest" not in b else None
            c = sh(f"timeout 900 bash check.sh {b['prop']} quick", cwd=V)
        finally:
            sh(f"git -C {R} checkout -- .")
        r0 = sh(f"bash {d}/demo.sh", cwd=R)
        nf = "?"
        if t is not None:
            j = json.load(open("/tmp/w/p.json"))
            nf = f"build {t.returncode} passed {len(j['passed'])} failed {j['failed']}"
        print(f"{i} {b['prop']}: demo clean={r0.returncode} bug={r1.returncode}"
              f" tests: {nf} check={c.returncode} "
              f"{[l for l in c.stdout.splitlines() if 'VIOL' in l][:2]}",
              flush=True)
        rp = f"{V}/tools/seeded_results.json"
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[i] = "yes" if c.returncode == 1 else "no"
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
        if r0.returncode or not r1.returncode:
            print(r0.stderr[-800:], r1.stdout[-300:])


main()
