"""--smoke: does the machinery start here?  Otherwise: determinism self-test
(every run twice, under different worker counts, must give the same digest)."""
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True


def smoke():
    code = ("import sys; sys.path.insert(0, %r); sys.dont_write_bytecode = True\n"
            "from simkit import world; print('simulator ready, library from', world.REPO_SRC)" % V)
    return subprocess.call(["/opt/venv/bin/python", "-c", code])


def determinism(props, n):
    from simkit.driver import Zygote, hashseeds
    import tempfile, shutil

    bad = 0
    for prop in props:
        scratch = tempfile.mkdtemp()
        hs = hashseeds(1)[0]
        digests = []
        for order in (range(n), range(n - 1, -1, -1)):
            z = Zygote(prop, hs, scratch)
            d = {}
            for i in order:
                z.send({"gen": i, "seed": 7, "tier": "quick"})
                r = z.recv()
                d[i] = (r["status"], r["digest"], r["steps"], r["nswitches"])
            z.close()
            digests.append(d)
        diff = [i for i in range(n) if digests[0][i] != digests[1][i]]
        notok = [i for i in range(n) if digests[0][i][0] != "ok"]
        print(prop, "runs", n, "differing", diff[:5], "not ok", notok[:5])
        bad += bool(diff)
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad else 0


if __name__ == "__main__":
    if "--smoke" in sys.argv:
        sys.exit(smoke())
    args = [a for a in sys.argv[1:] if a.startswith("C")]
    if not args:
        args = sorted(f[:3].upper() for f in os.listdir(os.path.join(V, "scenarios")) if f.startswith("c") and f.endswith(".py"))
    sys.exit(determinism(args, int(os.environ.get("N", "200"))))
