"""python3 tools/mutrun.py MUTANTS.jsonl RESULTS.jsonl [workers] [file substring]: runs the checks on the mutants that tools/mutate.py kept
(development aid). One result line per mutant: caught by which check, or missed by all the checks of its file."""
import json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
LP = ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]
MAP = {"lp/": LP, "domain/output.py": ["C07", "C12", "C01"], "domain/numeric.py": ["C08", "C11"], "domain/input.py": ["C09", "C10", "C08", "C11"], "optimizer/utils.py": ["C11", "C12"],
       "optimizer/optimizer.py": LP[:1] + ["C06", "C13"], "remote/": ["C13"], "analyzer/": ["C15", "C17", "C14", "C16", "C18"], "shuffler": ["C22"], "pipeline.py": ["C20", "C19", "C21"], "viewer/": ["C23", "C24"]}

def key(m): return "%s:%s:%s" % (m["file"], m["site"], m["v"])
def dull(m):
    """log messages and names of solver variables only"""
    ls = [l for l in m["diff"].splitlines()[2:] if l.startswith("-")]
    return all("logger" in l or "suffix = " in l or "__repr__" in l for l in ls)

def main():
    src, res = sys.argv[1], sys.argv[2]
    n = int(sys.argv[3]) if len(sys.argv) > 3 else 3
    sub = sys.argv[4] if len(sys.argv) > 4 else ""
    done = {json.loads(l)["key"] for l in open(res)} if os.path.exists(res) else set()
    ms = [m for m in map(json.loads, open(src)) if key(m) not in done and sub in m["file"] and not dull(m)]
    random.Random(1).shuffle(ms)
    q = queue.Queue(); dirs = [plant.scratch() for _ in range(n)]; [q.put(d) for d in dirs]
    fo = open(res, "a")
    def one(m):
        d = q.get()
        try:
            open(os.path.join(d, m["file"]), "w").write(m["src"])
            got, rcs = None, {}
            for c in next(v for k, v in MAP.items() if k in m["file"]):
                try: r = subprocess.run(["./check", c, "quick"], cwd=plant.V, env=dict(os.environ, VERIF_SCALE=os.environ.get("VERIF_SCALE", "0.4"), VERIF_REPO=d, VERIF_EVIDENCE="/tmp/mut/ev%s" % os.path.basename(d)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                except subprocess.TimeoutExpired: rcs[c] = "timeout"; continue
                rcs[c] = r.returncode
                if r.returncode == 1: got = c; break
                if r.returncode == 2: rcs[c + "_out"] = r.stdout[-1500:]
            fo.write(json.dumps({"key": key(m), "line": m["line"], "diff": m["diff"], "caught": got, "rcs": rcs}) + "\n"); fo.flush()
        finally:
            shutil.copy("/repo/" + m["file"], os.path.join(d, m["file"])); q.put(d)
    with ThreadPoolExecutor(n) as ex: list(ex.map(one, ms))
    for d in dirs: shutil.rmtree(d)

if __name__ == "__main__": main()
