"""batch.py WORKER FILE [ID...]: try many candidate changes quickly, in a private mount namespace (see plantns.sh).
FILE is Python defining IDEAS = [(id, property, [(file, old, new), ...]), ...]. For each: apply, build, run the property's
quick check (and, with TESTS=1, the stable tests); prints one line per idea. Results in /tmp/batch-WORKER.jsonl."""
import sys, os, json, subprocess, time
worker, path = sys.argv[1], os.path.abspath(sys.argv[2])
W = f"/tmp/pw/{worker}"
if os.environ.get("BATCH_NS") != "1":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for d in ("sim", "tmp", "v"):
        os.makedirs(f"{W}/{d}", exist_ok=True)
    if not os.path.isdir(f"{W}/repo/.git"):
        subprocess.check_call(["cp", "-a", "/repo", f"{W}/repo"])
    subprocess.check_call(f"cd {W}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD", shell=True)
    subprocess.check_call(f"rm -rf {W}/v/x && git -C /verif archive HEAD --prefix=x/ | tar -x -C {W}/v && mkdir -p {W}/v/x/sim/target {W}/v/x/evidence {W}/v/x/replays && cp {os.path.abspath(__file__)} {W}/v/x/batch.py && cp {path} {W}/v/x/ideas.py", shell=True)
    os.environ.update(BATCH_NS="1", OUT=f"/tmp/batch-{worker}.jsonl")
    open(f"/tmp/batch-{worker}.jsonl", "w").close()
    fd = os.open(f"/tmp/batch-{worker}.jsonl", os.O_WRONLY | os.O_APPEND)
    os.set_inheritable(fd, True)
    os.environ["OUTFD"] = str(fd)
    os.execvpe("unshare", ["unshare", "-m", "bash", "-c", f"mount --bind {W}/repo /repo && mount --bind {W}/v/x /verif && mount --bind {W}/sim /verif/sim/target && mount --bind {W}/tmp /tmp && exec nice -n 5 python3 /verif/batch.py {worker} /verif/ideas.py {' '.join(sys.argv[3:])}"], os.environ)
out = os.fdopen(int(os.environ["OUTFD"]), "a")
ns = {}
exec(open(path).read(), ns)
for id, prop, edits in ns["IDEAS"]:
    if len(sys.argv) > 3 and id not in sys.argv[3:]:
        continue
    rec = {"id": id, "prop": prop}
    try:
        for f, a, b in edits:
            s = open("/repo/" + f).read()
            assert s.count(a) == 1, (f, s.count(a))
            open("/repo/" + f, "w").write(s.replace(a, b))
        if os.environ.get("TESTS") == "1":
            b = subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/b-res.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            passed = set(json.load(open("/tmp/b-res.json"))["passed"])
            rec["build"], rec["tests"] = b.returncode, [x for x in base if x not in passed][:4]
        for p in prop.split():
            t = time.time()
            r = subprocess.run(["bash", "/verif/check.sh", p, "quick"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/verif", env=dict(os.environ, VERIF_SEED="1"), timeout=900)
            o = r.stdout.decode(errors="replace")
            rec[p] = r.returncode
            rec[p + "_s"] = round(time.time() - t)
            if r.returncode == 2:
                rec["err"] = r.stderr.decode(errors="replace")[-600:]
            v = [l for l in o.splitlines() if "violation" in l.lower()]
            rec[p + "_v"] = v[0][:200] if v else ""
    except AssertionError as e:
        rec["bad"] = str(e)
    except subprocess.TimeoutExpired:
        rec["timeout"] = True
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    out.write(json.dumps(rec) + "\n")
    out.flush()
