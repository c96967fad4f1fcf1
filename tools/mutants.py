"""mutants.py WORKER SEED COUNT (results in /var/tmp/mut-WORKER.jsonl): mutation campaign in a private mount namespace (see plantns.sh).
Applies one small textual change at a time to non-test code of the crates, builds the simulator, runs every check for a
few seconds and, for the changes no check reports, the stable tests. Prints one JSON line per change."""
import sys, os, re, json, random, subprocess, time
worker, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
W = f"/tmp/pw/{worker}"
if os.environ.get("MUT_IN_NS") != "1":
    out = "/var/tmp/mut-%s.jsonl" % worker
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for d in ("sim", "tmp", "v"):
        os.makedirs(f"{W}/{d}", exist_ok=True)
    if not os.path.isdir(f"{W}/repo/.git"):
        subprocess.check_call(["cp", "-a", "/repo", f"{W}/repo"])
    subprocess.check_call(f"cd {W}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q --detach FETCH_HEAD", shell=True)
    subprocess.check_call(f"rm -rf {W}/v/x && git -C /verif archive HEAD --prefix=x/ | tar -x -C {W}/v && mkdir -p {W}/v/x/sim/target {W}/v/x/evidence {W}/v/x/replays && cp {os.path.abspath(__file__)} {W}/v/x/mutants.py", shell=True)
    env = dict(os.environ, MUT_IN_NS="1")
    os.execvpe("unshare", ["unshare", "-m", "bash", "-c", f"mount --bind {W}/repo /repo && mount --bind {W}/v/x /verif && mount --bind {W}/sim /verif/sim/target && mount --bind {W}/tmp /tmp && exec nice -n 10 python3 /verif/mutants.py {worker} {seed} {count}"], env)
out = "/var/tmp/mut-%s.jsonl" % worker
rng = random.Random(seed)
CRATES = [("bluejay-validator/src", 5), ("bluejay-core/src", 2), ("bluejay-parser/src", 4), ("bluejay-printer/src", 2), ("bluejay-schema-comparator/src", 3), ("bluejay-visibility/src", 2), ("bluejay-typegen-macro/src", 3)]
files = []
for c, w in CRATES:
    for r, _, fs in os.walk("/repo/" + c):
        for f in fs:
            if f.endswith(".rs") and "test" not in f:
                files.append((os.path.join(r, f), w))
ops = [(r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " <= "), (r" <= ", " < "),
       (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"([(\s=])!(?=[a-z(])", r"\1"), (r"\bif (?!let )(.+) \{$", r"if !(\1) {"),
       (r"\+ 1\b", "+ 0"), (r"- 1\b", "- 0"), (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"is_empty\(\)", "is_empty() == false"),
       (r"^(\s+)(?!let |return|use |pub |fn |type |impl )([a-z_].*;)$", r"\1/* \2 */"), (r"\.filter\(", ".take_while("), (r" \+ ", " - "), (r" \+= ", " = "),
       (r"\.next\(\)", ".last()"), (r"\.unwrap_or\(true\)", ".unwrap_or(false)"), (r"\.filter_map\(Result::ok\)", ""),
       (r"\.insert\((.*)\) \{$", r".insert(\1) == false {"), (r"\.rev\(\)", ""), (r"\.first\(\)", ".last()"), (r"saturating_add", "wrapping_sub"), (r"\.chain\(", ".take(0).chain("),
       (r"=> Some\((.*)\),$", r"=> None,"), (r"\.zip\(", ".skip(1).zip("), (r"\.position\(", ".rposition("), (r"\.contains_key\(", ".is_empty() || self.contains_key("),
       (r"and_then\(", "and_then(|_| None).and_then("), (r" as_ref\(\)", "")]
muts = []
for f, w in files:
    lines = open(f).read().split("\n")
    stop = next((i for i, l in enumerate(lines) if "#[cfg(test)]" in l), len(lines))
    for i in range(stop):
        l = lines[i]
        if l.strip().startswith(("//", "#", "use ", "assert", "debug_assert")):
            continue
        for a, b in ops:
            for m in re.finditer(a, l):
                n = l[:m.start()] + m.expand(b) + l[m.end():]
                if n != l:
                    muts.append((f, i, n, w))
weights = [m[3] for m in muts]
print(len(muts), "candidates", flush=True)
order = {"bluejay-visibility": ["S01", "S02"], "bluejay-parser": ["S10", "S16", "S11", "S07"], "bluejay-printer": ["S11", "S12"], "bluejay-schema-comparator": ["S13", "S14"], "bluejay-validator": ["S07", "S08", "S09", "S16", "S05"], "bluejay-core": ["S07", "S08", "S06", "S01"]}
ALL = ["S07", "S10", "S08", "S16", "S09", "S05", "S13", "S11", "S01", "S12", "S04", "S06", "S03", "S14", "S17", "S02"]
env = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="1.79.0", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1", SIM_ROOT="/verif", PATH="/root/.cargo/bin:" + os.environ["PATH"])
SECS = os.environ.get("MUT_SECS", "6")
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
done = 0
seen = set()
while done < count:
    f, i, n, _ = rng.choices(muts, weights)[0]
    if (f, i, n) in seen:
        continue
    seen.add((f, i, n))
    src = open(f).read()
    lines = src.split("\n")
    rec = {"file": f[6:], "line": i + 1, "old": lines[i].strip(), "new": n.strip()}
    lines[i] = n
    open(f, "w").write("\n".join(lines))
    try:
        tg = "typegen" in rec["file"]
        b = subprocess.run(["cargo", "build", "--offline"] if not tg else ["cargo", "check", "--offline", "-p", "bluejay-typegen-macro"], cwd="/repo" if tg else "/verif/sim", env=dict(env, CARGO_TARGET_DIR="/tmp/mtg") if tg else env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if b.returncode:
            continue
        done += 1
        crate = rec["file"].split("/")[0]
        ids = ["S15"] if tg else order[crate] + [x for x in ALL if x not in order.get(crate, []) and not tg]
        rec["by"] = None
        for c in ids:
            try:
                p = subprocess.run(["bash", "-c", f"ulimit -v 12000000; exec /verif/check.sh S15 quick" if tg else f"ulimit -v 12000000; exec /verif/sim/target/debug/sim check {c}"], env=dict(env, SIM_SECS=SECS), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400, cwd="/verif")
                code, txt = p.returncode, p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired:
                code, txt = "timeout", ""
            if code == 1 and "VIOLATION" in txt:
                rec["by"] = c
                break
            if code != 0:
                rec.setdefault("odd", []).append([c, code])
        if rec["by"] is None:
            t = subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/mut.json"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            try:
                r = json.load(open("/tmp/mut.json"))
                rec["tests"] = [x for x in base if x not in r["passed"]][:3]
            except Exception as e:
                rec["tests"] = ["?" + str(e)]
        with open(out, "a") as o:
            o.write(json.dumps(rec) + "\n")
    finally:
        open(f, "w").write(src)
