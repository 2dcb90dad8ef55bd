#!/usr/bin/env python3
"""Developer aid (no check uses it): random source mutants of /repo, which property reports each.
usage: mutate.py OUT.jsonl SEED COUNT [file-substring]   (works on copies under /tmp/mut.SEED)"""
import os, random, re, subprocess, sys, json, shutil, time
OUT, SEED, COUNT = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
SUB = sys.argv[4] if len(sys.argv) > 4 else ""
W = os.environ.get("MW", "3")
V = os.path.dirname(os.path.abspath(__file__))
D = "/tmp/mut.%d" % SEED
os.makedirs(D, exist_ok=True)
if not os.path.exists(D + "/repo"):
    subprocess.run(["cp", "-a", "/repo", D + "/repo"], check=True)
    shutil.rmtree(D + "/repo/_build", ignore_errors=True)
    subprocess.run(["git", "-C", D + "/repo", "checkout", "-q", "--", "."])
    subprocess.run(["git", "clone", "-q", V, D + "/verif"], check=True)
env = dict(os.environ, VF_REPO=D + "/repo", VF_JOBS=W)
R = random.Random(SEED)

def build():
    return subprocess.run([sys.executable, D + "/verif/build.py"], env=env, capture_output=True).returncode == 0
assert build()
files = []
for d in ("compute", "control", "core_blas"):
    for f in sorted(os.listdir(D + "/repo/" + d)):
        if f.endswith(".c") and SUB in f and "@generated" not in open(D + "/repo/" + d + "/" + f, errors="replace").read(2000) \
                and subprocess.run(["git", "-C", D + "/repo", "ls-files", "--error-unmatch", d + "/" + f], capture_output=True).returncode == 0:
            files.append(d + "/" + f)
# one entry per mutation site
OPS = [(r"(?<![<>=!])<(?![<=])", ["<="]), (r"<=", ["<"]), (r"(?<![->])>(?![>=])", [">="]), (r">=", [">"]), (r"==", ["!="]), (r"!=", ["=="]),
       (r"&&", ["||"]), (r"\|\|", ["&&"]), (r"(?<=[\w\)\]])\+1\b", ["", "+2"]), (r"(?<=[\w\)\]])-1\b", ["", "-2"]), (r"(?<=[\w\)\]])\+(?=[\w\(])", ["-"]),
       (r"(?<=[\w\)\]])-(?=[\w\(])", ["+"]), (r"\bimin\b", ["imax"]), (r"\bimax\b", ["imin"]), (r"\bPlasmaNoTrans\b", ["PlasmaConjTrans", "PlasmaTrans"]),
       (r"\bPlasmaConjTrans\b", ["PlasmaNoTrans", "PlasmaTrans"]), (r"\bPlasmaLower\b", ["PlasmaUpper"]), (r"\bPlasmaUpper\b", ["PlasmaLower"]),
       (r"\bPlasmaLeft\b", ["PlasmaRight"]), (r"\bPlasmaRight\b", ["PlasmaLeft"]), (r"\bPlasmaUnit\b", ["PlasmaNonUnit"]), (r"\bPlasmaNonUnit\b", ["PlasmaUnit"]),
       (r"\bA\.mt\b", ["A.nt"]), (r"\bA\.nt\b", ["A.mt"]), (r"\bA\.mb\b", ["A.nb"]), (r"\bA\.nb\b", ["A.mb"]), (r"\bA\.m\b", ["A.n"]), (r"\bA\.n\b", ["A.m"]),
       (r"\bmvam\b", ["mvak"]), (r"\bnvan\b", ["nvak"]), (r"\bldam\b", ["ldak"]), (r"\b1\.0\b", ["0.0", "-1.0"]), (r"\b0\.0\b", ["1.0"]), (r"-1\.0\b", ["1.0"]),
       (r"\bib\b", ["nb"]), (r"\bkl\b", ["ku"]), (r"\bku\b", ["kl"]), (r"\bklt\b", ["kut"]), (r"\bcontinue;", [";"]), (r"\bbreak;", [";"]), (r"\b0\b(?!\.)", ["1"]),
       (r"depend\(inout:", ["depend(in:"]), (r"depend\(in:[^()]*(?:\([^()]*\))?[^()]*\)", [""]), (r"\bconj\(", ["("]), (r"PlasmaErrorIllegalValue", ["PlasmaSuccess"])]
SITES = []
for f in files:
    L = open(D + "/repo/" + f).read().split("\n")
    com = False
    for i, l in enumerate(L):
        s = l.strip()
        if com:
            if "*/" in s: com = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: com = True
            continue
        if s.startswith("//") or s.startswith("*") or s.startswith("#include") or s.startswith("#define A(") or not s or "plasma_error" in s: continue
        code = l.split("//")[0]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                for r in reps: SITES.append((f, i, m.start(), m.end(), r))
        if re.match(r"\s+[\w>\-\.\[\]\(\)\*]+ *[\+\-\*]?= *[^=].*;$", code) and not re.match(r"\s+(int|double|size_t|plasma_\w+|char|float)\b", code): SITES.append((f, i, 0, len(l), "    ;"))
        if re.match(r"\s+(plasma_\w+|memcpy|memset|LAPACKE_\w+|cblas_\w+|free)\(.*\);$", code): SITES.append((f, i, 0, len(l), "    ;"))
byf = {}
for s in SITES: byf.setdefault(s[0], []).append(s)
def fam(f):
    b = os.path.basename(f)[:-2]
    x = re.sub(r"^(core_)?p?(dz|z|zc|cl)?", "", b)
    M = [("gemm|gbmm|symm|hemm|syrk|herk|syr2k|her2k|trmm|geadd|tradd", ["C01"]), ("trsm|trtri|lauum|getri_aux", ["C02", "C04"]), ("hetrf|hesv|hetrs|hegst|heswp", ["C06"]),
         ("gbtrf|gbsv|gbtrs|pbtrf|pbsv|pbtrs|tbsm|gb2desc|pb2desc|desc2pb|gbset", ["C05"]), ("getrf|gesv|getrs|getri|geinv|geswp", ["C03", "C12"]), ("potr|posv|poinv|potri", ["C04"]),
         ("gels|geqrs|gelqs", ["C08", "C07"]), ("blgtrd|gbbrd|gesdd|gbtype|ge2gb|lapack_band|lacpy_band", ["C09"]), ("qr|lq|ts|tt|parfb|pemv|pamm|larfb|tree", ["C24", "C07", "C08"]), ("stevx2|laebz2|laneg2", ["C10"]),
         ("lan|amax|ssq", ["C11", "C24"]), ("lacpy|laset|lascl", ["C12", "C24"]), ("lag2|cgesv|cposv|cgbsv", ["C13"]), ("descriptor|desc2|2desc", ["C21"]), ("context|tuning|constants", ["C19"]), ("async", ["C20"]), ("workspace", ["C22"])]
    if re.match(r"(zc|p?zlag2|p?clag2|core_zlag2|core_clag2)", b): return ["C13", "C15", "C20"]
    for rx, p in M:
        if re.search(rx, b): return p
    return []
ALL = ["C%02d" % i for i in range(1, 25)]
REST = ["C15", "C20", "C22", "C16", "C21", "C18", "C14", "C17", "C23", "C19", "C24", "C12"]
def order(f):
    o = list(fam(f))
    b = os.path.basename(f)
    rest = REST if f.startswith("control") else ["C18", "C17", "C20", "C16", "C22"] if b.startswith("p") else ["C15", "C20", "C22", "C14", "C16", "C18", "C17"] if f.startswith("compute") else ["C24", "C17", "C18", "C14", "C16"]
    for p in rest:
        if p not in o: o.append(p)
    return o
for it in range(COUNT):
    f = R.choice(list(byf))
    s = R.choice(byf[f])
    p = D + "/repo/" + f
    src = open(p).read()
    L = src.split("\n")
    old = L[s[1]]
    L[s[1]] = old[:s[2]] + s[4] + old[s[3]:]
    rec = {"file": f, "line": s[1] + 1, "old": old.strip(), "new": L[s[1]].strip()}
    open(p, "w").write("\n".join(L))
    t0 = time.time()
    try:
        if not build():
            rec["res"] = "nobuild"
        else:
            rec["res"] = "SURVIVED"
            for q in order(f):
                r = subprocess.run([D + "/verif/build/vfcheck", "--prop", q, "--seed", "1", "--tier", "quick", "--workers", W, "--budget", os.environ.get("MB", "30"), "--noshrink", "--known", D + "/verif/known_findings.txt",
                                    "--out", D + "/e.json", "--replaydir", D], cwd=D + "/verif", capture_output=True, text=True, errors="replace", timeout=600)
                if r.returncode != 0:
                    rec["res"] = q
                    rec["rc"] = r.returncode
                    rec["how"] = [x.strip()[:160] for x in (r.stdout + r.stderr).split("\n") if x.startswith("  ")][:1]
                    break
    except subprocess.TimeoutExpired:
        rec["res"] = "TIMEOUT " + q
    open(p, "w").write(src)
    rec["t"] = round(time.time() - t0, 1)
    open(OUT, "a").write(json.dumps(rec) + "\n")
