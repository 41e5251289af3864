#!/usr/bin/env python3
"""Development aid: alters single tokens / statements of the sources in private copies of /repo and runs the checks
that should notice. usage: mutate.py FILE[:FIRST-LAST] CHECK[,CHECK..] COUNT SEED WORKER   (survivors are printed)"""
import os, random, re, shutil, subprocess, sys, json, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE, CHECKS, COUNT, SEED, W = sys.argv[1], sys.argv[2].split(","), int(sys.argv[3]), int(sys.argv[4]), sys.argv[5]
FRAC = os.environ.get("MUT_FRAC", "0.2")
lo, hi = 1, 10**9
if ":" in FILE:
    FILE, r = FILE.split(":"); lo, hi = map(int, r.split("-"))
R = "/tmp/mut/w%s/repo" % W
B = "/tmp/mut/w%s/build" % W
os.makedirs("/tmp/mut/w%s" % W, exist_ok=True)
if os.path.exists(R): shutil.rmtree(R)
os.makedirs(R)
for d in ("src", "levels", "python", "data"): shutil.copytree("/repo/" + d, R + "/" + d)
src = open(R + "/" + FILE).read().split("\n")
REL = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"], "*": ["/"], "/": ["*"], "+=": ["-="], "-=": ["+="], "++": ["--"]}
def mutants():
    out = []
    incom = False
    py = FILE.endswith(".py")
    for i, l in enumerate(src):
        if not (lo <= i + 1 <= hi): continue
        t = l
        if incom:
            if "*/" in t: incom = False
            continue
        if t.strip().startswith("/*"):
            if "*/" not in t: incom = True
            continue
        code = re.sub(r"(#.*|#)$" if py else r"//.*$", "", t)
        if not code.strip() or (code.strip().startswith("#") and not py) or "std::cerr" in code or "std::cout" in code or "levels_assert" in code and '"' not in code: continue
        if re.search(r"^\s*(template|class|struct|using|namespace|typedef|import|from|def)\b", code) or "Wtime" in code or re.search(r"\bn_\w+;|t_\w+ \+=", code): continue
        s = re.sub(r'"(\\.|[^"\\])*"', lambda m: "\0" * len(m.group(0)), code)
        for m in re.finditer(r"<=|>=|==|!=|&&|\|\||\+\+|\+=|-=|->|<<|>>|[<>+\-*/]", s):
            o = m.group(0)
            if o not in REL: continue
            if o in "<>" and re.search(r"\w<[\w\s,:<>*]*>", s): continue
            if o in "*-+" and not re.search(r"[\w\)\]]\s*$", s[:m.start()]): 
                continue
            if o == "*" and re.search(r"\b(int|long|double|char|void|float|T|const)\s*$", s[:m.start()]): continue
            for n in REL[o]: out.append((i, code[:m.start()] + n + code[m.end():]))
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", s):
            v = int(m.group(1))
            for n in {v + 1, v - 1 if v > 0 else 1}: out.append((i, code[:m.start()] + str(n) + code[m.end():]))
        for a, b in (("min", "max"), ("max", "min"), ("sin", "cos"), ("cos", "sin"), ("true", "false"), ("false", "true"), (".re", ".im"), (".im", ".re"), ("first", "second"), ("floor", "ceil"), ("continue;", "break;"), ("break;", "")):
            for m in re.finditer(r"%s" % re.escape(a) if a[0] == "." else r"\b%s" % re.escape(a) + (r"\b" if a[-1].isalnum() else ""), s):
                out.append((i, code[:m.start()] + b + code[m.end():]))
        for m in re.finditer(r"\bif\s*\(", s):
            out.append((i, code[:m.end()] + "1||" + code[m.end():])); out.append((i, code[:m.end()] + "0&&" + code[m.end():]))
        if s.strip().endswith(";") and s.count("(") == s.count(")") and s.count("{") == s.count("}") and not re.match(r"^\s*(return|const|int|long|double|float|size_t|tsize|bool|char|auto|std::|levels::arr|arr<|vector|string|else|for|while|throw|try)\b", s) and re.search(r"[=(]|\+\+|--", s):
            out.append((i, re.match(r"\s*", code).group(0) + ";"))
        if py and re.match(r"^\s+\w[\w.\[\]]* [+*/-]?= ", s): out.append((i, re.match(r"\s*", code).group(0) + "pass"))
    return [m for m in out if m[1] != src[m[0]]]
ms = mutants()
rnd = random.Random(SEED); rnd.shuffle(ms)
print("%s: %d mutants" % (FILE, len(ms)), flush=True)
st = dict(killed=0, survived=0, nobuild=0)
for i, new in ms[:COUNT]:
    x = list(src); x[i] = new
    open(R + "/" + FILE, "w").write("\n".join(x))
    how = None
    t0 = time.time()
    for c in CHECKS:
        env = dict(os.environ, VP_REPO=R, VP_BUILD=B, VP_OUT="/tmp/mut/w%s/out" % W, VP_FAST="1", VP_ONLY="opt", VP_FRAC=FRAC, VERIF_SEED=str(SEED))
        p = subprocess.run([V + "/check", c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
        if "build failed" in p.stdout: how = "nobuild"; break
        if p.returncode == 1 and "VIOLATION" in p.stdout: how = "killed"; break
        if p.returncode != 0: how = "killed"; print("RC %d" % p.returncode, p.stdout[-300:].replace("\n", " | ")); break
    how = how or "survived"
    st[how] += 1
    if how == "survived": print("SURVIVED %s:%d\n   - %s\n   + %s  [%.0f s]" % (FILE, i + 1, src[i].strip(), new.strip(), time.time() - t0), flush=True)
    # keep the build directory small
    if os.path.isdir(B) and len(os.listdir(B + "/opt")) > 400 if os.path.isdir(B + "/opt") else False: 
        for f in os.listdir(B + "/opt"): os.unlink(B + "/opt/" + f)
open(R + "/" + FILE, "w").write("\n".join(src))
print("DONE", FILE, st, flush=True)
