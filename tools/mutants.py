#!/usr/bin/env python3
"""Mechanical mutants of /repo's sources against a corpus of behaviours of the specification.

  mutants.py corpus [keep]        generate the corpus (a sample of all quick jobs) into /tmp/mut/corpus
  mutants.py run [file.rs ...]    every mutant that builds and passes the tests is replayed; prints survivors

A survey of what the checks can see, not a check: works on scratch copies under /tmp/mut only.
"""
import importlib.machinery, importlib.util, json, os, random, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
W = "/tmp/mut"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_run():
    l = importlib.machinery.SourceFileLoader("runmod", V + "/run")
    m = importlib.util.module_from_spec(importlib.util.spec_from_loader("runmod", l))
    l.exec_module(m)
    return m


def corpus(keep):
    m = load_run()
    import plan
    m.build()
    shutil.rmtree(W + "/corpus", ignore_errors=True)
    os.makedirs(W + "/corpus")
    seen, jobs = set(), []
    for p in [f"C{i:02d}" for i in range(1, 19)]:
        for j in plan.jobs(p, "quick"):
            if j["type"] == "traces":
                continue
            if j["type"] != "gen":
                continue
            key = (j["name"], json.dumps(sorted(map(str, j["const"].items()))))
            if key in seen:
                continue
            seen.add(key)
            jobs.append(dict(j, name=f"{len(jobs)}-{j['name']}"))
    outs = {k: open(f"{W}/corpus/{k}", "w") for k in ("replay", "odd", "edit", "punct", "errors")}
    lock = threading.Lock()
    scratch = W + "/scratch"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)

    def one(j):
        out, counts = m.tlc(j, scratch, 1)
        lines = [l for l in open(out, errors="replace") if l.startswith('"{')]
        n = len(lines)
        r = random.Random(j["name"])
        k = min(n, keep)
        pick = lines if k == n else r.sample(lines, k)
        with lock:
            outs["odd" if j.get("odd") else j["replay"]].writelines(pick)
            print(j["name"], n, k, flush=True)
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    with ThreadPoolExecutor(len(jobs)) as ex:
        list(ex.map(one, jobs))


# ------------------------------------------------------------------ mutants

SUBST = [
    (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_empty\(\)", ".is_empty() == false"),
    (r"Spacing::Joint", "Spacing::Alone"), (r"Spacing::Alone", "Spacing::Joint"),
    (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"\.push\(", ".insert(0, "),
    (r" \+ 1\b", " + 2"), (r" - 1\b", ""), (r"\+= 1\b", "+= 2"), (r"-= 1\b", "-= 0"), (r"\b0\b", "1"), (r"\b1\b", "2"),
    (r">=", ">"), (r"<=", "<"), (r" > ", " >= "), (r" < ", " <= "),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().take(3)"),
    (r"if let Some\(", "if let (true, Some("), (r"\.as_ref\(\)", ".as_ref().filter(|_| false)"), (r"\.rev\(\)", ""), (r"\.cloned\(\)", ".cloned().filter(|_| false)"),
    (r"Some\((\w+)\)", "None"), (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"!self\.", "self."),
    (r"Delimiter::Parenthesis", "Delimiter::Bracket"), (r"Delimiter::Brace\b", "Delimiter::Bracket"), (r"Delimiter::Bracket", "Delimiter::Brace"),
    (r"Delimiter::None", "Delimiter::Bracket"),
    (r"(?<=')[-<>:;,=#!&'](?=')", "%"), (r'"(\w+)"', '"zz"'), 
    (r"\w+(\.\w+)*\.span\(\)", "proc_macro2::Span::call_site()"),
    (r"\?;", ".ok();"), (r"\.next\(\)", ".next().and_then(|_| None)"), (r"\.peek\(\)", ".peek().filter(|_| false)"),
    (r"\bcontinue\b", "break"), (r"\bbreak;", "continue;"),
]


def strip_tests(src):
    i = src.find("#[cfg(test)]")
    return len(src) if i < 0 else i


def mutants(path):
    src = open(path).read()
    end = strip_tests(src)
    lines = src.split("\n")
    pos = 0
    out = []
    for n, l in enumerate(lines):
        start = pos
        pos += len(l) + 1
        if start >= end:
            break
        code = l.split("//")[0]
        if not code.strip() or code.strip().startswith("#["):
            continue
        for pat, rep in SUBST:
            for mt in re.finditer(pat, code):
                new = code[:mt.start()] + mt.expand(rep) + code[mt.end():]
                out.append((n, n, [new], f"{pat} -> {rep}"))
        s = code.strip()
        if s.endswith(";") and not re.match(r"(pub|use|let|mod|type|const|return)\b", s) and s != "};" and s.count("(") == s.count(")") and s.count("{") == s.count("}"):
            out.append((n, n, [""], "drop statement"))
        if re.match(r"[\w:()|, .{}&'\"]+ => .*,$", s):
            out.append((n, n, [""], "drop arm"))
        if s.endswith(",") and "=>" not in s and ":" in s and not s.startswith("pub") and "None" not in s:
            out.append((n, n, [code.split(":")[0] + ": None,"], "field None"))
            out.append((n, n, [code.split(":")[0] + ": Default::default(),"], "field default"))
        # drop a block
        if s.endswith("{") and re.match(r"(if|for|while|match)\b", s):
            ind = len(code) - len(code.lstrip())
            for k in range(n + 1, len(lines)):
                if lines[k].startswith(" " * ind + "}") and len(lines[k]) - len(lines[k].lstrip()) == ind:
                    if lines[k].strip() in ("}", "};"):
                        out.append((n, k, [""], "drop block"))
                    break
            if s.startswith("if ") and not s.startswith("if let"):
                c = re.match(r"(\s*)if (.*) \{$", code)
                if c:
                    out.append((n, n, [f"{c[1]}if ({c[2]}) && false {{"], "never"))
                    out.append((n, n, [f"{c[1]}if ({c[2]}) || true {{"], "always"))
    res = []
    for a, b, new, why in out:
        txt = "\n".join(lines[:a] + new + lines[b + 1:])
        if txt != src:
            res.append((a + 1, why, txt, lines[a].strip()))
    return res


def sh(cmd, cwd, t=120, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, errors="replace",
                           env={**os.environ, **(env or {})})
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ""


def prepare(i):
    d = f"{W}/w{i}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sh(f"cp -a /repo {d}/repo && cp -a {V}/harness {d}/harness", "/")
    c = open(d + "/harness/Cargo.toml").read().replace('"/repo"', f'"{d}/repo"')
    open(d + "/harness/Cargo.toml", "w").write(c)
    rc, o = sh(f"cargo build --offline -q && cd {d}/repo && cargo test --offline --no-run -q", d + "/harness", 600, {"RUSTFLAGS": "-Awarnings", "CARGO_TARGET_DIR": d + "/ht"} )
    assert rc == 0, o
    return d


KINDS = [("replay", "replay --prop ALL"), ("odd", "replay --prop ALL --odd 1"), ("edit", "edit --prop ALL"), ("punct", "punct"), ("errors", "errors")]


def replay(d, base=None):
    """The cases that depart, as a set of strings; stops at the first not in base."""
    if base is not None:
        b = replay_in(d, W + "/small", base)
        if b - base:
            return b
    return replay_in(d, W + "/corpus", base)


def replay_in(d, dir, base):
    bad = set()
    for k, a in KINDS:
        props = ["C14", "C15"] if k == "edit" else ["ALL"]
        for p in props:
            rc, o = sh(f"ulimit -v 6000000; timeout 300 {d}/ht/debug/vh {a.replace('ALL', p)} < {dir}/{k} > {d}/out", "/", 320)
            if rc != 0:
                return {"died " + k}
            with open(d + "/out") as f:
                for l in f:
                    if l.startswith('{"stats'):
                        continue
                    v = json.loads(l)
                    if "mismatch" in v:
                        if base is None:
                            bad.add(json.dumps([k, v["case"].get("t"), v["case"].get("base")]))
                        else:
                            key = json.dumps([k, v["case"].get("t"), v["case"].get("base")])
                            if key not in base:
                                return {key}
    return bad


def run(files, workers=4):
    files = files or [f for f in sorted(os.listdir("/repo/src")) if f.endswith(".rs") and f not in ("tests.rs", "lib.rs")]
    todo = []
    for f in files:
        todo += [(f, m) for m in mutants("/repo/src/" + f)]
    print(len(todo), "mutants", flush=True)
    env = {"RUSTFLAGS": "-Awarnings"}
    os.makedirs(W + "/small", exist_ok=True)
    for k, _ in KINDS:
        ls = open(f"{W}/corpus/{k}").readlines()
        open(f"{W}/small/{k}", "w").writelines(ls[:: max(1, len(ls) // (400 if k == "edit" else 2500))])
    dirs = [prepare(i) for i in range(workers)]
    base = replay(dirs[0])
    print("base mismatches", len(base), flush=True)
    it = iter(todo)
    lock = threading.Lock()
    count = {"nobuild": 0, "tests": 0, "caught": 0, "survived": 0}
    log = open(W + "/survivors.jsonl", "a")

    def work(d):
        while True:
            with lock:
                x = next(it, None)
            if x is None:
                return
            f, (line, why, txt, old) = x
            p = f"{d}/repo/src/{f}"
            keep = open("/repo/src/" + f).read()
            open(p, "w").write(txt)
            try:
                rc, o = sh("cargo build --offline -q", d + "/harness", 120, {**env, "CARGO_TARGET_DIR": d + "/ht"})
                if rc:
                    r = "nobuild"
                else:
                    rc, o = sh("timeout 60 cargo test --offline -q -- --test-threads 2", d + "/repo", 90, {**env, "CARGO_TARGET_DIR": d + "/ht"})
                    if rc:
                        r = "tests"
                    else:
                        b = replay(d, base)
                        r = "caught" if b - base else "survived"
            finally:
                open(p, "w").write(keep)
            with lock:
                count[r] += 1
                if r == "survived":
                    new = txt.split("\n")[line - 1].strip()
                    print(f"SURVIVED {f}:{line} [{why}]\n    - {old}\n    + {new}", count, flush=True)
                    log.write(json.dumps([f, line, why, old, new]) + "\n")
                    log.flush()
    ts = [threading.Thread(target=work, args=(d,)) for d in dirs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(count)


if __name__ == "__main__":
    os.makedirs(W, exist_ok=True)
    if sys.argv[1] == "corpus":
        corpus(int(sys.argv[2]) if len(sys.argv) > 2 else 3000)
    else:
        run(sys.argv[2:], int(os.environ.get("WORKERS", "4")))
