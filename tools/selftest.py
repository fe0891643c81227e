#!/usr/bin/env python3
"""Shows that the binding is not vacuous: corrupted reports and corrupted recorded traces are refused.

Behaviours of the specification are altered before replay (one label, the outcome, the position, one answer of a query,
one element of a list, one message), recorded traces are altered before validation; every alteration has to be noticed
under the property it concerns, and the unaltered ones have to pass."""
import importlib.machinery, importlib.util, json, os, random, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
l = importlib.machinery.SourceFileLoader("runmod", V + "/run")
m = importlib.util.module_from_spec(importlib.util.spec_from_loader("runmod", l))
l.exec_module(m)
import plan

R = random.Random(5)


def reports(path, n):
    v = [json.loads(json.loads(x)) for x in open(path) if x.startswith('"{')]
    return R.sample(v, min(n, len(v)))


def relabel(c):
    i = R.randrange(len(c["res"]["labs"]))
    c["res"]["labs"][i] = c["res"]["labs"][i] + ["wrong"]


def outcome(c):
    c["res"]["r"] = "fail"


def shorter(c):
    c["res"]["p"] -= 1
    c["res"]["labs"].pop()


def answer(c):
    o = R.choice(c["obs"])
    o["s"] = o["s"] + ["wrong"]


def strings_in(v, path=()):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from strings_in(x, path + (k,))
    elif isinstance(v, list):
        for k, x in enumerate(v):
            yield from strings_in(x, path + (k,))
    else:
        yield path


def main():
    m.build()
    scratch = tempfile.mkdtemp(prefix="selftest-", dir=V + "/work")
    failed = 0

    def expect(what, noticed, total, want):
        nonlocal failed
        ok = noticed == (total if want else 0) if want != "some" else noticed > 0
        failed += not ok
        print(f"{'ok  ' if ok else 'FAIL'} {what}: {noticed} of {total} noticed")

    def play(prop, mode, cases):
        n = 0
        for i, c in enumerate(cases):
            p = os.path.join(scratch, "c")
            open(p, "w").write(json.dumps(c) + "\n")
            rc, err = m.vh([mode, "--prop", prop], p, p + ".out")
            b = m.load_mismatches(p + ".out")[0] if rc == 0 else [1]
            n += bool(b)
        return n

    try:
        j = plan.gen("D_Struct", 2, want=("obs",))
        out, _ = m.tlc(j, scratch, 1)
        cs = reports(out, 40)
        for prop in ("C01", "C02", "C03", "C10", "C11", "C16", "C18"):
            expect(f"{prop} unaltered reports", play(prop, "replay", cs), len(cs), False)

        def altered(f):
            v = json.loads(json.dumps(cs))
            for c in v:
                f(c)
            return v
        expect("C18 a wrong label", play("C18", "replay", altered(relabel)), len(cs), True)
        expect("C02 a wrong outcome", play("C02", "replay", altered(outcome)), len(cs), True)
        expect("C10 accepted instead of refused", play("C10", "replay", altered(outcome)), len(cs), True)
        expect("C09 a wrong position", play("C09", "replay", altered(shorter)), len(cs), True)
        expect("C01 a lost token", play("C01", "replay", altered(shorter)), len(cs), True)
        expect("C16 a wrong answer", play("C16", "replay", altered(answer)), len(cs), True)

        tj = plan.traces(["D_Fn"], 60)[0]
        pool, _ = m.tlc(tj["pool"], scratch, 1)
        tr = os.path.join(scratch, "traces")
        rc, err = m.vh(["record", "--seed", "3", "--n", "60", "--entry", "item"], pool, tr)
        assert rc == 0, err
        good = [json.loads(x) for x in open(tr)]

        def check(name, traces, prop):
            p = os.path.join(scratch, name)
            open(p, "w").write("".join(json.dumps(t) + "\n" for t in traces))
            return len(m.validate({"name": name, "workers": 2}, prop, p, scratch, 1, False)["bad"])
        expect("ALL unaltered traces", check("t0", good, "ALL"), len(good), False)
        ok = [t for t in good if t["r"] == "ok"]

        def alt(f, ts):
            v = json.loads(json.dumps(ts))
            for t in v:
                f(t)
            return v

        def l1(t):
            i = R.randrange(len(t["labs"]))
            t["labs"][i] = ["elsewhere"]
        expect("ALL traces with a wrong label", check("t1", alt(l1, ok), "ALL"), len(ok), True)
        expect("ALL traces with another outcome", check("t2", alt(lambda t: t.update(r="ok" if t["r"] == "fail" else "fail", labs=[]), good), "ALL"), len(good), True)
        expect("ALL traces that stop earlier", check("t3", alt(lambda t: (t.update(p=t["p"] - 1), t["labs"].pop()), ok), "ALL"), len(ok), True)

        for name, job, mode, prop in (("C13", plan.punct(3), "punct", "C13"), ("C17", plan.errors(2, 2, [1, 2]), "errors", "C17"),
                                      ("C14", plan.edit("D_Struct", 1, 1), "edit", "C14"), ("C15", plan.edit("D_Struct", 1, 1, off=7), "edit", "C15")):
            out, _ = m.tlc(job, scratch, 1)
            cs = reports(out, 30)
            known = play(prop, mode, cs)
            left = [c for c in cs if play(prop, mode, [c]) == 0]
            print(f"     {name}: {len(cs)} reports, {known} with a known finding")
            keys = sorted({k for c in left for k in c})
            for k in keys:
                v = [json.loads(json.dumps(c)) for c in left if k in c]
                n = 0
                for c in v:
                    ps = list(strings_in(c[k]))
                    if not ps:
                        continue
                    q = R.choice(ps)
                    x = c
                    for s in (k,) + q[:-1] if q else ():
                        x = x[s]
                    kk = q[-1] if q else k
                    old = x[kk]
                    x[kk] = (not old) if isinstance(old, bool) else old + 1 if isinstance(old, int) else "wrong"
                    n += 1
                print(f"     {name}: alterations of `{k}`: {play(prop, mode, v)} of {n} noticed")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    print("selftest", "FAILED" if failed else "passed")
    return 1 if failed else 0


rc = main()
sys.stdout.flush()
os._exit(rc)
