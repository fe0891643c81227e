"""Which behaviours of the specification decide which property, per tier."""
import glob, os, subprocess

ASSUMPTIONS = [
    "TLC and the JVM evaluate the specification as TLA+ defines it",
    "proc_macro2's fallback token streams behave like the compiler's for what venial uses of them",
    "opaque fragments are drawn from the pools of VenialPools.tla and the alphabets of VenialStrings.tla",
]

# What a generic parameter list and a where clause are made of.
FREE_GEN = ["Gen", "GParams", "GParam", "Bounded", "Bound", "ConstTy", "LifeName", "Where", "WPreds", "WPred", "Left", "StructTail", "Name", "RareName",
            "RareBound", "RareLeft", "RareConstTy"]

GEN_INV = ["Recovered", "Rejected", "Located", "SameStream", "Lossless"]


def gen(sym, choices, lst=2, depth=1, attrs=1, free=None, want=(), workers=4, tag=""):
    """All sentences with at most `choices` departures from the smallest one."""
    return {"type": "gen", "name": f"all-{sym}-{choices}{tag}", "module": "VenialGen", "replay": "replay", "workers": workers, "shards": 4,
            "const": {"MaxList": lst, "MaxDepth": depth, "MaxAttrs": attrs, "StartSym": sym, "Free": set(free or ()), "FreeAll": free is None,
                      "Random": False, "Bias": 0, "MaxChoices": choices, "Want": set(want)},
            "init": "GenInit", "next": "GenNext", "inv": GEN_INV}


def symmetric(sym, choices):
    """Sentences parsed under another naming as well."""
    j = gen(sym, choices, workers=4)
    j.update(name=f"symmetric-{sym}-{choices}", inv=GEN_INV + ["Symmetric"])
    return j


def long(sym, free, n, attrs=1, depth=1):
    """One list made as long as n, everything else smallest."""
    j = gen(sym, 4 * n + 8, n, depth, attrs, free, workers=1)
    j["name"] = f"long-{sym}-{'-'.join(free)}-{n}"
    j["shards"] = 1
    return j


def sim(sym, num, lst=4, depth=2, attrs=2, bias=0, choices=60, want=(), off=0):
    """Random sentences."""
    j = gen(sym, choices, lst, depth, attrs, None, want, 1)
    j["const"]["Random"] = True
    j["const"]["Bias"] = bias
    j.update(name=f"sim-{sym}-{lst}-{depth}-{off}", sim=num, seedoff=off, shards=2)
    return j


def wide(sym, num, off=0, want=()):
    j = sim(sym, num, 8, 4, 4, 4, 150, want, 500 + off)
    j["name"] = f"wide-{sym}-{off}"
    return j


def strings(tmpl, n, workers=2, want=()):
    """All token strings of length up to n in the place named by the template."""
    return {"type": "gen", "name": f"strings-{tmpl}-{n}", "module": "VenialStrings", "replay": "replay", "odd": True, "workers": workers, "shards": 2,
            "const": {"Tmpl": tmpl, "MaxLen": n, "Random": False, "Want": set(want)}, "spec": "Spec", "inv": ["Lossless", "Decided"]}


def rstrings(tmpl, n, num, off=0):
    j = strings(tmpl, n, 1)
    j["const"]["Random"] = True
    j.update(name=f"rstrings-{tmpl}-{n}-{off}", sim=num, seedoff=300 + off)
    return j


def slips(sym, choices, n=1, words="many", free=None, sims=0, off=0, lst=2, depth=1, attrs=1, workers=4, want=()):
    """Sentences with at most `choices` departures, with every slip of the pen."""
    j = gen(sym, choices, lst, depth, attrs, free, want, workers)
    j["const"].update(MaxSlips=n, Words=words)
    j.update(name=f"slips-{sym}-{choices}-{n}-{words}-{off}", module="VenialMutate", next="MutNext", inv=["Lossless", "Decided"], odd=True)
    if sims:
        j["const"].update(Random=True, Bias=0)
        j.update(sim=sims, seedoff=off, workers=1, shards=1)
    return j


def visible(q):
    """Every visibility in front of every type of a field, all fragments included."""
    fr = ["StructTail", "TFields", "Vis", "Ty", "RareTy"] + ([] if q else ["Variants", "VFields", "VisR", "RareVisr"])
    return [gen(k, c, lst=1, free=fr, workers=2, tag="-visible") for k, c in ([("D_Struct", 5)] if q else [("D_Struct", 6), ("D_Enum", 6)])]


FIELDS = ["StructTail", "TFields", "NFields", "Variants", "VFields", "Discr"]
SLIP_PLACES = {
    "members": [("D_Impl", ["Members", "Item"], 2, 1), ("D_Trait", ["Members", "Item"], 2, 1), ("D_ExternBlock", ["Members", "Item"], 2, 1),
                ("D_Mod", ["ModTail", "Members", "Item"], 3, 1)],
    "fields": [("D_Struct", FIELDS, 3, 2), ("D_Enum", FIELDS, 3, 2), ("D_Union", FIELDS, 2, 2)],
    "params": [("D_Fn", ["ParamList", "FirstParam", "Recv", "Typed", "Life"], 3, 2)],
    "generics": [("D_Struct", ["Gen", "GParams", "GParam", "Bounded"], 3, 2), ("D_Fn", ["Where", "WPreds", "Left"], 2, 2)],
    "attrs": [("D_Struct", ["Attrs", "Attr", "AttrVal", "AttrPath", "Vis", "VisR"], 2, 1), ("D_Mod", ["ModTail", "Inner", "AttrVal"], 3, 1)],
    "heads": [("D_Fn", ["QDefault", "QConst", "QAsync", "QUnsafe", "QExtern", "Ret", "FnEnd"], 2, 1), ("D_Impl", ["ImplHead", "Unsafe", "Where"], 2, 1),
              ("D_Macro", ["MacroDecl", "MacroBody"], 2, 1), ("D_Static", ["OptMut", "OptInit"], 2, 1), ("D_Type", ["OptBound", "OptEqTy"], 2, 1)],
}


def slips_in(place, words="few", more=0):
    """Slips in sentences with more departures, all of them in one place."""
    js = []
    for k, free, c, lst in SLIP_PLACES[place]:
        j = slips(k, c + more, words=words, free=free, lst=lst, workers=2)
        j["name"] = f"slips-{place}-{k}-{words}-{c + more}"
        js.append(j)
    return js


def deep(n, syms=("Deep",)):
    """Deeply nested fragments, up to n levels."""
    j = gen("Deep", 1, 2, n, 1, ["Deep"], workers=2)
    j["name"] = f"deep-{n}"
    return j


def abyss(n):
    """A few fragments nested n deep."""
    j = gen("Abyss", 1, 2, n, 1, ["Abyss"], workers=4)
    j["name"] = f"abyss-{n}"
    return j


def huge(n, want=(), sym="Huge"):
    """Every kind of list, n elements long."""
    j = gen(sym, 1, n, 1, 1, ["Huge"], want, workers=4)
    j["name"] = f"huge-{sym}-{n}"
    return j


def edit(sym, choices, edits, sims=0, off=0, workers=4, rich=False, lst=5, bias=1):
    j = {"type": "gen", "name": f"edit-{sym}-{choices}-{edits}-{off}{'-rich' if rich else ''}", "module": "VenialEdit", "replay": "edit", "workers": workers, "shards": 4,
         "const": {"MaxList": 2, "MaxDepth": 1, "MaxAttrs": 1, "StartSym": sym, "Free": {"Gen", "GParams", "GParam", "Where", "WPreds", "WPred", "StructTail",
                   "RareName", "TFields", "NFields", "Variants", "Bound", "Left", "ConstTy", "LifeName"}, "FreeAll": False,
                   "Random": False, "Bias": 0, "MaxChoices": choices, "Want": set(), "MaxEdits": edits, "Rich": rich},
         "init": "EInit", "next": "ENext", "inv": ["Recovered", "Faithful", "WellFormed", "LifeFirst", "ArgsWellFormed"]}
    if sims:
        j["const"].update(Random=True, FreeAll=True, MaxList=lst, MaxDepth=2, MaxAttrs=2, Bias=bias, MaxChoices=choices)
        j.update(sim=sims, seedoff=off, workers=1, shards=1)
    return j


def parts(sym, choices, sims=0, off=0, lst=2, workers=4):
    """Declarations made of the parts of two others."""
    j = gen(sym, choices, lst, workers=workers)
    j["const"]["Single"] = True
    j.update(name=f"parts-{sym}-{choices}-{off}", module="VenialParts", replay="parts", init="PInit", next="PNext", inv=["Sum", "Once", "Swapped"])
    if sims:
        j["const"].update(Random=True, Single=False, MaxList=3, MaxDepth=2, MaxAttrs=2, Bias=1)
        j.update(sim=sims, seedoff=off, workers=1, shards=1)
    return j


def punct(ops, sims=0, off=0, inside=False):
    j = {"type": "gen", "name": f"punctuated-{ops}-{off}{'-inside' if inside else ''}", "module": "Punctuated", "replay": "punct", "workers": 4, "shards": 4,
         "const": {"MaxOps": ops, "Random": False, "Inside": inside}, "spec": "Spec", "inv": ["Consistent"], "prop": ["KeepsOrder"]}
    if sims:
        j["const"]["Random"] = True
        j.update(sim=sims, seedoff=off, workers=1, shards=1, prop=[])
    return j


def errors(ops, live, texts, sims=0, off=0):
    j = {"type": "gen", "name": f"errors-{ops}-{live}-{len(texts)}-{off}", "module": "Errors", "replay": "errors", "workers": 4, "shards": 4,
         "const": {"MaxOps": ops, "MaxLive": live, "Texts": set(texts), "Random": False}, "spec": "Spec", "inv": ["NonEmpty", "Placed"], "prop": ["Conserves"]}
    if sims:
        j["const"]["Random"] = True
        j.update(sim=sims, seedoff=off, workers=1, shards=1, prop=[])
    return j


def traces(syms, n, off=0, entry="item"):
    """Mutated declarations, recorded from the code and validated by the specification."""
    return [{"type": "traces", "name": f"traces-{s}-{off}", "entry": entry, "n": n, "seedoff": off, "workers": 4,
             "pool": dict(sim(s, 200, 3, 1, 1, 0, 14, (), 700 + off), name=f"pool-{s}-{off}")} for s in syms]


def sources(n, off=0):
    return {"type": "sources", "name": f"sources-{off}", "n": n, "seedoff": off, "workers": 8, "maxtok": 1200}


def source_roots():
    roots = sorted(glob.glob(os.path.expanduser("~/.cargo/registry/src/*/*")))
    try:
        s = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True, cwd="/repo").stdout.strip()
        roots.append(os.path.join(s, "lib/rustlib/src/rust/library"))
    except OSError:
        pass
    return [r for r in roots if os.path.isdir(r)]


KINDS = ["D_Struct", "D_Enum", "D_Union", "D_Mod", "D_Trait", "D_Impl", "D_Type", "D_Fn", "D_Const", "D_Static", "D_Use", "D_Macro", "D_ExternBlock",
         "D_ExternCrate"]
ITEM_TMPLS = ["struct", "tail", "named", "tuple", "enum", "union", "generics", "where", "fnhead", "fntail", "params", "impl", "trait", "body", "tbody", "mod",
              "mbody", "const", "ctail", "type", "use", "macro", "extern", "attrs", "attr", "stream", "vis", "angle", "ret"]
PATH_TMPLS = ["path", "ipath", "pathargs"]

LONG_DATA = [("D_Struct", ["StructTail", "TFields"]), ("D_Struct", ["StructTail", "NFields"]), ("D_Union", ["NFields"]), ("D_Enum", ["Variants"])]
LONG_GEN = [("D_Struct", ["Gen", "GParams"]), ("D_Enum", ["Where", "WPreds"]), ("D_Fn", ["Gen", "GParams"]), ("D_Trait", ["Where", "WPreds"])]
LONG_FN = [("D_Fn", ["ParamList"])]
LONG_BLOCK = [("D_Mod", ["ModTail", "Members"]), ("D_Trait", ["Members"]), ("D_Impl", ["Members"]), ("D_ExternBlock", ["Members"])]
LONG_ATTR = [("D_Struct", ["Attrs"]), ("D_Mod", ["ModTail", "Inner"]), ("D_Fn", ["Attrs"])]
PRED_TMPLS = ["pred"]
LONG_PATH = [("PathTy", ["PMore"]), ("PathTy", ["PSeg", "PArgs"])]


def longs(ls, n=24):
    return [long(s, f, n, attrs=n) for s, f in ls]


def sims(syms, num, wnum, want=()):
    js = []
    for i, s in enumerate(syms):
        js += [sim(s, num, off=10 * i, want=want)]
        if wnum:
            js += [wide(s, wnum, off=10 * i, want=want)]
    return js


def slipset(kinds, tier, full=False):
    """Slips of the pen in the given kinds; `full`: with the whole vocabulary also on departures."""
    if tier == "quick":
        if full:
            return [slips(k, 1) for k in kinds]
        return ([slips(k, 0, workers=2) for k in kinds] + [slips(k, 1, words="few", workers=2, off=1) for k in kinds]
                + [slips(k, 2, words="twins", workers=2, off=4) for k in kinds])
    js = [slips(k, 3, words="twins", workers=4, off=4) for k in kinds]
    js += [slips(k, 1, workers=4) for k in kinds] + [slips(k, 0, 2, workers=8, words="few", off=2) for k in kinds]
    js += [slips(k, 12, n, sims=1500, off=40 + n, lst=3, depth=2, attrs=2) for k in kinds for n in (1, 2, 3)]
    if full:
        js += [slips(k, 2, words="few", workers=8, off=3) for k in kinds]
    return js


def focus(tier, kinds, tmpls, longlists=(), pools=None, extra=(), deep_=(), want=(), entry="item", slip=None, full=False, nest=0, places=()):
    """The common shape of a check: kinds exhaustively, places exhaustively, slips, long and deep ones, random beyond, recorded traces."""
    q = tier == "quick"
    js = []
    for k, c in kinds:
        js.append(gen(k, c if q else c + 1, workers=4 if q else 8, want=want))
    if not q:
        js += [gen(k, c, lst=3, depth=2, attrs=2, workers=8, want=want, tag="-d2") for k, c in kinds]
    js += [strings(t, 3 if q else (4 if t == "start" else 5), 2 if q else 4) for t in tmpls]
    if q:
        js += [strings(t, 4) for t in deep_]
    else:
        js += [rstrings(t, 9, 4000) for t in tmpls]
    js += longs(longlists, (24 if entry == "item" else 130) if q else (64 if entry == "item" else 260))
    for p in places:
        js += slips_in(p, "many", 0 if q and len(places) > 2 else 1)
    if entry == "item":
        js += [deep(nest or 9), abyss(260), huge(260)] if q else [deep(33), abyss(400), huge(400)]
    js += slipset([k for k, _ in kinds] if slip is None else slip, tier, full)
    pools = pools if pools is not None else [k for k, _ in kinds]
    if q:
        js += sims(pools, max(300, 3000 // max(1, len(pools))), max(30, 240 // max(1, len(pools))), want)
        js += traces(pools, max(400, 4000 // max(1, len(pools))), entry=entry)
    else:
        for r in range(4):
            js += [dict(j, name=j["name"] + f"-{r}", seedoff=j.get("seedoff", 0) + 20000 * (r + 1)) for j in
                   sims(pools, max(1000, 12000 // max(1, len(pools))), max(200, 2000 // max(1, len(pools))), want)]
        for r in range(3):
            js += traces(pools, max(1500, 20000 // max(1, len(pools))), off=1000 * r, entry=entry)
        if entry == "item":
            js += [sources(250, r) for r in range(4)]
    js += list(extra)
    js.append({"type": "probe", "name": "known-findings"})
    return js


def jobs(prop, tier):
    q = tier == "quick"
    three = lambda ks: [(k, 3) for k in ks]
    if prop == "C01":
        return focus(tier, three(KINDS), ["tail", "named", "fntail", "macro", "mod", "type", "ctail", "body", "mbody"],
                     LONG_DATA + LONG_GEN + LONG_FN + LONG_BLOCK + LONG_ATTR, pools=["Item", "Stream"], nest=17, places=["members"])
    if prop == "C02":
        small = ["D_Use", "D_Macro", "D_ExternCrate", "D_ExternBlock", "D_Mod", "D_Type"]
        return focus(tier, [(k, 4 if k in small else 3) for k in KINDS], ["start", "fnhead", "extern", "const", "macro", "attrs", "struct", "union", "mod"], pools=["Item"], places=["heads"])
    if prop == "C03":
        return focus(tier, [("D_Struct", 4), ("D_Enum", 4), ("D_Union", 4)], ["named", "tuple", "enum", "tail", "vis", "angle", "union"], LONG_DATA,
                     extra=visible(q), deep_=["angle"], places=["fields"])
    if prop == "C04":
        ex = [gen(k, 4 if q else 5, free=FREE_GEN, tag="-generics") for k in ["D_Struct", "D_Enum", "D_Trait", "D_Impl", "D_Fn"]]
        return focus(tier, [("D_Union", 3)], ["generics", "where", "struct", "tail", "impl", "trait", "fntail", "union"], LONG_GEN,
                     pools=["D_Struct", "D_Enum", "D_Union", "D_Trait", "D_Impl", "D_Fn"], extra=ex, deep_=["generics", "where"],
                     slip=["D_Struct", "D_Enum", "D_Trait", "D_Impl", "D_Fn"], places=["generics"])
    if prop == "C05":
        ex = [gen("D_Fn", 9, free=["QDefault", "QConst", "QAsync", "QUnsafe", "QExtern", "AbiStr", "Vis", "FnEnd", "Ret", "Gen", "Where"], tag="-quals"),
              gen("D_Impl", 9, free=["Members", "QDefault", "QConst", "QAsync", "QUnsafe", "QExtern", "FnEnd"], lst=1, tag="-quals"),
              gen("D_ExternBlock", 9, free=["Members", "QDefault", "QConst", "QAsync", "QUnsafe", "QExtern", "FnEnd"], lst=1, tag="-quals"),
              gen("D_Fn", 5, free=["ParamList", "FirstParam", "Typed", "Recv", "Life", "Attrs", "Name", "RareName"], lst=3, attrs=1, tag="-params")]
        return focus(tier, [("D_Fn", 3)], ["fnhead", "fntail", "params", "ret", "body"], LONG_FN, pools=["D_Fn", "D_Impl", "D_Trait"], extra=ex,
                     deep_=["fnhead", "params"], places=["params", "heads"])
    if prop == "C06":
        ex = [gen("BadBlock", 3 if q else 4)]
        return focus(tier, [("D_Mod", 4), ("D_Trait", 3), ("D_Impl", 4), ("D_ExternBlock", 4)], ["body", "tbody", "mbody", "impl", "trait", "mod", "extern"],
                     LONG_BLOCK, extra=ex, deep_=["body"], places=["members"])
    if prop == "C07":
        fr = ["Members", "Item", "OptBound", "OptEqTy", "OptInit", "OptMut", "MacroDecl", "MacroBody", "OptAs", "Alias", "Declared", "ModTail", "Junk", "Init"]
        ex = [gen(k, 5 if q else 6, lst=1, free=fr, tag="-members") for k in ["D_Impl", "D_Trait", "D_Mod", "D_ExternBlock"]]
        return focus(tier, [("D_Const", 3), ("D_Static", 3), ("D_Type", 4), ("D_Use", 4), ("D_Macro", 4), ("D_ExternCrate", 4)],
                     ["const", "ctail", "type", "use", "macro", "extern", "body"], extra=ex, deep_=["ctail", "type", "macro"], places=["heads", "members"])
    if prop == "C08":
        fr = ["Attrs", "Attr", "AttrPath", "RareAttrPath", "RareVisr", "AttrVal", "Inner", "InAttr", "Vis", "VisR", "StructTail", "TFields", "NFields", "Variants", "VFields", "ParamList",
              "FirstParam", "Typed", "Recv", "Members", "ModTail", "Junk"]
        ex = [gen(k, 4 if q else 5, free=fr, tag="-attrs") for k in ["D_Struct", "D_Enum", "D_Union", "D_Fn", "D_Mod", "D_Trait", "D_Impl", "D_ExternBlock"]] + visible(q)
        return focus(tier, [("D_Use", 3), ("D_Macro", 3), ("D_ExternCrate", 3)], ["attrs", "attr", "vis", "tuple", "named", "enum", "params", "mbody", "tbody"],
                     LONG_ATTR, pools=["Item", "D_Struct", "D_Mod"], extra=ex, deep_=["vis", "attr"], slip=["D_Struct", "D_Enum", "D_Fn", "D_Mod", "D_Impl"],
                     places=["attrs"])
    if prop == "C09":
        ex = [gen("Stream", 3 if q else 4, lst=3), gen("BadStream", 3 if q else 4)]
        return focus(tier, [], ["stream", "macro", "tail", "fntail", "mod", "attrs"], pools=["Stream", "BadStream"], extra=ex, deep_=["stream"], slip=["Stream", "BadStream"])
    if prop == "C10":
        js = focus(tier, [("BadEnum", 3)], ITEM_TMPLS, pools=["Item", "BadEnum", "D_Struct", "D_Fn", "D_Impl"],
                   extra=[gen("BadBlock", 3 if q else 4)], slip=KINDS + ["BadEnum", "BadBlock"], full=True, places=list(SLIP_PLACES))
        return js
    if prop == "C11":
        return focus(tier, three(KINDS), ["tail", "fntail", "mod", "type"], LONG_DATA + LONG_GEN + LONG_FN + LONG_ATTR, pools=["Item", "Stream"], slip=[], nest=17)
    if prop == "C12":
        return focus(tier, [("PathTy", 4)], PATH_TMPLS, LONG_PATH, extra=[strings("path", 5 if q else 6, 8), strings("pathargs", 5 if q else 6, 8), strings("ipath", 5 if q else 6, 4)] if q else [strings("path", 6, 8)],
                     entry="path", slip=["PathTy"], full=True)
    if prop == "C13":
        js = [punct(4), punct(3, inside=True)] if q else [punct(5), punct(4, inside=True)]
        js += [punct(14, 500 if q else 10000, 30, True), punct(40, 100 if q else 1000, 31, True)]
        js += [punct(14, 1500 if q else 20000, 10 + i) for i in range(2 if q else 6)] + [punct(40, 200 if q else 2000, 20)]
        return js
    if prop in ("C14", "C15"):
        js = []
        for k in ["D_Struct", "D_Enum", "D_Union"]:
            js.append(edit(k, 3 if q else 4, 1 if q else 2, workers=4))
            js.append(edit(k, 1 if q else 2, 2 if q else 3, workers=4, off=1))
            js.append(edit(k, (1 if k == "D_Struct" else 0) if q else 2, 1, workers=4, rich=True))
            js.append(edit(k, 40, 5, 100 if q else 1000, 90, rich=True))
        js += [edit(k, 40, 6, 100 if q else 1500, 30 + i) for i, k in enumerate(["D_Struct", "D_Enum", "D_Union", "D_Struct"])]
        js += [edit(k, 150, 8, 6 if q else 60, 95, lst=14, bias=8) for k in (["D_Struct"] if q else ["D_Struct", "D_Enum", "D_Union"])]
        # the lists of functions, traits and impls
        for k in ["D_Fn", "D_Trait", "D_Impl"]:
            js.append(edit(k, 3 if q else 4, 1 if q else 2, workers=2))
            js.append(edit(k, 1 if q else 2, 2 if q else 3, workers=2, off=1))
            js.append(edit(k, 0 if q else 1, 1, workers=2, rich=True))
            js.append(edit(k, 40, 6, 40 if q else 1000, 92))
        if prop == "C15":
            js += [gen(k, 4 if q else 5, want=("obs",), free=FREE_GEN, workers=2, tag="-inline") for k in ["D_Struct", "D_Enum", "D_Union", "D_Trait", "D_Impl", "D_Fn"]]
            js += [huge(260 if q else 520, ("obs",), "Row")]
            js += sims(["D_Struct", "D_Fn", "D_Trait"], 100 if q else 1500, 12 if q else 120, ("obs",))
        js.append({"type": "probe", "name": "known-findings"})
        return js
    if prop == "C16":
        js = [gen(k, 2 if q else 3, want=("obs",), workers=2 if q else 4) for k in KINDS]
        js += [huge(260, ("obs",), "Row"), huge(64, ("obs",))] if q else [huge(520, ("obs",), "Row"), huge(130, ("obs",))]
        js += sims(["Item", "D_Struct", "D_Enum", "D_Union", "D_Trait", "D_Impl", "D_Fn"], 150 if q else 2000, 15 if q else 150, ("obs",))
        js.append({"type": "probe", "name": "known-findings"})
        return js
    if prop == "C17":
        js = [errors(3, 3, [1, 2, 3]), errors(2, 2, range(1, 19))] if q else [errors(4, 3, [1, 2]), errors(3, 3, range(1, 9)), errors(2, 2, range(1, 19))]
        js += [errors(14, 6, range(1, 19), 600 if q else 8000, i) for i in range(2)] + [errors(40, 20, range(1, 19), 100 if q else 1000, 5), errors(150, 90, range(1, 19), 20 if q else 200, 6)]
        return js
    if prop == "C18":
        fr = ["Ty", "Bound", "Init", "Tree", "RetTy", "Left", "ConstTy", "RareTy", "RareBound", "RareInit", "RareTree", "RareRetTy", "RareLeft", "RareConstTy",
              "RareSelfTy", "RareImplTrait", "Ret", "OptInit", "OptEqTy", "OptBound", "Gen", "GParams", "GParam", "Bounded", "Where",
              "WPreds", "StructTail", "TFields", "NFields", "Variants", "VFields", "ParamList", "ImplHead", "ImplTrait", "SelfTy", "FnEnd"]
        ex = [gen(k, 4 if q else 5, free=fr, tag="-opaque") for k in ["D_Struct", "D_Enum", "D_Type", "D_Fn", "D_Trait", "D_Impl"]]
        ex += [gen(k, 3 if q else 4, free=fr, depth=2, tag="-opaque") for k in ["D_Const", "D_Static", "D_Union", "D_Use"]]
        return focus(tier, [], ["angle", "ret", "ctail", "type", "use", "generics", "where", "named", "tuple", "fntail", "impl", "params"],
                     pools=["D_Struct", "D_Fn", "D_Const", "D_Type", "D_Impl"], extra=ex + ([strings("angle", 6, 4)] if q else [strings("angle", 7, 8)]), deep_=["ret"], slip=["D_Struct", "D_Fn", "D_Const", "D_Type", "D_Impl", "D_Use"], nest=33)
    if prop == "C19":
        ex = [strings("pred", 4 if q else 6, 8), symmetric("WPred", 2), gen("WPred", 2, depth=12 if q else 33, tag="-deep")]
        return focus(tier, [("WPred", 2)], PRED_TMPLS, extra=ex, entry="pred", slip=["WPred"], full=True)
    if prop == "C20":
        js = [symmetric("Item", 4 if q else 5), symmetric("PathTy", 3 if q else 4), symmetric("WPred", 2), symmetric("BadEnum", 2), symmetric("BadBlock", 2)]
        js += [gen("Item", 2, want=("obs",), tag="-obs"), gen("Stream", 2 if q else 3)]
        js += [slips("Item", 1, words="many")] + [slips(k, 0 if q else 1, words="many", off=1) for k in ["D_Fn", "D_Enum", "D_Impl", "D_Trait", "BadEnum"]]
        js += [strings(t, 3 if q else 4) for t in ["named", "tuple", "enum", "generics", "params", "body", "attr", "vis", "path", "pred"]]
        js += sims(["Item", "Stream", "PathTy"], 400 if q else 4000, 30 if q else 300)
        return js
    if prop == "C21":
        js = []
        for i, k in enumerate(KINDS):
            many = k in ("D_Const", "D_Static", "D_Fn")
            js.append(parts(k, (1 if many else 2) if q else (2 if many else 3)))
            js.append(parts(k, 60, 150 if q else 1500, 400 + i))
        return js
    raise SystemExit(f"unknown property {prop}")


if __name__ == "__main__":
    import sys
    for p in sys.argv[1:]:
        for t in ("quick", "thorough"):
            names = [j["name"] for j in jobs(p, t)]
            assert len(names) == len(set(names)), sorted(n for n in names if names.count(n) > 1)
            print(p, t, len(names))
