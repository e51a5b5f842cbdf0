"""Contract based verification of functions of /repo with Verus.

The text that is verified is produced from /repo's current source on every run: the extractor
(../extractor) rewrites and prints each function, this module adds the contracts and proof
annotations of specs/*.vx and hands the result to Verus. An annotation is attached to the
statement it was written next to; if that statement is gone the function is not decided here."""
import difflib, glob, hashlib, json, os, re, shutil, subprocess, sys, time

P = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(P)
BUILD = os.path.join(V, "build")
VX = os.path.join(BUILD, "extractor", "debug", "vx")
REPO = "/repo"
LEVELS = {}
VERUS = shutil.which("verus") or "/opt/veriftools/verus/verus"


def setup():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "extractor"), CARGO_TERM_COLOR="never")
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=os.path.join(V, "extractor"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-3000:])
    return r.returncode == 0


# ------------------------------------------------------------------ spec files
class Spec:
    def __init__(self, kind, file, path, src):
        self.kind, self.file, self.path, self.src = kind, file, path, src
        self.props, self.ret, self.trusted, self.attr, self.subst, self.closures = [], "r", None, [], {}, {}
        self.before = []
        self.spec, self.body, self.items, self.deps, self.sigline = [], [], [], [], None
        self.rewrite = []
        self.head = self.selfparam = self.tail = self.derives = self.name = self.retty = self.same = None

    @property
    def key(self):
        return self.file + " " + self.path


def read_specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(P, "specs", "*.vx"))):
        cur, sect = None, None
        for line in open(f).read().split("\n"):
            m = re.match(r"### (fn|type|impl) (\S+) (.+)$", line)
            if m:
                cur = Spec(m.group(1), m.group(2), m.group(3).strip(), f)
                if cur.kind == "impl":
                    out[("impl", cur.key)] = cur
                else:
                    assert cur.key not in out, "double spec " + cur.key
                    out[cur.key] = cur
                sect = None
                continue
            if cur is None:
                continue
            if re.match(r"^(spec|body|items|before):\s*$", line):
                sect = line.split(":")[0]
                continue
            if sect:
                if line.strip():
                    getattr(cur, sect).append(line)
                continue
            m = re.match(r"^(props|ret|trusted|attr|subst|closure \d+|deps|params|rewrite|head|selfparam|tail|derives|name|retty|same):\s*(.*)$", line)
            if not m:
                continue
            k, v = m.group(1), m.group(2).strip()
            if k in ("props", "deps"):
                setattr(cur, k, v.split(";") if k == "deps" else v.split())
                if k == "deps":
                    cur.deps = [x.strip() for x in cur.deps]
            elif k == "attr":
                cur.attr.append(v)
            elif k == "rewrite":
                a, b = v.split("=>", 1)
                cur.rewrite.append((a.strip(), b.strip()))
            elif k == "subst":
                cur.subst.update(x.strip().split("=", 1) for x in v.split(";"))
            elif k.startswith("closure"):
                cur.closures[int(k.split()[1])] = v
            elif k == "params":
                cur.sigline = v.split()
            else:
                setattr(cur, k, v)
    return out


# ------------------------------------------------------------------ extraction
FILES = [
    "banyan/src/index.rs", "banyan/src/util.rs", "banyan/src/query.rs", "banyan/src/tree.rs", "banyan/src/stream_builder.rs",
    "banyan/src/forest/mod.rs", "banyan/src/forest/read.rs", "banyan/src/forest/write.rs", "banyan/src/forest/index_iter.rs",
    "banyan/src/store/mem_store.rs", "banyan/src/store/mem_cache.rs", "banyan/src/store/branch_cache.rs",
    "banyan/src/store/thread_local_zstd.rs", "banyan/src/store/zstd_dag_cbor_seq.rs",
    "banyan-utils/src/tag_index.rs", "banyan-utils/src/tags.rs",
]


def extract(specs):
    cl = {}
    for s in specs.values():
        if s.kind == "fn" and (s.closures or s.tail):
            n = max(list(s.closures) + [-1]) + 1
            cl[s.key] = {"closures": [s.closures.get(i) for i in range(n)]}
            if s.tail:
                cl[s.key]["tail"] = True
    os.makedirs(os.path.join(BUILD, "proof"), exist_ok=True)
    cf = os.path.join(BUILD, "proof", "closures-%d.json" % os.getpid())
    json.dump(cl, open(cf, "w"))
    if not os.path.exists(VX):
        setup()
    r = subprocess.run([VX, "--specs", cf, REPO] + FILES, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    os.remove(cf)
    if r.returncode:
        raise Exception("extractor: " + r.stderr[-2000:])
    items, renames, errors = {}, set(), []
    for x in json.loads(r.stdout):
        if x["kind"] == "renames":
            renames = set(x["names"])
        elif x["kind"] == "error":
            errors.append(x)
        else:
            k = x["file"] + " " + x["path"]
            if x["kind"] == "type":
                k = "type " + k
            items.setdefault(k, []).append(x)
    return items, renames, errors


# ------------------------------------------------------------------ alignment
def words(l):
    return re.findall(r"[A-Za-z_][A-Za-z0-9_]*|\d+|\S", l)


def strip_ann(body):
    """spec body -> base lines, annotations as (index of the base line they stand before, text)"""
    base, ann = [], []
    for l in body:
        if l.strip().startswith("//@"):
            ann.append((len(base), l.strip()[3:]))
        elif l.strip():
            base.append(l.strip())
    return base, ann


NOOPS = {"let _ = 0 ;", "( ) ;"}


def align(base, ann, cur):
    """place the annotations in the current lines. Returns (list of lines with None for annotations..., lost, renames)"""
    cur = [l for l in cur if l not in NOOPS]
    exact = base == cur
    # consistent renaming of local names
    ren = {}
    pos = {}
    if exact:
        pos = {i: i for i in range(len(base))}
    else:
        sm = difflib.SequenceMatcher(None, base, cur, autojunk=False)
        for tag, a0, a1, b0, b1 in sm.get_opcodes():
            if tag == "equal":
                for i in range(a1 - a0):
                    pos[a0 + i] = b0 + i
            elif tag == "replace":
                # lines that are the same statement with something changed inside
                if a1 - a0 == b1 - b0:
                    for i in range(a1 - a0):
                        wa, wb = words(base[a0 + i]), words(cur[b0 + i])
                        if difflib.SequenceMatcher(None, wa, wb, autojunk=False).ratio() >= 0.5:
                            pos[a0 + i] = b0 + i
                        if len(wa) == len(wb):
                            for x, y in zip(wa, wb):
                                if x != y and re.match(r"[a-z_]", x) and re.match(r"[a-z_]", y):
                                    ren.setdefault(x, set()).add(y)
                else:
                    i = a0
                    for j in range(b0, b1):
                        for k in range(i, a1):
                            if difflib.SequenceMatcher(None, words(base[k]), words(cur[j]), autojunk=False).ratio() >= 0.75:
                                pos[k] = j
                                i = k + 1
                                break
    allw = set(w for l in cur for w in words(l))
    ren = {a: list(b)[0] for a, b in ren.items() if len(b) == 1 and a not in allw}
    ins, lost = {}, []
    for at, text in ann:
        for a, b in ren.items():
            text = re.sub(r"\b%s\b" % re.escape(a), b, text)
        if at in pos:
            ins.setdefault(pos[at], []).append(text)
        elif at > 0 and at - 1 in pos:
            ins.setdefault(pos[at - 1] + 1, []).append(text)
        elif at == len(base):
            ins.setdefault(len(cur), []).append(text)
        else:
            lost.append(text.strip())
    out = []
    for i in range(len(cur) + 1):
        for t in ins.get(i, []):
            out.append("//@" + t)
        if i < len(cur):
            out.append(cur[i])
    return out, lost, exact, ren


def loop_headers(lines):
    """move annotations before a loop's `{` into the header, expand generated invariants"""
    out = []
    i = 0
    while i < len(lines):
        l = lines[i]
        l = re.sub(r"^vx_block ;$", "", l)
        m = re.match(r"^(.*while (\w+) \. has_next \( \)) vx_invariants \( (\w+) , (\w+) , (\w+) \)$", l)
        if m:
            it, s, k = m.group(3), m.group(4), m.group(5)
            out.append(m.group(1))
            extra = []
            j = i + 1
            while lines[j].startswith("//@"):
                extra.append(lines[j])
                j += 1
            exc = [x for x in extra if x[3:].strip().startswith("invariant_except_break")]
            extra = [x for x in extra if x not in exc]
            out += exc
            out.append("invariant 0 <= %s <= %s.len(), %s@ == %s.skip(%s), %s@.len() == %s.len() - %s," % (k, s, it, s, k, it, s, k))
            out += extra
            out.append("decreases %s.len() - %s" % (s, k))
            i = j
            continue
        if l:
            out.append(l)
        i += 1
    return out


# ------------------------------------------------------------------ assembly
FOREST_METHODS = None


class Fn:
    pass


def build_fn(sp, it, renames, mode, status):
    """text of one function; mode: 'verify', 'trust', 'vacuity'"""
    name = it["name"]
    if name in renames and it["self_ty"] is not None:
        name = "vx_" + name
    name = sp.name or name
    inputs = [sp.selfparam if sp.selfparam and x["name"] == "self" else x["text"] for x in it["inputs"]]
    inputs = [re.sub(r"^_ :", "vxu%d :" % i, x) for i, x in enumerate(inputs)]
    spec = list(sp.spec)
    cur_params = [x["name"] for x in it["inputs"]]
    pren = {}
    if sp.sigline and len(sp.sigline) == len(cur_params):
        pren = {a: b for a, b in zip(sp.sigline, cur_params) if a != b and a != "_"}
    elif sp.sigline:
        status["lost"] = status.get("lost", []) + ["signature changed"]
    for a, b in pren.items():
        spec = [re.sub(r"\b%s\b" % re.escape(a), b, l) for l in spec]
    ret = ""
    if it["ret"]:
        ret = "-> (%s: %s)" % (sp.ret, sp.retty or it["ret"])
    lines = list(sp.attr)
    if any("while " in l or l.startswith("loop") for l in it["body"]) and not any("loop_isolation" in l for l in lines):
        lines.append("#[verifier::loop_isolation(false)]")
    if mode == "trust":
        lines = [l for l in lines if "rlimit" not in l and "spinoff" not in l and "loop_isolation" not in l]
    if mode == "trust":
        lines.append("#[verifier::external_body]")
    vis = "" if it["trait"] else "pub "
    lines.append("%sfn %s%s(%s) %s %s" % (vis, name, it["generics"], ", ".join(inputs), ret, it["where"].replace("I :: IntoIter : Send ,", "")))
    lines += spec
    if mode == "trust":
        lines.append("{ unimplemented!() }")
    else:
        base, ann = strip_ann(sp.body)
        body, lost, exact, ren = align(base, ann, it["body"])
        for a, b in pren.items():
            body = [re.sub(r"\b%s\b" % re.escape(a), b, l) if l.startswith("//@") else l for l in body]
        status["exact"] = exact
        status["lost"] = status.get("lost", []) + lost
        status["renamed"] = ren
        body = loop_headers(body)
        body = [l if l.startswith("//@") else re.sub(r"\b(u32|u64|i32|i64|usize) :: max_value \( \)", r"\1 :: MAX", l) for l in body]
        for a, b in sp.rewrite:
            body = [l if l.startswith("//@") else l.replace(a, b) for l in body]
        # Deref of Transaction to Forest
        if it["self_ty"] and it["self_ty"].startswith("Transaction"):
            body = [l if l.startswith("//@") else re.sub(r"\bself \. (%s) \(" % "|".join(FOREST_METHODS), r"self . read . \1 (", l) for l in body]
        body = [("/*@*/ " + l[3:]) if l.startswith("//@") else l for l in body]
        if mode == "vacuity":
            # the normal exit of the function: must not be provably unreachable
            rt = sp.retty or it["ret"]
            body = ["{ let vx_exit %s=" % (": %s " % rt if rt and "impl" not in rt else "")] + body + [";", "proof { assert(false /*vacuity*/); }", "vx_exit }"]
        lines += body
    for a, b in sp.subst.items():
        lines = [re.sub(r"\b%s\b" % re.escape(a), b, l) for l in lines]
        lines = [re.sub(r"fn (\w+)<[^(]*>\(", r"fn \1(", l) if l.lstrip().startswith(("pub fn", "fn")) and a in "TR" and sp.attr is not None and ("fn " + name) in l and "nogen" in sp.subst else l for l in lines]
    return lines


def unit(key):
    return "utils" if key.startswith("banyan-utils/") else "main"


def assemble(specs, items, renames, verify, degraded, vacuity=False, only=None):
    """returns (text, line map, statuses)"""
    global FOREST_METHODS
    fm = set(k.split("Forest::")[1] for k in items if " Forest::" in k)
    tm = set(k.split("Transaction::")[1] for k in items if " Transaction::" in k)
    FOREST_METHODS = sorted(("vx_" + x if x in renames else x) for x in fm - tm)
    out = ["#![allow(unused, non_camel_case_types, non_snake_case, unreachable_code, deprecated)]"]
    lmap, status = [], {}
    out += open(os.path.join(P, "prelude.rs")).read().split("\n")
    libs = sorted(glob.glob(os.path.join(P, "lib", "*.rs")))
    for f in libs:
        if not os.path.basename(f).startswith("7"):
            out += open(f).read().split("\n")
    out.append("verus! {")
    emit(specs, items, renames, verify, degraded, vacuity, only, "main", out, lmap, status)
    out.append("} // verus!")
    # the second crate is a module of its own, and only there when something in it is to be verified
    if any(unit(k) == "utils" for k in verify):
        out += ["pub mod vx_utils {", "use super::*;"]
        for f in libs:
            if os.path.basename(f).startswith("7"):
                out += open(f).read().split("\n")
        out.append("verus! {")
        emit(specs, items, renames, verify, degraded, vacuity, only, "utils", out, lmap, status)
        out += ["} // verus!", "}"]
    out.append("fn main() {}")
    return "\n".join(out) + "\n", lmap, status


def emit(specs, items, renames, verify, degraded, vacuity, only, which, out, lmap, status):
    for sp in specs.values():
        if sp.kind == "type" and unit(sp.key) == which:
            it = items.get("type " + sp.key)
            if not it:
                status[sp.key] = {"missing": True}
                continue
            if sp.derives and sp.derives not in it[0].get("derives", []):
                status[sp.key] = {"missing": True, "why": "no longer derives " + sp.derives}
            # a private type that two files define alike is emitted once
            if sp.same:
                unpub = lambda t: re.sub(r"^pub ", "", " ".join(t) if isinstance(t, list) else str(t))
                if unpub(it[0]["text"]) != unpub(items.get("type " + sp.same, [{"text": None}])[0]["text"]):
                    status[sp.key] = {"missing": True, "why": "differs from " + sp.same}
                continue
            out += sp.attr
            t = list(it[0]["text"])
            for a, b in sp.rewrite:
                t = [l.replace(a, b) for l in t]
            out += t
    groups = {}
    for sp in specs.values():
        if sp.kind != "fn" or unit(sp.key) != which or (only is not None and sp.key not in only):
            continue
        its = items.get(sp.key)
        st = status.setdefault(sp.key, {})
        if not its or len(its) > 1:
            st["missing"] = True
            continue
        it = its[0]
        mode = "trust" if sp.trusted is not None or sp.key in degraded or sp.key not in verify else "verify"
        if vacuity and mode == "verify":
            mode = "vacuity"
        st["mode"] = mode
        lines = build_fn(sp, it, renames, mode, st)
        if mode != "trust" and st.get("lost"):
            st["mode"] = "trust"
            st["undecided"] = "no place for: " + "; ".join(st["lost"])
            lines = build_fn(sp, it, renames, "trust", {})
        if st["mode"] == "trust" and sp.retty and re.search(r"\bimpl\b", sp.retty):
            continue  # an opaque result needs a body: left out, callers cannot be verified either
        st["props"] = sp.props
        st["line"] = it["line"]
        if it["self_ty"] is None:
            g = ("", sp.key)
            head = None
        elif it["trait"] == "TraitDefault":
            head = "pub trait " + it["self_ty"]
            g = ("impl", sp.file + head)
        elif it["trait"]:
            head = "impl%s %s for %s %s" % (it["impl_generics"], it["trait"], it["self_ty"], it["impl_where"])
            g = ("impl", sp.file + head)
        else:
            head = "impl%s %s %s" % (it["impl_generics"], it["self_ty"], it["impl_where"])
            g = ("inh", sp.file + head) if not sp.subst else ("fn", sp.key)
        ik = ("impl", sp.file + " " + sp.path.split("::")[0])
        for a, b in sp.subst.items():
            if head:
                head = re.sub(r"\b%s\b" % re.escape(a), b, head)
        gg = groups.setdefault(g, {"head": head, "fns": [], "items": specs[ik].items if ik in specs and g[0] in ("impl", "inh") else [], "impl": specs.get(ik) if g[0] == "impl" else None})
        gg["fns"].append((sp.key, lines))
    for g, v in groups.items():
        if v["head"]:
            h = v["head"]
            if v["impl"]:
                h = v["impl"].head or h
                for a, b in v["impl"].rewrite:
                    h = h.replace(a, b)
                out += v["impl"].before
            out.append(h)
            out.append("{")
            out += v["items"]
        for k, lines in v["fns"]:
            a = len(out) + 1
            for l in lines:
                out += l.split("\n")
            lmap.append((a, len(out), k))
        if v["head"]:
            out.append("}")


# ------------------------------------------------------------------ running
def run_verus(text, name, rlimit, extra=(), timeout=800, seed=os.environ.get("SEED")):
    d = os.path.join(BUILD, "proof")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".rs")
    open(f, "w").write(text)
    cmd = [VERUS, f, "--crate-type", "lib", "--output-json", "--time", "--rlimit", str(rlimit), "--multiple-errors", "20", "--triggers-mode", "silent", "--num-threads", "8"] + (["--smt-option", "smt.random_seed=%s" % seed] if seed else []) + list(extra) + ["--", "--error-format=json"]
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=d)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired as e:
        return {"rc": -1, "diags": [], "json": {}, "wall": time.time() - t, "cmd": " ".join(cmd), "timeout": True, "raw": ""}
    diags = []
    for l in err.split("\n"):
        l = l.strip()
        if l.startswith("{"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get("level") in ("error", "error: internal compiler error"):
                spans = [s for s in d.get("spans", [])]
                for c in d.get("children", []):
                    spans += [dict(s, is_primary=False) for s in c.get("spans", [])]
                diags.append({"msg": d["message"], "code": (d.get("code") or {}).get("code"), "spans": [(s["line_start"], s.get("label") or "", s["is_primary"], s["line_end"]) for s in spans]})
    try:
        j = json.loads(out[out.index("{"):])
    except ValueError:
        j = {}
    return {"rc": rc, "diags": diags, "json": j, "wall": time.time() - t, "cmd": " ".join(cmd), "raw": err[-3000:], "file": f}


def where(lmap, line):
    for a, b, k in lmap:
        if a <= line <= b:
            return k
    return None


VERIF_MSG = re.compile(r"postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|possible arithmetic|possible division|decreases not satisfied|index out of bounds|could not prove|unable to prove|assert_by|failed|not satisfied|recommendation|termination|loop must have a decreases|possible bit shift|might not|cannot show|unreachable|overflow|underflow")
LIMIT = re.compile(r"Resource limit|rlimit|timed? ?out|solver crashed|spinoff|incompleteness")


def closure(specs, items, prop):
    """functions with a contract that the property depends on"""
    byname = {}
    for sp in specs.values():
        if sp.kind == "fn":
            byname.setdefault(sp.path.split("::")[-1], []).append(sp.key)
    todo = [sp.key for sp in specs.values() if sp.kind == "fn" and prop in sp.props]
    seen = set()
    while todo:
        k = todo.pop()
        if k in seen or not specs.get(k):
            continue
        seen.add(k)
        it = (items.get(k) or [None])[0]
        if specs[k].trusted is not None or not it:
            continue
        for c in it["calls"]:
            n = c.lstrip(".").split("::")[-1]
            for x in byname.get(n, []):
                if unit(x) != unit(k):
                    continue
                if "::" in c and not c.startswith(("Self::", "crate::")):
                    if c.split("::")[-2] not in x:
                        continue
                todo.append(x)
        for dep in specs[k].deps:
            todo += [x.key for x in specs.values() if x.kind == "fn" and x.path == dep]
    return seen


def fn_times(j):
    res, total = {}, 0.0
    try:
        for m in j["times-ms"]["smt"]["smt-run-module-times"]:
            for f in m.get("function-breakdown", []):
                res[f["function"]] = f.get("time-micros", f.get("time", 0) * 1000) / 1e6
    except KeyError:
        pass
    try:
        total = j["times-ms"]["smt"]["total"] / 1000.0
    except KeyError:
        pass
    return res, total


def verify(keys, specs, items, renames, name, rlimit=30, vacuity=False, retry=True):
    degraded = {}
    res = None
    for attempt in range(8):
        text, lmap, status = assemble(specs, items, renames, keys, degraded, vacuity)
        res = run_verus(text, name, rlimit)
        vr = res["json"].get("verification-results", {})
        compile_errors, verif = [], []
        for d in res["diags"]:
            if d["msg"].startswith("aborting due to") or not d["spans"]:
                continue
            ks = [where(lmap, s[0]) for s in d["spans"]]
            prim = [where(lmap, s[0]) for s in d["spans"] if s[2]]
            if vr.get("encountered-vir-error") or "verified" not in vr or d["code"]:
                compile_errors.append((d, ks))
            else:
                verif.append((d, ks, prim))
        if not compile_errors:
            break
        bad = set(k for d, ks in compile_errors for k in ks if k and k in keys and k not in degraded)
        if not bad:
            break
        for k in bad:
            degraded[k] = next(d["msg"] for d, ks in compile_errors if k in ks)
    # an obligation counts as failed only if no run of the solver discharges it: a proof found once is a proof
    def keyof(ks, prim):
        return next((x for x in prim if x), None) or next((x for x in ks if x), None)
    vr = dict(res["json"].get("verification-results", {}))
    if retry and not compile_errors and verif:
        total = vr["verified"] + vr["errors"]
        for seed in (1, 2):
            r2 = run_verus(text, name, rlimit, seed=seed)
            if "verified" not in r2["json"].get("verification-results", {}) or r2["json"]["verification-results"].get("encountered-vir-error"):
                break
            still = set()
            for d in r2["diags"]:
                if d["spans"] and not d["msg"].startswith("aborting due to"):
                    ks = [where(lmap, s[0]) for s in d["spans"]]
                    still.add(keyof(ks, [where(lmap, s[0]) for s in d["spans"] if s[2]]))
            verif = [v for v in verif if keyof(v[1], v[2]) in still]
            vr["errors"] = min(vr["errors"], r2["json"]["verification-results"]["errors"], len(still))
            if not verif:
                vr["errors"] = 0
            vr["verified"] = total - vr["errors"]
            if not verif:
                break
    return {"text": text, "lmap": lmap, "status": status, "res": res, "vr": vr, "degraded": degraded, "compile": compile_errors, "verif": verif}


def scan_trusted(text):
    out = []
    ls = text.split("\n")
    for i, l in enumerate(ls):
        if re.search(r"\b(admit|assume)\s*\(", l) or "external_body" in l or "uninterp" in l or "assume_specification" in l or re.match(r"\s*(pub )?(broadcast )?axiom", l):
            ctx = l.strip() if "external_body" not in l else " ".join(x.strip() for x in ls[i + 1:i + 2])
            out.append(re.sub(r"\s+", " ", ctx)[:110])
    return out


def level(prop):
    m = json.load(open(os.path.join(V, "MANIFEST.json")))
    return next((c["level"] for c in m["checks"] if c["property"] == prop), "exploration")


def describe(d, lmap, text):
    ls = text.split("\n")
    out = {"obligation": d["msg"], "function": None, "clauses": []}
    for line, label, prim, _ in d["spans"]:
        k = where(lmap, line)
        if prim and k:
            out["function"] = k
        out["clauses"].append(("%s: " % label if label else "") + re.sub(r"\s+", " ", ls[line - 1]).strip()[:300])
    return out


def prove(prop, tier="quick", verbose=False):
    specs = read_specs()
    items, renames, errors = extract(specs)
    keys = set(k for k in closure(specs, items, prop) if specs[k].trusted is None)
    r = verify(keys, specs, items, renames, "p-" + prop, 60 if tier == "quick" else 200)
    res, vr = r["res"], r["vr"]
    undecided, failed, funcs = [], [], []
    for e in errors:
        undecided.append({"function": e["file"], "why": e["error"]})
    ok_run = "verified" in vr and not r["compile"]
    for k in sorted(keys):
        st = r["status"].get(k, {})
        if st.get("missing"):
            undecided.append({"function": k, "why": "not found in the source"})
        elif st.get("undecided"):
            undecided.append({"function": k, "why": st["undecided"]})
        elif k in r["degraded"]:
            undecided.append({"function": k, "why": "not expressible: " + r["degraded"][k]})
    for k, st in r["status"].items():
        if specs[k].kind == "type" and st.get("missing"):
            undecided.append({"function": k, "why": st.get("why", "not found in the source")})
    und = set(u["function"] for u in undecided)
    if not ok_run:
        undecided.append({"function": "*", "why": "verifier: " + (r["compile"][0][0]["msg"] if r["compile"] else ("timeout" if res.get("timeout") else res["raw"][-500:]))})
    else:
        bad = {}
        for d, ks, prim in r["verif"]:
            k = next((x for x in prim if x), None) or next((x for x in ks if x), None) or "prelude"
            bad.setdefault(k, []).append((d, describe(d, r["lmap"], r["text"])))
        ls = r["text"].split("\n")
        for k, ds in bad.items():
            if any(LIMIT.search(d["msg"]) for d, _ in ds):
                undecided.append({"function": k, "why": "resource limit"})
                und.add(k)
                continue
            # a lemma of ours says nothing about the code
            if k == "prelude":
                undecided.append({"function": "*", "why": "a lemma of the library is not proved: " + ds[0][1]["clauses"][0]})
                continue
            # only a proof hint of ours fails: the proof script does not fit the changed text
            hint = [d["msg"] == "assertion failed" and ls[d["spans"][0][0] - 1].startswith("/*@*/") for d, _ in ds]
            if all(hint) and not r["status"].get(k, {}).get("exact", True):
                undecided.append({"function": k, "why": "proof hint does not hold in the changed text: " + ds[0][1]["clauses"][0]})
                und.add(k)
                continue
            failed += [x for _, x in ds]
        for k in sorted(keys):
            if k not in und and k not in bad:
                funcs.append(k)
    nver, nerr = vr.get("verified", 0), vr.get("errors", 0)
    times, total = fn_times(res["json"])
    if failed and errors == [] and verbose:
        print(json.dumps(failed, indent=1))
    vac = {}
    if tier == "thorough" and ok_run and not failed:
        # contradictory assumptions would make the normal exit of a function provably unreachable
        rv = verify(keys, specs, items, renames, "v-" + prop, 30, vacuity=True, retry=False)
        lv = rv["text"].split("\n")
        hit = set(where(rv["lmap"], s[0]) for d in rv["res"]["diags"] for s in d["spans"] if "vacuity" in lv[s[0] - 1])
        vac = {"functions": len(keys), "exit_reachable": len(hit & keys), "not_checked": sorted(rv["degraded"]),
               "not_shown_reachable": sorted(keys - hit - set(rv["degraded"]))}
    return {
        "vacuity": vac, "obligations": nver + nerr, "discharged": nver, "functions": funcs, "failed": failed, "undecided": undecided,
        "trusted": sorted(set(scan_trusted(r["text"]))), "assumptions": assumptions(prop), "cmd": res["cmd"], "solver_s": round(total, 2),
        "extraction": {"functions_extracted": len(keys), "changed_since_annotated": sorted(k for k in keys if not r["status"].get(k, {}).get("exact", True))},
        "run": r,
    }


def assumptions(prop):
    d = json.load(open(os.path.join(P, "assumptions.json")))
    return d["*"] + d.get(prop, [])


def main():
    a = sys.argv[1:]
    specs = read_specs()
    if a[0] == "skel":
        items, renames, errors = extract(specs)
        for x in a[1:]:
            for k, its in items.items():
                if k.startswith("type "):
                    continue
                if k == x or k.split(" ", 1)[1] == x:
                    it = its[0]
                    print("### fn %s\nprops: \nparams: %s\nspec:" % (k, " ".join(i["name"] for i in it["inputs"])))
                    print("    // %s fn %s%s(%s) -> %s %s" % (it["self_ty"], it["name"], it["generics"], ", ".join(i["text"] for i in it["inputs"]), it["ret"], it["where"]))
                    print("body:")
                    print("\n".join(it["body"]) + "\n")
    elif a[0] == "v":
        # verify the named functions only
        items, renames, errors = extract(specs)
        keys = set(k for k in specs if isinstance(k, str) and specs[k].kind == "fn" and specs[k].trusted is None and any(x == "all" or x in k for x in a[1:]))
        r = verify(keys, specs, items, renames, "dev", int(os.environ.get("RL", "30")), retry=False)
        vr = r["res"]["json"].get("verification-results", {})
        for k, m in r["degraded"].items():
            print("NOT EXPRESSIBLE", k, m)
        for k in keys:
            st = r["status"].get(k, {})
            if st.get("missing") or st.get("undecided"):
                print("UNDECIDED", k, st)
            elif not st.get("exact"):
                print("changed", k)
        for d in r["res"]["diags"]:
            if not d["spans"]:
                if "aborting" not in d["msg"]:
                    print("ERR", d["msg"])
                continue
            x = describe(d, r["lmap"], r["text"])
            print("ERR", d["msg"], "|", x["function"], d["spans"][0][0])
            for c in x["clauses"]:
                print("      ", c)
        if not r["res"]["json"]:
            print(r["res"]["raw"])
        t, total = fn_times(r["res"]["json"])
        slow = sorted(t.items(), key=lambda x: -x[1])[:6]
        print(len(keys), "functions;", vr, "wall %.1f smt %.1f" % (r["res"]["wall"], total), ["%s %.1f" % (k.split("::")[-1], v) for k, v in slow if v > 1])
    elif a[0] == "vac":
        # which functions have a normal exit that the verifier takes for unreachable?
        items, renames, errors = extract(specs)
        keys = set(k for k in specs if isinstance(k, str) and specs[k].kind == "fn" and specs[k].trusted is None and any(x == "all" or x in k for x in a[1:]))
        r = verify(keys, specs, items, renames, "vac", 30, vacuity=True, retry=False)
        ls = r["text"].split("\n")
        hit = set(where(r["lmap"], s[0]) for d in r["res"]["diags"] for s in d["spans"] if "vacuity" in ls[s[0] - 1])
        for k, m in r["degraded"].items():
            print("NOT EXPRESSIBLE", k, m)
        print(len(keys), "functions, exit reachable in", len(hit & keys))
        for k in sorted(keys - hit - set(r["degraded"])):
            print("  not shown reachable:", k)
    elif a[0] == "p":
        r = prove(a[1])
        r.pop("run")
        print(json.dumps(r, indent=1))
    elif a[0] == "respec":
        items, renames, errors = extract(specs)
        for f in sorted(set(s.src for s in specs.values())):
            text = open(f).read().split("\n")
            out, i = [], 0
            cur, inbody = None, False
            for l in text:
                m = re.match(r"### (fn|type|impl) (\S+) (.+)$", l)
                if m:
                    cur = m.group(2) + " " + m.group(3).strip() if m.group(1) == "fn" else None
                    inbody = False
                if inbody:
                    continue
                out.append(l)
                if cur and l.strip() == "body:":
                    inbody = True
                    base, ann = strip_ann(specs[cur].body)
                    body, lost, exact, ren = align(base, ann, items[cur][0]["body"])
                    if not exact:
                        print("updated", cur, "LOST %s" % lost if lost else "")
                    out += body + [""]
            open(f, "w").write("\n".join(out))


if __name__ == "__main__":
    main()
