"""Deductive units checked by Verus.

A unit is a template in /verif/vc/verus/*.rs: Verus text (specifications, lemmas, trusted
stand-ins) with directives that pull the real functions out of /repo's current sources:

    //@STRUCT file Type                       the struct definition, `pub` dropped
    //@CONST file NAME
    //@FN file [Trait for ][Type::]name (canonical parameter names) [-> resultname]
    //@  requires/ensures/decreases text ...   spliced between signature and body
    //@LOOP k [(pattern names)]: invariant text spliced before the k-th loop's body (source order)
    //@LOCAL name /regex on the initialiser/   the local's actual name is substituted for `name`
    //@START: / //@END:                        ghost text at the start / before the tail of the body
    //@LOOPSTART k: / //@LOOPEND k:            ghost text at the start / end of a loop body
    //@BEFORE k: / //@AFTER k:                 ghost text before / after the k-th loop; vx_over: what it iterates over
    //@FN file Type::fn|k|name (..)          the k-th let-bound closure of fn, lifted to a function `name`
    //@CAPTURE v: type /regex/               a variable it captures, now a parameter
    //@DROPCLOSURES                          (in the outer function) the let-bound closures are lifted elsewhere
    //@RETURN k:                             ghost text before the k-th return statement
    //@SUB /regex/ => replacement              rewriting applied to the executable text (reported)
    //@TRUST text                           an assumption of the unit, reported in the evidence
    //@OPAQUE f g ..                       opaque predicates, revealed in every function that is not marked //@KEEPOPAQUE
    //@RLIMIT n                            resource limit of the unit, at least
    //@SIGSUB /regex/ => replacement           the same for the signature
    //@ENDFN

Every executable token comes from /repo's current file on every run.  Nothing but the listed
rewritings, attributes, visibility and comments is dropped.
"""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile, time
from rsyn import *

VERIFICATION_ERRORS = (
    "postcondition not satisfied", "precondition not satisfied", "assertion failed",
    "invariant not satisfied", "possible arithmetic underflow/overflow", "decreases not satisfied",
    "possible division by zero", "possible bit shift underflow/overflow", "could not prove termination",
    "recommendation not met", "loop invariant not satisfied", "possible integer overflow",
    "split precondition failure", "split postcondition failure", "split assertion failure", "assert_by_compute",
    "precondition not met", "requirement not met", "possible truncation", "unable to prove", "loop ensures not satisfied", "index out of bounds",
)
BROKEN_TOOL = ("rlimit", "Resource limit", "resource limit")


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            j = s.find("*/", i)
            i = n if j < 0 else j + 2
        elif s[i] == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def drop_vis(s):
    return re.sub(r"\bpub(\s*\([^)]*\))?\s+", "", s)


def loops_of(body):
    ls = [n for n in walk(body) if n.get("k") in ("While", "Loop", "For")]
    # iterator.for_each(|x| { .. }) is rewritten to a loop over the iterator's next()
    for n in walk(body):
        if n.get("k") == "Method" and n.get("m") == "for_each" and n["args"][0].get("k") == "Closure" and n["args"][0]["b"].get("k") == "Block":
            c = n["args"][0]
            ls.append({"k": "ForEach", "sp": n["sp"], "p": c["ps"][0], "e": n["recv"], "b": c["b"]})
    # closures' loops included in source order
    ls.sort(key=lambda n: n["sp"][0])
    return ls


def closures_of(body):
    """let statements that bind a closure, in source order"""
    ls = [n for n in walk(body) if n.get("k") == "Let" and n["e"] is not None and n["e"].get("k") == "Closure"]
    ls.sort(key=lambda n: n["sp"][0])
    return ls


class FnSpec:
    def __init__(self, head):
        m = re.match(r"(\S+)\s+((?:\w+ for )?[\w:]+(?:\|\d+\|\w+)?)\s*\(([^)]*)\)\s*(?:->\s*(\w+))?\s*$", head)
        if not m:
            raise ToolError("bad //@FN: " + head)
        self.file, self.name, ps, self.res = m.groups()
        self.params = [p.strip() for p in ps.split(",") if p.strip()]
        self.contract, self.loops, self.locals, self.ghost, self.subs, self.sigsubs = [], {}, [], {}, [], []
        self.captures, self.drop_closures, self.keep_opaque, self.returns = [], False, False, {}

    def feed(self, line, state):
        m = re.match(r"(LOOP|LOOPSTART|LOOPEND|BEFORE|AFTER)\s+(\d+)\s*(?:\(([^)]*)\))?:(.*)", line)
        if m:
            kind, k, names, rest = m.groups()
            key = (kind, int(k))
            self.loops.setdefault(key, {"names": [x.strip() for x in (names or "").split(",") if x.strip()], "text": []})
            self.loops[key]["text"].append(rest)
            return self.loops[key]["text"]
        m = re.match(r"RETURN\s+(\d+):(.*)", line)
        if m:
            self.returns.setdefault(int(m.group(1)), []).append(m.group(2))
            return self.returns[int(m.group(1))]
        m = re.match(r"(START|END):(.*)", line)
        if m:
            self.ghost.setdefault(m.group(1), []).append(m.group(2))
            return self.ghost[m.group(1)]
        m = re.match(r"LOCAL\s+(\w+)(?:\[(\d+)\])?\s+/(.*)/\s*$", line)
        if m:
            self.locals.append((m.group(1), int(m.group(2) or 0), m.group(3)))
            return None
        m = re.match(r"(SUB|SIGSUB)\s+/(.*)/\s*=>\s*(.*)$", line)
        if m:
            (self.subs if m.group(1) == "SUB" else self.sigsubs).append(m.groups()[1:])
            return None
        m = re.match(r"CAPTURE\s+(\w+):\s*(.*?)\s+/(.*)/\s*$", line)
        if m:
            # a variable the closure captures becomes a parameter of the lifted function
            self.captures.append(m.groups())
            return None
        if line == "KEEPOPAQUE":
            self.keep_opaque = True
            return None
        if line == "DROPCLOSURES":
            self.drop_closures = True
            return None
        if line.startswith(" ") or line == "":
            if state is None:
                self.contract.append(line)
                return self.contract
            state.append(line)
            return state
        raise ToolError("bad directive: " + line)

    def emit(self, unit):
        if "|" in self.name:
            return self.emit_closure(unit)
        src, f, impl = find_fn(self.file, self.name)
        return self.emit_fn(unit, src, f)

    def emit_closure(self, unit):
        """lambda lifting: the k-th closure bound by a let becomes a function; captures become parameters"""
        outer, k, canon = self.name.split("|")
        src, f, impl = find_fn(self.file, outer)
        cl = closures_of(f["body"])
        if len(cl) <= int(k):
            raise ToolError(f"anchor lost: closure {k} of {outer}")
        c = cl[int(k)]["e"]
        t = strip_comments(text(src, (c["sp"][0], c["b"]["sp"][0])))
        m = re.match(r"\s*\|(.*)\|\s*(?:->\s*(.*?))?\s*$", t, flags=re.S)
        if c["b"]["k"] not in ("Block", "BlockExpr") or not m:
            raise ToolError(f"closure {k} of {outer}: unexpected form")
        caps = []
        for name, ty, rx in self.captures:
            real = name
            for n in walk(f["body"]):
                if n.get("k") == "Let" and n["e"] is not None and n["p"]["k"] in ("Ident",) and re.search(rx, re.sub(r"\s+", " ", text(src, n["sp"]))):
                    real = n["p"]["id"]
                    break
            self.locals.append((name, 0, None))
            self.cap_names = getattr(self, "cap_names", {})
            if real != name:
                self.cap_names[name] = real
            caps.append(f"{real}: {ty}")
        sig = f"fn {canon}({', '.join([m.group(1)] + caps)})" + (f" -> {m.group(2)}" if m.group(2) else "")
        ps = [{"p": (p["p"] if p["k"] == "Type" else p)} for p in c["ps"]]
        b = c["b"]["b"] if "b" in c["b"] else c["b"]
        return self.emit_fn(unit, src, {"params": ps, "body": b, "sigtext": sig, "ret": m.group(2)})

    def emit_fn(self, unit, src, f):
        (unit.assumed if unit.assume else unit.functions).append(f"{self.file}::{self.name}")
        if f["body"] is None:
            raise ToolError(f"{self.name}: no body")
        # names
        subst = {}
        ps = [p for p in f["params"] if not p.get("self")]
        if len(ps) != len(self.params):
            raise ToolError(f"anchor lost: {self.name} has {len(ps)} parameters, contract names {len(self.params)}")
        for p, canon in zip(ps, self.params):
            if p["p"]["k"] == "Ident":
                if p["p"]["id"] != canon:
                    subst[canon] = p["p"]["id"]
            elif canon != "_":
                raise ToolError(f"{self.name}: parameter {canon} is a pattern")
        body = f["body"]
        subst.update(getattr(self, "cap_names", {}))
        for canon, nth, rx in self.locals:
            if rx is None:
                continue
            for n in walk(body):
                if n.get("k") == "Let" and n["e"] is not None:
                    ids = self.pat_names(n["p"])
                    if len(ids) > nth and re.search(rx, re.sub(r"\s+", " ", text(src, n["sp"]))):
                        if ids[nth] != canon:
                            subst[canon] = ids[nth]
                        break
        loops = loops_of(body)
        want = 1 + max([k for (_, k) in self.loops], default=-1)
        if len(loops) < want or (want == 0 and loops and not any("loop" in x for x in self.contract)):
            raise ToolError(f"anchor lost: {self.name} has {len(loops)} loops, annotations for {want}")
        if len(loops) > want:
            raise ToolError(f"anchor lost: {self.name} has {len(loops)} loops, annotations for {want}")

        def sub(t, extra={}):
            for a, b in {**subst, **extra}.items():
                t = re.sub(rf"\b{re.escape(a)}\b", "\x00" + b, t)
            return t.replace("\x00", "")

        # insertions: (byte offset, text)
        ins = []
        probe = unit.probe is not None and not unit.assume
        nth_probe = [0]

        def probe_text():
            # probe number unit.probe of every function is the false assertion; the others cut their body off
            k, nth_probe[0] = nth_probe[0], nth_probe[0] + 1
            unit.nprobes += 1
            unit.probe_depth = max(unit.probe_depth, nth_probe[0])
            if unit.probe in (k, "all"):
                unit.probe_here += 1
            return " proof { assert(false); } " if unit.probe in (k, "all") else " proof { assume(false); } "
        bstart, bend = body["sp"]
        shown = " proof { " + "".join(f"reveal({n}); " for n in unit.opaque) + "}" if unit.opaque and not self.keep_opaque and not unit.assume else ""
        gs = sub("\n".join(self.ghost.get("START", [])))
        if probe:
            gs += "\n" + probe_text()
        ins.append((bstart + 1, shown + gs + "\n"))
        ge = sub("\n".join(self.ghost.get("END", [])))
        if ge.strip():
            ss = body["ss"]
            at = bend - 1
            if ss and f["ret"] and ss[-1]["k"] == "Expr" and not ss[-1]["semi"] and self.res:
                # bind the tail, so that the ghost text can speak about the result
                sp = ss[-1]["sp"]
                ins.append((sp[0], f"let {self.res} = "))
                ins.append((sp[1], f";\n{ge}\n{self.res}\n"))
                ge = None
            elif ss:
                last = ss[-1]
                if last["k"] == "Expr" and (not last["semi"] or last["e"]["k"] == "Return"):
                    e = last["e"]
                    if not (e["k"] in ("While", "For", "Loop", "If", "Match", "Assign") or (e["k"] == "Binary" and e["op"].endswith("=") and e["op"] not in ("==", "<=", ">=", "!="))) or f["ret"]:
                        at = last["sp"][0]
            if ge is not None:
                ins.append((at, ge + "\n"))
        for (kind, k), d in self.loops.items():
            lp = loops[k]
            extra = {}
            if d["names"]:
                names = self.pat_names(lp.get("p")) if lp["k"] in ("For", "ForEach") else []
                if len(names) != len(d["names"]):
                    raise ToolError(f"anchor lost: loop {k} of {self.name}")
                extra = {a: b for a, b in zip(d["names"], names) if a != b}
            if lp["k"] == "For":
                it = [n for n in walk(lp["e"]) if n.get("k") == "Path"]
                if it:
                    extra["vx_over"] = re.sub(r"\s+", "", text(src, min(n["sp"] for n in it)))
            t = sub("\n".join(d["text"]), extra)
            b = lp["b"]["sp"]
            if kind == "LOOP":
                ins.append((b[0], "\n" + t + "\n"))
                if shown:
                    ins.append((b[0] + 1, shown))
                if probe:
                    ins.append((b[0] + 1, probe_text()))
            elif kind == "BEFORE":
                ins.append((lp["sp"][0], t + "\n"))
            elif kind == "AFTER":
                ins.append((lp["sp"][1], "\n" + t + "\n"))
            elif kind == "LOOPSTART":
                ins.append((b[0] + 1, t + "\n"))
            else:
                ss = lp["b"]["ss"]
                pre = ""
                if ss and ss[-1]["k"] == "Expr" and not ss[-1]["semi"]:
                    pre = ";"
                ins.append((b[1] - 1, pre + t + "\n"))
        if self.returns:
            rets = sorted((st for n in walk(body) if n.get("ss") for st in n["ss"] if st["k"] == "Expr" and st["e"]["k"] == "Return"), key=lambda st: st["sp"][0])
            if len(rets) != 1 + max(self.returns) or len(rets) != sum(1 for n in walk(body) if n.get("k") == "Return"):
                raise ToolError(f"anchor lost: {self.name} has {len(rets)} return statements")
            for k, ts in self.returns.items():
                ins.append((rets[k]["sp"][0], sub("\n".join(ts)) + "\n"))
        if unit.index:
            for n in walk(body):
                if n.get("k") == "Index":
                    e = n["i"]
                    if e["k"] not in ("Range", "Lit", "Int", "Unary") or (e["k"] == "Unary" and any(x.get("k") in ("MethodCall", "Method") for x in walk(e))):
                        ins.append((e["sp"][0], "vx_ix("))
                        ins.append((e["sp"][1], ")"))
        cut = [n["sp"] for n in closures_of(body)] if self.drop_closures else []
        for lp in loops:
            if lp["k"] == "ForEach":
                unit.rewrites.add("it.for_each(|x| {B})  =>  { let mut vx_it = it; loop { let x = match vx_it.next() { Some(y) => y, None => { break; } }; B } }")
                names = self.pat_names(lp["p"])
                ins.append((lp["sp"][0], "{ let mut vx_it = "))
                b = lp["b"]["sp"]
                cut += [(lp["e"]["sp"][1], b[0]), (b[1], lp["sp"][1])]
                ins = [(b[0], "; loop ")] + [(b[0] + 1, f" let {names[0]} = match vx_it.next() {{ Some(vx_y) => vx_y, None => {{ break; }} }};\n")] + ins + [(lp["sp"][1], "}")]
        for lp in loops:
            if lp["k"] not in ("For", "ForEach"):
                continue
            for st in lp["b"]["ss"]:
                e = st.get("e") if st["k"] == "Expr" else None
                if e and e["k"] == "If" and not e["e"] and e["t"]["ss"] and e["t"]["ss"][-1].get("e") and e["t"]["ss"][-1]["e"]["k"] == "Continue" and not e["t"]["ss"][-1]["e"]["label"]:
                    unit.rewrites.add("if c { A; continue; } REST  (in the body of a for loop)  =>  if c { A } else { REST }")
                    cut.append(tuple(e["t"]["ss"][-1]["sp"]))
                    ins.append((st["sp"][1], " else {"))
                    ins = [(lp["b"]["sp"][1] - 1, "\n}\n")] + ins
        # build body text with markers, so rewritings never touch ghost text
        ins.sort(key=lambda x: x[0])
        parts, pos, ghosts = [], bstart, []
        for a, b in cut:
            ins = [x for x in ins if not a <= x[0] < b]
            ins.append((a, ("cut", b)))
        ins.sort(key=lambda x: x[0])
        for at, t in ins:
            if isinstance(t, tuple):
                parts.append(src[pos:at].decode())
                pos = t[1]
                continue
            parts.append(src[pos:at].decode())
            parts.append(f"\x01{len(ghosts)}\x02")
            ghosts.append(t)
            pos = at
        parts.append(src[pos:bend].decode())
        btext = strip_comments("".join(parts))
        btext = re.sub(r"#\s*\[[^\]]*\]", "", btext)
        for rx, rep in unit.subs + self.subs:
            srep = sub(rep)
            new = re.sub(rx, lambda m: m.expand(srep), btext, flags=re.S)
            if new != btext:
                unit.rewrites.add(f"{rx}  =>  {rep}")
            btext = new
        btext = re.sub("\x01(\\d+)\x02", lambda m: ghosts[int(m.group(1))], btext)
        sig = f.get("sigtext") or strip_comments(text(src, f["sigsp"]))
        sig = drop_vis(sig)
        for rx, rep in unit.subs + self.sigsubs:
            sig = re.sub(rx, lambda m: m.expand(rep), sig, flags=re.S)
        d, i0 = 0, sig.index("(", re.search(r"\bfn\b", sig).end())
        for i1 in range(i0, len(sig)):      # the end of the parameter list
            d += {"(": 1, ")": -1}.get(sig[i1], 0)
            if d == 0:
                break
        m = re.match(r"\s*(?:->\s*(.*?))?\s*(where\b.*)?$", sig[i1 + 1:], flags=re.S)
        head, (ret, where) = sig[:i1 + 1], m.groups()
        if ret:
            sig = f"{head} -> ({self.res or 'res'}: {ret})" + (f" {where}" if where else "")
        contract = sub("\n".join(self.contract))
        if unit.assume:
            return f"    #[verifier::external_body] /* discharged by another unit */\n    {sig}\n{contract}\n    {{ unimplemented!() }}\n"
        return f"    {sig}\n{contract}\n    {btext}\n"

    def pat_names(self, p):
        return [n["id"] for n in walk(p) if n.get("k") == "Ident"]


PROBE_RLIMIT = 3


class Unit:
    def __init__(self, name):
        self.name = name
        self.template = os.path.join(VERIF, "vc", "verus", name + ".rs")

    def generate(self, probe=None):
        self.min_rlimit, self.opaque, pending = 0, [], ""
        self.probe, self.nprobes, self.probe_depth, self.probe_here = probe, 0, 0, 0
        self.functions, self.rewrites, self.subs, self.index = [], set(), [], False
        out, fn, state, self.marks = [], None, None, []
        lines = []
        self.assume, self.assumed, self.trust = False, [], []

        def inc(path):
            for line in open(path):
                if line.strip().startswith("//@INCLUDE "):
                    inc(os.path.join(os.path.dirname(path), line.split()[1]))
                else:
                    lines.append(line)
        inc(self.template)
        for line in lines:
            line = line.rstrip("\n")
            s = line.strip()
            if fn is not None:
                if s == "//@ENDFN":
                    start = sum(x.count("\n") + 1 for x in out) + 1
                    t = fn.emit(self)
                    out.append(t)
                    self.marks.append((start, start + t.count("\n") + 1, f"{fn.file}::{fn.name}"))
                    fn = None
                    continue
                if not s.startswith("//@"):
                    raise ToolError("expected a directive in " + self.name + ": " + s)
                state = fn.feed(s[3:], state)
            elif s.startswith("//@FN "):
                fn, state = FnSpec(s[6:]), None
            elif s.startswith("//@STRUCT "):
                _, file, name = s.split(None, 2)
                src, it = find_struct(file, name)
                t = drop_vis(strip_comments(text(src, it["sp"])))
                t = re.sub(r"#\s*\[[^\]]*\]", "", t)
                for rx, rep in self.subs:
                    t = re.sub(rx, lambda m: m.expand(rep), t, flags=re.S)
                out.append(t)
            elif s.startswith("//@CONST "):
                _, file, name = s.split(None, 2)
                src, it = find_const(file, name)
                out.append(drop_vis(strip_comments(text(src, it["sp"]))))
            elif s.startswith("//@TRUST "):
                self.trust.append(s[9:])
            elif s in ("//@ASSUME", "//@ENDASSUME"):
                # contracts discharged by another unit: used here without the bodies
                self.assume = s == "//@ASSUME"
            elif s.startswith("//@RLIMIT "):
                self.min_rlimit = int(s.split()[1])
            elif s.startswith("//@OPAQUE "):
                self.opaque += s.split()[1:]
            elif s == "//@INDEX":
                self.index = True
                self.rewrites.add("a[e]  =>  a[vx_ix(e)]  (vx_ix: the number inside an id)")
            elif s.startswith("//@GSUB "):
                m = re.match(r"/(.*)/\s*=>\s*(.*)$", s[8:])
                self.subs.append(m.groups())
            else:
                if self.opaque:
                    # opaque predicates: revealed in every function of the template but those marked KEEPOPAQUE
                    m = re.match(r"spec fn (\w+)", line)
                    if m and m.group(1) in self.opaque:
                        line = "#[verifier::opaque] " + line
                    m = re.match(r"(proof )?fn ", line)
                    if m:
                        pending = m.group(0)
                    elif line.startswith("{") and pending:
                        r = "".join(f"reveal({n}); " for n in self.opaque)
                        line = "{ " + (r if pending[0] == "p" else "proof { " + r + "} ") + line[1:]
                        pending = ""
                out.append(line)
        return "\n".join(out) + "\n"

    def run_verus(self, code, tag, rlimit):
        d = tempfile.mkdtemp(prefix="vx_")
        try:
            p = os.path.join(d, self.name + ".rs")
            open(p, "w").write(code)
            keep = os.path.join(BUILD, "verus")
            os.makedirs(keep, exist_ok=True)
            shutil.copy(p, os.path.join(keep, f"{self.name}{tag}.rs"))
            t0 = time.time()
            r = subprocess.run(["verus", "--triggers-mode", "silent", "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--multiple-errors", "3", p],
                               capture_output=True, text=True, timeout=600, cwd=d)
            wall = time.time() - t0
        except subprocess.TimeoutExpired:
            raise ToolError(f"verus timed out on {self.name}")
        finally:
            shutil.rmtree(d, ignore_errors=True)
        try:
            j = json.loads(r.stdout)
        except ValueError:
            j = None
        return j, r.stderr, wall

    def check(self, rlimit=20):
        """returns a dict: obligations, discharged, failed [(name, detail)], undecided [(name, reason)], ..."""
        res = dict(unit=self.name, backend="verus 0.2026.09.13 (Z3)", obligations=0, discharged=0, failed=[], undecided=[],
                   functions=[], rewrites=[], smt_ms=0, wall=0.0, assumptions=[], probes=0, probes_ok=0, log="")
        try:
            code = self.generate()
        except ToolError as e:
            res["undecided"].append((self.name, str(e)))
            return res
        res["functions"] = list(self.functions)
        res["rewrites"] = sorted(self.rewrites)
        res["assumptions"] = scan_assumptions(code) + self.trust
        if self.assumed:
            res["assumptions"].append(f"{len(self.assumed)} callee contracts, each discharged by another unit: " + ", ".join(x.split("/")[-1] for x in self.assumed)[:1500])
        j, err, wall = self.run_verus(code, "", max(rlimit, self.min_rlimit))
        res["wall"] += wall
        res["log"] = err[-6000:]
        if j is None or "verification-results" not in j or j["verification-results"].get("encountered-vir-error"):
            res["undecided"].append((self.name, "verus does not accept the extracted code: " + first_error(err)))
            return res
        bd = []
        for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            bd += m.get("function-breakdown", [])
        res["smt_ms"] = j.get("times-ms", {}).get("smt", {}).get("smt-run", 0)
        if not bd:
            res["undecided"].append((self.name, "verus reports no obligations: " + first_error(err)))
            return res
        names = sorted({b["function"].split("::", 1)[1] for b in bd} - {"main"})
        bad = sorted({b["function"].split("::", 1)[1] for b in bd if not b["success"]})
        res["obligations"] = len(names)
        res["discharged"] = len(names) - len(bad)
        errors = parse_errors(err)
        limit = any(any(b in m for b in BROKEN_TOOL) for m, _ in errors)
        for n in bad:
            det = [f"{m} (line {l})" for m, l in errors]
            real = [m for m, _ in errors if any(m.startswith(v) for v in VERIFICATION_ERRORS)]
            if real and not (limit and len(real) == 0):
                res["failed"].append((f"{self.name}::{n}", "; ".join(det)[:1500]))
            else:
                res["undecided"].append((f"{self.name}::{n}", "; ".join(det)[:600]))
        if j["verification-results"].get("errors", 0) and not bad:
            res["undecided"].append((self.name, "verus reports errors: " + first_error(err)))
        if not bad:
            # vacuity: a false assertion at the start of every body and loop body must not be proved.
            # All at once first; where that runs into the limit, one by one: variant k of the file has the k-th such assertion of every function, everything else in it cut off.
            # Not proved = refuted or given up on within the limit; lemmas were proved in the main run.
            def variant(k):
                u = Unit(self.name)
                code = u.generate(probe=k)
                code = re.sub(r"(?m)^()((?:pub )?(?:broadcast )?proof fn )", r"\1#[verifier::external_body] \2", code)
                j2, err2, wall2 = self.run_verus(code, f".probe{k}", PROBE_RLIMIT)
                if j2 is None or j2.get("verification-results", {}).get("encountered-vir-error", True):
                    return u, 0, "not accepted: " + first_error(err2)
                n = sum(1 for m in j2.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []) for b in m.get("function-breakdown", []) if not b["success"])
                return u, min(n, u.probe_here), f"{n} of {u.probe_here} in variant {k}"
            t0 = time.time()
            code = self.generate(probe="all")
            res["probes"], hit = self.nprobes, set()
            if not self.min_rlimit:
                j2, err2, _ = self.run_verus(code, ".probe", rlimit)
                hit = {l for m, l in parse_errors(err2) if m.startswith("assertion failed")}
            res["probes_ok"], why = min(len(hit), self.nprobes), "all at once"
            if res["probes_ok"] < self.nprobes:
                with concurrent.futures.ThreadPoolExecutor(4) as ex:
                    rs = list(ex.map(variant, range(self.probe_depth)))
                res["probes_ok"] = sum(n for _, n, _ in rs)
                why = "; ".join(w for v, n, w in rs if n < v.probe_here)
            res["wall"] += time.time() - t0
            if res["probes_ok"] < self.nprobes:
                res["undecided"].append((self.name, f"vacuity probes: {res['probes_ok']} of {self.nprobes} unreachable assertions failed as they should ({why})"))
        return res


def first_error(err):
    for l in err.splitlines():
        if l.startswith("error"):
            return l[:300]
    return err.strip()[-300:]


def parse_errors(err):
    out, cur = [], None
    for l in err.splitlines():
        m = re.match(r"error(?:\[\w+\])?: (.*)", l)
        if m:
            cur = m.group(1)
            continue
        m = re.match(r"\s*--> .*?:(\d+):(\d+)", l)
        if m and cur:
            out.append((cur, int(m.group(1)) * 10000 + int(m.group(2))))
            cur = None
    return out


def scan_assumptions(code):
    out = []
    for m in re.finditer(r"external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?((?:broadcast )?(?:proof )?(?:fn|struct) \w+)", code):
        out.append("trusted: " + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", code):
        out.append("assumed: " + code[m.start():m.start() + 60].split("\n")[0])
    for m in re.finditer(r"assume_specification[^\[]*\[\s*([^\]]*)\]", code):
        out.append("assumed specification: " + m.group(1).strip())
    for m in re.finditer(r"\baxiom fn (\w+)", code):
        out.append("axiom: " + m.group(1))
    return out


if __name__ == "__main__":
    import sys
    for n in sys.argv[1:]:
        r = Unit(n).check()
        print(json.dumps({k: v for k, v in r.items() if k != "log"}, indent=1))
        if r["failed"] or r["undecided"]:
            print(r["log"])
