"""T1: functions extracted mechanically from /repo's current source, with contracts and loop invariants, discharged by
Verus (Z3) for all inputs and all iterations. Templates: /verif/contracts/verus/*.rs.

A template is a Verus file with blocks
    /*@ C01 C03: text of the contract */                      header of the unit (first lines)
    /*@types EntryIdx EntryCount u32 @*/                      the index/count newtypes (lib/newtypes.py)
    /*@fn src/f.rs | impl X for Y | name                      a function of the repository
    requires ... ensures ...                                  its contract
    @loop 1 [it]                                              invariants of its first loop
    invariant ...
    @start                                                    ghost code at the start of the body
    @before N `text` / @after N `text`                        ghost code before/after the N-th statement with that text
    @sub `from` => `to`                                       mechanical rewriting (listed in the evidence)
    @*/
The function text is what the repository has, except for the visibility, the attributes, the comments, the name given
to the result and the listed @sub rewritings."""
import threading
from common import *

SRC = os.path.join(VERIF, "contracts", "verus")
T1 = os.path.join(BUILD, "t1")
FROZEN = os.path.join(SRC, "frozen.json")


class Lost(Exception):
    pass


TOKEN = re.compile(r"""
  (?P<comment>//[^\n]*|/\*(?:[^*]|\*(?!/))*\*/)
 |(?P<str>b?"(?:[^"\\]|\\.)*"|b?r(\#*)"(?:.|\n)*?"\3)
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<word>[A-Za-z_]\w*)
 |(?P<num>\d[\w.]*(?<!\.))
 |(?P<ws>\s+)
 |(?P<op>.)
""", re.X | re.S)


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOKEN.match(s, i)
        if m.lastgroup == "num" and ".." in m.group():      # 0..5
            e = i + m.group().index("..")
            out.append(("num", s[i:e], i))
            i = e
            continue
        k = m.lastgroup
        out.append((k or "op", m.group(), i))
        i = m.end()
    return out


def strip_comments(s):
    return "".join((" " if k == "comment" else t) for k, t, _ in lex(s))


def norm(s):
    return re.sub(r"\s+", " ", "".join(t if k not in ("comment",) else " " for k, t, _ in lex(s))).strip()


def tight(s):
    """tokens without any white space (identifiers kept apart)"""
    out = ""
    for k, t, _ in lex(s):
        if k in ("ws", "comment"):
            continue
        if out and (out[-1].isalnum() or out[-1] == "_") and (t[0].isalnum() or t[0] == "_"):
            out += " "
        out += t
    return out


def match_close(toks, i):
    """index of the token closing the bracket at i"""
    depth, pairs = 0, {"{": "}", "(": ")", "[": "]"}
    for j in range(i, len(toks)):
        k, t, _ = toks[j]
        if k == "op" and t in "{([":
            depth += 1
        elif k == "op" and t in "})]":
            depth -= 1
            if depth == 0:
                return j
    raise Lost("unbalanced")


def items(toks, lo, hi):
    """(header token range, body range or None) of the items between lo and hi"""
    i = start = lo
    while i < hi:
        k, t, _ = toks[i]
        if k == "op" and t in "([":
            i = match_close(toks, i)
        elif k == "op" and t == "{":
            j = match_close(toks, i)
            yield start, i, j
            i = j
            start = j + 1
        elif k == "op" and t == ";":
            yield start, i, None
            start = i + 1
        i += 1


def text(toks, a, b):
    return "".join(t for _, t, _ in toks[a:b])


def header(toks, a, b):
    """normalized header without attributes, visibility"""
    s = tight(text(toks, a, b))
    while s.startswith("#"):
        depth = 0
        for n, c in enumerate(s):
            depth += (c == "[") - (c == "]")
            if c == "]" and depth == 0:
                s = s[n + 1:]
                break
    s = re.sub(r"^pub(\((crate|super|self|in [\w:]+)\))?\s*", "", s)
    return s


def find_fn(src, context, name):
    toks = lex(src)
    scopes = [(0, len(toks))]
    if context:
        outer = (0, len(toks))
        module = re.match(r"(mod \w+) :: ", context)
        if module:
            outer = next(((b + 1, e) for a, b, e in items(toks, *outer) if e and header(toks, a, b) == module.group(1)), None)
            if not outer:
                raise Lost(f"`{module.group(1)}` not found")
            context = context[module.end():]
        want = tight(context)
        scopes = [(b + 1, e) for a, b, e in items(toks, *outer) if e and
                  (header(toks, a, b) == want or header(toks, a, b).split(" where")[0].split("where ")[0] == want)]
        # (a where clause may follow without blank)
        if not scopes:
            scopes = [(b + 1, e) for a, b, e in items(toks, *outer) if e and
                      re.sub(r"(>|\b)where\b.*$", r"\1", header(toks, a, b)).strip() == want]
        if not scopes:
            raise Lost(f"`{context}` not found")
    for lo, hi in scopes:
        for a, b, e in items(toks, lo, hi):
            if e is None:
                continue
            h = header(toks, a, b)
            if re.match(r"(const |unsafe |async )*fn " + re.escape(name) + r"\b", h):
                return text(toks, a, b), text(toks, b, e + 1)
    raise Lost(f"fn {name} not found in `{context}`")


KW = {"while", "for", "loop", "if", "else", "match", "return", "break", "continue"}

OPENS = {"(", ",", "=", "{", ">", "return", "move", ";", "[", ""}


def skeleton(body):
    """control flow: branches, loops, exits, and closures (a closure without a contract says nothing of its result)"""
    out, prev = [], ""
    for k, t, _ in lex(body):
        if not t.strip():
            continue
        if k == "word" and (t in KW or t == "let" and prev in ("if", "while", "&&")):
            out.append(t)
        elif t in ("|", "||") and prev in OPENS:
            out.append("|")
            prev = "closed"
            continue
        prev = t
    return " ".join(out)


def clean_sig(sig, ret):
    s = re.sub(r"\s+", " ", strip_comments(sig)).strip()
    while s.startswith("#"):
        depth = 0
        for n, c in enumerate(s):
            depth += (c == "[") - (c == "]")
            if c == "]" and depth == 0:
                s = s[n + 1:].strip()
                break
    s = re.sub(r"^pub\s*(\([^)]*\))?\s*", "", s)
    # name the result
    toks = lex(s)
    i = next(n for n, (k, t, _) in enumerate(toks) if t == "(" and k == "op")
    # skip generics
    depth = 0
    for n, (k, t, _) in enumerate(toks):
        if t == "<":
            depth += 1
        elif t == ">" and toks[n - 1][1] not in "-=":
            depth -= 1
        elif t == "(" and depth == 0:
            i = n
            break
    j = match_close(toks, i)
    head, rest = text(toks, 0, j + 1), text(toks, j + 1, len(toks)).strip()
    where = ""
    m = re.search(r"\bwhere\b", rest)
    if m:
        rest, where = rest[:m.start()].strip(), rest[m.start():]
    if rest.startswith("->"):
        rest = f" -> ({ret}: {rest[2:].strip()})"
    return head + rest, where


def put_loops(body, loops):
    """invariants before the `{` of the n-th loop"""
    toks = lex(body)
    n, out, i = 0, [], 0
    inserts = {}
    for i, (k, t, p) in enumerate(toks):
        if k == "word" and t in ("while", "for", "loop"):
            # `for<'a>` and labels are not met
            n += 1
            if n not in loops:
                continue
            binder, inv = loops[n]
            j, depth = i + 1, 0
            while True:
                if j >= len(toks):
                    raise Lost("loop without body")
                kk, tt, _ = toks[j]
                if kk == "op" and tt in "([":
                    j = match_close(toks, j)
                elif kk == "op" and tt == "{":
                    break
                j += 1
            inserts[j] = "\n" + inv + "\n"
            if binder and t == "for":
                m = next(x for x in range(i, j) if toks[x][0] == "word" and toks[x][1] == "in")
                inserts[m + 1] = f" {binder}:" + inserts.get(m + 1, "")
    if set(loops) - set(range(1, n + 1)):
        raise Lost("a loop with an invariant is gone")
    return "".join(inserts.get(i, "") + t for i, (k, t, _) in enumerate(toks))


def put_ghost(body, where, n, pat, code):
    """ghost code before/after the n-th statement that contains pat (compared without white space)"""
    toks = lex(body)
    pos = [m for m in range(len(toks)) if toks[m][0] not in ("ws", "comment")]
    want = tight(pat)
    hits = 0
    for a in range(len(pos)):
        s, b = "", a
        while b < len(pos) and len(s) < len(want):
            t = toks[pos[b]][1]
            if s and (s[-1].isalnum() or s[-1] == "_") and (t[0].isalnum() or t[0] == "_"):
                s += " "
            s += t
            b += 1
        if s == want:
            hits += 1
            if hits == n:
                at = pos[a] if where == "before" else pos[b - 1] + 1
                if where == "after" and toks[pos[b - 1]][1] not in (";", "{", "}"):
                    # to the end of the statement
                    depth = 0
                    for m in range(pos[a], len(toks)):
                        t = toks[m][1]
                        depth += (t in ("(", "[", "{")) - (t in (")", "]", "}"))
                        if depth < 0:
                            break
                        if m >= at and t == ";" and depth == 0:
                            at = m + 1
                            break
                return text(toks, 0, at) + "\n" + code + "\n" + text(toks, at, len(toks))
    raise Lost(f"`{pat}` is gone")


BLOCK = re.compile(r"/\*@fn (.*?)\n(.*?)@\*/", re.S)


class Fn:
    pass


def parse_block(spec, body):
    f = Fn()
    f.file, f.context, f.name = [x.strip() for x in spec.split("|")]
    f.ret, f.contract, f.loops, f.ghost, f.subs, f.start, f.text, f.where, f.attr = "r", "", {}, [], [], "", "", False, ""
    cur, buf = ("contract",), []

    def flush():
        t = "\n".join(buf).rstrip()
        if cur[0] == "contract":
            f.contract = t
        elif cur[0] == "loop":
            f.loops[cur[1]] = (cur[2], t)
        elif cur[0] == "start":
            f.start = t
        elif cur[0] in ("before", "after"):
            f.ghost.append((cur[0], cur[1], cur[2], t))
    for l in body.split("\n"):
        m = re.match(r"\s*@(\w+)\s*(.*)$", l)
        if not m:
            buf.append(l)
            continue
        flush()
        buf = []
        k, a = m.groups()
        if k == "loop":
            a = a.split()
            cur = ("loop", int(a[0]), a[1] if len(a) > 1 else None)
        elif k == "start":
            cur = ("start",)
        elif k in ("before", "after"):
            mm = re.match(r"(?:(\d+) )?`(.*)`$", a.strip())
            cur = (k, int(mm.group(1) or 1), mm.group(2))
        elif k == "sub":
            mm = re.match(r"`(.*)` => `(.*)`$", a.strip())
            f.subs.append((mm.group(1), mm.group(2)))
            cur = ("none",)
        elif k == "ret":
            f.ret = a.strip()
            cur = ("none",)
        elif k == "attr":
            f.attr += a.strip() + "\n"
            cur = ("none",)
        elif k == "where":
            f.where = True
            cur = ("none",)
        else:
            raise NoAnswer(f"unknown directive @{k}")
    flush()
    return f


def sub(s, a, b):
    """replace a (compared token by token) by b; a may be a /regex/"""
    if a.startswith("/") and a.endswith("/"):
        return re.sub(a[1:-1], b, s)
    out, toks, want, i = "", lex(s), [t for k, t, _ in lex(a) if k != "ws"], 0
    while i < len(toks):
        j, w = i, 0
        while j < len(toks) and w < len(want) and toks[i][0] not in ("ws", "comment"):
            if toks[j][0] in ("ws", "comment"):
                j += 1
            elif toks[j][1] == want[w]:
                j += 1
                w += 1
            else:
                break
        if w == len(want):
            out += b
            i = j
        else:
            out += toks[i][1]
            i += 1
    return out


def render(f, probe):
    """the Verus text of an extracted function; probe: a reachability probe instead of a proof"""
    try:
        src = open(os.path.join(REPO, f.file)).read()
    except OSError:
        raise Lost(f"{f.file} is gone")
    sig, body = find_fn(src, f.context, f.name)
    f.skeleton = skeleton(body)
    f.hash = hashlib.sha256((norm(sig) + norm(body)).encode()).hexdigest()[:12]
    body = strip_comments(body)
    f.subs_done = []
    for a, b in f.subs:
        nsig, nbody = sub(sig, a, b), sub(body, a, b)
        if (nsig, nbody) != (sig, body):
            f.subs_done.append(f"{a} => {b}")
        sig, body = nsig, nbody
    if re.search(r"\(\s*mut self\b", sig):
        # `mut self` is beyond the verifier: a local variable `this`
        sig = re.sub(r"\(\s*mut self\b", "(self", sig)
        body = "".join("this" if (k, t) == ("word", "self") else t for k, t, _ in lex(body))
        first = body.index("{") + 1
        body = body[:first] + " let mut this = self;" + body[first:]
        f.subs_done.append("mut self => let mut this = self")
    for where, n, pat, code in f.ghost:
        body = put_ghost(body, where, n, pat, code)
    body = put_loops(body, f.loops)
    head, where = clean_sig(sig, f.ret)
    first = body.index("{") + 1
    hides = re.match(r"(\s*hide\([^()]*\);)*", f.start).end()
    body = body[:first] + "\n" + f.start[:hides] + (("\n" + probe) if probe else "") + f.start[hides:] + body[first:]
    vis = "" if re.match(r"(impl<.*> |impl )?.* for ", f.context) or re.match(r"(mod \w+ :: )?trait", f.context) or re.match(r"impl.*\bfor\b", f.context) else "pub "
    return f"{f.attr}{vis}{head}\n{where if f.where else ''}\n{f.contract}\n{body}\n"


CONST = re.compile(r"/\*@const (\S+) \| (\w+) ?(exec )?@\*/")


def render_const(m):
    """a constant, as the repository defines it"""
    try:
        src = strip_comments(open(os.path.join(REPO, m.group(1))).read())
    except OSError:
        raise Lost(f"{m.group(1)} is gone")
    c = re.search(r"\bconst " + m.group(2) + r"\s*:\s*([^=;]+)=\s*([^;]+);", src)
    if not c:
        raise Lost(f"{m.group(1)}: const {m.group(2)} is gone")
    if m.group(3):
        return f"pub exec const {m.group(2)}: {norm(c.group(1))} ensures true {{ {norm(c.group(2))} }}"
    return f"pub const {m.group(2)}: {norm(c.group(1))} = {norm(c.group(2))};"


MACRO = re.compile(r"/\*@macro (\S+) \| (\w+) ?@\*/")


def render_macro(m):
    """a macro_rules of the repository"""
    try:
        src = open(os.path.join(REPO, m.group(1))).read()
    except OSError:
        raise Lost(f"{m.group(1)} is gone")
    toks = lex(src)
    for a, b, e in items(toks, 0, len(toks)):
        if e and header(toks, a, b) == "macro_rules!" + m.group(2):
            return strip_comments("macro_rules! " + m.group(2) + " " + text(toks, b, e + 1))
    raise Lost(f"{m.group(1)}: macro {m.group(2)} is gone")


class Unit:
    pass


def include(t):
    """the included files, each once"""
    seen = set()

    def one(m):
        if m.group(1) in seen:
            return ""
        seen.add(m.group(1))
        return re.sub(INCLUDE, one, open(os.path.join(SRC, m.group(1))).read())
    return re.sub(INCLUDE, one, t)


INCLUDE = r"/\*@include (\S+) ?@\*/"


def load(name):
    u = Unit()
    u.name = name[:-3]
    u.template = include(open(os.path.join(SRC, name)).read())
    m = re.match(r"/\*@ ((?:C\d\d )*C\d\d): (.*?)\*/", u.template, re.S)
    if not m:
        raise NoAnswer(f"{name}: no header")
    u.props, u.text = m.group(1).split(), re.sub(r"\s+", " ", m.group(2)).strip()
    u.trusted = re.findall(r"^\s*// trusted: (.*)$", u.template, re.M)
    u.assumed = re.findall(r"^\s*// assumed: (.*)$", u.template, re.M)
    u.proved = re.findall(r"^\s*// proved elsewhere: (.*)$", u.template, re.M)
    return u


def units():
    return [load(f) for f in sorted(os.listdir(SRC)) if f.endswith(".rs")] if os.path.isdir(SRC) else []


def generate(u, probe):
    import newtypes
    u.fns = []
    out, pos = "", 0
    t = u.template
    t = re.sub(r"/\*@types (.*?)@\*/", lambda m: newtypes.expand(m.group(1).split()), t)
    t = CONST.sub(render_const, t)
    t = MACRO.sub(render_macro, t)
    for m in BLOCK.finditer(t):
        out += t[pos:m.start()]
        f = parse_block(m.group(1), m.group(2))
        f.first = out.count("\n") + 1
        p = ""
        if probe:
            p = "    if jbk_probe() { assert(false); }\n"
        try:
            out += render(f, p)
        except Lost as e:
            raise Lost(f"{f.file}: {f.name}: {e}")
        f.last = out.count("\n") + 1
        u.fns.append(f)
        pos = m.end()
    out += t[pos:]
    if probe:
        out = out.replace("verus! {", "verus! {\n#[verifier::external_body] pub fn jbk_probe() -> bool { true }", 1)
        # keep the line numbers
        out = out.replace("verus! {\n#[verifier", "verus! { #[verifier", 1)
    return out


OBLIGATION = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
              "possible arithmetic", "possible division by zero", "decreases not satisfied", "possible bit shift",
              "unable to prove", "loop invariant", "loop ensures", "constructed value may fail")


def verus(path, limit, extra=()):
    rc, o, dt = run(["verus", "--output-json", "--time", "--error-format=json", "--multiple-errors", "4", "--triggers-mode", "silent", "--rlimit", "60", *extra, path, "--cfg", 'feature="lz4"', "--cfg", 'feature="lzma"', "--cfg", 'feature="zstd"'], limit,
                    T1)
    return rc, o, dt


def parse_out(o):
    res, diags = None, []
    # the JSON report is the last multi-line object; diagnostics are one per line
    for l in o.split("\n"):
        if l.startswith('{"$message_type"') or l.startswith('{"message"'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    m = re.search(r"^\{\n(?:.*\n)*?^\}", o, re.M)
    if m:
        try:
            res = json.loads(m.group())
        except ValueError:
            pass
    return res, diags


SEEDS = (7, 42)


def obligations(diags):
    """errors, all of which are obligations that were not discharged"""
    errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting")]
    return bool(errs) and all(any(m in d["message"] for m in OBLIGATION) for d in errs)


def spots(u, d):
    """the lines an error is about: for a precondition, those of the call"""
    here = [s for s in d["spans"] if s["file_name"].endswith(u.name + ".rs")]
    calls = [s for s in here if s.get("is_primary")]
    return [s["line_start"] for s in (calls if d["message"].startswith("precondition") and calls else here)]


def place(u, d):
    """the function (or the template) an error is in"""
    lines = spots(u, d)
    fs = [f.name for f in u.fns if any(f.first <= l <= f.last for l in lines)]
    return tuple(fs) or ("template", *lines)


def check_unit(u, limit, thorough=False):
    u.failed, u.undecided, u.verified, u.seconds, u.rlimit = [], [], 0, 0.0, 0
    os.makedirs(T1, exist_ok=True)
    try:
        out = generate(u, False)
    except Lost as e:
        u.undecided.append(f"verus:{u.name}: anchor lost: {e}")
        return
    path = os.path.join(T1, u.name + ".rs")
    open(path, "w").write(out)
    rc, o, dt = verus(path, limit)
    res, diags = parse_out(o)
    # an obligation the solver did not discharge is attempted again with other seeds
    for seed in SEEDS:
        if rc is None or not obligations(diags):
            break
        t = time.time()
        again = verus(path, limit, (*(("-V", "spinoff-all") if seed == SEEDS[-1] else ()), "--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"))
        if again[0] is None:
            break
        r2, d2 = parse_out(again[1])
        if again[0] == 0 and (r2 or {}).get("verification-results", {}).get("success"):
            rc, o, res, diags = again[0], again[1], r2, d2
            break
        left = {place(u, d) for d in d2 if d.get("level") == "error"}
        kept = [d for d in diags if d.get("level") != "error" or d["message"].startswith("aborting") or place(u, d) in left]
        if len(kept) < len(diags) and obligations(kept):
            diags = kept
        limit -= time.time() - t
        if limit < 20:
            break
    u.output = o
    v = (res or {}).get("verification-results", {})
    u.seconds = ((res or {}).get("times-ms", {}).get("smt", {}) or {}).get("total", 0) / 1000 or dt
    errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting")]
    u.verified = v.get("verified", 0)
    if rc is None:
        u.undecided.append(f"verus:{u.name}: time limit")
        return
    if rc == 0 and v.get("success") and u.verified and not errs:
        return
    other = [d for d in errs if not any(d["message"].startswith(m) or m in d["message"] for m in OBLIGATION)]
    if other or not errs or v.get("encountered-vir-error"):
        u.undecided.append(f"verus:{u.name}: " + "; ".join(d["message"] for d in (other or errs))[:300] + ("" if errs else o[-200:]))
        u.verified = 0
        return
    frozen = json.load(open(FROZEN)) if os.path.exists(FROZEN) else {}
    for d in errs:
        body = spots(u, d)
        fs = [f for f in u.fns if any(f.first <= l <= f.last for l in body)]
        where = "; ".join(s["text"][0]["text"].strip() for s in d["spans"] if s["text"])[:400]
        if not fs:
            u.undecided.append(f"verus:{u.name}: a lemma of the template: {d['message']} [{where}]")
            continue
        for f in fs:
            key = f"{u.name}/{f.context}/{f.name}"
            fr = frozen.get(key)
            msg = f"{d['message']}: {where}"
            if fr and fr["skeleton"] != f.skeleton:
                u.undecided.append(f"verus:{u.name}: {f.name}: its control flow changed and the annotations do not prove it: {msg}")
            else:
                u.failed.append({"name": f"verus:{u.name}:{f.name}", "function": f"{f.name} [{f.file}]",
                                 "contract": u.text, "output": f"{f.name} ({f.file}): {msg}"})


def probe_unit(u, limit, always=False):
    """every extracted function must be reachable under its precondition (not repeated for the very text that was
    probed when the unit was frozen)"""
    p = Unit()
    p.name, p.template = u.name + "__probe", u.template
    out = generate(p, True)
    h = hashlib.sha256(out.encode()).hexdigest()
    u.probe_hash = h
    if not always and os.path.exists(FROZEN) and json.load(open(FROZEN)).get(u.name, {}).get("probed") == h:
        return []
    path = os.path.join(T1, p.name + ".rs")
    open(path, "w").write(out)
    rc, o, dt = verus(path, limit)
    res, diags = parse_out(o)
    errs = [d for d in diags if d.get("level") == "error" and d["message"].startswith("assertion failed")]
    bad = []
    for f in p.fns:
        if not any(f.first <= s["line_start"] <= f.last for d in errs for s in d["spans"]):
            bad.append(f.name)
    return bad


def start(ctx):
    job = Unit()
    job.units = [u for u in units() if ctx.prop in u.props]
    job.seconds = 0
    job.thread = threading.Thread(target=work, args=(ctx, job), daemon=True)
    if job.units:
        job.thread.start()
    return job


def work(ctx, job):
    t0 = time.time()
    def one(u):
        try:
            check_unit(u, max(20, min(300, ctx.left() - 30)))
            if not u.failed and not u.undecided:
                u.unreachable = probe_unit(u, max(20, min(300, ctx.left() - 30)))
                if u.unreachable:
                    u.undecided.append(f"verus:{u.name}: vacuous: {u.unreachable}")
        except Exception as e:  # noqa: an error of the machinery decides nothing
            u.undecided = getattr(u, "undecided", []) + [f"verus:{u.name}: {e!r}"]
        u.done = True
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as pool:
        list(pool.map(one, job.units))
    job.seconds = time.time() - t0


def finish(ctx, job):
    r = Result()
    if not job.units:
        return nothing("no contract of this back end")
    job.thread.join(max(10, ctx.left() - 20))
    details = {}
    for u in job.units:
        if not getattr(u, "done", False):
            r.undecided.append(f"verus:{u.name}: not finished")
            continue
        r.undecided += u.undecided
        r.failed += u.failed
        n = len({f["name"] for f in u.failed})
        if not u.undecided or u.failed:
            r.obligations += u.verified + n
            r.discharged += u.verified
        r.seconds += u.seconds
        if not u.failed and not u.undecided:
            r.functions += [f"{f.context + ' :: ' if f.context else ''}{f.name} [{f.file}]" for f in u.fns]
        details[u.name] = {"contract": u.text, "verified": u.verified, "seconds": round(u.seconds, 2),
                           "functions": [f"{f.name} [{f.file}]" for f in getattr(u, "fns", [])],
                           "rewritten": sorted({s for f in getattr(u, "fns", []) for s in getattr(f, "subs_done", [])}),
                           "callee contracts proved elsewhere": u.proved}
        r.trusted += [f"verus:{u.name}: {t}" for t in u.trusted]
        r.assumptions += [f"verus:{u.name}: {t}" for t in u.assumed]
    r.trusted += ["Verus 0.2026.09.13 and its Z3; the extraction of lib/t1.py (drops visibility, attributes, comments; "
                  "the rewritings are listed per unit)"]
    r.cmd = "verus on build/t1/*.rs, generated from the current source by lib/t1.py"
    r.report = {"units": details, "wall_seconds": round(job.seconds, 1)}
    return r


def nothing(why):
    r = Result()
    r.report = {"note": why}
    return r


def abandon(job):
    pass


def freeze():
    out = {}
    for u in units():
        generate(u, False)
        if probe_unit(u, 600):
            raise SystemExit(f"{u.name}: not reachable")
        out[u.name] = {"probed": u.probe_hash}
        for f in u.fns:
            out[f"{u.name}/{f.context}/{f.name}"] = {"skeleton": f.skeleton, "file": f.file}
    json.dump(out, open(FROZEN, "w"), indent=1, sort_keys=True)
    open(FROZEN, "a").write("\n")


if __name__ == "__main__":
    if sys.argv[1] == "freeze":
        freeze()
    else:
        for u in units():
            if sys.argv[1] != "all" and not any(a in u.name for a in sys.argv[1:]):
                continue
            t0 = time.time()
            check_unit(u, 300)
            bad = [] if u.failed or u.undecided else probe_unit(u, 300)
            print(f"{u.name}: verified {u.verified} failed {len(u.failed)} undecided {len(u.undecided)} unreachable {bad} "
                  f"{time.time() - t0:.1f}s; functions {[f.name for f in getattr(u, 'fns', [])]}")
            for f in u.failed:
                print("  FAILED", f["output"])
            for x in u.undecided:
                print("  UNDECIDED", x[:300])
            if (u.undecided or u.failed) and "-v" in sys.argv:
                print('\n'.join(d['rendered'] for d in parse_out(getattr(u, "output", ""))[1])[:5000])
