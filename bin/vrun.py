"""Verus jobs: unbounded proofs of functions with loops.

The file of specifications (verus/*.rs.in) holds `@@BODY file|impl|function[|annotation...]@@` markers. Each is replaced
by the body of this function in /repo/runtime/src, taken verbatim. Annotations:

  loop:count   the loop of the body gets its invariants (the pattern `_` of a `for` is named)
  loop:items   the same for the loop `for item in items {`
  WORD         `$t` in the body stands for WORD (bodies of the macro impl_list_base!)

A marker whose function or loop cannot be found, a file Verus cannot read, or a resource limit makes the units
undecided, never failed: the Kani units of the same property remain.
"""
import json, os, re, subprocess, time


class Lost(Exception):
    pass


def blank(s):
    """comments and strings replaced by blanks, so that braces can be matched"""
    def f(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\])*\"|b?'(?:\\.[^']*|[^'\\])'", f, s, flags=re.S)


def block(b, start):
    """[open, close] of the brace block which starts at or after `start`"""
    i = b.index("{", start)
    d = 0
    for j in range(i, len(b)):
        d += (b[j] == "{") - (b[j] == "}")
        if d == 0:
            return i, j
    raise Lost("unbalanced braces")


def squeeze(s):
    return re.sub(r"\s+", "", s)


def body(src, impl, fn):
    b = blank(src)
    found = []
    for m in re.finditer(r"\bimpl\b[^{;]*", b):
        if squeeze(impl) in squeeze(m.group(0)):
            i, j = block(b, m.end())
            for k in re.finditer(r"\bfn\s+%s\b" % fn, b[i:j]):
                o, c = block(b, i + k.end())
                found.append(src[o + 1:c])
    if len(found) != 1:
        raise Lost("%d functions `%s` in `%s`" % (len(found), fn, impl))
    return found[0]


def annotate_count(t):
    """The loop over the items of a list. Recognised: the counter (`for _ in 0..N`, `while I < N`, `while N > 0` with
    a copy of N), the bytes consumed (`let mut X = 0`), and the bytes left (`let mut X = DATA`), one of both at least."""
    b = blank(t)
    if len(re.findall(r"\b(?:for|while|loop)\b", b)) != 1:
        raise Lost("the loop over the items")
    data = re.search(r"\blet\s+(mut\s+)?(\w+)(?:\s*:\s*&'a\s*\[u8\])?\s*=\s*&slice\[(\w+)\.\.\]\s*;", b)
    f = re.search(r"\bfor\s+(\w+)\s+in\s+0\s*\.\.\s*(\w+)\s*\{", b)
    w = re.search(r"\bwhile\s+(\w+)\s*(<|!=|>)\s*(\w+)\s*\{", b)
    if not data or not (f or w):
        raise Lost("the loop over the items")
    m = f or w
    head = b[:m.start()]
    ctl = data.group(3)
    zeros = re.findall(r"\blet\s+mut\s+(\w+)\s*(?::\s*usize)?\s*=\s*0(?:usize)?\s*;", head)
    n = re.search(r"\blet\s+(?:mut\s+)?(\w+)(?:\s*:\s*usize)?\s*=[^;]*\bto_usize\(\)\s*;", head)
    if not n:
        raise Lost("the number of items")
    n = n.group(1)
    count, extra = None, []
    if f:
        i = f.group(1) if f.group(1) != "_" else "vk_i"
        count, loop = i, "for %s in 0..%s" % (i, f.group(2))
    elif w.group(3) == "0" and w.group(2) in (">", "!="):
        left = w.group(1)
        if left == n:
            raise Lost("the number of items is consumed")
        count, loop, extra = "(%s - %s)" % (n, left), b[m.start():m.end() - 1], ["%s <= %s" % (left, n), "decreases " + left]
    else:
        i = w.group(1)
        if i not in zeros:
            raise Lost("the counter")
        count, loop, extra = i, b[m.start():m.end() - 1], ["%s <= %s" % (i, n), "decreases %s - %s" % (n, i)]
    accs = [z for z in zeros if z != count]
    rests = re.findall(r"\blet\s+mut\s+(\w+)(?:\s*:\s*&'a\s*\[u8\])?\s*=\s*(?:%s|&slice\[%s\.\.\]|&%s\[\.\.\])\s*;" % (data.group(2), ctl, data.group(2)), head)
    base = "slice@.subrange(%s as int, slice@.len() as int)" % ctl
    if len(accs) > 1 or not (accs or rests):
        raise Lost("the bytes consumed")
    off = "(%s as int)" % accs[0] if accs else "(%s.len() - %s@.len())" % (base, rests[0])
    inv = ["slice.len() == slice@.len()", "%s <= slice@.len()" % ctl, "0 <= %s <= %s.len()" % (off, base),
           "items::<Item>(%s, %s as nat, %s as nat)" % (base, count, off),
           "exists|vk_n: T::Output| #[trigger] T::vk_ok(slice@, vk_n, %s as nat) && vk_n.vk_usize() == %s" % (ctl, n)]
    inv += ["%s@ == %s.subrange(%s, %s.len() as int)" % (r, base, off, base) for r in rests]
    inv += ["%s.len() == %s@.len()" % (r, r) for r in rests]
    if not data.group(1):
        inv += ["%s.len() == %s@.len()" % (data.group(2), data.group(2)), "%s@ == %s" % (data.group(2), base)]
    dec = [x for x in extra if x.startswith("decreases")]
    inv += [x for x in extra if not x.startswith("decreases")]
    text = loop + "\n            invariant\n" + "".join("                %s,\n" % x for x in inv) + "".join("            %s,\n" % x for x in dec) + "        {"
    return t[:m.start()] + text + t[m.end():]


def annotate_items(t):
    """`for item in items {` over the items to write"""
    loops = list(re.finditer(r"\bfor\s+(\w+)\s+in\s+(\w+)\s*\{", blank(t)))
    if len(loops) != 1 or re.search(r"\b(while|loop)\b", blank(t)):
        raise Lost("the loop over the items")
    m = loops[0]
    item, items = m.group(1), m.group(2)
    inv = """for %(item)s in vk_it: %(items)s
            invariant
                self.vk_len() == old(self).vk_len() + vk_it.index(),
                self.vk_log() == old(self).vk_log() + encodings::<Item>(%(items)s@.subrange(0, vk_it.index())),
        {
            proof { encodings_step::<Item>(%(items)s@, vk_it.index(), vk_it.index() + 1); }""" % locals()
    return t[:m.start()] + inv + t[m.end():]


def same(spec, repo):
    """types which are written in the file of specifications are those of /repo"""
    for m in re.finditer(r"//@same (\S+)\n(pub struct [^;{]*(?:;|\{[^}]*\}))", spec):
        src = blank(open(os.path.join(repo, "runtime", "src", m.group(1))).read())
        if squeeze(m.group(2)) not in squeeze(src):
            raise Lost("type `%s`" % m.group(2).split("{")[0])


def expand(spec, repo):
    used = []
    same(spec, repo)

    def f(m):
        parts = m.group(1).split("|")
        # `impl` may contain no '|'
        path, impl, fn, ann = parts[0], parts[1], parts[2], parts[3:]
        src = open(os.path.join(repo, "runtime", "src", path)).read()
        t = body(src, impl, fn)
        for a in ann:
            if a == "loop:count":
                t = annotate_count(t)
            elif a == "loop:items":
                t = annotate_items(t)
            else:
                t = t.replace("$t", a)
        used.append("%s: %s" % (path, fn))
        return t
    return re.sub(r"@@BODY (.*?)@@", f, spec, flags=re.S), used


def undecided(job, why):
    print("  UNDECIDED %s: %s" % (job["name"], why))
    return dict(units=[dict(name="%s::%s" % (job["name"], u), obligations=1, discharged=0, time_s=0, status="undecided", bounded=False, backend="verus/z3")
                       for u in job["units"] or ["functions"]], cmd="verus verus/%s.rs.in" % job["spec"])


def run_job(ctx, job):
    path = os.path.join(ctx["verif"], "verus", job["spec"] + ".rs.in")
    spec = open(path).read()
    try:
        text, used = expand(spec, ctx["repo"])
    except (Lost, ValueError, OSError) as e:
        return undecided(job, "cannot extract (%s)" % e)
    f = os.path.join(ctx["scratch"], job["spec"] + ".rs")
    with open(f, "w") as fh:
        fh.write(text)
    cmd = ["verus", "--output-json", "--time-expanded", "--rlimit", "30", "--num-threads", "4", f]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=ctx["scratch"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           timeout=max(20, min(200, ctx["deadline"] - time.time())), start_new_session=True)
    except subprocess.TimeoutExpired:
        return undecided(job, "out of time")
    try:
        j = json.loads(p.stdout)
        vr = j["verification-results"]
    except (ValueError, KeyError):
        return undecided(job, "verus gives no result: " + p.stderr[-1500:])
    if vr.get("encountered-vir-error") or vr.get("encountered-error") and "verified" not in vr:
        return undecided(job, "verus cannot read it: " + p.stderr[-1500:])
    units, all_failed = [], []
    # functions with errors: the primary span of each error lies in one
    lines = text.split("\n")
    errs = {}
    known = functions(lines)
    for m in re.finditer(r"^error: (.*?)\n(.*?)(?=^error|^verification results|\Z)", p.stderr, re.M | re.S):
        if "aborting due to" in m.group(1):
            continue
        # every line shown with the error (the failed clause may be the one of a trait)
        shown = [int(x) for x in re.findall(r"^ *(\d+) [|/]", m.group(2), re.M)]
        own = [o for o in (owner(lines, n) for n in shown) if o in known]
        if not own:
            return undecided(job, "an error without a place: " + m.group(0)[-1500:])
        errs.setdefault(own[-1], []).append(m.group(0).rstrip())
    if vr["errors"] and not errs or sum(map(len, errs.values())) < vr["errors"]:
        return undecided(job, "errors without a place: " + p.stderr[-1500:])
    wall = time.time() - t0
    names = known
    if job.get("only"):
        names = [n for n in names if any(n.startswith(o) for o in job["only"])]
    for name in names:
        e = errs.get(name, [])
        limit = any("Resource limit" in x or "rlimit" in x for x in e)
        if job.get("safety") and not any("overflow" in x or "precondition not satisfied" in x for x in e):
            limit = True  # the property of this job is about panics only: the rest of the contract is lost, not broken
        u = dict(name="%s::%s" % (job["name"], name), obligations=1, discharged=0 if e else 1, time_s=round(wall / max(1, len(names)), 2),
                 bounded=False, backend="verus/z3", status="ok" if not e else "undecided" if limit else "failed")
        if u["status"] == "failed":
            rp = os.path.join(ctx["replay_dir"], "%s-%s.txt" % (ctx["pid"], u["name"].replace("::", ".")))
            with open(rp, "w") as fh:
                fh.write("property: %s\nfailed obligation (Verus function): %s\nno-failing-input-found: the failed obligation is the evidence.\n\n%s\n\nverified text (%s, bodies from %s):\n%s\n"
                         % (ctx["pid"], u["name"], "\n\n".join(e), job["spec"], ", ".join(used), text))
            u.update(replay=rp, input_found=False)
        units.append(u)
    if len(units) < job["min_functions"]:
        return undecided(job, "%d functions found, %d expected" % (len(units), job["min_functions"]))
    if vr["verified"] < len([u for u in units if u["status"] == "ok"]):
        return undecided(job, "verus verified %d functions only" % vr["verified"])
    return dict(units=units, cmd="verus %s.rs (bodies of /repo inserted in verus/%s.rs.in)" % (job["spec"], job["spec"]))


FN = re.compile(r"(\s*)(?:pub |unsafe |broadcast |proof |open |closed |spec )*fn (\w+)")


def functions(lines):
    """the functions whose obligations are discharged (not: spec functions, declarations of traits, external_body)"""
    out = []
    for i in range(len(lines)):
        m = FN.match(lines[i])
        if not m or "spec fn" in lines[i] or m.group(2) == "main" or (m.group(1) and kind(lines, i) == "trait") or "external_body" in lines[i - 1]:
            continue
        o = owner(lines, i + 1)
        if o not in out:
            out.append(o)
    return out


def kind(lines, i):
    while i > 0 and not re.match(r"(?:pub )?(trait|impl)\b", lines[i]):
        i -= 1
    return "trait" if "trait" in lines[i].split("<")[0].split() else "impl"


def owner(lines, n):
    """impl and function which line n (from 1) lies in"""
    fn = None
    for i in range(n - 1, -1, -1):
        m = FN.match(lines[i])
        if m and fn is None:
            fn = m.group(2)
            if not m.group(1):
                return fn
        m = re.match(r"(?:pub )?(impl|trait)\b(.*)\{", lines[i])
        if m and fn:
            h = m.group(2)
            if h.startswith("<"):
                d = 0
                for k, c in enumerate(h):
                    d += (c == "<") - (c == ">" and h[k - 1] not in "-=")
                    if d == 0:
                        h = h[k + 1:]
                        break
            h = h.split(" for ")[-1]
            return "%s::%s" % (re.search(r"\w+", h).group(0), fn)
    return fn or "?"
