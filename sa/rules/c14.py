"""C14: values placed in shell or command-line text are quoted for it."""
from .fsworld import *
from .shapes import arg_list

TECHNIQUE = ("path-sensitive abstract interpretation of the places that hand text to another interpreter; the text given "
             "to it is read word by word by the rules of the shell, and each inserted value has to be one inert word; "
             "values of unknown content have to pass through an encoding whose alphabet is inert")
LOC = {"bash": "pipeline/builtins.py:BashSource._run", "ssh": "pipeline/builtins.py:Remote._run",
       "get_completions": "pipeline/command.py:Command._complete"}
PLAIN = "PLAIN"
VALUES = ("two words", "it's", 'a"b', "x;ls>f", "$(ls)", "$HOME", "`ls`", "a\\b", "a\nb", "*", "~", "#c", "a&b", "a|b",
          "!x", "", "-x", "100%", "%(A)s", "%(A)s '", "\u00e5", "'", "''", "$'x'", "'; ls; '", "a=b", "{a,b}", "[z]",
          "\\", "\\'", "x\ty", "(a)", "<a>", "~bob", "?")
DIRS = {"/w": ["a1", "f", "z"], "/home/u": []}
EXPORTS = {"A": "x'; ls; '", "HOME": "/home/u"}
FORMS = (
    ("bash", "builtins.BashSource(env, ['bashsource', R(%s)])"),
    ("bash", "builtins.BashSource(env, ['bashsource', '%%', R(%s), 'last'])"),
    ("bash", "builtins.BashSource(env, ['bashsource', 'first', R(%s)])"),
    ("bash", "builtins.BashSource(env, ['bashsource', R(%s), R('PLAIN')])"),
    ("get_completions", "env.aa(R(%s))"),
    ("get_completions", "env.aa('p', R(%s), R('PLAIN'))"),
    ("get_completions", "env.aa(k=R(%s))"),
)
INERT = {"base64.b64encode", "base64.urlsafe_b64encode", "base64.b32encode", "base64.b16encode", "binascii.hexlify",
         "base64.standard_b64encode", "base64.encodebytes", "binascii.b2a_hex"}


def words(text):
    """The text as the shell reads it: words and operators, each character literal or active. None if it is not closed."""
    out, cur = [], None
    i, n = 0, len(text)

    def add(s, active=False):
        nonlocal cur
        cur = (cur or []) + [(c, active) for c in s]
    while i < n:
        c = text[i]
        if c == "'":
            j = text.find("'", i + 1)
            if j < 0:
                return None
            add(text[i + 1:j])
            i = j + 1
        elif c == '"':
            cur = cur or []
            i += 1
            while i < n and text[i] != '"':
                if text[i] == "\\" and i + 1 < n and text[i + 1] in '$`"\\\n':
                    if text[i + 1] != "\n":
                        add(text[i + 1])
                    i += 2
                else:
                    add(text[i], text[i] in "$`")
                    i += 1
            if i >= n:
                return None
            i += 1
        elif c == "$" and text[i + 1:i + 2] == "'":
            i += 2
            raw = ""
            while i < n and text[i] != "'":
                raw += text[i:i + 2] if text[i] == "\\" else text[i]
                i += 2 if text[i] == "\\" else 1
            if i >= n:
                return None
            i += 1
            try:
                add(raw.encode("latin-1", "backslashreplace").decode("unicode_escape"))
            except UnicodeDecodeError:
                add(raw, True)
        elif c == "\\":
            if text[i + 1:i + 2] != "\n":
                add(text[i + 1:i + 2])
            i += 2
        elif c in " \t":
            if cur is not None:
                out.append(tuple(cur))
            cur = None
            i += 1
        elif c in "\n;&|<>()":
            if cur is not None:
                out.append(tuple(cur))
            cur = None
            out.append(c)
            i += 1
        elif c == "#" and cur is None:
            j = text.find("\n", i)
            i = n if j < 0 else j
        else:
            active = c in "$`*?[" or c in "{}~=" or c == "~" and cur is None
            add(c, active)
            i += 1
    if cur is not None:
        out.append(tuple(cur))
    return out


def inert(s):
    return tuple((c, False) for c in s)


def replaced(ws, old, new):
    """The words with every literal occurrence of old being new; a word that is old alone is new alone."""
    out = []
    o, r = inert(old), inert(new)
    for w in ws:
        if isinstance(w, str):
            out.append(w)
            continue
        i, res = 0, ()
        while i < len(w):
            if w[i:i + len(o)] == o:
                res += r
                i += len(o)
            else:
                res += (w[i],)
                i += 1
        out.append(res)
    return out


def normal(ws):
    """Whether '=' and braces are active does not matter where they do not follow a name or stand for a list."""
    return [w if isinstance(w, str) else tuple((c, a and c not in "=") for c, a in w) for w in ws]


def texts(chk, prog_name, expr, how, literal=False, within="w"):
    """What the other interpreter is given on each path: lists of arguments."""
    body = "    for c in (%s)._complete():\n        pass\n" if how == "complete" else "    return (%s).run()\n"
    l = Launch(chk, "env = environ.Environment(%r, %r)\ndef f():\n%s" % (
        "/" + within, EXPORTS if within == "w" else dict(EXPORTS, A=within), body % expr), fork="child",
               name="text")
    if not literal:
        l.hooks.pkg.pop(l.prog.method("environ.py", "Environment", "_expand_argument"), None)
    FS(dict(DIRS, **{"/" + within: DIRS["/w"]})).install(l.hooks)
    l.st.user["cwd"] = K("/start")
    l.hooks.max_states = 3000
    l.init_log()
    out = []
    for s, v in l.start():
        for ev in [e for e in s.trace() if e.kind == "stop" and e.name.startswith("exec")]:
            lst = arg_list(s, ev)
            if lst and lst[0] == K(prog_name):
                out.append((s, lst))
    return out


def check(chk):
    chk.rule("quoted", "each value is one inert word, or inert part of one, in the text the other interpreter is given, "
                       "whatever characters it contains")
    chk.rule("encoded", "a value of unknown content is encoded with an alphabet that is inert where it stands")
    chk.rule("reached", "the other interpreter is started")
    chk.assumptions += ["the text is read by a POSIX shell; values are the enumerated ones for quoting, arbitrary for "
                        "encoding"]
    for who, form in FORMS:
        how = "complete" if who == "get_completions" else "run"
        base = texts(chk, who, form % repr("BENIGN"), how)
        chk.ob("reached", bool(base), LOC[who], "%s does not start %s" % (form % "x", who))
        if not base:
            continue
        want = base[0][1]
        for value in VALUES:
            got = texts(chk, who, form % repr(value), how)
            chk.ob("reached", bool(got), LOC[who], "%s does not start %s" % (form % repr(value), who))
            for s, lst in got:
                compare(chk, LOC[who], form % repr(value), want, lst, value, s)
    remote(chk)
    surroundings(chk)


def surroundings(chk):
    """The directory and the variables of the environment, where they are part of the text."""
    for who, form in FORMS[:1] + FORMS[4:5] + (("ssh", "builtins.Remote(env, ['remote', 'host', env.aa])"),):
        how = "complete" if who == "get_completions" else "run"
        base = texts(chk, who, form.replace("%s", "'plain'"), how, who == "ssh", "BENIGN")
        for value in ("it's", "two words", "$(ls)", "a;b", "a\\b", '"', "%(HOME)s"):
            for s, lst in texts(chk, who, form.replace("%s", "'plain'"), how, who == "ssh", value) if base else ():
                compare(chk, LOC[who], "%s in /%s" % (form.replace("%s", "x"), value), [whole(v) for v in base[0][1]],
                        [whole(v) for v in lst], value, s)


def whole(v):
    """A text with what is not known of it, which is encoded, standing for itself."""
    if not (isinstance(v, T) and v.op == "cat"):
        return v
    return K("".join(p.v if isinstance(p, K) and isinstance(p.v, str) else "ENCODED" for p in v.args))


def compare(chk, loc, what, want, have, value, s):
    if len(want) != len(have):
        chk.ob("quoted", False, loc, "%s: the arguments are %r" % (what, have), s)
        return
    for a, b in zip(want, have):
        if not isinstance(b, K) or not isinstance(a, K):
            if not (isinstance(b, K) or isinstance(a, K)) and "BENIGN" not in repr(a):
                continue
            chk.ob("quoted", False, loc, "%s: an argument is %r" % (what, b), s)
            continue
        if not isinstance(a.v, str) or not isinstance(b.v, str):
            chk.ob("quoted", a == b, loc, "%s: an argument is %r" % (what, b), s)
            continue
        if "BENIGN" not in a.v:
            chk.ob("quoted", a == b, loc, "%s: the argument %r has become %r" % (what, a.v, b.v), s)
            continue
        if a.v == "BENIGN":
            chk.ob("quoted", b.v == value, loc, "%s: %r is given for the value" % (what, b.v), s)
            continue
        w = words(b.v)
        ok = w is not None and words(a.v) is not None and normal(w) == normal(replaced(words(a.v), "BENIGN", value))
        chk.ob("quoted", ok, loc, "%s: the value is not one word of %r" % (what, b.v), s, "%s: %r" % (what, b.v))


def remote(chk):
    for form in ("builtins.Remote(env, ['remote', 'host', env.aa])", "builtins.Remote(env, ['remote', '-p', '22', 'host', env.aa | env.bb])",
                 "builtins.Remote(env, ['remote', 'host', env.aa(R(\"it's\"))])"):
        got = texts(chk, "ssh", form, "run", True)
        chk.ob("reached", bool(got), LOC["ssh"], "%s does not start ssh" % form)
        for s, lst in got:
            for v in lst[1:]:
                if isinstance(v, K):
                    chk.ob("encoded", v.v in ("host", "-p", "22"), LOC["ssh"], "%s: the text is %r" % (form, v.v), s)
                    continue
                pieces = list(v.args) if isinstance(v, T) and v.op == "cat" else [v]
                quote = ""
                for p in pieces:
                    if isinstance(p, K) and isinstance(p.v, str):
                        for c in p.v:
                            quote = "" if c == quote else c if not quote and c in "'\"" else quote
                        continue
                    name = encoding(p)
                    chk.ob("encoded", name is not None and (name != "quote" or not quote), LOC["ssh"],
                           "%s: the text contains %s" % (form, short(p)), s, "%s: %s" % (form, short(p)))


def short(p):
    r = repr(p)
    return r if len(r) < 80 else r[:77] + "..."


def encoding(p):
    """The encoding a piece of text certainly is in, None if none."""
    while True:
        if isinstance(p, T) and p.op == "str" or isinstance(p, T) and p.op == "fmt":
            p = p.args[-1]
            continue
        if not (isinstance(p, T) and p.op == "call"):
            return None
        f = p.args[0]
        name = f if isinstance(f, str) else f.v if isinstance(f, K) and isinstance(f.v, str) else None
        if name in INERT:
            return name
        if name in ("shlex.quote", "pipes.quote"):
            return "quote"
        if name in ("str",):
            p = p.args[1][0]
            continue
        if isinstance(f, T) and f.op == "meth" and f.args[1] in ("decode", "hex", "strip", "rstrip"):
            if f.args[1] == "hex":
                return "hex"
            p = f.args[0]
            continue
        return None
