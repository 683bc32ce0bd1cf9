"""C05: the descriptor table of every launched program is exactly its redirections."""
import itertools

from .shapes import *

TECHNIQUE = ("path-sensitive abstract interpretation of the forked child over a descriptor-table domain: the table at "
             "exec is compared with the redirections, for every aliasing pattern of numbers and sources in the bound")


def check(chk):
    chk.rule("launch", "the program is executed")
    chk.rule("redirected", "each redirected descriptor number refers to the source named for it when the program is executed")
    chk.rule("closed", "no descriptor that is not redirected is inherited by the program")
    chk.assumptions += ["kernel semantics of descriptors as modelled in launch.py; the resource limit the shell reads "
                        "covers every open descriptor"]
    rules = {"wrong": "redirected", "stage": "redirected", "argument": "redirected", "extra": "closed"}
    for r in launched(chk, fork="both"):
        b = Binding(PIPE("out", "w") if not r.mode.startswith("run") else T1)
        for s, ev in r.children:
            name, ps = child_problems(r, s, ev, b)
            report(chk, r, ps, rules, "redir.py:Redirects.perform", s)
        chk.ob("launch", len(r.children) >= len(r.shape.stages), "pipeline/command.py:Command._child",
               "a program of %s is not executed" % r.name)
    deep = chk.tier == "thorough"
    src = [0, 1, 2, 9, "/a"]
    plans = [tuple(zip((0, 1, 2), c)) for c in itertools.product(src, repeat=3)]
    plans += [tuple(reversed(p)) for p in plans if len(set(map(str, dict(p).values()))) > 1][::1 if deep else 3]
    far = [1, 3, 9, "/a"] + ([0, 2, 6, "/b"] if deep else [])
    for d in itertools.permutations((1, 3, 4, 9, 10), 2):
        plans += [tuple(zip(d, c)) for c in itertools.product(far, repeat=2)]
    plans += [((4, "/a"),), ((4, "/a"), (5, "/b")), ((5, "/a"), (4, "/b")), ((0, 0), (1, 1), (2, 2), (4, 9), (5, 9)),
              ((7, 9), (8, 3), (3, 9)),
              ((9, 0), (0, 9)), ((3, 9), (9, 3), (6, 6)), ((10, 9), (11, 6), (12, 3), (13, 0)), ()]
    permuted(chk, plans)


def permuted(chk, plans):
    l = Launch(chk, '''
def f(pairs):
    env = environ.Environment(None, {"A": "b"})
    r = Redirects()
    for dst, src in pairs:
        r.redirect(dst, src, 0)
    r.borrow()
    return env.aa.run(r)
''', fork="child").init_log()
    initial = dict(l.hooks.table(l.st))
    for plan in plans:
        v = Tup([Tup([K(a), K(b)]) for a, b in plan])
        text = ", ".join("%d from %s" % p for p in plan) or "nothing"
        n = 0
        for s, o in l.start(v):
            ev = [e for e in s.trace() if e.kind == "stop" and e.name.startswith("exec")]
            if not s.user.get("child") or not ev:
                chk.ob("launch", False, "redir.py:Redirects.perform", "with %s redirected the program is not executed" % text, s)
                continue
            n += 1
            have = ev[-1].extra
            bad = False
            for d, src in plan:
                c = have.get(d)
                want = initial[src][0] if isinstance(src, int) else FILE(src)
                ok = c is not None and not c[1] and Binding(None).match(want, c[0])
                bad = bad or not ok
                chk.ob("redirected", ok, "redir.py:Redirects.perform", "with %s redirected, descriptor %d is %s" % (
                    text, d, show(c and c[0])), s, "with %s redirected: %s" % (text, {k: show(x[0]) for k, x in have.items() if not x[1]}))
            for k, (c, cloexec) in have.items():
                if k not in dict(plan):
                    chk.ob("closed", cloexec, "redir.py:Redirects.close_other_fds",
                           "with %s redirected, %s stays open in the program" % (text, show(c)), s)
        chk.ob("launch", n > 0, "redir.py:Redirects.perform", "with %s redirected the program is not executed" % text)
