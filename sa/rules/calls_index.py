"""Queries over every call of the package: what outside functions it can call, and from where."""
import ast

from .common import *

SHELLS = ("os.system", "os.popen", "subprocess.getoutput", "subprocess.getstatusoutput", "commands.getoutput",
          "asyncio.create_subprocess_shell", "pty.spawn", "platform.popen", "os.popen2", "os.popen3", "os.popen4")


def dotted(node, imports):
    """The outside name an expression denotes, through the imports of its module."""
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if not isinstance(node, ast.Name) or node.id not in imports:
        return None
    return ".".join([imports[node.id]] + parts[::-1])


def imports_of(tree):
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
            for a in n.names:
                out[a.asname or a.name] = "%s.%s" % (n.module, a.name)
    return out


def where(tree):
    """node -> qualified name of the function it is in."""
    out = {}

    def walk(n, q):
        for c in ast.iter_child_nodes(n):
            q2 = q
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                q2 = q + [c.name]
            out[c] = ".".join(q2)
            walk(c, q2)
    walk(tree, [])
    return out


def references(prog):
    """(module, node, outside name, function) for every mention of an outside name."""
    for m in prog.package:
        imp = imports_of(m.tree)
        at = where(m.tree)
        inner = set()
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                inner.add(n.value)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Attribute, ast.Name)) and n not in inner:
                d = dotted(n, imp)
                if d:
                    yield m, n, d, at.get(n, "")


def no_shell(chk, rule):
    n = 0
    for m, node, name, fn in references(chk.prog):
        n += 1
        loc = "%s:%s:%d" % (m.rel, fn or "<module>", node.lineno)
        chk.ob(rule, name not in SHELLS, loc, "%s is used, which has a shell interpret a command line" % name)
    chk.ob(rule, n > 50, "pipeline/command.py:Command", "the package refers to %d outside names" % n)
    for m in chk.prog.package:
        at = where(m.tree)
        for c in ast.walk(m.tree):
            if isinstance(c, ast.Call) and any(k.arg == "shell" and not (
                    isinstance(k.value, ast.Constant) and not k.value.value) for k in c.keywords):
                chk.ob(rule, False, "%s:%s:%d" % (m.rel, at.get(c, ""), c.lineno), "a shell is asked for")
