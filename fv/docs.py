"""The documented interface: code blocks of the README, the documentation pages, the examples and the doc strings, as modules to be analysed."""
import ast
import os
import re
import textwrap

from .model import ClassInfo, ModuleInfo, rel


class Snippet(ModuleInfo):
    def __init__(self, name, path, tree, src, context=None):
        super().__init__(name, path, tree, src)
        self.context = context or {}       # free name -> ClassInfo of the object the text speaks of


def blocks_md(text):
    for m in re.finditer(r"^```(?:python3?|py)[^\n]*\n(.*?)^```", text, re.M | re.S):
        yield text[:m.start(1)].count("\n") + 1, m.group(1)


def blocks_rst(text):
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        m = re.match(r"^(\s*)\.\. code(?:-block)?:: *python3?\s*$", lines[i])
        i += 1
        if not m:
            continue
        start = i
        out = []
        while i < len(lines) and (not lines[i].strip() or len(lines[i]) - len(lines[i].lstrip()) > len(m.group(1))):
            out.append(lines[i])
            i += 1
        while out and re.match(r"^\s*(:\w[\w-]*:.*)?$", out[0]):
            out.pop(0)
            start += 1
        yield start + 1, textwrap.dedent("\n".join(out)) + "\n"


def blocks_doc(doc):
    """the statements after >>> and ... of a doc string"""
    out = []
    for line in doc.split("\n"):
        m = re.match(r"^\s*(>>>|\.\.\.)(?: (.*)|\s*)$", line)
        out.append((m.group(2) or "") if m else "")
    return "\n".join(out) + "\n"


def module(prog, name, path, src, offset=0, context=None):
    tree = ast.parse(src)
    ast.increment_lineno(tree, offset)
    m = Snippet(name, path, tree, src, context)
    for n in tree.body:                   # functions defined by the text; everything else is a variable or an import
        if isinstance(n, ast.FunctionDef):
            from .model import FuncInfo
            m.sym[n.name] = FuncInfo(n, m)
    prog._imports(m)
    return m


def snippets(prog):
    """(modules, faults): faults are (where, text) of blocks that are no Python"""
    out, bad = [], []
    root = prog.root

    def add(name, path, parts, context=None):
        src, line = "", 1
        for start, text in parts:           # one module, each block on its own lines
            src += "\n" * (start - line) + text
            line = start + text.count("\n")
        try:
            out.append(module(prog, name, path, src, 0, context))
        except SyntaxError as e:
            bad.append((f"{rel(path)}:{e.lineno}", (e.text or "").strip()))

    for base, dirs, files in sorted(os.walk(root)):
        dirs[:] = sorted(d for d in dirs if not d.startswith((".", "_")) and d not in ("tests", "build", "dist") and not d.endswith(".egg-info"))
        d = os.path.relpath(base, root).split(os.sep)[0]
        for f in sorted(files):
            path = os.path.join(base, f)
            if f.endswith(".md") and d in (".", "docs"):
                parts = list(blocks_md(open(path, encoding="utf-8").read()))
            elif f.endswith(".rst") and d in (".", "docs"):
                parts = list(blocks_rst(open(path, encoding="utf-8").read()))
            elif f.endswith(".py") and d == "examples":
                parts = [(1, open(path, encoding="utf-8").read())]
            else:
                continue
            if parts:
                add("doc:" + rel(path), path, parts)
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            doc = ast.get_docstring(n, clean=False)
            if not doc or ">>>" not in doc:
                continue
            src = textwrap.dedent(blocks_doc(doc))
            cls = next((c for c in prog.classes.values() if c.module is m and (c.node is n or n in c.node.body)), None)
            line = n.body[0].value.lineno
            context = {c.name.lower(): c for c in prog.classes.values()}
            add(f"doc:{rel(m.path)}:{getattr(cls, 'name', '')}.{n.name}", m.path, [(line, src)], dict(context, **{"": cls}))
    return out, bad


def directives(prog):
    """(file, line, dotted name) of the autodoc directives of the documentation pages"""
    for base, dirs, files in sorted(os.walk(os.path.join(prog.root, "docs"))):
        for f in sorted(files):
            if f.endswith(".rst"):
                path = os.path.join(base, f)
                for i, line in enumerate(open(path, encoding="utf-8"), 1):
                    m = re.match(r"\s*\.\. auto(?:class|module|function|method|attribute|exception|data):: *([\w.]+)", line)
                    if m and m.group(1).split(".")[0] == "foronoi":
                        yield path, i, m.group(1)
