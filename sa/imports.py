"""What a module does when it is imported: calls reached from its top level, following its own functions."""
import ast

from .oblig import Result
from .repo import AnalysisError

IMPORTED = {"__name__ == '__main__'": False, "__name__ != '__main__'": True, "'__main__' == __name__": False}


def calls_made(module, body, seen, out):
    """Names called on every import, and those called only under a condition that is not decided here."""
    for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in s.decorator_list:
                names(module, d, seen, out)
            if isinstance(s, ast.ClassDef):  # its body runs too, its methods do not
                calls_made(module, s.body, seen, out)
            continue
        if isinstance(s, ast.If) and ast.unparse(s.test) in IMPORTED:
            calls_made(module, s.body if IMPORTED[ast.unparse(s.test)] else s.orelse, seen, out)
            continue
        for f, v in ast.iter_fields(s):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                calls_made(module, v, seen, out)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.ExceptHandler):
                        calls_made(module, x.body, seen, out)
                    elif isinstance(x, ast.AST):
                        names(module, x, seen, out)
            elif isinstance(v, ast.AST):
                names(module, v, seen, out)


def names(module, e, seen, out):
    if isinstance(e, ast.Lambda):
        return
    if isinstance(e, ast.Name):
        out.add("@" + e.id)
    for x in ast.iter_child_nodes(e):
        names(module, x, seen, out)
    if isinstance(e, ast.Call):
        n = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else None
        if n is None:
            out.add("?")
            return
        out.add(n)
        for f in module.tree.body:
            if isinstance(f, ast.FunctionDef) and f.name == n and n not in seen:
                seen.add(n)
                calls_made(module, f.body, seen, out)


class AtImport:
    """A class that is instantiated when its module is imported."""
    rule = "calls made at import"
    tier = "quick"

    def __init__(self, name, *classes):
        self.name, self.classes, self.code = name, classes, classes[0]

    def run(self, ctx, only=None):
        out = []
        for q in self.classes:
            mod, cls = q.rsplit(".", 1)
            try:
                m = ctx.repo.need(mod)
            except AnalysisError:
                out.append(Result("undecided", mod, self.name, f"{mod} no longer exists", self.rule))
                continue
            made = set()
            calls_made(m, m.tree.body, set(), made)
            what = f"{self.name}: {cls}"
            if cls in made:
                out.append(Result("ok", f"{m.path}:1", what, "", self.rule))
            elif "?" in made or "@" + cls in made:
                out.append(Result("undecided", f"{m.path}:1", what, "a computed function is called, or the class is passed on",
                                  self.rule))
            else:
                out.append(Result("violation", f"{m.path}:1", what,
                                  f"no call of {cls} among those made at import: {', '.join(sorted(x for x in made if x[0] != '@')) or 'none'}", self.rule))
        return out
