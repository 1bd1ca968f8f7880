#!/usr/bin/env python3
"""Reads message databases (one JSON text per argument file), lets the stub generator of REPO write its files and compares
them, parsed as Python, with what the database says. Prints the first difference and exits 3, or exits 0."""
import ast, json, os, re, sys, tempfile, types

repo, files = sys.argv[1], sys.argv[2:]
typer = types.ModuleType("typer"); typer.Argument = lambda *a, **k: None; typer.Option = lambda *a, **k: None; typer.run = lambda f: None
te = types.ModuleType("typing_extensions")
import typing
te.Annotated = typing.Annotated
sys.modules.setdefault("typer", typer); sys.modules.setdefault("typing_extensions", te)
sys.dont_write_bytecode = True
import importlib.util
spec = importlib.util.spec_from_file_location("stubgen_under_test", repo + "/python/novatel_edie_files/stubgen.py")
mod = importlib.util.module_from_spec(spec); spec.loader.exec_module(mod)

class Bad(Exception): pass
def check(c, *what):
    if not c: raise Bad(" ".join(str(w) for w in what))

INTS = {"INT", "UINT", "CHAR", "UCHAR", "SHORT", "USHORT", "LONG", "ULONG", "LONGLONG", "ULONGLONG", "HEXBYTE"}
def scalar(dt):
    return "int" if dt in INTS else "float" if dt in ("FLOAT", "DOUBLE") else "bool" if dt == "BOOL" else "SatelliteId" if dt == "SATELLITEID" else "bytes" if dt == "UNKNOWN" else None
def text(f): return re.fullmatch(r"%[0-9]*\.?[0-9]*[sS]", f.get("conversionString") or "") is not None
def pytype(db, f, parent):
    t = f["type"]
    if t == "SIMPLE": return scalar(f["dataType"]["name"]) or "Any"
    if t == "ENUM":
        names = [e["name"] for e in db["enums"] if e["_id"] == f["enumID"]]
        return names[-1] if names else "Any"
    if t == "STRING": return "str"
    if t in ("FIXED_LENGTH_ARRAY", "VARIABLE_LENGTH_ARRAY"): return "str" if text(f) else "list[%s]" % scalar(f["dataType"]["name"])
    if t == "FIELD_ARRAY": return "FieldArray[%s_%s_Field]" % (parent, f["name"])
    return "Any"
def settable(db, f):
    t = f["type"]
    if t in ("SIMPLE", "ENUM", "STRING"): return pytype(db, f, "")
    if t == "FIXED_LENGTH_ARRAY" and text(f): return "str"
    return None

def properties(cls):
    out = []
    for n in cls.body:
        if isinstance(n, ast.FunctionDef) and not n.name.startswith("__"):
            check([ast.unparse(d) for d in n.decorator_list] == ["property"], cls.name, n.name, "is not a property")
            check([a.arg for a in n.args.args] == ["self"], cls.name, n.name, "takes arguments")
            check(len(n.body) == 1 and ast.unparse(n.body[0]) == "...", cls.name, n.name, "has a body")
            out.append((n.name, ast.unparse(n.returns)))
    return out
def expected(db, fields, name):
    out = []
    for f in fields:
        if f["type"] in ("FIELD_ARRAY", "VARIABLE_LENGTH_ARRAY"): out.append((f["name"] + "_length", "int"))
        out.append((f["name"], pytype(db, f, name)))
    return out
def compare(db, fields, name, base, classes, used):
    check(name in classes, "no class", name); c = classes[name]; used.add(name)
    check([ast.unparse(b) for b in c.bases] == [base], name, "derives from", [ast.unparse(b) for b in c.bases])
    got, want = properties(c), expected(db, fields, name)
    check(got == want, "properties of", name, "are", got, "expected", want)
    inits = [n for n in c.body if isinstance(n, ast.FunctionDef) and n.name == "__init__"]
    if base == "Message":
        check(len(inits) == 1, name, "has", len(inits), "constructors"); a = inits[0].args
        params = [(x.arg, ast.unparse(x.annotation) if x.annotation else None) for x in a.args]
        wantp = [("self", None), ("header", "Header | None")] + [(f["name"], settable(db, f)) for f in fields if settable(db, f)]
        check(params == wantp, "constructor of", name, "takes", params, "expected", wantp)
        check([ast.unparse(d) for d in a.defaults] == ["None"] + ["..."] * (len(params) - 2), "constructor of", name, "has other defaults")
    for f in fields:
        if f["type"] == "FIELD_ARRAY": compare(db, f["fields"], "%s_%s_Field" % (name, f["name"]), "Field", classes, used)
def nested(fields, name):
    out = []
    for f in fields:
        if f["type"] == "FIELD_ARRAY":
            n = "%s_%s_Field" % (name, f["name"]); out.append(n); out += nested(f["fields"], n)
    return out

def one(path):
    source = open(path).read(); db = json.loads(source)
    with tempfile.TemporaryDirectory(dir=os.path.dirname(os.path.abspath(path))) as d:
        out = os.path.join(d, "new", "stubs") if len(source) % 2 else d
        mod.StubGenerator(path if len(source) % 3 else json.loads(source)).write_stub_files(out)
        check(sorted(os.listdir(out)) == ["enums.pyi", "messages.pyi"], "files written:", os.listdir(out))
        enums, messages = open(os.path.join(out, "enums.pyi")).read(), open(os.path.join(out, "messages.pyi")).read()
    try: et = ast.parse(enums)
    except SyntaxError as e: raise Bad("enums.pyi is not valid Python: %s: %r" % (e, e.text))
    try: mt = ast.parse(messages)
    except SyntaxError as e: raise Bad("messages.pyi is not valid Python: %s: %r" % (e, e.text))
    classes = [n for n in et.body if isinstance(n, ast.ClassDef)]
    check([c.name for c in classes] == [e["name"] for e in db["enums"]], "enumeration classes are", [c.name for c in classes])
    for c, e in zip(classes, db["enums"]):
        check([ast.unparse(b) for b in c.bases] == ["Enum"], c.name, "is not an enumeration")
        got = [(n.targets[0].id, ast.literal_eval(n.value)) for n in c.body if isinstance(n, ast.Assign)]
        want = []
        for x in e["enumerators"]:
            n = re.sub("[^0-9A-Za-z]", "_", x["name"]); want.append(("_" + n if n[0].isdigit() else n, x["value"]))
        want.append(("EDIE_UNKNOWN", max([x["value"] for x in e["enumerators"]] + [0]) + 1))
        check(got == want and len(c.body) == len(want), "members of", c.name, "are", got, "expected", want)
    imports = " ".join(ast.unparse(n) for n in mt.body if isinstance(n, (ast.Import, ast.ImportFrom)))
    for n in ("Field", "FieldArray", "SatelliteId", "Header", "Message", "Any", "*"): check(re.search(re.escape(n) + r"(,|$| )", imports), n, "is not imported")
    cl = {}; alias = {}
    for n in mt.body:
        if isinstance(n, ast.ClassDef): check(n.name not in cl, n.name, "is declared twice"); cl[n.name] = n
        elif isinstance(n, ast.Assign): check(isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Name) and n.targets[0].id not in alias, "odd assignment", ast.unparse(n)); alias[n.targets[0].id] = n.value.id
        else: check(isinstance(n, (ast.Import, ast.ImportFrom)), "odd statement", ast.unparse(n))
    used = {"UNKNOWN"}; check("UNKNOWN" in cl and ("bytes", "bytes") in properties(cl["UNKNOWN"]), "no class for unknown messages"); wanta = {}
    for m in db["messages"]:
        for crc, fields in m["fields"].items():
            name = "%s_%04X" % (m["name"], int(crc)); compare(db, fields, name, "Message", cl, used)
            if crc == m["latestMsgDefCrc"]:
                wanta[m["name"]] = name
                for a, b in zip(nested(fields, m["name"]), nested(fields, name)): wanta[a] = b
    check(set(cl) == used, "unexpected classes", sorted(set(cl) - used)); check(alias == wanta, "aliases are", alias, "expected", wanta)

for f in files:
    try: one(f)
    except Bad as e: print("%s" % e); sys.exit(3)
sys.exit(0)
