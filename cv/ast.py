"""Loads the JSON export of the clang AST (tool/astx.cpp) and answers type / function queries."""
import json, os, subprocess, hashlib

REPO = os.environ.get("OPENGM_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXXFLAGS = ["-std=gnu++17", "-DNDEBUG", "-I" + REPO + "/include", "-w", "-fbracket-depth=1024"]


class ExtractionError(Exception):
    pass


def strip_targs(s):
    """qualified name without template argument lists"""
    out = []
    i = 0
    depth = 0
    while i < len(s):
        if depth == 0 and s.startswith("operator", i) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == "_")):
            j = i + 8
            while j < len(s) and s[j] in "<>=-+*/!&|^%~()[],":
                j += 1
            op = s[i + 8:j]
            # "operator<<int>" style template arguments
            for cand in ("<=>", "<<=", ">>=", "->*", "<<", ">>", "->", "<=", ">=", "<", ">"):
                if op.startswith(cand):
                    j = i + 8 + len(cand)
                    break
            out.append(s[i:j])
            i = j
            continue
        c = s[i]
        if c == "<":
            depth += 1
        elif c == ">":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out)


class Ast:
    def __init__(self, d):
        self.d = d
        for f in d["functions"].values():
            f["plain"] = strip_targs(f["plain"])
            f["short"] = strip_targs(f["short"])
        for r in d["records"]:
            r["plain"] = strip_targs(r["plain"])
        self.types = d["types"]
        self.records = d["records"]
        self.functions = {int(k): v for k, v in d["functions"].items()}
        self.globals = {int(k): v for k, v in d["globals"].items()}

    # -- types
    def ty(self, tid):
        return self.types[tid]

    def strip(self, t):
        """type record with references removed"""
        if isinstance(t, int):
            t = self.types[t]
        while t["k"] == "ref":
            t = self.types[t["to"]]
        return t

    def rec_of(self, t):
        t = self.strip(t)
        return self.records[t["rec"]] if t["k"] == "rec" else None

    def nested_copy(self, rec, key):
        """some base or member of rec has a user-written copy constructor ("ucopy") or assignment ("uassign")"""
        ts = list(rec.get("bases", [])) + [f["t"] for f in rec.get("fields", [])]
        for t in ts:
            t = self.types[t]
            while t["k"] == "arr":
                t = self.types[t["el"] if "el" in t else t["to"]]
            if t["k"] != "rec":
                continue
            r = self.records[t["rec"]]
            if r.get("sys"):
                continue
            if r.get(key) or self.nested_copy(r, key):
                return True
        return False

    def fields(self, rec):
        """all fields including those of bases (bases first)"""
        out = []
        for b in rec.get("bases", []):
            r = self.rec_of(b)
            if r:
                out += self.fields(r)
        out += rec.get("fields", [])
        return out

    # -- functions
    def find(self, plain, **sel):
        """functions with a body whose qualified name without template arguments is `plain`"""
        res = []
        for f in self.functions.values():
            if f["plain"] != plain or "body" not in f:
                continue
            if "const" in sel and f.get("const") != sel["const"]:
                continue
            if "nparams" in sel and len(f["params"]) != sel["nparams"]:
                continue
            if "ptypes" in sel and not all(s in self.types[p["t"]]["s"] or (self.types[p["t"]]["k"] == "ref" and s in self.strip(p["t"])["s"]) for s, p in zip(sel["ptypes"], f["params"])):
                continue
            if "pkinds" in sel and [self.types[p["t"]]["k"] for p in f["params"]] != sel["pkinds"]:
                continue
            if "name_has" in sel and not all(s in f["name"] for s in ([sel["name_has"]] if isinstance(sel["name_has"], str) else sel["name_has"])):
                continue
            if "cls_has" in sel and ("cls" not in f or not all(s in self.records[f["cls"]]["name"] for s in ([sel["cls_has"]] if isinstance(sel["cls_has"], str) else sel["cls_has"]))):
                continue
            if "where" in sel and not sel["where"](f):
                continue
            res.append(f)
        return res

    def fn(self, plain, **sel):
        r = self.find(plain, **sel)
        if len(r) != 1:
            raise ExtractionError("function %s %s: %d matches (%s)" % (plain, sel, len(r), [x["name"] for x in r][:4]))
        return r[0]


def load(driver, flags=(), keep=None):
    """run astx on a driver TU against /repo's current working tree"""
    src = os.path.join(VERIF, "drivers", driver)
    out = keep or os.path.join(VERIF, "build", "ast_%s_%d.json" % (os.path.basename(driver), os.getpid()))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    exe = os.path.join(VERIF, "build", "astx")
    if not os.path.exists(exe):
        subprocess.run(["bash", os.path.join(VERIF, "setup.sh")], check=True, stdout=subprocess.DEVNULL)
    p = subprocess.run([exe, src, "-o", out, "--"] + CXXFLAGS + ["-I" + os.path.join(VERIF, "drivers")] + list(flags),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise ExtractionError("astx failed on %s:\n%s" % (driver, p.stderr[-3000:]))
    with open(out) as f:
        d = json.load(f)
    if keep is None:
        os.unlink(out)
    return Ast(d)
