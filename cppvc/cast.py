"""Clang JSON AST extraction and indexing.

Every run re-extracts the AST of the real /repo sources with clang's own front end
(`clang++ -ast-dump=json`), so the verified text is the code that is compiled.
"""
import json, os, re, subprocess, sys

REPO = os.environ.get("CPPVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """The code left the verifier's subset (never reported as a violation)."""


def clang_args(variant):
    a = ["-std=c++14", "-I" + REPO]
    if variant == "boringssl":
        a += ["-I/usr/include/android"]
    a += ["-I" + os.path.join(VERIF, "miniupb")]
    return a


def dump(path, variant="openssl", filt="s2a"):
    cmd = ["clang++", "-fsyntax-only"] + clang_args(variant) + [
        "-Wno-everything", "-Xclang", "-ast-dump=json", "-Xclang",
        "-ast-dump-filter=" + filt, path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise Unsupported("clang cannot parse %s: %s" % (path, p.stderr.decode()[:2000]))
    s = p.stdout.decode()
    dec = json.JSONDecoder()
    i, docs, n = 0, [], len(s)
    while True:
        while i < n and s[i].isspace():
            i += 1
        if i >= n:
            break
        d, i = dec.raw_decode(s, i)
        docs.append(d)
    return docs, cmd


SKIP_KINDS = {"FullComment", "TextComment", "ParagraphComment"}


class TU:
    """One parsed translation unit: declarations by id and by qualified name."""

    def __init__(self, path, variant="openssl"):
        self.path = path if os.path.isabs(path) else os.path.join(REPO, path)
        self.variant = variant
        docs, self.cmd = dump(self.path, variant)
        self.byid = {}
        self.qual = {}          # id -> qualified name
        self.funcs = {}         # qualified name -> list of FunctionDecl-like nodes
        self.records = {}       # qualified name -> record node (definition)
        self.enums = {}
        self.cenums = set()     # typedef names of C enums
        self.aliases = {}       # simple and qualified alias name -> type string
        self.parent = {}
        self.globals = {}
        self._seen = set()
        self._line = [None, None]
        cur = [None]
        for d in docs:
            fill_lines(d, cur)
        for d in docs:
            self._index(d, "")

    def _index(self, n, scope, cls=None):
        if not isinstance(n, dict) or n.get("kind") in SKIP_KINDS:
            return
        k = n.get("kind", "")
        nid = n.get("id")
        name = n.get("name", "")
        q = scope
        if k.endswith("Decl"):
            first = nid not in self.byid
            # a later dump of the same decl may be more complete
            if first or "inner" in n:
                self.byid[nid] = n
            if k == "NamespaceDecl":
                q = scope + ("::" if scope else "") + (name or "(anonymous)")
            elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                q = scope + ("::" if scope else "") + name
                # out-of-scope definitions: parentDeclContextId
                pid = n.get("parentDeclContextId")
                if pid in self.qual and not scope.startswith(self.qual[pid]):
                    q = self.qual[pid] + "::" + name
                if n.get("completeDefinition"):
                    self.records[q] = n
                cls = nid
            elif k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
                pid = n.get("parentDeclContextId")
                base = scope
                if pid in self.qual:
                    base = self.qual[pid]
                q = base + "::" + name
                self.parent[nid] = pid if pid is not None else cls
                if nid not in self._seen:
                    self._seen.add(nid)
                    self.funcs.setdefault(self.norm(q), []).append(n)
            elif k == "EnumDecl":
                q = scope + "::" + name
                self.enums[q if name else q + "(anon " + str(nid) + ")"] = n
            elif k in ("TypedefDecl", "TypeAliasDecl"):
                t = n.get("type", {})
                ts = t.get("desugaredQualType") or t.get("qualType")
                self.aliases.setdefault(name, ts)
                if any((x.get("ownedTagDecl") or {}).get("kind") == "EnumDecl" for x in n.get("inner", []) or []):
                    self.cenums.add(name)
                self.aliases[scope + "::" + name] = ts
            elif k == "VarDecl" and scope and not scope.endswith(")"):
                self.globals[nid] = n
            if nid is not None and k != "VarDecl" and k != "ParmVarDecl":
                self.qual.setdefault(nid, q)
        for c in n.get("inner", []) or []:
            self._index(c, q, cls)

    def extern_var(self, name):
        """Definition of a namespace-scope constant declared outside namespace s2a."""
        if not hasattr(self, "_ext"):
            names = set()

            def walk(n):
                if isinstance(n, dict):
                    d = n.get("referencedDecl")
                    if d and d.get("kind") == "VarDecl" and d["id"] not in self.byid:
                        names.add(d.get("name"))
                    for c in n.get("inner", []) or []:
                        walk(c)
            main = set()
            for q, fs in self.funcs.items():
                for f in fs:
                    walk(f)
            from concurrent.futures import ThreadPoolExecutor
            self._ext = {}

            def get(nm):
                docs, _ = dump(self.path, self.variant, nm)
                for d in docs:
                    if d.get("kind") == "VarDecl" and d.get("name") == nm:
                        return nm, d
                return nm, None
            names.add(name)
            names = [n for n in names if n and n[0] == "k"]
            with ThreadPoolExecutor(8) as ex:
                for nm, d in ex.map(get, names):
                    if d is not None:
                        self._ext[nm] = d
        return self._ext.get(name)

    @staticmethod
    def norm(q):
        return q.replace("(anonymous)::", "")

    # -- lookups ---------------------------------------------------------
    def definition(self, fid):
        """Definition (node with body) of a function given any of its decl ids."""
        n = self.byid.get(fid)
        if n is None:
            return None
        if has_body(n):
            return n
        q = self.norm(self.qual.get(fid, ""))
        for c in self.funcs.get(q, []):
            if has_body(c) and (c.get("previousDecl") == fid or same_sig(c, n)):
                return c
        return None

    def find(self, qname):
        """All definitions (with bodies) with this normalised qualified name."""
        return [c for c in self.funcs.get(qname, []) if has_body(c)]

    def record(self, name):
        name = name.replace("(anonymous namespace)::", "").replace("(anonymous)::", "")
        for q, r in self.records.items():
            qn = self.norm(q)
            if qn == name or qn.endswith("::" + name):
                return qn, r
        return None


def fill_lines(n, cur):
    """clang omits a line number equal to the previously printed one."""
    if isinstance(n, dict):
        if "offset" in n:
            if "line" in n:
                cur[0] = n["line"]
            else:
                n["line"] = cur[0]
        for v in n.values():
            if isinstance(v, (dict, list)):
                fill_lines(v, cur)
    elif isinstance(n, list):
        for v in n:
            fill_lines(v, cur)


def has_body(n):
    return any(isinstance(c, dict) and c.get("kind") == "CompoundStmt" for c in n.get("inner", []) or []) or \
        (n.get("kind") == "CXXConstructorDecl" and any(c.get("kind") == "CXXCtorInitializer" for c in n.get("inner", []) or []))


def body_of(n):
    for c in n.get("inner", []):
        if c.get("kind") == "CompoundStmt":
            return c
    return None


def same_sig(a, b):
    return a.get("mangledName") is not None and a.get("mangledName") == b.get("mangledName") or \
        (a.get("type", {}).get("qualType") == b.get("type", {}).get("qualType"))


def params_of(n):
    return [c for c in n.get("inner", []) or [] if c.get("kind") == "ParmVarDecl"]


def show(n, ind=0, out=None, maxd=60):
    """Compact dump for debugging."""
    if not isinstance(n, dict) or not n:
        return
    k = n.get("kind")
    if k in SKIP_KINDS:
        return
    s = "  " * ind + str(k)
    for f in ("name", "opcode", "value", "castKind", "isArrow", "storageClass"):
        if f in n:
            s += " %s=%r" % (f, n[f])
    if "referencedDecl" in n:
        s += " ->%s:%s" % (n["referencedDecl"].get("kind"), n["referencedDecl"].get("name"))
    if "type" in n:
        s += " <%s>" % n["type"].get("qualType")
        if "desugaredQualType" in n["type"]:
            s += " {%s}" % n["type"]["desugaredQualType"]
    print(s)
    if maxd > 0:
        for c in n.get("inner", []) or []:
            show(c, ind + 1, out, maxd - 1)
