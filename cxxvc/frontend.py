"""Front end: the real /repo sources, parsed by clang on every run, as an indexed AST.

Nothing is rewritten: `clang++ -fsyntax-only -Xclang -ast-dump=json` type-checks a
translation unit that only #includes the files of /repo (and requests explicit template
instantiations), and the resulting typed AST is what the verifier executes symbolically.
"""
import json, os, subprocess, hashlib, re

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"


# names of the standard library: never renamed
STDNAMES = set("begin end cbegin cend size empty data swap min max move forward copy copy_n fill fill_n find find_if sort count count_if floor ceil "
               "round abs fabs sqrt exp log pow sin cos tan asin acos atan atan2 modf fmod isnan isinf isfinite string vector complex real imag "
               "norm conj arg polar get put read write open close seekg tellg seekp tellp getline clear str c_str distance advance next prev "
               "accumulate transform for_each lower_bound upper_bound unique reverse rotate cout cerr clog endl flush ws hex dec setw "
               "setprecision make_pair make_tuple make_unique make_shared ref tie isspace isdigit isalpha toupper tolower atoi atof "
               "strtod strtol memcpy memset strlen strcmp time clock rand srand exit abort malloc free".split())


class FrontendError(Exception):
    pass


class Func:
    __slots__ = ("node", "name", "qname", "mangled", "params", "body", "cls", "inits", "is_ctor",
                 "is_static", "rettype", "virtual", "file", "line", "const", "kind", "type", "is_lambda")


def qt(node):
    t = node.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType") or ""


class Program:
    def __init__(self):
        self.decls = {}      # id -> node
        self.parent = {}     # id -> qualified scope name
        self.funcs = {}      # mangled -> Func with a body
        self.byid = {}       # decl id -> mangled
        self.byq = {}        # qualified name -> [Func]
        self.classes = {}    # qualified class name -> info
        self.fieldcls = {}   # field decl id -> name
        self.enums = {}      # enum constant decl id -> int value
        self.enumname = {}   # qualified enum constant name -> int
        self.globals = {}    # var decl id -> (qualified name, node)
        self.gcanon = {}     # qualified name -> node with init
        self.params = {}     # fn decl id -> [param nodes]  (for default args)
        self.redecl = {}     # id -> [ids of previous decls]
        self.files = set()
        self.cmds = []
        self.literals = set()
        self._texts = {}

    # ------------------------------------------------------------------ loading
    def load(self, tu_text, filt, defines=(), includes=(), std="c++17", extra=()):
        """Declarations outside the filtered namespace (file-static helpers, constants) that the dump refers to are
        brought in by a second parse in which a macro renames them so that the same filter selects them."""
        if isinstance(filt, str):
            filt = [filt]
        for f in filt:
            docs = self._parse(tu_text, f, defines, includes, std, extra)
            new = self._outside(docs, tu_text, defines, includes, std)
            tried = set()
            while new - tried:
                tried |= new
                try:
                    more = self._parse(tu_text, f, list(defines) + ["%s=%s_x_%s" % (n, f, n) for n in sorted(tried)], includes, std, extra)
                except FrontendError:
                    break
                docs = more
                new = self._outside(docs, tu_text, defines, includes, std)
            self._take(docs, tu_text, f)

    def _outside(self, docs, tu_text, defines, includes, std):
        """names of functions and variables referred to but not in the dump, and defined in the files of /repo"""
        have, refs, local = set(), {}, set()
        stack = list(docs)
        while stack:
            o = stack.pop()
            k = o.get("kind", "")
            if k.endswith("Decl") and o.get("id"):
                have.add(o["id"])
            r = o.get("referencedDecl")
            if k == "DeclRefExpr" and isinstance(r, dict) and r.get("kind") in ("FunctionDecl", "VarDecl"):
                refs[r["id"]] = r.get("name", "")
            stack.extend(c for c in o.get("inner", ()) if isinstance(c, dict))
        names = {n for i, n in refs.items() if i not in have and re.fullmatch(r"[A-Za-z_]\w*", n) and not n.startswith(("__", "operator", "_mm"))}
        text = self._repo_text(tu_text, defines, includes, std)
        out = set()
        for f in text.split("\x00"):
            out |= outer_structs(f)
        for n in names - STDNAMES:
            if re.search(r"^(?!\s*(?:return|else)\b)[ \t]*[\w:<>,*& \t\n]+?[\s*&]%s\s*\((?:[^;{}()]|\([^()]*\))*\)\s*(?:noexcept\s*)?\{" % n, text, re.M) or \
                    re.search(r"^[ \t]*(?:static|const|constexpr|inline)[\w:<>,*& \t]*?[\s*&]%s\s*(?:\[[^\]]*\]\s*)*(?:=|\{|;|\()" % n, text, re.M):
                out.add(n)
        return out

    def _repo_text(self, tu_text, defines, includes, std):
        key = hashlib.md5((tu_text + repr(includes)).encode()).hexdigest()
        if key not in self._texts:
            cmd = [CLANG, "-std=" + std, "-MM", "-w", "-x", "c++"] + ["-D" + d for d in defines] + ["-I" + i for i in includes] + ["-"]
            p = subprocess.run(cmd, input=tu_text, capture_output=True, text=True)
            out = []
            for f in p.stdout.replace("\\\n", " ").split()[1:]:
                if os.path.realpath(f).startswith(os.path.realpath(REPO)) and "dSFMT" not in f:
                    try:
                        out.append(open(f, errors="replace").read())
                    except OSError:
                        pass
            self._texts[key] = "\n\x00".join(out)
        return self._texts[key]

    def _parse(self, tu_text, filt, defines, includes, std, extra):
        cmd = [CLANG, "-std=" + std, "-fsyntax-only", "-w", "-x", "c++", "-ferror-limit=3"]
        cmd += ["-D" + d for d in defines] + ["-I" + i for i in includes]
        cmd += ["-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt] + list(extra) + ["-"]
        self.cmds.append(" ".join(cmd))
        p = subprocess.run(cmd, input=tu_text, capture_output=True, text=True)
        if p.returncode != 0:
            raise FrontendError("clang failed: " + p.stderr[:2000])
        s = p.stdout
        dec = json.JSONDecoder()
        i, n = 0, len(s)
        docs = []
        while i < n:
            while i < n and s[i].isspace():
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            docs.append(o)
        return docs

    def _take(self, docs, tu_text, filt):
        if not docs:
            return
        self._tag = hashlib.md5((tu_text + filt).encode()).hexdigest()[:6]
        # several dumps in one Program: ids are made unique per load
        for d in docs:
            self._prefix(d)
        for d in docs:
            self._index(d, self._scope_of(d), None)
        for d in docs:
            self._late(d)

    def _prefix(self, d):
        tag = self._tag
        stack = [d]
        while stack:
            o = stack.pop()
            if o.get("kind") in ("FloatingLiteral", "IntegerLiteral"):
                try:
                    self.literals.add(float(o["value"]))
                except (KeyError, ValueError, OverflowError):
                    pass
            for k in ("id", "parentDeclContextId", "previousDecl", "referencedMemberDecl"):
                if k in o and isinstance(o[k], str):
                    o[k] = tag + o[k]
            for k in ("referencedDecl", "anyInit", "foundReferencedDecl", "ownedTagDecl"):
                if k in o and isinstance(o[k], dict) and "id" in o[k]:
                    o[k]["id"] = tag + o[k]["id"]
            stack.extend(c for c in o.get("inner", ()) if isinstance(c, dict))

    def _scope_of(self, d):
        pid = d.get("parentDeclContextId")
        if pid and pid in self.parent:
            return self.parent[pid]
        # a definition outside its namespace/class: recover the scope from the mangled name
        m = d.get("mangledName")
        if m:
            q = demangle_scope(m)
            if q is not None:
                return q
        return ""

    def _index(self, o, scope, cls):
        k = o.get("kind")
        if not k:
            return
        oid = o.get("id")
        if oid:
            self.decls[oid] = o
        if k in ("FunctionTemplateDecl", "ClassTemplateDecl", "NamespaceDecl", "LinkageSpecDecl"):
            sc = scope
            if k == "NamespaceDecl" and o.get("name"):
                sc = (scope + "::" if scope else "") + o["name"]
            self.parent[oid] = sc
            first = True
            for c in o.get("inner", ()):
                ck = c.get("kind")
                if k == "FunctionTemplateDecl" and ck in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl"):
                    if first:
                        first = False      # the uninstantiated pattern
                        self.decls[c.get("id")] = c
                        self.params[c.get("id")] = [p for p in c.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
                        continue
                if k == "ClassTemplateDecl" and ck == "CXXRecordDecl":
                    self.decls[c.get("id")] = c
                    self._index_pattern(c)
                    continue
                self._index(c, sc, cls)
            return
        if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl", "ClassTemplatePartialSpecializationDecl"):
            name = o.get("name")
            q = (scope + "::" if scope else "") + (name or "anon@" + str(oid))
            if k == "ClassTemplateSpecializationDecl":
                args = [a.get("type", {}).get("qualType", a.get("value", "?")) for a in o.get("inner", ())
                        if a.get("kind") == "TemplateArgument"]
                q += "<" + ", ".join(str(a) for a in args) + ">"
            q = norm_cls(q)
            self.parent[oid] = q
            if o.get("completeDefinition") or o.get("bases") or any(c.get("kind") in ("FieldDecl", "CXXMethodDecl", "CXXConstructorDecl") for c in o.get("inner", ())):
                ci = self.classes.setdefault(q, {"bases": [], "fields": [], "methods": [], "node": o, "name": q})
                if o.get("bases") and not ci["bases"]:
                    for b in o["bases"]:
                        t = b["type"]
                        ci["bases"].append(norm_cls(strip_type(t.get("desugaredQualType") or t["qualType"])))
            for c in o.get("inner", ()):
                self._index(c, q, q)
            return
        if k == "EnumDecl":
            v = -1
            q = (scope + "::" if scope else "") + (o.get("name") or "")
            self.parent[oid] = q
            for c in o.get("inner", ()):
                if c.get("kind") == "EnumConstantDecl":
                    self.decls[c["id"]] = c
                    lit = find_value(c)
                    v = int(lit) if lit is not None else v + 1
                    self.enums[c["id"]] = v
                    self.enumname[(scope + "::" if scope else "") + c["name"]] = v
            return
        if k == "FieldDecl":
            if cls:
                ci = self.classes.setdefault(cls, {"bases": [], "fields": [], "methods": [], "node": None, "name": cls})
                if not any(f[0] == o.get("name") for f in ci["fields"]):
                    ci["fields"].append((o.get("name"), qt(o), o))
            self.fieldcls[oid] = o.get("name")
            return
        if k == "VarDecl":
            q = (scope + "::" if scope else "") + o.get("name", "")
            self.globals[oid] = q
            if o.get("previousDecl"):
                self.redecl.setdefault(oid, []).append(o["previousDecl"])
            if q not in self.gcanon or (o.get("init") and not self.gcanon[q].get("init")):
                self.gcanon[q] = o
            return
        if k in ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl"):
            self._index_func(o, scope, cls)
            return
        if k in ("TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl", "AccessSpecDecl", "FullComment"):
            return

    def _index_pattern(self, o):
        for c in o.get("inner", ()):
            if c.get("id"):
                self.decls[c["id"]] = c

    def _index_func(self, o, scope, cls):
        oid = o["id"]
        m = o.get("mangledName")
        if cls is None and o["kind"] != "FunctionDecl":
            pid = o.get("parentDeclContextId")
            cls = self.parent.get(pid) if pid in self.parent else None
            if cls is None:
                cls = scope
            scope = cls
        if cls is not None:
            scope = cls
        name = o.get("name", "")
        q = (scope + "::" if scope else "") + name
        params = [p for p in o.get("inner", ()) if p.get("kind") == "ParmVarDecl"]
        self.params[oid] = params
        if m is None and oid in self.byid:
            return                       # a second, abbreviated mention of the same declaration
        if m is None:
            m = q + "|" + o.get("type", {}).get("qualType", "")
        if o["kind"] == "CXXConstructorDecl":
            m = re.sub(r"C2E", "C1E", m)
        self.byid[oid] = m
        body = None
        for c in o.get("inner", ()):
            if c.get("kind") in ("CompoundStmt", "CXXTryStmt"):
                body = c
        f = Func()
        f.node = o; f.name = name; f.qname = q; f.mangled = m; f.params = params; f.body = body
        f.kind = o["kind"]
        f.cls = cls if o["kind"] != "FunctionDecl" else None
        f.inits = [c for c in o.get("inner", ()) if c.get("kind") == "CXXCtorInitializer"]
        f.is_ctor = o["kind"] == "CXXConstructorDecl"
        f.is_static = o.get("storageClass") == "static"
        f.virtual = bool(o.get("virtual"))
        f.type = o.get("type", {}).get("qualType", "")
        f.rettype = f.type.split("(")[0].strip()
        f.const = f.type.rstrip().endswith("const") or " const " in f.type.split(")")[-1]
        old = self.funcs.get(m)
        if body is not None or f.inits or (o.get("explicitlyDefaulted") and f.is_ctor):
            if old is None or old.body is None:
                if old is not None:
                    f.virtual = f.virtual or old.virtual
                    f.is_static = f.is_static or old.is_static
                self.funcs[m] = f
                self.byq[q] = [g for g in self.byq.get(q, []) if g.mangled != m] + [f]
        elif old is None:
            self.funcs[m] = f
            self.byq.setdefault(q, []).append(f)
        else:
            old.virtual = old.virtual or f.virtual
            old.is_static = old.is_static or f.is_static
        if cls:
            ci = self.classes.setdefault(cls, {"bases": [], "fields": [], "methods": [], "node": None, "name": cls})
            if m not in ci["methods"]:
                ci["methods"].append(m)

    def _late(self, d):
        pass

    # ------------------------------------------------------------------ queries
    def func_of_decl(self, did):
        m = self.byid.get(did)
        if m is None:
            return None
        return self.funcs.get(m)

    def find(self, qname, nparams=None, types=None, ctor=None):
        """Functions with a body, by qualified name."""
        out = []
        for f in self.byq.get(qname, []):
            if f.body is None and not f.is_ctor:
                continue
            if nparams is not None and len(f.params) != nparams:
                continue
            if types is not None and types not in f.type:
                continue
            out.append(f)
        return out

    def all_bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            for b in self.classes.get(c, {}).get("bases", []):
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out

    def is_base(self, base, cls):
        return base == cls or base in self.all_bases(cls)

    def subclasses(self, cls):
        return [c for c in self.classes if c != cls and cls in self.all_bases(c)]

    def overrider(self, f, dyncls):
        """The final overrider of virtual f in class dyncls."""
        key = sigkey(f)
        for c in [dyncls] + self.all_bases(dyncls):
            for m in self.classes.get(c, {}).get("methods", []):
                g = self.funcs.get(m)
                if g is not None and sigkey(g) == key and (g.body is not None):
                    return g
        return None


def outer_structs(text):
    """classes defined outside every named namespace (at file scope or in an unnamed namespace)"""
    text = re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\\\.|[^\"\\\\\n])*\"|^[ \t]*#[^\n]*", " ", text, flags=re.S | re.M)
    out, stack, last = set(), [], 0
    for m in re.finditer(r"[{};]", text):
        head = text[last:m.start()].strip()
        last = m.end()
        if m.group() == "{":
            k = "other"
            if re.search(r"\bnamespace\s*$", head):
                k = "anon"
            elif re.search(r"\bnamespace\s+[\w:]+\s*$", head):
                k = "named"
            else:
                c = re.search(r"(?:^|\s)(?:struct|class)\s+(\w+)\s*(?:final\s*)?(?::[^()]*)?$", head)
                if c and all(x == "anon" for x in stack):
                    out.add(c.group(1))
            stack.append(k)
        elif m.group() == "}" and stack:
            stack.pop()
    return out


def sigkey(f):
    return (f.name, len(f.params), tuple(qt(p) for p in f.params), f.const)


def find_value(c):
    if "value" in c:
        return c["value"]
    for x in c.get("inner", ()):
        v = find_value(x)
        if v is not None:
            return v
    return None


def strip_type(t):
    t = t.strip()
    changed = True
    while changed:
        changed = False
        for pre in ("const ", "volatile ", "class ", "struct ", "enum ", "typename "):
            if t.startswith(pre):
                t = t[len(pre):].strip()
                changed = True
        for suf in ("&&", "&", " const"):
            if t.endswith(suf):
                t = t[:-len(suf)].strip()
                changed = True
    return t


def norm_cls(q):
    q = q.replace("> >", ">>").replace("std::__cxx11::", "std::").replace("(anonymous namespace)::", "")
    return q


_demcache = {}


def demangle_scope(m):
    """Scope of a mangled nested name (enough of the Itanium grammar for plain names)."""
    if not m.startswith("_ZN"):
        return "" if m.startswith("_Z") else None
    s = m[3:]
    while s and s[0] in "KVrRO":
        s = s[1:]
    parts = []
    while s:
        mm = re.match(r"(\d+)", s)
        if not mm:
            break
        n = int(mm.group(1))
        s = s[len(mm.group(1)):]
        parts.append(s[:n])
        s = s[n:]
        if s.startswith("I"):
            return "::".join(parts[:-1]) if parts else ""
    if s and s[0] in "CD":      # constructor/destructor: scope is everything
        return "::".join(parts)
    return "::".join(parts[:-1])
