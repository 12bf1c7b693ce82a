#!/usr/bin/env python3
"""Writes harness/api_gen.inc: one dispatcher per call route (C++ class, C library functions, Pascal-string
functions) for all exported gdx functions, from the prototypes in gdxcwrap.h. Run by hand; the result is committed."""
import re
src = open("/repo/generated/gdxcwrap.h").read()
src = src[src.index("// PROTOTYPES BEGIN"):src.index("// PROTOTYPES END")]
lib = open("/repo/generated/gdxcclib.cpp").read()
fns = []
for m in re.finditer(r"^(int|double|INT64|void) (gdx\w+)\(([^)]*)\);", src, re.M):
    ret, name, args = m.groups()
    if name in ("gdxFree", "gdxCreate", "gdxCreateD", "gdxDestroy"):
        continue
    params = [re.sub(r"\s+", " ", a.strip()) for a in args.split(",")][1:]
    ps = []
    for a in params:
        n = a.split("*")[-1].split()[-1]
        t = a[: a.rindex(n)].strip().replace(" ", "")
        arr = n in ("KeyInt", "Values", "AVals", "ElemCounts", "LengthInfo", "DomainSyNrs", "FilterAction", "SliceKeyInt", "MinUELIndices", "MaxUELIndices")
        if t == "int": k = "i"
        elif t == "double": k = "d"
        elif t == "constchar*": k = "s"
        elif t == "char*": k = "S"
        elif t == "constint*": k = "a"
        elif t == "constdouble*": k = "v"
        elif t == "int*": k = "A" if arr else "I"
        elif t == "double*": k = "V"
        elif t == "constchar**": k = "t"
        elif t == "char**": k = "T"
        elif t == "void*": k = "u"
        elif t.startswith("TD"): k = "c:" + t
        else: raise SystemExit(a)
        ps.append(k)
    d = f" D__{name}(" in lib
    fns.append((ret, name, ps, d))
out = ["// generated by meta/mkapi.py from generated/gdxcwrap.h", "#ifdef VP_ENUM"]
out.append("enum Fn {" + ", ".join("F_" + n[3:] for _, n, _, _ in fns) + ", F_COUNT };")
out.append("inline const FnInfo fnInfo[] = {")
for r, n, ps, d in fns:
    out.append(f'   {{"{n}", "{"".join(p[0] for p in ps)}", {str(d).lower()} }},')
out.append("};\n#endif")
CB = {"TDataStoreProc_t": "cbPlain", "TDataStoreExProc_t": "cbEx", "TDataStoreFiltProc_t": "cbFilt", "TDomainIndexProc_t": "cbDom"}

def emit(route):
    o = []
    for r, n, ps, d in fns:
        pas = route == "D" and d
        cnt = {}
        a = []
        pre, post = [], []
        for p in ps:
            k = p[0]
            i = cnt.get(k, 0); cnt[k] = i + 1
            if k == "i": a.append(f"x.i[{i}]")
            elif k == "d": a.append("x.d")
            elif k == "s": a.append(f"pas( x.s[{i}] ).data()" if pas else f"x.s[{i}].c_str()")
            elif k == "S":
                a.append(f"r.os[{i}]")
                if pas: post.append(f"unpas( r.os[{i}] );")
            elif k == "a": a.append(f"x.ia[{i}]")
            elif k == "v": a.append("x.da")
            elif k == "I": a.append(f"r.oi[{i}]" if route == "CPP" else f"&r.oi[{i}]")
            elif k == "A": a.append("r.oa")
            elif k == "V": a.append("r.od")
            elif k == "t":
                a.append("pasv( x.ss ).data()" if pas else "const_cast<const char **>( x.ptrs() )")
            elif k == "T":
                if pas:
                    a.append("r.oss[0]"); post.append("for( auto &q: r.oss ) unpas( q );")
                else: a.append("r.ptrs()")
            elif k == "u": a.append("r.uptr()")
            elif k == "c": a.append(f"({'VPNS::' if route == 'CPP' else ''}{p[2:]}) &{CB[p[2:]]}")
        obj = "o." if route == "CPP" else ""
        f = n if route != "D" else ("D__" if d else "C__") + n
        arglist = ", ".join(([] if route == "CPP" else ["o"]) + a)
        if route == "D":
            # through dlsym
            rt = {"INT64": "long"}.get(r, r)
            sym = f.lower()
            types = {"i": "int", "d": "double", "s": "const char *", "S": "char *", "a": "const int *", "v": "const double *", "I": "int *", "A": "int *", "V": "double *", "t": "const char *" if pas else "const char **", "T": "char *" if pas else "char **", "u": "void *", "c": "void *"}
            tl = ", ".join(["void *"] + [types[p[0]] for p in ps])
            arglist = ", ".join(["o"] + [("(void *) &" + CB[ps[j][2:]]) if ps[j][0] == "c" else a[j] for j in range(len(a))])
            call = f'( (' + rt + ' ( * )( ' + tl + f' )) sym( "{sym}" ) )( {arglist} )'
        else:
            call = f"{obj}{f}( {arglist} )"
        body = {"int": f"r.ret = {call};", "INT64": f"r.ret = {call};", "double": f"r.dret = {call};", "void": f"{call};"}[r]
        o.append(f"   case F_{n[3:]}: {body} {' '.join(post)} break;")
    return o

for route in ("CPP", "C", "D"):
    out.append(f"#ifdef VP_ROUTE_{route}")
    out += emit(route)
    out.append("#endif")
open("/verif/harness/api_gen.inc", "w").write("\n".join(out) + "\n")
print(len(fns))
