"""Mechanical extraction: the body of a size heuristic with sizeof(template parameter) made an argument.

What the extraction changes: the template header and parameter list become run-time parameters, sizeof(Key)/sizeof(Value)
become those parameters, `constexpr` and `static_assert` on locals are dropped.  Everything else is the source text.
"""
import re, os

def strip_comments(t):
    return re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)

def body_of(t, name):
    """(template parameter names, body) of the first function template definition called `name`."""
    for m in re.finditer(r"template\s*<([^<>]*)>\s*((?:\[\[[^\]]*\]\]\s*)?[\w:\s]*?)\b" + name + r"\s*\(\s*\)\s*(noexcept\s*)?\{", t):
        i = m.end()
        d = 1
        while d and i < len(t):
            d += {"{": 1, "}": -1}.get(t[i], 0)
            i += 1
        ps = [re.match(r"\s*(?:typename|class)\s+(\w+)", x) for x in m.group(1).split(",")]
        if all(ps):
            return [p.group(1) for p in ps], t[m.end():i - 1]
    return None

def node_sizes(repo, d):
    t = strip_comments(open(os.path.join(repo, "include/fast_containers/btree.hpp")).read())
    out = ["namespace kressler::fast_containers {"]
    for name in ("default_leaf_node_size", "default_internal_node_size"):
        r = body_of(t, name)
        if r is None:
            return False
        ps, b = r
        for p in ps:
            b = re.sub(r"\bsizeof\s*\(\s*" + p + r"\s*\)", "vf_sizeof_" + p, b)
        if any(re.search(r"\b" + p + r"\b", b) for p in ps):
            return False
        b = re.sub(r"\bconstexpr\b", "", b)
        b = re.sub(r"\bstatic_assert\s*\([^;]*\)\s*;", "", b)
        out.append("inline std::size_t %s_extracted(%s) {%s}" % (name, ", ".join("std::size_t vf_sizeof_" + p for p in ps), b))
    out.append("}")
    open(os.path.join(d, "extracted.h"), "w").write("\n".join(out) + "\n")
    return True
