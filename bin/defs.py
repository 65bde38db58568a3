import os, re


def listed():
    """The library's sources, from the project's own list; what it was when this was written, if that cannot be read."""
    try:
        with open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "CMakeLists.txt")) as fh:
            m = re.search(r"set\(CENTAURUS_LIB_SRC ([^)]*)\)", fh.read())
        r = [x for x in m.group(1).split() if x.endswith(".cpp")]
        if "src/core/Grammar.cpp" in r:
            return r
    except (OSError, AttributeError):
        pass
    return ["src/core/" + f for f in ("Grammar.cpp", "CompositeATN.cpp", "ATN.cpp", "CharClass.cpp", "Util.cpp", "CodeGenEM64T.cpp")]


CORE = [f for f in listed() if f != "src/core/CodeGenEM64T.cpp"]
JIT = CORE + ["src/core/CodeGenEM64T.cpp"]
# what regexes need
CC = [f for f in CORE if f not in ("src/core/Grammar.cpp", "src/core/CompositeATN.cpp", "src/core/ATN.cpp")]


def simple(pid, variant="plain", repo=CORE):
    return {"exes": [{"name": pid.lower(), "src": ["checks/%s.cpp" % pid], "variant": variant, "repo": repo}]}


CHECKS = {
    "C01": simple("C01", repo=CC),
    "C02": simple("C02", repo=CC),
    "C03": simple("C03", repo=CC),
    "C04": simple("C04"),
    "C05": simple("C05"),
    "C06": simple("C06", "fast"),
    "C07": simple("C07", "fast"),
    "C08": simple("C08", "asan"),
    "C09": simple("C09", "fast"),
    "C11": {"exes": [{"name": "c11", "src": ["checks/C11.cpp"], "variant": "fast", "repo": CORE}, {"name": "c11a", "src": ["checks/C11.cpp"], "variant": "asan", "repo": CORE}]},
    "C12": {"exes": [{"name": "c12", "src": ["checks/C12.cpp"], "variant": "fast", "repo": CORE}, {"name": "c12a", "src": ["checks/C12.cpp"], "variant": "asan", "repo": CORE}]},
    "C14": simple("C14", "fast"),
    "C13": {"exes": [{"name": "c13", "src": ["checks/C13.cpp"], "variant": "fast", "repo": CORE}, {"name": "c13a", "src": ["checks/C13.cpp"], "variant": "asan", "repo": CORE}]},
    "C16": {"exes": [{"name": "c16", "src": ["checks/C16.cpp"], "variant": "fast", "repo": JIT, "shim": True}]},
    "C17": {"exes": [{"name": "c17", "src": ["checks/C17.cpp"], "variant": "fast", "repo": JIT, "shim": True}]},
    "C18": {"exes": [{"name": "c18", "src": ["checks/C18.cpp"], "variant": "fast", "repo": JIT, "shim": True}]},
    "C19": {"exes": [{"name": "c19", "src": ["checks/C19.cpp"], "variant": "fast", "repo": CORE},
                     {"name": "libpycentaurus", "src": [], "variant": "fast", "repo": JIT + ["src/pydll/PyCentaurus.cpp"], "shim": True,
                      "linkmode": ["-shared"], "out": "libpycentaurus.so", "helper": True}]},
    "C20": simple("C20", "fast"),
    "C21": {"exes": [{"name": "c21", "src": ["checks/C21.cpp"], "variant": "fast", "repo": CORE},
                     {"name": "centaurus", "src": [], "variant": "fast", "repo": JIT + ["src/tool/main.cpp"], "shim": True, "helper": True},
                     {"name": "centaurus_asan", "src": [], "variant": "asan", "repo": JIT + ["src/tool/main.cpp"], "shim": True, "helper": True}]},
    "C23": {"exes": [{"name": "c23", "src": ["checks/C23.cpp"], "variant": "fast", "repo": JIT, "shim": True}]},
    "C22": {"exes": [{"name": "c22", "src": ["checks/C22.cpp"], "variant": "fast", "repo": JIT, "shim": True}]},
    "C15": {"exes": [{"name": "c15", "src": ["checks/C15.cpp"], "variant": "fast", "repo": JIT, "shim": True}]},
}
