import os
import shutil

from ..gens import rint, rstr, rdbl, choose, Gen
from ..common import *
from .. import model

TITLE = "Files are read and written byte for byte, and failures are reported"
STATEMENT = ("File-WriteAllText makes the file contain exactly the text of its second argument (replacing everything which was there before) and returns #t, or it returns #f when the file could not be written completely; File-ReadAllText returns every byte of a file, or an empty text when there is no such file, and File-Exists is true exactly for the files which can be read. "
             "This holds for every file content and for every sequence of these operations, of changes from outside and of imports and evaluations of the written files; no other file is touched.")
OVER = ["inputs", "histories"]
QUANT = "all contents (any byte), names, and sequences of reads, writes and outside changes"
WHY = "The tests write one short text once; contents with odd bytes, overwriting with shorter texts, directories and missing paths only appear in generated histories."
MECH = [("files", F_ENV + " File_Exists ReadFileOrEmptyString WriteTextFile FileReadAllText FileWriteAllText"), ("import", F_ENV + " Import")]
FILES = [F_ENV, F_FUE]
TECHNIQUE = "stateful model-based property testing of generated file operation histories against an in-memory file system; the real directory is compared after every phase"
QUICK, THOROUGH = 18000, 90000
RULE = "1-4 phases of 1-7 statements on 14 names; non-trivial = at least two successful writes, or a write and a read of a non-empty file"

NAMES = ["a", "a", "a", "b.txt", "b.txt", "c d", "sub/e", "sub/e", "m.fuel", "m.fuel", "./a", "sub/../b.txt", "sub//e", "missing/f", "sub", ".", "", "sub/", "a/x", "a/", "\xe4\xff", "n;1", "\"q\"", "(p)", "x" * 255, "x" * 256, "empty", "back\\slash", "tab\there", "m"]
PROGRAMS = ["(def imported 1)", "(do (defn f (x) (list x 1)) (f 2))", "(println \"hi\") (+ 1 2)", "(def imported 2)\n; comment\n(def other 3)", "'(1 2 \"x\")", "(+ 1", ")", ""]


def content(r):
    k = r.random()
    if k < 0.25:
        return rstr(r, 30)
    if k < 0.5:
        return {"s": "".join(chr(r.choice([r.randint(1, 255), 10, 13, 26, 9, 92, 34, 255, 128, 32])) for _ in range(r.randint(0, 40)))}
    if k < 0.65:
        return {"s": r.choice(PROGRAMS)}
    if k < 0.75:
        return {"s": r.choice(["\r\n", "\n", "\n\n", "a\r\nb\r\n", "\xef\xbb\xbfbom", "\xff\xfe", "\x1a", "no newline", "x\n", " ", "\\n", "\\", "\x01\x02", "a" * 5000, "x123456789" * 900])}
    if k < 0.77:
        return {"s": "0123456789abcde\n"[:16] * (r.choice([1, 4, 32, 64, 256, 512, 1024, 4096]) // 1) + "x" * r.choice([0, 0, 0, 1])}
    if k < 0.9:
        return r.choice([rint(r), rdbl(r), True, False, {"q": "sym"}, {"q": [1, {"s": "x"}, [2, "b"]]}, None, ["list", rint(r), rstr(r)]])
    return ["+", rstr(r), rstr(r)]


def name(r):
    k = r.random()
    if k < 0.9:
        return {"s": r.choice(NAMES)}
    if k < 0.95:
        return r.choice([{"q": "a"}, 5, {"d": "1.5"}, {"q": "m.fuel"}, True])
    return ["+", {"s": "sub/"}, {"s": r.choice("eg")}]


def stmt(r):
    w = lambda: ["File-WriteAllText", {"s": "/dev/full"} if r.random() < 0.04 else name(r), content(r)]
    rd = lambda n=None: ["File-ReadAllText", n or name(r)]
    k = r.random()
    if k < 0.3:
        return w()
    if k < 0.4:
        return rd()
    if k < 0.5:
        return ["File-Exists", name(r)]
    if k < 0.6:
        n = name(r)
        return ["File-WriteAllText", n, ["+", rd(n), content(r) if r.random() < 0.3 else rstr(r)]]
    if k < 0.66:
        return ["File-WriteAllText", name(r), rd()]
    if k < 0.7:
        n = name(r)
        c = content(r)
        return ["do", ["File-WriteAllText", n, c], ["list", ["len", rd(n)], ["equal", rd(n), c]]]
    if k < 0.74:
        return [r.choice(["print", "println", "trim", "len"]), rd()]
    if k < 0.78:
        return ["evalstr", rd({"s": r.choice(["m.fuel", "m", "a", "b.txt"])})]
    if k < 0.86:
        return ["import", r.choice([{"s": r.choice(["m", "m.fuel", "m.fuel", "a", "sub/e", "b.txt"])}, {"q": "m"}])]
    if k < 0.89:
        return ["do", ["def", "i", 0], ["while", ["<", "i", r.randint(1, 4)], ["do", ["File-WriteAllText", ["format", {"s": r.choice(["f{0}", "sub/f{0}", "a"])}, "i"], ["*", "i", 7]], ["setf", "i", ["+", "i", 1]]]], rd({"s": "a"})]
    if k < 0.92:
        return ["do", ["defn", "save", ["n", "c"], ["if", ["File-WriteAllText", "n", "c"], ["len", ["File-ReadAllText", "n"]], {"q": "failed"}]], ["save", name(r), content(r)]]
    if k < 0.95:
        return ["def", "v", rd()]
    if k < 0.97:
        return ["list", ["File-Exists", name(r)], w(), ["File-Exists", name(r)], rd()]
    return r.choice([["File-Exists"], ["File-ReadAllText"], ["File-WriteAllText", {"s": "a"}], ["File-WriteAllText", {"s": "a"}, 1, 2], ["File-Exists", {"s": "a"}, 1], ["File-ReadAllText", ["nosuch"]], ["File-WriteAllText", {"s": "a"}, ["nosuch"]], ["list", "imported", "other"], "v"])


def gen(r, tier):
    phases = []
    for _ in range(r.choice([1, 1, 2, 2, 3, 4])):
        ext = []
        for _ in range(r.choice([0, 0, 1, 2])):
            k = r.random()
            n = r.choice(["a", "b.txt", "sub/e", "m.fuel", "new", "sub"])
            if k < 0.6:
                ext.append(["write", n, "".join(chr(r.choice([r.randint(0, 255), 0, 10, 65])) for _ in range(r.randint(0, 60))) if n != "m.fuel" else r.choice(PROGRAMS)])
            elif k < 0.8:
                ext.append(["remove", n])
            else:
                ext.append(["mkdir", n])
        prog = [stmt(r) for _ in range(r.randint(1, 7))]
        phases.append({"ext": ext, "prog": [p if isinstance(p, list) else ["list", p] for p in prog]})
    return {"phases": phases}


def describe(case):
    return [{"outside": p["ext"], "script": [model.render(f) for f in p["prog"]]} for p in case["phases"]]


class Files(object):
    def __init__(self, fs):
        self.fs = fs

    def __contains__(self, n):
        return not n.startswith("/") and self.fs.exists(n)      # nothing of these names is in the root directory

    def __getitem__(self, n):
        return self.fs.read(n)


class Interp(model.Interp):
    def module_forms(self, path):
        return model.read_forms(self.fs.read(path))


def listing(base):
    files, dirs = {}, set()
    for root, ds, fs in os.walk(os.fsencode(base)):
        rel = os.path.relpath(root, os.fsencode(base)).decode("latin-1")
        rel = "" if rel == "." else rel
        dirs.add(rel)
        for f in fs:
            p = f.decode("latin-1")
            with open(os.path.join(root, f), "rb") as fh:
                files[rel + "/" + p if rel else p] = fh.read().decode("latin-1")
    return files, dirs


def check(env, case):
    base = env.subdir("files")
    os.mkdir(base + "/sub")
    open(base + "/empty", "w").close()
    fs = model.FileSystem()
    fs.dirs.add("sub")
    fs.files["empty"] = ""
    writes = reads = 0
    for ph in case["phases"]:
        for e in ph["ext"]:
            if not (isinstance(e, list) and len(e) >= 2 and e[1] in ("a", "b.txt", "sub/e", "m.fuel", "new", "sub")):
                raise model.OutOfDomain("outside change")
            p = e[1]
            full = os.path.join(base, p)
            if e[0] == "write" and p not in fs.dirs and p.rpartition("/")[0] in fs.dirs:
                fs.files[p] = e[2]
                with open(full, "wb") as f:
                    f.write(e[2].encode("latin-1"))
            elif e[0] == "remove":
                if p in fs.files:
                    del fs.files[p]
                    os.remove(full)
                elif p in fs.dirs:
                    shutil.rmtree(full)
                    fs.dirs -= {d for d in fs.dirs if d == p or d.startswith(p + "/")}
                    for q in [q for q in fs.files if q.startswith(p + "/")]:
                        del fs.files[q]
            elif e[0] == "mkdir" and p not in fs.files and p not in fs.dirs and p.rpartition("/")[0] in fs.dirs:
                os.mkdir(full)
                fs.dirs.add(p)
        prog = ph["prog"]
        if not prog or not all(isinstance(f, list) and f for f in prog):
            raise model.OutOfDomain("no program")
        it = Interp(max_steps=6000)
        it.fs, it.files = fs, Files(fs)
        exp = []
        for f in prog:
            (k, v), out = it.outcome([f])
            exp.append(((k, model.typed(v) if k == "ok" else v), out))
        env.worker.raw(["chdir", base])
        try:
            compare_session(env, prog, exp)
        finally:
            env.worker.raw(["chdir", env.scratch])
        files, dirs = listing(base)
        for n in set(files) | set(fs.files):
            if files.get(n) != fs.files.get(n):
                env.fail("after %s\n the file %r contains %r instead of %r" % (model.render_prog(prog)[-1500:], n, files.get(n), fs.files.get(n)))
        if dirs != fs.dirs:
            env.fail("directories %r instead of %r" % (dirs, fs.dirs))
        writes += it.stats.get("File-WriteAllText", 0)
        reads += it.stats.get("File-ReadAllText", 0) + it.stats.get("import", 0)
        for n in it.stats:
            if n.startswith("File") or n in ("import", "evalstr"):
                env.label("uses " + n)
        if any(e[0] == ("ok", ("b", False)) for e in exp):
            env.label("something is #f")
    env.label("%d phases" % len(case["phases"]))
    env.nontrivial(len(fs.files) >= 2 and (writes >= 2 or writes and reads))
