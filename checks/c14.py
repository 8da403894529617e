"""C14: translation is deterministic, confined to its output directory, and includes stand for their text."""
import os, re, subprocess, sys
from vlib import canon, cases, deck as dk, deckcheck, engine, run, wide

ENVS = ({"TZ": "Asia/Tokyo"}, {"LC_ALL": "C"}, {"LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}, {"MALLOC_PERTURB_": "165"}, {"MALLOC_PERTURB_": "90"},
        {"HOME": "/nonexistent"}, {"TMPDIR": "/nonexistent"}, {"USER": "somebody", "LOGNAME": "somebody"}, {"COLUMNS": "20", "LINES": "5", "TERM": "dumb"},
        {"MALLOC_TOP_PAD_": "0"}, {"MALLOC_ARENA_MAX": "1"})
NAMES = ("qzmodel.nas", "Qz_Model_2.bdf", "qza.b.dat", "qznoext", "qz-dash.NAS", "7qzx.inp", "qz_long_name_of_a_model_of_more_than_thirty_two_characters.nas", "qz.nas")
KINDS = ("again", "env", "heap", "heap", "path", "path", "path", "include", "include", "include", "verbosity", "config")


class C14(deckcheck.DeckCheck):
    prop = "C14"
    rule = ("A case counts when the deck translates twice and the second run differs from the first one in what its kind varies: the environment, the layout of the heap, "
            "the name, directories or options' place, or the division in included files; plain repetitions do not count.")
    quick_n, thorough_n = 2400, 40000

    def gen(self, rng):
        t = rng.choice(self.targets)
        if rng.random() < .3:
            b = cases.WC(rng, t, cases.SOLS[t]).build()
            case = {"deck": b.deck(), "target": t}
            if b.bands and t == "SYSTUS":
                case["opts"] = ["--solver-version=2018"]
        else:
            sol = rng.choice([101, 101, 103]) if t != "ASTER" else rng.choice([101, 101, 103, 108, 111])
            case, b = wide.case(rng, t, sols=(sol,), p=rng.choice([.25, .4, .6]))
        k = case["kind"] = rng.choice(KINDS)
        v = case["var"] = {}
        if k in ("env", "heap"):
            v.update(rng.choice(ENVS) if k == "env" else {"SHUFFLE_SEED": str(rng.randrange(1, 10 ** 6))})
            if k == "env" and rng.random() < .4:
                v.update(rng.choice(ENVS))
        elif k == "path":
            v["name"] = rng.choice(NAMES)
            v["in"] = rng.choice(["in", "in", "data/sub dir", "deep/er/in", "out"])
            v["out"] = rng.choice(["out", "out", "res ults/x", "in" if v["in"] == "in" else "out"])
            v["cwd"] = rng.choice(["cwd", "cwd", v["in"], v["out"], "."])
            v["input"] = rng.choice(["abs", "rel", "rel", "dot", "link"])
            v["output"] = rng.choice(["abs", "rel", "rel", "slash", "default"])
            if v["output"] == "default":
                v["cwd"] = v["out"]
        elif k == "verbosity":
            v["v"] = rng.choice(["ERROR", "WARN", "INFO", "DEBUG", "DEBUG", "TRACE", "TRACE"])
            v["extra"] = rng.choice([[], ["-l"]])
        elif k == "config":
            v["where"] = rng.choice(["home", "option", "relative"])
            if rng.random() < .6 or t != "SYSTUS":
                case.setdefault("opts", []).append("--convertCompletelyRigidsIntoMPCs=%s" % rng.choice(["true", "false", "1"]))
            if t == "SYSTUS":
                case.setdefault("opts", []).append("--" + rng.choice(["systus.RBE2TranslationMode=lagrangian", "systus.RBE2TranslationMode=penalty", "systus.Subcase=single",
                    "systus.RBECoefficient=20.", "systus.RBEStiffness=1000.", "systus.OutputProduct=topaze"]))
        elif k == "include":
            n = len(case["deck"]["cards"])
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = rng.randrange(n)
                v.setdefault("cuts", []).append([a, min(n, a + rng.choice([1, 1, 2, rng.randint(1, n)]))])
            v["dirs"] = [rng.choice(["", "", "sub/", "sub/deep/", "../other/"]) for _ in v["cuts"]]
            v["style"] = [rng.choice(["INCLUDE '%s'", "INCLUDE '%s'", "INCLUDE %s", "include '%s'", "Include  '%s'", "INCLUDE '%s' $ text"]) for _ in v["cuts"]]
            v["ends"] = [rng.choice(["\n", "\n", "", "\n$ end of the file\n", "\n\n"]) for _ in v["cuts"]]
            v["head"] = [rng.choice(["", "", "$ an included file\n", "$\n$\n"]) for _ in v["cuts"]]
        return case

    def build(self):
        super().build()
        here = os.path.dirname(os.path.abspath(self.binary))
        self.shuffle = os.path.join(here, "shuffle_malloc.so")
        src = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "shuffle_malloc.c")
        tmp = "%s.%d" % (self.shuffle, os.getpid())
        subprocess.check_call(["cc", "-O1", "-fPIC", "-shared", "-fno-builtin", "-o", tmp, src])
        os.replace(tmp, self.shuffle)

    # ------------------------------------------------------------ runs
    def options(self, case):
        o = list(case.get("opts", ()))
        if case["target"] == "NASTRAN":
            o.append("--nastran.OutputDialect=modern")
        return o

    def go(self, case, text, name="d.nas", ind="in", out="out", cwd="cwd", input="abs", output="abs", env=None, extra=(), files=None, opts=None, config=None):
        """(exit code, files written, log, complaint about other files)"""
        target = "NASTRAN" if case["target"] == "COSMIC" else case["target"]
        with run.Scratch() as d:
            for x in (ind, out, cwd, "home", "tmp"):
                os.makedirs(os.path.join(d, x), exist_ok=True)
            base = os.path.join(d, ind)
            real = os.path.join(base, name)
            if input == "link":
                os.makedirs(os.path.join(d, "elsewhere"))
                with open(os.path.join(d, "elsewhere", "target.txt"), "w") as h:
                    h.write(text)
                os.symlink(os.path.join(d, "elsewhere", "target.txt"), real)
            else:
                with open(real, "w") as h:
                    h.write(text)
            for k, v in (files or {}).items():
                p = os.path.normpath(os.path.join(base, k))
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as h:
                    h.write(v)
            e = {"HOME": os.path.join(d, "home"), "TMPDIR": os.path.join(d, "tmp")}
            e.update(env or {})
            args = ["-s"] + list(self.options(case) if opts is None else opts) + list(extra)
            if config:
                where, lines = config
                p = {"home": "home/vegamain.cfg", "option": "home/my.cfg", "relative": os.path.join(cwd, "my.cfg")}[where]
                with open(os.path.join(d, p), "w") as h:
                    h.write("\n".join(lines) + "\n")
                args += {"home": [], "option": ["-c", os.path.join(d, p)], "relative": ["-c", "my.cfg"]}[where]
            here = os.path.join(d, cwd)
            o = os.path.join(d, out)
            if output != "default":
                args += ["-o", {"abs": o, "rel": os.path.relpath(o, here), "slash": o + "/"}[output]]
            args += [{"abs": real, "link": real, "rel": os.path.relpath(real, here), "dot": os.path.join(".", os.path.relpath(real, here))}[input], "NASTRAN", target]
            before = run.snapshot(d)
            rc, log, to = run.exec_vega(self.binary, args, here, 60, e)
            after = run.snapshot(d)
            written, complaint = {}, None
            for k in sorted(set(before) | set(after)):
                if before.get(k) == after.get(k):
                    continue
                if k in before:
                    complaint = complaint or "%s is %s" % (k, "changed" if k in after else "removed")
                elif os.path.relpath(os.path.join(d, k), o).startswith(".."):
                    complaint = complaint or "%s is created outside the output directory" % k
                else:
                    written[os.path.relpath(os.path.join(d, k), o)] = after[k]
            copy = written.get(name)
            if copy is not None and copy != text.encode("latin-1"):
                complaint = complaint or "%s is not a copy of the input" % name
            if written and rc == 0 and ind == out:
                written.pop(name, None)
            return rc, {k: v.replace(d.encode(), b"@vegachk_") for k, v in written.items() if k != name}, log.replace(d, "@"), complaint

    @staticmethod
    def mask(files):
        out = {}
        for k, v in files.items():
            if k.endswith(".med"):
                out[k] = canon.med_text(v)
            else:
                t = v.decode("latin-1")
                out[k] = re.sub(r"\d{4}-\d\d-\d\d", "<date>", t).split("\n")
        return out

    @classmethod
    def unnamed(cls, files, name):
        """without the name of the model and the directories"""
        stem = name.rsplit(".", 1)[0]
        out = {}
        for k, v in cls.mask(files).items():
            if not k.endswith(".med"):
                v = ["<m>" if len(ln) >= 15 and stem.startswith(ln) else re.sub(r"(Built by VEGA \S+).*?( SC\d+)? <date>", r"\1\2", ln) for ln in v]
                v = [re.sub(r"[^\s'\",]*/(?=<m>)", "", ln.replace(name, "<m>").replace(stem, "<m>")) for ln in v]
            out[k.replace(stem, "<m>", 1)] = v
        return out

    def judge(self, case):
        k, v = case["kind"], case["var"]
        text = self.render(case)
        tags = ["target:" + case["target"], "kind:" + k]
        if k == "verbosity" and case["target"] == "ASTER" and v["v"] in ("DEBUG", "TRACE"):
            v = dict(v, v="INFO")           # the command file asks the solver for more checks in a verbose translation
        a = self.go(case, text, "d.nas" if k != "path" else "zqz.nas")
        if a[3]:
            return engine.Outcome(["containment: " + a[3]], tags)
        if a[0] != 0:
            raise engine.Skip("refused")
        name = "d.nas"
        if k == "again":
            b = self.go(case, text)
        elif k in ("env", "heap"):
            b = self.go(case, text, env=dict(v, LD_PRELOAD=self.shuffle) if k == "heap" else v)
        elif k == "verbosity":
            b = self.go(case, text, extra=["--verbosity", v["v"]] + v["extra"])
        elif k == "config":
            # the options of the Nastran output are not taken from this file
            stay = [x for x in self.options(case) if x.startswith("--nastran")]
            b = self.go(case, text, opts=stay, config=(v["where"], [x.lstrip("-") for x in self.options(case) if x not in stay]))
        elif k == "path":
            name = v["name"]
            b = self.go(case, text, name, v["in"], v["out"], v["cwd"], v["input"], v["output"])
        else:
            main, files = self.split(case)
            b = self.go(case, main, files=files)
            tags.append("files:%d" % len(files))
        if b[3]:
            return engine.Outcome(["containment: " + b[3]], tags)
        if b[0] != 0:
            return engine.Outcome(["exit: %s in the second run (%s): %s" % (b[0], k, b[2][-500:])], tags)
        if k == "include":
            d = canon.diff(canon.canon(a[1]), canon.canon(b[1]))
        elif k == "path":
            d = canon.diff(self.unnamed(a[1], "zqz.nas"), self.unnamed(b[1], name))
        else:
            d = canon.diff(self.mask(a[1]), self.mask(b[1]))
        return engine.Outcome(["%s: %s" % ("include" if k == "include" else "determinism", x) for x in d], tags, k != "again")

    # ------------------------------------------------------------ includes
    def split(self, case):
        """the text of the deck with slices of its cards in other files; slices of slices are included by these"""
        cards = case["deck"]["cards"]
        v = case["var"]
        files = {}
        if v.get("case control"):
            t, cc = self.render(case), case["deck"]["cc"]
            files["cc.inc"] = "\n".join(cc) + "\n"
            return t.replace("\n".join(cc), "INCLUDE 'cc.inc'", 1), files
        # every slice holds the cards [a, b): the ones of a previous slice are there as its INCLUDE line
        items = [("card", c) for c in cards]
        for i, (a, b) in enumerate(v["cuts"]):
            a, b = min(a, len(items)), min(b, len(items))
            if a < b:
                items[a:b] = [("file", i, items[a:b])]

        def lines(its, here):
            out = []
            for it in its:
                if it[0] == "card":
                    out += dk.small(it[1])
                else:
                    _, i, sub = it
                    path = os.path.normpath(os.path.join(here, v["dirs"][i] + "f%d.inc" % i))
                    files[path] = v["head"][i] + "\n".join(lines(sub, os.path.dirname(path))) + v["ends"][i]
                    out.append(v["style"][i] % os.path.relpath(path, here or "."))
            return out
        body = lines(items, "")
        d = dict(case["deck"], cards=[])
        t = dk.render(d)
        k = t.index("BEGIN BULK") + len("BEGIN BULK")
        return t[:k] + "\n" + "\n".join(body) + "\n" + t[k:].lstrip("\n"), files

    def text(self, case):
        t = "$ target %s, %s %s\n%s" % (case["target"], case["kind"], case["var"], self.render(case))
        if case["kind"] == "include":
            main, files = self.split(case)
            t += "\n$ divided:\n" + main + "".join("\n$ file %s\n%s" % f for f in files.items())
        return t


if __name__ == "__main__":
    sys.exit(engine.run(C14()))
