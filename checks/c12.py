"""C12: whatever the input holds, the translation ends in a documented way, without memory errors or undefined behaviour."""
import os, re, shutil, signal, sys
from vlib import build as _build, cases, deck as dk, engine, run as _run, wide

DOCUMENTED = {0, 1, 2, 3, 4, 5, 6, 7, 10}
ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:handle_abort=1:hard_rss_limit_mb=3000:max_allocation_size_mb=2500:detect_stack_use_after_return=0:symbolize=%d",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77:symbolize=%d"}
KEYWORDS = """BCONP BCTABLE BCBODY BFRIC BLSEG BSCONP BSSEG BSURF CBAR CBEAM CBUSH CDAMP1 CGAP CELAS1 CELAS2 CELAS4 CIHEX1 CIHEX2 CHEXA CMASS2 CONM1 CONM2 CONROD CORD1R CORD2C
CORD2R CORD2S CPENTA CPYRA CPYRAM CQUAD CQUAD4 CQUAD8 CQUADR CRIGD1 CROD CTETRA CTRIA3 CTRIA6 CTRIAR CVISC DAREA DELAY DLOAD DMIG DPHASE EIGB EIGC EIGR EIGRL FORCE FORCE1 FORCE2
FREQ FREQ1 FREQ3 FREQ4 GRAV GRID INCLUDE LSEQ LOAD MAT1 MAT8 MATHP MATS1 MOMENT MPC NLPARM NLPCI PARAM PBAR PBARL PBEAM PBEAML PBUSH PCOMP PDAMP PELAS PGAP PLOAD PLOAD1 PLOAD2
PLOAD4 PROD PLSOLID PSHELL PIHEX PSOLID PVISC RBAR RBAR1 RBE2 RBE3 RFORCE RLOAD1 RLOAD2 SET1 SET3 SLOAD SPC SPC1 SPCD SPCADD SPOINT TABDMP1 TABLED1 TABLES1 TEMP GRDSET ASET
NOCARD ENDDATA""".split()
WORDS = ["", "0", "1", "2", "3", "4", "5", "6", "7", "9", "10", "12", "123", "123456", "246", "1234567", "-1", "-2", "99999999", "999999", "0.", "1.", "-1.", "1.+30", "1.-30", "1.E+308", "1.E+999", "3.7-4",
         "NaN", "inf", "THRU", "BY", "ENDT", "EXCEPT", "ALL", "YES", "NO", "G", "CM", "UM", "ALPHA", "BAR", "TUBE", "ROD", "BOX", "I", "T", "L", "LAN", "MASS", "MAX", "SYM", "FR", "LE", "FX", "MZ", "K",
         "B", "M", "GGG", "T1", "+", "*", "=", "==", "*(1)", "$", "'", "\"", ",", "A", "1A", "1.5.2", "--1", "+-1", "1E", "E1", ".", "-", "2147483647", "2147483648", "-2147483648", "4294967296", "9" * 16,
         "9" * 40, "x" * 8, "x" * 16, "x" * 80, "\t", "\x00", "\xe9", "\xff"]
CC = ["SUBCASE %d", "SUBCASE", "SUBCASE x", "SUBCASE=%d", "SUBCOM %d", "SUBCOM", "SUBSEQ 1., 2.", "SUBSEQ = 1.0", "SUBSEQ", "LOAD = %d", "LOAD", "LOAD=", "LOAD = x", "SPC = %d", "SPC", "MPC = %d", "MPC %d",
      "METHOD = %d", "METHOD", "FREQ=%d", "FREQUENCY = x", "SDAMPING=%d", "DLOAD=%d", "NLPARM=%d", "STATSUB=%d", "STATSUB", "STATSUB(PRELOAD)=%d", "ANALYSIS = STATICS", "ANALYSIS = MODES", "ANALYSIS=BUCK",
      "ANALYSIS=DFREQ", "ANALYSIS", "ANALYSIS = XYZ", "LABEL = a b", "LABEL", "TITLE", "TITLE=", "SUBTITLE = x", "SET 1 = 1,2,3", "SET 2 = 1 THRU 5", "SET 3 = ALL", "SET 4 = 1,THRU,x", "SET 5", "SET = 1", "SET",
      "SET 6 = 1,2,", "SET 7 = 1 THRU 9 EXCEPT 3,4", "SET 8 = 1 THRU 9 BY 2", "SET 9 = 9 THRU 1", "SET 10 = ,", "DISPLACEMENT = ALL", "DISPLACEMENT(PLOT,PRINT) = 1", "DISP=2", "DISP", "STRESS=ALL",
      "STRESS(VMIS) = 1", "STRESS", "FORCE=ALL", "SPCFORCES = ALL", "ESE=ALL", "ACCELERATION=1", "VELOCITY=2", "PARAM,POST,-1", "PARAM", "PARAM,AUTOSPC", "ECHO=NONE", "ECHO", "OUTPUT(XYPLOT)", "RESVEC=YES",
      "RESVEC", "TEMPERATURE(LOAD)=%d", "TEMP=%d", "DEFORM=1", "BCONTACT = ALL", "BCONTACT=%d", "M2GG = X", "K2GG = X", "B2GG=X", "K2GG", "=", "= =", ",", "(", ")", "X(", "BEGIN", "BEGIN BULK", "CEND", "$ c",
      "SOL 101", "SOL 103", "SOL 105", "SOL 106", "SOL 108", "SOL 111", "SOL 200", "SOL", "SOL x", "SOL 1", "SOL 1,3", "NASTRAN X=1", "TIME", "ID a,b", "DIAG 8", "INIT MASTER(S)", "ASSIGN A='b'"]
CARDS = ["MATS1,%d,,PLASTIC,1.,1,1,100.", "MATHP,%d,1.,2.,3.,4.", "NLPARM,%d,10,,AUTO,5,25", "NLPCI,%d", "BCTABLE,%d", "BCONP,%d,1,2,3,4,5", "BSSEG,%d,1,2,3,4", "BSURF,%d,1,2,3", "BCBODY,%d", "BFRIC,%d",
         "BLSEG,%d,1,2", "BSCONP,%d,1,2", "CGAP,%d,%d,1,2,1.,0.,0.", "PGAP,%d,0.,0.,1.+6", "CVISC,%d,%d,1,2", "PVISC,%d,1.,2.", "CDAMP1,%d,%d,1,1,2,1", "PDAMP,%d,1.", "CBUSH,%d,%d,1,2,,,,0", "PBUSH,%d,K,1.,2.",
         "CELAS1,%d,%d,1,1", "PELAS,%d,1.", "CELAS4,%d,1.,1,2", "CMASS2,%d,1.,1,1,2,1", "CONM1,%d,1,,1.", "DMIG,X,0,6,1", "DMIG,X,1,1,,2,1,5.", "K2GG=X", "LSEQ,%d,1,2", "RLOAD1,%d,1,,,1", "RLOAD2,%d,1,,,1",
         "DLOAD,%d,1.,1.,2", "DAREA,%d,1,1,1.", "TABLED1,%d,,,,,,,,+,0.,1.,ENDT", "TABDMP1,%d,CRIT,,,,,,,+,0.,.1,ENDT", "TABLES1,%d,,,,,,,,+,0.,0.,.1,5.,ENDT", "INCLUDE 'd.nas'", "INCLUDE 'none.nas'", "INCLUDE",
         "INCLUDE 'inc.nas'", "CORD2R,%d,%d,0.,0.,0.,0.,0.,1.,+,1.,0.,0.", "CORD2C,%d,%d,0.,0.,0.,0.,0.,1.,+,1.,0.,0.", "CORD2S,%d,%d,0.,0.,0.,0.,0.,1.,+,1.,0.,0.", "CORD1R,%d,1,2,3", "RBAR1,%d,1,2,123",
         "PLSOLID,%d,1", "PIHEX,%d,1,,2", "CRIGD1,%d,1,2,3", "EIGC,%d,HESS,MAX", "EIGB,%d,INV,0.,1.", "EIGR,%d,LAN,0.,1.", "FREQ3,%d,1.,10.", "FREQ4,%d,1.,10.", "TEMP,%d,1,10.", "RFORCE,%d,1,0,1.,0.,0.,1.",
         "GRAV,%d,%d,1.,0.,0.,1.", "SPOINT,%d", "SET1,%d,1,THRU,5", "SET3,%d,ELEM,1,THRU,5", "SPC1,%d,123456,1,THRU,9", "SPCADD,%d,%d", "MPCADD,%d,1,2", "LOAD,%d,1.,1.,%d", "GRDSET,,%d,,,,%d,123"]


def testdata():
    root = os.path.join(_build.REPO, "testdata")
    out = []
    for base, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(base, f)
            if f.lower().endswith((".nas", ".dat", ".bdf", ".fem")) and os.path.getsize(p) < 12000:
                out.append(p)
    return sorted(out)


class C12(engine.Check):
    prop = "C12"
    rule = ("A case counts when its input differs from the well-formed deck it was derived from (a mutated, truncated, spliced, reordered or junk file) and the translator reached a verdict on it; "
            "the verdict of an instrumented build (address and undefined-behaviour sanitizers, checked standard-library preconditions) is what decides.")
    assumptions = ("an out-of-memory verdict needs more than 3 GB; id ranges (THRU) are generated below one million ids",)
    quick_n, thorough_n = 6000, 200000
    targets = ("ASTER", "SYSTUS", "NASTRAN", "COSMIC")
    binary = None
    _td = None

    def build(self):
        self.binary = _build.build("vegapp", "asan")
        C12._td = [open(p, "rb").read().decode("latin-1") for p in testdata()]

    # ---- generation -------------------------------------------------------------------------------
    def base(self, rng):
        k = rng.random()
        if k < .3 and self._td:
            return rng.choice(self._td), None
        t = rng.choice(self.targets)
        if k < .6:
            case = {"deck": cases.WC(rng, t, cases.SOLS[t]).build().deck()}
        else:
            case, _ = wide.case(rng, t, sols=(rng.choice([101, 103]),), p=rng.choice([.2, .4, .6]))
        d = case["deck"]
        if len(d["cards"]) > 60 and rng.random() < .5:
            keep = sorted(rng.sample(range(len(d["cards"])), 50))
            d = dict(d, cards=[d["cards"][i] for i in keep])
        style = rng.choice([dk.small, dk.small, dk.large, dk.free])
        try:
            return dk.render(d, lambda i, c: style(c)), t
        except ValueError:
            return dk.render(d), t

    @staticmethod
    def split(ln):
        """fields of a line and how to join them again"""
        if "," in ln:
            return ln.split(","), lambda f: ",".join(f)
        if "=" in ln:
            return re.split(r"([=,() ])", ln), lambda f: "".join(f)
        w = 16 if ln[:8].rstrip().endswith("*") or ln.startswith("*") else 8
        f = [ln[:8]] + [ln[i:i + w] for i in range(8, max(9, len(ln)), w)]
        return f, lambda g: (g[0] + " " * 8)[:8] + "".join((x + " " * w)[:w] if len(x.strip()) <= w else x for x in g[1:])

    def mutate(self, rng, lines):
        def pick():
            bulk = next((i for i, l in enumerate(lines) if l.strip().upper().startswith("BEGIN")), 0)
            if rng.random() < .3 and bulk:
                return rng.randrange(0, bulk + 1)
            return rng.randrange(len(lines))
        k = rng.random()
        i = pick()
        if k < .42:
            f, join = self.split(lines[i])
            r = rng.random()
            j = rng.randrange(len(f))
            if r < .6:
                f[j] = rng.choice(WORDS)
            elif r < .7:
                del f[j]
            elif r < .8:
                f.insert(j, rng.choice(WORDS))
            elif r < .88:
                f = f[:j]
            elif r < .94:
                h = rng.randrange(len(f))
                f[j], f[h] = f[h], f[j]
            else:
                f = f + f[1:] * rng.randint(1, 4)
            if f:
                lines[i] = join(f)
        elif k < .50:
            del lines[i]
        elif k < .54:
            lines.insert(i, lines[rng.randrange(len(lines))])
        elif k < .58:
            j = rng.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k < .68:
            # a card of another kind with these fields
            f, join = self.split(lines[i])
            f[0] = rng.choice(KEYWORDS) + ("*" if f[0].rstrip().endswith("*") else "")
            lines[i] = join(f)
        elif k < .76:
            bulk = next((i for i, l in enumerate(lines) if l.strip().upper().startswith("BEGIN")), 0)
            c = rng.choice(CC)
            lines.insert(rng.randint(0, bulk), c % rng.choice([1, 2, 3, 5, 0, -1]) if "%d" in c else c)
        elif k < .84:
            c = rng.choice(CARDS)
            while "%d" in c:
                c = c.replace("%d", str(rng.choice([1, 2, 3, 4, 5, 10, 11, 20, 100, 0, -1])), 1)
            lines[i:i] = c.replace(",+,", ",+\n+,").split("\n")
        elif k < .87:
            lines.insert(i, rng.choice(KEYWORDS) + "," + ",".join(rng.choice(WORDS) for _ in range(rng.randint(0, 9))))
        elif k < .90:
            lines[i] = lines[i][:rng.randint(0, len(lines[i]))]
        elif k < .93:
            l = list(lines[i])
            for _ in range(rng.randint(1, 3)):
                p = rng.randint(0, len(l))
                l[p:p + rng.randint(0, 2)] = [chr(rng.choice([0, 9, 10, 13, 32, 34, 36, 39, 42, 43, 44, 45, 46, 47, 61, 69, 127, 128, 255, rng.randrange(256)]))]
            lines[i] = "".join(l)
        elif k < .95:
            lines[i] = lines[i] + rng.choice([" ", "", "+", "\r", "$", ",", "*", "+ABC", "\t", " " * 80 + "X"])
        elif k < .97:
            lines.insert(i, rng.choice(["", " ", "$", "+", "*", ",", ",,,,,,,,,", "+,1,2,3", "        1", "\t1\t2", "GRID", "ENDDATA", "/", "=", "\x00", "+" * 200]))
        else:
            a, b = sorted((i, pick()))
            lines[a:b] = []
        if not lines:
            lines.append("")

    @staticmethod
    def tame(lines):
        """keeps the ids of a range small: a range of a thousand million ids is a resource question of its own"""
        for i, l in enumerate(lines):
            u = l.upper()
            if "THR" in u or "BY" in u or "SPOINT" in u or re.match(r"\s*(SPC1|SET1|SET3|PLOAD2|FREQ|BSURF|SUB|ASET|EIG)", u):
                lines[i] = re.sub(r"\d{7,}", "99999", l)
        return lines

    def gen(self, rng):
        text, t = self.base(rng)
        lines = text.split("\n")
        if rng.random() < .08:
            other = self.base(rng)[0].split("\n")
            a, b = rng.randint(0, len(lines)), rng.randint(0, len(other))
            lines = lines[:a] + other[b:]
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 10])):
            if not lines:
                lines = [""]
            self.mutate(rng, lines)
        text = "\n".join(self.tame(lines))
        r = rng.random()
        if r < .04:
            text = text[:rng.randint(0, len(text))]
        elif r < .05:
            text = "".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 400)))
        elif r < .06:
            text = text.replace("\n", "\r\n")
        case = {"text": text, "target": t or rng.choice(self.targets), "mode": rng.choice(["-b", "-b", "-s", "-s", "-m"])}
        if rng.random() < .2:
            case["opts"] = rng.choice([["--systus.RBE2TranslationMode=lagrangian"], ["--systus.OptionAnalysis=3D"], ["--systus.OptionAnalysis=shell"], ["--systus.OutputMatrix=file"], ["--systus.Subcase=single"],
                                       ["--systus.Subcase=1,2"], ["--systus.DynamicMethod=direct"], ["--convertCompletelyRigidsIntoMPCs=true"], ["--systus.OutputProduct=topaze"],
                                       ["--solver-version=2018"]])
        if "inc.nas" in text:
            case["extra"] = {"inc.nas": rng.choice(["GRID,77,,1.,2.,3.\n", "INCLUDE 'd.nas'\n", "+,1,2\n", "", "CQUAD4,1", "ENDDATA\n", "INCLUDE 'inc.nas'"])}
        if rng.random() < .06:
            case["source"] = "OPTISTRUCT"
        return case

    # ---- verdict ----------------------------------------------------------------------------------
    def execute(self, case, timeout, symbolize):
        t = case["target"]
        opts = tuple(case.get("opts", ()))
        if t == "NASTRAN":
            opts += ("--nastran.OutputDialect=modern",)
        env = {k: v % symbolize for k, v in ENV.items()}
        env["PATH"] = os.environ.get("PATH", "/usr/bin:/bin")
        return _run.translate(self.binary, case["text"].encode("latin-1"), "NASTRAN" if t == "COSMIC" else t, mode=case["mode"], opts=opts, source=case.get("source", "NASTRAN"), env=env,
                              extra_files={k: v.encode("latin-1") for k, v in case.get("extra", {}).items()}, timeout=timeout, limits=False)

    def judge(self, case):
        o = self.execute(case, 30, 0)
        if o.timeout:
            o = self.execute(case, 150, 0)
        tags = ["target:" + case["target"], "mode:" + case["mode"], "rc:%s" % o.rc]
        fails = []
        if o.timeout:
            fails.append("hang: no end within 150 s")
        elif o.rc not in DOCUMENTED:
            full = self.execute(case, 150, 1)
            fails.append(self.signature(full if full.rc not in DOCUMENTED else o))
        elif o.rc == 0:
            fails += self.complete(case, o)
        return engine.Outcome(fails, tags, True)

    @staticmethod
    def signature(o):
        frames = re.findall(r"^\s*#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)", o.log, re.M)
        own = [re.sub(r"\(.*", "", re.sub(r"<.*?>", "", f)) for f, p, _ in frames if not p.startswith(("/usr", "/build")) and "/Commandline/vegamain" not in p]
        where = own[0] if own else (frames[0][0] if frames else "?")
        m = (re.search(r"SUMMARY: AddressSanitizer: (\S+)", o.log) or re.search(r"runtime error: ([^\n]{0,80})", o.log) or re.search(r"(Assertion '[^']*')", o.log) or re.search(r"(terminate called[^\n]*)", o.log))
        what = m.group(1) if m else "exit code %s" % o.rc
        what = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", what)
        return "crash %s in %s: %s" % (what.replace(":", ";"), where.replace("::", "."), " < ".join(x.replace("::", ".") for x in own[:5]) + " | " + o.log[:300].replace("\n", " / ") + " ... " + o.log[-200:].replace("\n", " / "))

    @staticmethod
    def complete(case, o):
        out = []
        if case["target"] == "ASTER":
            c, m = o.find(".comm"), o.find(".med")
            if c is None or not c.rstrip().endswith(b"FIN()"):
                if c is None or b"FIN(" not in c[-200:]:
                    out.append("incomplete: success without a complete command file")
            if m is None or not m.startswith(b"\x89HDF"):
                out.append("incomplete: success without a mesh file")
            if o.find(".export") is None:
                out.append("incomplete: success without an export file")
        elif case["target"] == "SYSTUS":
            a = [k for k in o.files if k.endswith(".ASC")]
            if not a:
                out.append("incomplete: success without an ASC file")
            for k in a:
                if "_DATA1" in k and b"END_" not in o.files[k][-400:]:
                    out.append("incomplete: %s has no end" % k)
        else:
            n = o.find("_vg.nas")
            if n is None or b"ENDDATA" not in n[-100:]:
                out.append("incomplete: success without a complete deck")
        return out

    def shrinks(self, case):
        lines = case["text"].split("\n")
        for c in engine.ddmin_list(lines):
            yield dict(case, text="\n".join(c))
        for k in ("opts", "extra", "source"):
            if k in case:
                yield {x: y for x, y in case.items() if x != k}
        if len(lines) < 40:
            for i, l in enumerate(lines):
                f, join = self.split(l)
                for j in range(len(f) - 1, 0, -1):
                    if f[j].strip():
                        yield dict(case, text="\n".join(lines[:i] + [join(f[:j])] + lines[i + 1:]))
                        yield dict(case, text="\n".join(lines[:i] + [join(f[:j] + [""] + f[j + 1:])] + lines[i + 1:]))

    def text(self, case):
        return "%s %s %s %s\n%s" % (case.get("source", "NASTRAN"), case["target"], case["mode"], " ".join(case.get("opts", ())), case["text"].encode("unicode_escape").decode().replace("\\n", "\n"))


if __name__ == "__main__":
    sys.exit(engine.run(C12()))
