"""Checks of the Python test support: harnesses for checks/pysym.py.  python3-vt checks/pyrun.py PROPERTY TIER SEED"""
import sys, os, json, tempfile, shutil, time, importlib, re, z3, inspect
from pathlib import Path
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/checks")
REPO = os.environ.get("VERIF_REPO", "/repo"); SRC = REPO + "/TestSupport/planaritytesting"; sys.path.insert(0, SRC)
import pysym
from pysym import E, SInt, SBool, SStr, JText, Files, Unsupported, sym_int, sym_ord
import plan
class Null:
    def __getattr__(self, n): return lambda *a, **k: None
def mods(*names):
    r = []
    for n in names:
        m = importlib.import_module(n); r.append(m)
    return r
def symbolic_names(*ms):
    for m in ms: m.int = sym_int; m.ord = sym_ord
class Ctx:
    """one run's scratch folder and its input and output files: virtual when symbolic, real when replaying"""
    def __init__(self, virtual_out=True):
        self.d = Path(tempfile.mkdtemp(prefix="pysym_")); self.f = Files(str(self.d), virtual_out); self.c = E.concrete is not None
    def __enter__(self):
        self.cwd = os.getcwd()
        if not self.c: self.f.__enter__()
        return self
    def __exit__(self, *a):
        if not self.c: self.f.__exit__()
        os.chdir(self.cwd); shutil.rmtree(self.d, ignore_errors=True); return False
    def input(self, name, lines):
        p = self.d / name
        if self.c: pysym.real_open(p, "w").write("".join(lines))
        else: pysym.real_open(p, "w").close(); self.f.inp[os.path.realpath(p)] = lines
        return p
    def output(self, p):
        """None, or the parts written"""
        if self.c or not self.f.v: return [pysym.real_open(p).read()] if os.path.exists(p) else None
        return self.f.out.get(os.path.realpath(p))
def text(chars): return "".join(map(chr, chars)) if all(isinstance(c, int) for c in chars) else SStr(chars)
def lines_of(parts):
    """splits what was written at the newlines"""
    cs = []
    for p in parts: cs += [ord(x) for x in p] if isinstance(p, str) else p.c if isinstance(p, SStr) else [ord(x) for x in str(p)]
    out = [[]]
    for c in cs:
        k = c if isinstance(c, int) else z3.simplify(c.e).as_long() if z3.is_int_value(z3.simplify(c.e)) else None
        if k == 10: out.append([])
        else: out[-1].append(c)
    return [text(x) for x in out[:-1]], len(out[-1]) == 0
def structure(parts):
    """the structure written as JSON after a possible first part of plain text"""
    js = [p for p in parts if isinstance(p, JText)]
    if js: return js[0].o
    t = "".join(map(str, parts)); return json.loads(t[t.index("{"):])
def same(a, b):
    """equality of texts as a formula"""
    if isinstance(a, str) and isinstance(b, str): return a == b
    return SBool(SStr.of(a).eqx(b))
def getkey(d, k): return next((v for x, v in d.items() if isinstance(x, (str, SStr)) and x == k), None)

# ---------------------------------------------------------------- comparing graph6 files
def g6diff(n1, n2, alpha, blanks, header):
    def h(E):
        g6, = mods("g6_diff_finder"); ut, = mods("planaritytesting_utils"); symbolic_names(g6, ut)
        g6.G6DiffFinder._setup_logger = lambda self, *a, **k: setattr(self, "logger", Null())
        with Ctx() as io:
            files = []; paths = []; anyblank = [False, False]
            for f, n in ((0, n1), (1, n2)):
                raw, enc = [], []
                for i in range(n):
                    if blanks and i and E.choice("blank", 2): raw.append(text([10])); anyblank[f] = True; continue
                    c = [E.int("c", alpha[0], alpha[1]) for _ in range(1)]
                    end = [10] if i < n - 1 or E.choice("end", 2) == 0 else []
                    if blanks and E.choice("space", 2): end = [32] + end
                    head = [ord(x) for x in ">>graph6<<"] if header and i == 0 and E.choice("header", 2) else []
                    raw.append(text(head + c + end)); enc.append((len(enc) + 1, text(c)))
                files.append(enc); paths.append(io.input("one.g6" if f == 0 else "other.g6", raw))
            d = g6.G6DiffFinder(paths[0], paths[1])
            d.output_duplicates(); d.graph_set_diff(); d.graph_set_intersection_with_different_line_nums()
            R = io.d / "results"
            def firsts(enc):
                out = []
                for n, t in enc:
                    if not any(t == u for _, u in out): out.append((n, t))
                return out
            for f, (a, b) in ((0, (0, 1)), (1, (1, 0))):
                nm = ("one", "other") if f == 0 else ("other", "one")
                want = [t for _, t in firsts(files[a]) if not any(t == u for _, u in files[b])]
                got = io.output(R / ("graphs_in_%s_not_in_%s.g6" % nm))
                E.check((got is None) == (not want), "a difference file is written exactly when the difference is not empty")
                if want:
                    E.cover("difference"); ls, whole = lines_of(got)
                    E.check(whole and len(ls) == len(want), "the difference has each graph once")
                    for x, y in zip(ls, want): E.check(same(x, y), "the difference lists the graphs of one file that the other lacks, in order")
                dup = [(n, t, [m for m, u in files[a] if m > n and u == t]) for n, t in firsts(files[a])]; dup = [x for x in dup if x[2]]
                got = io.output(R / (nm[0] + ".g6.duplicates.out.txt"))
                E.check((got is None) == (not dup), "a duplicates file is written exactly when there are duplicates")
                if dup:
                    E.cover("duplicates"); s = structure(got); E.check(len(s) == len(dup), "each duplicated graph is listed once")
                    for n, t, ms in dup:
                        v = getkey(s, t); E.check(v is not None, "a duplicated graph is listed")
                        if not anyblank[a]:
                            E.check(v["first_line"] == n, "the first line of a duplicated graph"); E.check(list(v["duplicate_line_nums"]) == ms, "the lines of the duplicates")
                        else: E.check(len(v["duplicate_line_nums"]) == len(ms), "the number of duplicates")
            fa, fb = firsts(files[0]), firsts(files[1])
            both = [(t, n, next(m for m, u in fb if u == t)) for n, t in fa if any(u == t for _, u in fb)]
            got = io.output(R / "graphs_in_one_and_other.txt")
            if not any(anyblank):
                diff = [x for x in both if x[1] != x[2]]
                E.check((got is None) == (not diff), "an intersection file is written exactly when a common graph is on different lines")
                if diff:
                    E.cover("intersection"); s = structure(got); E.check(len(s) == len(diff), "each common graph on different lines is listed once")
                    for t, n, m in diff:
                        v = getkey(s, t); E.check(v is not None, "a common graph on different lines is listed")
                        E.check(list(v) == [n, m], "the lines of a common graph")
            E.trace("sizes", [len(fa), len(fb), len(both)])
    return h

# ---------------------------------------------------------------- adjacency lists of the Graph class
def graph_lists(order, lens):
    def h(E):
        gm, = mods("graph"); symbolic_names(gm)
        adj = [[E.int("v", -2, order) for _ in range(k)] for k in lens]
        bad = False; marker = any(v == -1 for l in adj for v in l)
        for l in adj:
            stop = False; seen = []
            for v in l:
                if stop: bad = True; break
                if v == -1: stop = True; continue
                if v < 0 or v >= order or any(v == s for s in seen): bad = True; break
                seen.append(v)
            if bad: break
        try: g = gm.Graph(graph_adj_list_repr=adj) if E.choice("order given", 2) else gm.Graph(order, adj); ok = True
        except gm.GraphError: ok = False
        except IndexError:
            if marker: E.finding("F63", "a list with the end marker -1 makes the constructor of Graph index outside the adjacency list")
            raise
        if marker and ok == bad: E.finding("F63", "the end marker -1 of an adjacency list is checked against the length of another list")
        E.trace("ok", int(ok)); E.cover("accepted" if ok else "refused")
        E.check(ok == (not bad), "an adjacency list is accepted exactly when every list has distinct labels in range, the end marker last")
    return h
def graph_edges(order, m):
    """add edges, copy, delete one from the copy: symbolic end points"""
    def h(E):
        gm, = mods("graph"); symbolic_names(gm)
        from copy import deepcopy
        g = gm.Graph(order); es = []
        for _ in range(m):
            u = E.choice("u", order); v = E.choice("v", order)
            if u == v or (min(u, v), max(u, v)) in es: return
            es.append((min(u, v), max(u, v))); g.add_arc(u, v); g.add_arc(v, u)
        before = [list(l) for l in g.graph_adj_list_repr]
        c = deepcopy(g); E.check(c == g, "a copy equals the graph")
        i = E.choice("delete", len(es)); a, b = es[i]
        if E.choice("swap", 2): a, b = b, a
        c.delete_edge(a, b)
        E.check(g.graph_adj_list_repr == before, "deleting from a copy leaves the graph alone")
        E.check(not (c == g), "the graphs differ after the deletion")
        E.check(c.graph_adj_list_repr == [[w for w in l if {x, w} != {a, b}] for x, l in enumerate(before)], "deleting an edge removes both its arcs and nothing else")
        deg = [len(l) for l in before]
        E.check(g.get_max_degree() == max(deg), "maximum degree"); E.check(dict(g.get_vertex_degree_counts()) == {d: deg.count(d) for d in set(deg)}, "degree counts")
        E.check(str(g) == "N=%d\n" % order + "".join("%d: %s-1\n" % (x, "".join("%d " % w for w in l)) for x, l in enumerate(before)), "the text of a graph")
        x = E.int("bad", -2, order + 1)
        for f in (lambda: g.add_arc(0, x), lambda: g.add_arc(x, 0), lambda: c.delete_edge(x, 0) if x < 0 or x >= order else g.add_arc(x, 0)):
            try: f(); ok = True
            except gm.GraphError: ok = False
            E.check(ok == bool((x >= 0) & (x < order)) if not isinstance(x, int) else ok == (0 <= x < order), "end points outside the graph are refused")
        E.cover("done")
    return h

# ---------------------------------------------------------------- edge-deletion analysis
def analyzer(io, choice, eda, fake):
    ut, gm = mods("planaritytesting_utils", "graph")
    class Sub:
        PIPE = -1; STDOUT = -2; DEVNULL = -3; CalledProcessError = eda.subprocess.CalledProcessError if hasattr(eda.subprocess, "CalledProcessError") else Exception
        CompletedProcess = None
        @staticmethod
        def run(args, **k): return fake(args, **k)
    import subprocess as real
    Sub.CalledProcessError = real.CalledProcessError; Sub.CompletedProcess = real.CompletedProcess
    eda.subprocess = Sub; orig = getattr(real, "_vs_run", real.run); real._vs_run = orig
    for n, v in list(vars(eda).items()):
        if v is orig or getattr(v, "_vs_fake", False): setattr(eda, n, fake)
    fake._vs_fake = True; real.run = fake
    eda.EdgeDeletionAnalyzer._setup_logger = lambda self, *a, **k: setattr(self, "logger", Null())
    exe = io.d / "planarity"; pysym.real_open(exe, "w").write("#!/bin/sh\nexit 1\n"); os.chmod(exe, 0o755)
    g6 = io.d / "in.g6"; return exe, g6
def parse_list(p):
    ls = pysym.real_open(p).read().split("\n"); n = int(re.match(r"N=(\d+)", ls[0]).group(1)); es = set()
    for l in ls[1:]:
        if ":" in l:
            u, r = l.split(":"); es |= {(min(int(u), int(v)), max(int(u), int(v))) for v in r.split() if v != "-1"}
    return n, frozenset(es)
def list_text(n, es):
    return "N=%d\n" % n + "".join("%d: %s-1\n" % (u, "".join("%d " % v for v in range(n) if (min(u, v), max(u, v)) in es)) for u in range(n))
K = {"K_{2, 3}": (5, {(i, j) for i in (0, 1) for j in (2, 3, 4)}), "K_{3, 3}": (6, {(i, j) for i in (0, 1, 2) for j in (3, 4, 5)}),
     "K_4": (4, {(i, j) for i in range(4) for j in range(i + 1, 4)}), "K_5": (5, {(i, j) for i in range(5) for j in range(i + 1, 5)})}
PAIR = {"2": ("K_{2, 3}", "K_4", "o", "outerplanar"), "3": ("K_{3, 3}", "K_5", "p", "planar"), "4": ("K_4", "K_{2, 3}", "o", "outerplanar")}
class Raised(Exception): pass
def deletion(choice, n, m, ngraphs, faults):
    """every answer of the planarity program is symbolic: whether the search finds the homeomorph, whether the graph embeds, and which obstruction it has"""
    def h(E):
        eda, = mods("edge_deletion_analysis")
        import subprocess as real
        target, other, letter, desc = PAIR[choice]
        with Ctx(virtual_out=False) as io:
            graphs = []; state = {"runs": 0}
            pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
            for k in range(ngraphs): graphs.append(frozenset([p for q, p in enumerate(pairs) if (q + k) % len(pairs) < m]) if not faults else frozenset(pairs[:m]))
            ans = {}
            def verdict(kind, key, opts):
                k = (state["line"], kind, key)
                if k not in ans: ans[k] = E.choice("%s %d %s" % (kind, state["line"], sorted(key)), opts)
                return ans[k]
            state["line"] = 0
            def bad(args, kw):
                r = real.CompletedProcess(args, 255, "", "no"); 
                if kw.get("check"): raise real.CalledProcessError(255, args)
                state["failed"] = True; return r
            def fake(args, **kw):
                a = list(map(str, args)); state["runs"] += 1
                if a[1:3] == ["-x", "-a"]:
                    state["line"] += 1; body = pysym.real_open(a[3]).read()
                    E.check(body.replace(">>graph6<<", "").strip() == "L%d" % state["line"], "each line of the file is analysed by itself")
                    if faults and E.choice("transform fails", 2): state["failed"] = True; return bad(args, kw)
                    pysym.real_open(a[4], "w").write(list_text(n, graphs[state["line"] - 1])); return real.CompletedProcess(args, 0, "", "")
                E.check(a[1] == "-s", "the program is run on a single graph")
                nn, es = parse_list(a[3]); state["seen"].append((a[2], es))
                if a[2] == "-" + choice:
                    E.check(len(a) == 5 and a[4] != a[3], "the search writes to a file of its own")
                    v = verdict("search", es, 3 if faults else 2)
                    if v == 2: return bad(args, kw)
                    if faults and E.choice("says otherwise", 2): state["failed"] = True; return real.CompletedProcess(args, v, "nothing\n", "")
                    return real.CompletedProcess(args, v, "The graph has %s subgraph homeomorphic to %s.\n" % ("a" if v else "no", target), "")
                E.check(a[2] == "-" + letter and len(a) == 6, "the alternate check is planarity for K3,3 and outerplanarity for K2,3 and K4")
                v = verdict("embed", es, 4 if faults else 3)
                if v == 3: return bad(args, kw)
                if v == 0: return real.CompletedProcess(args, 0, "The graph is %s.\n" % desc, "")
                q, o = K[target if v == 1 else other]
                perm = list(range(q))
                pysym.real_open(a[5], "w").write(list_text(q, o)); return real.CompletedProcess(args, 1, "The graph is not %s.\n" % desc, "")
            exe, g6 = analyzer(io, choice, eda, fake)
            head = ">>graph6<<" if E.choice("header", 2) else ""
            pysym.real_open(g6, "w").write(head + "".join("L%d\n" % (k + 1) for k in range(ngraphs)))
            state["seen"] = []
            a = eda.EdgeDeletionAnalyzer(exe, g6, io.d / "out", choice)
            try: r = a.analyze_graphs(); raised = False
            except eda.EdgeDeletionAnalysisError: r = None; raised = True
            E.check(os.getcwd() == io.cwd, "the working directory is restored")
            E.check(pysym.real_open(g6).read() == head + "".join("L%d\n" % (k + 1) for k in range(ngraphs)), "the input file is left alone")
            if raised: E.check(state.get("failed", False), "an error is raised only when the program failed"); E.cover("error"); return
            E.check(not state.get("failed", False), "a failure of the program, or an answer that contradicts its exit code, is an error")
            want = 0
            for line in range(1, ngraphs + 1):
                es = graphs[line - 1]; S = lambda x: ans.get((line, "search", x)); O = lambda x: ans.get((line, "embed", x)); missed = False
                E.check(S(es) is not None, "the search is run on every graph")
                if S(es) == 0:
                    E.check(O(es) is not None, "a graph without homeomorph is checked otherwise")
                    if O(es) == 1: missed = True
                    if O(es) == 2:
                        E.cover("deletions")
                        for e in es:
                            x = es - {e}; E.check(O(x) is not None, "every edge is deleted in turn")
                            if O(x) == 1: missed = True
                            if O(x) == 2:
                                E.check(S(x) is not None, "a graph that still has the other obstruction is searched again")
                                if S(x) == 1: missed = True
                keys = {k[2] for k in ans if k[0] == line}
                E.check(all(k == es or (k < es and len(k) == len(es) - 1) for k in keys), "only the graph and the graph less one edge are examined")
                want += missed
                kept = (io.d / "out" / "in" / choice / ("in.g6.%d" % line)).is_dir()
                E.check(kept == missed, "the files of a graph are kept exactly when its homeomorph was missed")
            E.trace("n", r); E.check(r == want, "the number of graphs whose homeomorph was missed")
            if want: E.cover("missed")
            else: E.cover("none missed")
    return h
def classify(n, dmax):
    """the obstruction type for every sequence of degrees"""
    def h(E):
        eda, = mods("edge_deletion_analysis")
        with Ctx(virtual_out=False) as io:
            exe, g6 = analyzer(io, "3", eda, lambda *a, **k: None); pysym.real_open(g6, "w").write("L\n")
            a = eda.EdgeDeletionAnalyzer(exe, g6, io.d / "out", "3")
            deg = []
            for i in range(n):
                d = E.int("d", 0, dmax)
                if i: E.sol.add((d <= deg[-1]).e) if not isinstance(d, int) else None
                deg.append(d)
            dv = [d if isinstance(d, int) else d.conc() for d in deg]
            cnt = lambda k: sum(1 for d in dv if d == k)
            p = io.d / "obstruction.txt"; pysym.real_open(p, "w").write("N=%d\n" % n + "".join("%d: %s-1\n" % (u, "".join("%d " % ((u + 1 + k) % n) for k in range(d))) for u, d in enumerate(dv)))
            try: r = a.determine_obstruction_type(p, io.d)
            except eda.EdgeDeletionAnalysisError: r = None
            w = None
            if all(d in (0, 2, 3) for d in dv): w = {2: "K_{2, 3}", 4: "K_4", 6: "K_{3, 3}"}.get(cnt(3))
            if all(d in (0, 2, 4) for d in dv) and cnt(4) == 5: w = "K_5"
            E.trace("type", str(r)); E.check(r == w, "the obstruction type follows from the degrees")
            E.cover(w or "other")
    return h

# ---------------------------------------------------------------- tables
def table(nfiles, cmd, kinds, eda):
    def h(E):
        tg, op = mods("test_table_generator", "planarity_testAllGraphs_output_parsing"); symbolic_names(tg, op)
        with Ctx() as io:
            indir = io.d / "in" / "6" / cmd; indir.mkdir(parents=True); outdir = io.d / "tables"; outdir.mkdir()
            canon = E.choice("canonical", 2) if kinds else 0; makeg = E.choice("makeg", 2) if kinds else 0
            rows = {}; edares = {}
            for f in range(nfiles):
                m = 15 - 4 * f if f < 3 else f
                c = E.choice("file canonical", 2) if kinds else 0; g = E.choice("file makeg", 2) if kinds else 0
                base = "n6.m%d%s%s" % (m, ".makeg" if g else "", ".canonical" if c else "")
                v = {k: E.int(k, 0, 10 ** 7) for k in ("numGraphs", "numOK", "numNONEMBEDDABLE")}
                err = E.choice("error", 2)
                line = "-%s %s %s %s %s\n" % (cmd, E.token(v["numGraphs"]), E.token(v["numOK"]), E.token(v["numNONEMBEDDABLE"]), "ERROR" if err else "SUCCESS")
                p = indir / (base + ".%s.out.txt" % cmd); du = ("0.%d25", "7.%d25", "12.%d25", "40000.%d25")[E.choice("duration", 4) if f == 0 else f % 4] % f; body = ['FILENAME="%s.g6" DURATION="%s"\n' % (base, du), line]
                pysym.real_open(p, "w").write("".join(body))
                if eda: v["inv"] = E.int("numInvalidOK", 0, 10 ** 6); edares[base + ".g6"] = {"numInvalidOK": v["inv"], "proc_time_s": 0.5, "tot_time_s": 0.25}
                if c == canon and g == makeg: rows[m] = (base + ".g6", v, err, du)
            t = tg.TestTableGenerator(indir, outdir, bool(canon), bool(makeg), edares if eda else None)
            t.get_order_and_command_from_input_dir()
            try: t.process_files()
            except tg.TestTableGeneratorFileProcessingError: E.check(not rows, "files of the wanted kind are processed"); E.cover("no files"); return
            E.check(bool(rows), "an input folder without files of the wanted kind is an error")
            t.write_table_formatted_data_to_file()
            parts = io.output(outdir / "6" / ("n6.mALL%s%s.%s.out.txt" % (".makeg" if makeg else "", ".canonical" if canon else "", cmd)))
            E.check(parts is not None, "the table is written under the name of order, kind and command")
            ls = "".join(map(str, parts)).split("\n"); body = [[c.strip() for c in l.strip().strip("|").split("|")] for l in ls if l.startswith("|") and not l.startswith("|=")]
            sep = [l for l in ls if l.startswith("|=")]
            data = body[1:1 + len(rows)]; tot = body[1 + len(rows)] if len(body) > 1 + len(rows) else None
            E.check(tot is not None and len(body) == len(rows) + 2, "the table has a heading, a row per file and the totals")
            val = lambda s: E.tokens[s] if s in E.tokens else int(s)
            for m, row in zip(sorted(rows), data):
                nm, v, err, du = rows[m]
                E.check(row[0] == nm and row[1] == str(m), "the rows are in the order of the number of edges")
                for i, k in ((2, "numGraphs"), (3, "numOK"), (4, "numNONEMBEDDABLE")): E.check(val(row[i]) == v[k], "a row shows the file's own numbers")
                E.check(row[5] == ("ERROR" if err else "SUCCESS"), "a row shows the file's own error flag"); E.check(float(row[6]) == float(du), "a row shows the file's own duration")
                if eda: E.check(val(row[7]) == v["inv"], "a row shows the number of missed homeomorphs of its file")
            nums = [c for c in tot if c in E.tokens or re.fullmatch(r"[\d.]+", c)]
            for i, k in enumerate(("numGraphs", "numOK", "numNONEMBEDDABLE")): E.check(val(nums[i]) == sum(rows[m][1][k] for m in rows), "the totals are the sums of the rows")
            E.cover("table")
            if eda: E.check(val(nums[5]) == sum(rows[m][1]["inv"] for m in rows), "the total of missed homeomorphs is the sum of the rows")
            if any(rows[m][2] for m in rows): E.cover("errors")
            bad = sum(1 for m in rows if rows[m][2])
            if nums[3] != str(bad) and nums[3] == str(len(rows) - bad): E.finding("F64", "the total of errors counts the files without errors")
            E.check(nums[3] == str(sum(1 for m in rows if rows[m][2])), "the total of errors is the number of files with errors")
            E.trace("tot", [x for x in nums[3:4]])
    return h
JOBS = {
"P36": lambda T: [("lists-%s" % "".join(map(str, l)), graph_lists(len(l), l), ["accepted", "refused"]) for l in ([(2, 2), (1, 1, 1), (3, 0, 1), (2, 1, 1)] + ([(2, 2, 1), (4, 0), (3, 2, 0)] if T else []))]
     + [("edges-n3", graph_edges(3, 2), ["done"]), ("edges-n4", graph_edges(4, 2 + T), ["done"])]
     + [("classify-n%d" % n, classify(n, 5), c) for n, c in [(5, ["K_5", "K_4", "K_{2, 3}", "other"]), (7, ["K_{3, 3}", "K_5", "K_4", "K_{2, 3}", "other"])] + ([(9, ["K_{3, 3}", "K_5"])] if T else [])]
     + [("answers-%s" % c, deletion(c, 3, 3, 1, False), ["deletions", "missed", "none missed"]) for c in "234"]
     + [("answers-%s-n4" % c, deletion(c, 4, 4, 1, False), ["deletions", "missed", "none missed"]) for c in ("3" if not T else "234")]
     + [("two-graphs-%s" % c, deletion(c, 3, 2, 2, False), ["deletions", "missed", "none missed"]) for c in "234"]
     + [("faults-%s" % c, deletion(c, 3, 1, 1, True), ["error", "missed"]) for c in "234"],
"P37": lambda T: [("lines-%d-%d" % (a, b), g6diff(a, b, (63, 65 if a + b < 5 or T else 64), False, False), ["difference", "duplicates", "intersection"]) for a, b in ([(2, 2), (3, 2), (2, 3)] + ([(3, 3), (4, 2)] if T else []))]
     + [("header-%d-%d" % (a, b), g6diff(a, b, (63, 65), False, True), ["difference", "duplicates", "intersection"]) for a, b in [(2, 2), (3, 1)]]
     + [("blanks-%d-%d" % (a, b), g6diff(a, b, (63, 65), True, False), ["difference"]) for a, b in ([(2, 1), (1, 2)] + ([(3, 2)] if T else []))],
"P38": lambda T: [("rows-%s-%d" % (c, n), table(n, c, False, False), ["table", "errors"]) for c, n in [("p", 1), ("d", 2), ("o", 3), ("2", 4)]]
     + [("kinds-%d" % n, table(n, "4", True, False), ["table", "errors", "no files"]) for n in (1, 2)]
     + [("missed-%d" % n, table(n, "3", False, True), ["table", "errors"]) for n in (1, 2 + T)],
}
ONLY = None
def one(args):
    pid, tier, k, budget = args
    name, h, covers = JOBS[pid](tier == "thorough")[k]
    t0 = time.time()
    try:
        E.explore(h, budget)
        if E.ends == 0 and not E.violations and not E.known: return dict(name=name, error="no path reaches the end")
        reps = []
        Engine_replay(h, None)
        for msg, inp in E.violations: reps.append((msg, inp, Engine_replay(h, inp)))
        sv = []
        for inp, tr in E.samples:
            E2tr = None; r = Engine_replay(h, inp); sv.append((inp, tr, r, [list(x) for x in E.tr]))
        return dict(name=name, viol=reps, samples=sv, paths=STAT["paths"], queries=STAT["queries"], branches=STAT["branches"], obligations=STAT["obligations"], discharged=STAT["discharged"], folded=STAT["folded"],
                    solver_s=STAT["solver_s"], covers=sorted(STAT["covers"]), known=sorted(STAT["known"]), missing=[c for c in covers if c not in STAT["covers"]], wall=time.time() - t0)
    except Unsupported as e: return dict(name=name, error="cannot encode: " + str(e))
STAT = {}
def Engine_replay(h, inp):
    if not STAT.get("frozen"): STAT.update(frozen=True, paths=E.paths, queries=E.queries, branches=E.branches, obligations=E.obligations, discharged=E.discharged, folded=E.folded, solver_s=E.solver_s, covers=set(E.covers), known=set(E.known))
    return E.replay(h, inp) if inp is not None else None
def main():
    pid, tier, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]); only = sys.argv[4] if len(sys.argv) > 4 and sys.argv[4] != "-v" else None
    from multiprocessing import Pool
    t0 = time.time(); jobs = JOBS[pid](tier == "thorough"); ks = [k for k, j in enumerate(jobs) if not only or only in j[0]]
    with Pool(8, maxtasksperchild=1) as p: res = p.map(one, [(pid, tier, k, 700 if tier == "quick" else 5400) for k in ks], chunksize=1)
    errors, lines, unrep = [], [], []
    for f in Path(V, "evidence/replay").glob(pid + "_*.json"): f.unlink()
    val = 0
    for r in res:
        if "error" in r: errors.append(r["name"] + ": " + r["error"]); continue
        if "-v" in sys.argv: print(r["name"], "paths", r["paths"], "queries", r["queries"], "wall %.1f" % r["wall"], r["covers"])
        for msg, inp, rep in r["viol"]:
            if rep is None: unrep.append("%s: %s not reproduced by the real code: %s" % (r["name"], msg, inp)); continue
            os.makedirs(V + "/evidence/replay", exist_ok=True); path = "evidence/replay/%s_%d.json" % (pid, len(lines))
            json.dump(dict(property=pid, job=r["name"], violation=dict(msg=msg, input=inp), observed_on_real_code=rep), open(V + "/" + path, "w"), indent=1)
            lines.append("VIOLATION property=%s replay=%s  # %s: %s; %s" % (pid, path, r["name"], msg, rep))
        if not r["viol"]:
            for c in r["missing"]: errors.append("%s: case '%s' was never reached" % (r["name"], c))
            for inp, tr, rep, tr2 in r["samples"]:
                if rep is None and [list(x) for x in tr] == tr2: val += 1
                else: errors.append("%s: sample %s differs on the real code: %s %s %s" % (r["name"], inp, rep, tr, tr2))
    S = lambda f: sum(r.get(f, 0) for r in res)
    names = {"P36": ["graph", "edge_deletion_analysis"], "P37": ["g6_diff_finder", "planaritytesting_utils"], "P38": ["test_table_generator", "planarity_testAllGraphs_output_parsing"]}[pid]
    fns = sorted({"%s.%s" % (n, q) for n in names for c in [importlib.import_module(n)] for q, o in [(x.__qualname__, x) for _, x in inspect.getmembers(c, inspect.isfunction) if x.__module__ == n] + [(x.__qualname__, x) for _, k in inspect.getmembers(c, inspect.isclass) if k.__module__ == n for _, x in inspect.getmembers(k, inspect.isfunction)]})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "violations": len(lines), "wall_s": round(time.time() - t0, 2),
          "assumptions": ["every run stays within the stated bounds; nothing is claimed outside them", "the planarity program, where one is called, is replaced by a stand-in whose every answer is symbolic", "proxies of checks/pysym.py represent Python's integers and texts; sampled paths are compared with plain Python values"],
          "coverage": {"states": S("paths"), "transitions": S("branches"), "traces_validated_against_impl": val, "samples": [{"job": r["name"], "input": s[0][:40], "trace": s[1]} for r in res for s in r.get("samples", [])[:1]][:4] or [{"job": "none"}],
                       "rule": "states: paths of the Python code (each stands for all inputs that take it), transitions: branches on symbolic values, each decided by z3", "obligations": S("obligations"), "discharged": S("discharged"), "folded_constant_assertions": S("folded"),
                       "solver_queries": S("queries"), "solver_s": round(S("solver_s"), 2), "functions_encoded": fns, "engine_runs": len(res), "bounds": {r["name"]: {"paths": r.get("paths")} for r in res}, "covers_reached": [r["name"] + ":" + c for r in res for c in r.get("covers", [])],
                       "counterexamples_not_reproduced": len(unrep), "outside_bounds": plan.PROPS[pid].get("outside", ""), "exhaustive": False}}
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    kn = {k["id"]: k for k in json.load(open(V + "/known_findings.json"))}
    for i in sorted({i for r in res for i in r.get("known", [])}): print("KNOWN-FINDING: property=%s %s" % (pid, kn[i]["what"]))
    for l in lines: print(l)
    if lines: sys.exit(1)
    for e in (errors + ["counterexample " + u for u in unrep])[:10]: print("CHECK-ERROR: " + str(e)[:2500])
    if errors or unrep: sys.exit(2)
    print("OK property=%s tier=%s jobs=%d paths=%d obligations=%d solver_s=%.1f validated=%d wall=%.1f" % (pid, tier, len(res), S("paths"), S("obligations"), S("solver_s"), val, time.time() - t0))
if __name__ == "__main__": main()
