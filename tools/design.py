#!/usr/bin/env python3
"""fills the tables of DESIGN.md from props.py, known_findings.json, seeded/ and the texts below: DESIGN.in.md -> DESIGN.md"""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/checks")
import props, plan
HOW = {
"P01": ("embed.c", "all graphs with up to 6 vertices (thorough 7) plus families to 30 vertices with 8-11 free edges (dense, near-planar, planted and subdivided obstructions, near-maximal planar); a corpus of small graphs that reach rare branches, 7 edges free; insertion to front, back, alternating, and with deleted edges", "Euler's formula per component on the rotation system of the result; obstruction smoothed to K5/K3,3 and compared with the input edge by edge"),
"P02": ("embed.c", "as P01", "Euler plus one face with all vertices per component; obstruction smoothed to K4/K2,3"),
"P03": ("embed.c", "as P01", "K2,3 homeomorph existence by Menger counts (three disjoint paths of length at least 2); result smoothed to K2,3"),
"P04": ("embed.c", "as P01, and 2-sums of K5s with and without a K3,3, 8-20 vertices", "planarity/K5-only structure decided independently for small graphs, planted copies in families; result smoothed to K3,3"),
"P05": ("embed.c", "as P01", "series-parallel reduction decides K4-freeness; result smoothed to K4"),
"P06": ("embed.c", "as P01 (to 25 vertices), without structures having deleted edges (refused by design); rendition text in memory and to file", "vertex bars and edge columns inside the grid, disjoint bars, every edge's column meets exactly its two bars and crosses none; rendition text re-read cell by cell"),
"P07": ("tamper.c", "results of all commands on families with 5-8 vertices; symbolic tampering: any edge added/removed, any two neighbours of a rotation swapped, drawing records changed, verdict exchanged", "tampered result is wrong by an independent certificate => refused; right => accepted"),
"P08": ("embed.c", "same graph after: another command on the same structure, growth of capacity, deletions, gp_ReinitGraph, or processed before (DFS, embedding), changed and embedded again as it is; all graphs of 4-5 vertices and families", "verdict equals that on a fresh structure; certificate oracles of P01-P06"),
"P09": ("ops.c", "3-4 vertices, up to 4 operations (add, insert, delete, dynamic add) with symbolic operands after symbolic content", "ordered-list reference model of every vertex's adjacency list, return values and edge counts"),
"P10": ("ops.c", "hide/restore scripts over symbolic graphs, single and several edges", "ordered-list snapshot before hiding"),
"P11": ("contract.c", "4-5 vertices, one or two of contract/identify/hide vertex, then unwinding", "reference contraction on adjacency matrix; bit-exact lists after restore"),
"P12": ("ops.c", "growth between any two of up to 5 operations, capacities 2, 4 and tight", "reference model unaffected; capacity reported"),
"P13": ("copy.c", "gp_CopyGraph/gp_DupGraph/gp_CopyAdjacencyLists of 4-vertex graphs, embedded, drawn, with 0-4 extensions in several orders, tight and grown capacities, digraphs", "field-by-field comparison, then independence after changing one side"),
"P14": ("dfs.c", "all graphs to 6 vertices (thorough 7), four insertion orders, holes", "parent/child/back-edge conditions of a DFS forest; DFI permutation"),
"P15": ("dfs.c", "as P14", "lowpoint and least ancestor by definition"),
"P16": ("dfs.c", "as P14; two and three sorts, in sequence with embedding preparation", "relabelling bijection, edges mapped, involution, sorted order kept by later calls"),
"P17": ("io.c", "1-5 vertices all graphs, digraphs, orders 11/100/101; memory and file", "own parser of the text; re-read list equality"),
"P18": ("io.c", "1-5 vertices, orders 11/61, digraph refused; memory and file", "own parser"),
"P19": ("io.c, bigio.c", "1-6 vertices, orders 11, 62, 63, 64, 67, 300, 1000, 4100", "own graph6 encoder/decoder from the published format"),
"P20": ("g6iter.c", "1-3 graphs of 2-8 vertices, orders 63/64; written and given streams; memory and file", "own encoder/decoder, one graph per line"),
"P21": ("text.c", "free bytes (up to the length in the job), symbolic corruption (one or two bytes) of valid texts, huge numbers", "every memory obligation; an accepted text is re-read by an own parser; graph stays well-formed"),
"P22": ("text.c", "as P21, for graph6 with headers, all order forms, wrong orders on later lines", "own decoder, line by line for streams"),
"P23": ("nomem*.c", "the k-th (or the k-th and all later) allocation fails, k symbolic over every allocation of the scenario: new, read, write, copy, dup, grow, embed, draw, iterators, command lines", "no invalid access, no leak, failure is reported, surviving graph is well-formed"),
"P24": ("ext.c", "up to 4 steps of attach/find/remove/copy/free over the five extensions", "set model of attached extensions and overload effects"),
"P25": ("random.c", "generators on 1-7 vertices with symbolic random numbers followed by a fair tail", "simple graph, promised kind, edge counts; range reduction uniform over its interval by exact formula"),
"P26": ("models.c", "operation sequences on stack, list collection, string buffer; checked and macro builds", "array reference models"),
"P27": ("cli.c", "main() with symbolic invocation forms, families as input, memory API, legacy form", "library verdict plus certificate of the written output; exit status 0/1/-1"),
"P28": ("batch.c", "1-3 graphs per file, all commands, damaged lines, transforms between the three formats", "own count by library verdict on each graph / own parsers of the output"),
"P29": ("digr.c", "3-4 vertices, symbolic operations with directions, capacity 4", "reference digraph model"),
"P30": ("drawio.c", "1-5 vertices, adjacency list with drawing data, zero-based, other formats without", "record-by-record equality, re-read drawing valid"),
"P31": ("selftest.c", "symbolic bytes in expected or actual files and strings, symbolic damage of expected results", "byte comparison modulo line ends; damaged expectation must fail"),
"P32": ("randcmd.c", "-r/-rm/-rn/-rc commands and menu (modes r, s, m, n), 1-5 vertices, symbolic random numbers", "saved graphs parsed and judged; totals reported"),
"P33": ("batch.c, cli.c", "menu scripts with symbolic letters against the same command line", "same output bytes and verdict"),
"P34": ("leda.c", "1-12 vertices, symbolic edges with duplicates, both orientations", "own reading as a simple graph"),
"P36": ("pyrun.py", "symbolic answers of a stand-in for the planarity program on graphs with up to 4 edges and two lines; degree sequences of 5 and 7 vertices (thorough 9); adjacency lists of 2-3 vertices with symbolic labels", "the definition of a missed homeomorph evaluated on the same answers"),
"P37": ("pyrun.py", "two files of 1-3 lines (thorough 4) with symbolic characters, header, blank lines, trailing blanks, missing line end", "set arithmetic on the symbolic texts"),
"P38": ("pyrun.py", "1-4 result files, all numbers symbolic and unbounded in width, kinds and error flags symbolic", "row and sum equality as integer formulas"),
"P35": ("stdio.c", "stdin as file and pipe, stdout, file names that resemble streams", "bytes equal to those of the file variant"),
}
def nj(pid, tier):
    if not plan.PROPS[pid].get("py"): return len(plan.jobs(pid, tier, 1))
    return int(os.popen("cd %s/checks && python3-vt -c 'import pyrun; print(len(pyrun.JOBS[\"%s\"](%s)))'" % (V, pid, tier == "thorough")).read())
def table():
    t = ["| id | property | harness | explored symbolically (quick) | judged by | jobs quick/thorough |", "|---|---|---|---|---|---|"]
    for p in props.PROPS:
        if p["id"] not in plan.PROPS: continue
        h = HOW[p["id"]]
        t.append("| %s | %s | `%s` | %s | %s | %d/%d |" % (p["id"], p["title"], h[0], h[1], h[2], nj(p["id"], "quick"), nj(p["id"], "thorough")))
    return "\n".join(t)
k = json.load(open(V + "/known_findings.json")); k = k if isinstance(k, list) else k["findings"]
fixed = "\n".join("* %s `%s`: %s" % (x["id"], x["line"].split()[2], " ".join([x["property"] + ","] + x["line"].split()[3:])) for x in k if x["status"] == "fixed")
known = "\n".join("* %s %s" % (x["id"], x["line"]) for x in k if x["status"] != "fixed") or "None: every genuine defect met by a check was repaired."
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"].replace("|", "/")))
s = open(V + "/DESIGN.in.md").read()
for a, b in (("@@TABLE@@", table()), ("@@FIXED@@", fixed), ("@@KNOWN@@", known), ("@@SEEDED@@", "\n".join(rows))): s = s.replace(a, b)
open(V + "/DESIGN.md", "w").write(s)
