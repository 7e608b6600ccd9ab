"""Turns the instances found by drv and drv2 (lines "CMD N u,v ...") into checks/corpus.json; run with python3-vt.
drv.cpp and shim.c, linked with the library (its embedding and search files built with -fsanitize-coverage=trace-pc-guard),
search random graphs for small ones that reach rarely executed branches;
drv2.cpp and shim2.c search graphs on which a mutated library answers differently.  For the K3,3 search the verdict of every choice
of the free edges is tabulated with a decomposition into 3-connected components, independent of the library."""
import sys, json, random, itertools
import networkx as nx
def has_k33(G):
    for C in list(nx.biconnected_components(G)):
        H = G.subgraph(C)
        if len(C) < 5 or nx.check_planarity(H)[0]: continue
        cut = next((p for p in itertools.combinations(sorted(C), 2) if not nx.is_connected(H.subgraph(C - set(p)))), None)
        if cut is None: 
            if len(C) > 5: return True
            continue
        for D in nx.connected_components(H.subgraph(C - set(cut))):
            P = nx.Graph(H.subgraph(set(D) | set(cut))); P.add_edge(*cut)
            if has_k33(P): return True
    return False
if __name__ == "__main__":
    out = {}
    for f in sys.argv[1:]:
        for l in open(f):
            w = l.split()
            if len(w) < 10: continue
            c, n = int(w[0]), int(w[1]); e = [tuple(map(int, x.split(","))) for x in w[2:]]
            if len(set(e)) != len(e) or any(not 1 <= u < v <= n for u, v in e): continue
            r = random.Random(l); non = [(i, j) for i in range(1, n + 1) for j in range(i + 1, n + 1) if (i, j) not in set(e)]; r.shuffle(non)
            kp = min(5, len(e)); free = e[-kp:] + non[:2]; fixed = e[:-kp]; q = [n, fixed, free]
            if c == 3:
                bits = ""
                for s in range(1 << len(free)):
                    G = nx.Graph(fixed + [x for i, x in enumerate(free) if s >> i & 1]); bits += "1" if has_k33(G) else "0"
                q.append(bits)
            out.setdefault(str(c), []).append(q)
    json.dump(out, open("checks/corpus.json", "w"), separators=(",", ":"))
    for c in sorted(out): print(c, len(out[c]), sum(1 for q in out[c] if len(q) > 3 and len(set(q[3])) == 2))
