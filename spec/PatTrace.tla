------------------------------ MODULE PatTrace -------------------------------
(***************************************************************************)
(* Recorded readings of pattern files, macro files and arrow expressions    *)
(* judged against PatternFiles (C23).                                       *)
(***************************************************************************)
EXTENDS TraceBase, PatternFiles

AsSet(ps) == {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)}
GotNodes(g) == {<<g.nodes[i][1], AsSet(g.nodes[i][2])>> : i \in 1..Len(g.nodes)}
GotEdges(g) == {<<g.edges[i][1], g.edges[i][2], AsSet(g.edges[i][3])>> : i \in 1..Len(g.edges)}

Same(g, ns, es) ==
  Must(GotNodes(g) = ns /\ Len(g.nodes) = Cardinality(ns), "nodes")
  \cup Must(GotEdges(g) = es /\ Len(g.edges) = Cardinality(es), "edges")
  \cup Must(Cardinality(ns) > 1 => (g.chain <=> Chain(ns, es)), "linear")

Files(c, o) ==
  OnOk(o,
    LET ps == o.v.pats ms == o.v.macs d == c.doc m == c.mdoc IN
    IF Len(ps) # Len(d.graphs) THEN {"patterns"}
    ELSE UNION {Same(ps[i], NodesOf(d, d.graphs[i]), EdgesOf(d, d.graphs[i]))
                \cup Must(ps[i].id = d.graphs[i].id, "pattern-id") : i \in 1..Len(ps)}
         \cup (IF Len(ms) # Len(m.macs) THEN {"macros"}
               ELSE UNION {LET x == m.macs[i]
                               g == d.graphs[CHOOSE k \in 1..Len(d.graphs) : d.graphs[k].id = x.pat] IN
                           Same(ms[i].g, NodesOf(d, g), EdgesOf(d, g))
                           \cup Must(ms[i].id = x.id, "macro-id")
                           \cup Must(ms[i].t = x.t, "target-node")
                           \cup Must(ms[i].f = x.f, "feature-node")
                           \cup Must(AsSet(ms[i].tf) = AsSet(m.tf) /\ [j \in 1..Len(ms[i].tf) |-> ms[i].tf[j][1]] = [j \in 1..Len(m.tf) |-> m.tf[j][1]],
                                     "target-format")
                           \cup Must(AsSet(ms[i].ff) = AsSet(m.ff) /\ [j \in 1..Len(ms[i].ff) |-> ms[i].ff[j][1]] = [j \in 1..Len(m.ff) |-> m.ff[j][1]],
                                     "feature-format")
                           \cup Must(AsSet(ms[i].ef) = {<<m.ef, 1>>}, "edge-format") : i \in 1..Len(ms)}))

\* parse_pattern: nodes and relations as texts
Arrows(c, o) ==
  OnOk(o,
    IF Len(o.v) # Len(c.exprs) THEN {"patterns"}
    ELSE UNION {LET r == ReadArrows(c.exprs[i].target, c.exprs[i].text)
                    g == o.v[i] IN
                Must({<<g.nodes[k][1], g.nodes[k][2]>> : k \in 1..Len(g.nodes)} = {<<k, r.nodes[k]>> : k \in 1..Len(r.nodes)}, "nodes")
                \cup Must({<<g.edges[k][1], g.edges[k][2], g.edges[k][3]>> : k \in 1..Len(g.edges)} = Range0(r.edges), "edges")
                : i \in 1..Len(c.exprs)})

\* read_csv: attributes named by the groups
Sheet(c, o) ==
  OnOk(o,
    IF Len(o.v) # Len(c.exprs) THEN {"patterns"}
    ELSE UNION {LET r == ReadArrows(c.exprs[i].target, c.exprs[i].text) IN
                Same(o.v[i].g, NamedNodes(r), NamedEdges(r))
                \cup Must(c.macros => o.v[i].t = 1, "target-node") : i \in 1..Len(c.exprs)})

Verdict(c) ==
  CASE c.kind = "files" -> UNION {Files(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "arrows" -> UNION {Arrows(c, c.runs[i]) : i \in 1..Len(c.runs)}
    [] c.kind = "sheet" -> UNION {Sheet(c, c.runs[i]) : i \in 1..Len(c.runs)}

TraceInit == l = 2
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Verdict(Trace[l]))
             /\ l' = l + 1
=============================================================================
