----------------------------- MODULE TwIRQuery ------------------------------
(* What the item graph itself answers: its contents, predecessors,           *)
(* dominators, retained sizes and lookups by name.                           *)
EXTENDS TwGraph

Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

(* The finished graph holds exactly what was put into the builder.           *)
DumpVerdict(g, nm, ev) ==
    Chk(ev.err = "", "ir.dump-error",
    Chk(ev.n = g.n, "ir.item-count",
    Chk(ev.size = g.size, "ir.total-size",
    Chk(ev.name = g.name, "ir.names",
    Chk(ev.sz = g.sz, "ir.sizes",
    Chk(ev.kind = g.kind, "ir.kinds",
    Chk(ev.gen = g.gen, "ir.generics",
    Chk(ev.succ = g.succ, "ir.edges", OK))))))))

RetainedVerdict(g, d, ev) ==
    Chk(ev.err = "", "ir.retained-error",
    Chk(ev.r = d.ret, "ir.retained-sizes", OK))

IdomVerdict(g, d, ev) ==
    Chk(ev.err = "", "ir.idom-error",
    Chk(ev.i = d.idom, "ir.immediate-dominators", OK))

TreeVerdict(g, d, ev) ==
    Chk(ev.err = "", "ir.dominator-tree-error",
    Chk(ev.t = [v \in Nodes(g) |-> Sorted(d.kids[v])], "ir.dominator-tree", OK))

PredVerdict(g, d, ev) ==
    Chk(ev.err = "", "ir.predecessors-error",
    Chk(ev.p = [v \in Nodes(g) |-> Sorted(d.pred[v])], "ir.predecessors", OK))

ByNameVerdict(g, nm, ev) ==
    LET hit == {v \in Nodes(g) : g.name[v] = ev.n}
    IN Chk(ev.err = "", "ir.by-name-error",
       Chk(ev.v = IF hit = {} THEN 0 ELSE Sorted(hit)[1], "ir.by-name", OK))
=============================================================================
