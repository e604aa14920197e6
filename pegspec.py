#!/usr/bin/env python3
"""pegspec.py RULES.json OUT.vx: the published grammar as a specification.

RULES.json is what `replay grammar` reads from the published text (the text is taken
from /repo's source on every run). For each rule a predicate pg_i over expressions says
what it has to be; `published` says it of a set of rules.
"""
import json
import sys

X = "parser_expression_Expression"
A = "parser_atom_Atom"


def rs(s):
    """a Rust string literal"""
    o = ""
    for c in s:
        o += {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c if 32 <= ord(c) < 127 else "\\u{%x}" % ord(c))
    return '"' + o + '"'


def rc(c):
    return "'" + {"\\": "\\\\", "'": "\\'", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c, c if 32 <= ord(c) < 127 else "\\u{%x}" % ord(c)) + "'"


class W:
    def __init__(self):
        self.n = 0
        self.lits = set()

    def lit(self, s):
        self.lits.add(s)
        return rs(s) + "@"

    def fresh(self):
        self.n += 1
        return "x%d" % self.n

    def pred(self, e, v):
        """a boolean expression: v (an Expression) is e"""
        x = self.fresh()
        if e == "dot":
            return "(%s matches %s::Simple(%s) && %s is Dot)" % (v, X, x, x)
        if e == "eof":
            return "(%s matches %s::Simple(%s) && %s is EOF)" % (v, X, x, x)
        (k, a), = e.items()
        if k == "lit":
            return "(%s matches %s::Simple(%s::Literal(%s)) && %s@ == %s)" % (v, X, A, x, x, self.lit(a))
        if k == "error":
            return "(%s matches %s::Simple(%s::Error(%s)) && %s@ == %s)" % (v, X, A, x, x, self.lit(a))
        if k == "ref":
            return "(%s matches %s::RuleName(%s) && %s@ == %s)" % (v, X, x, x, self.lit(a))
        if k == "class":
            rs_ = "".join(" && %s.1@[%d] == (%s, %s)" % (x, i, rc(f), rc(t)) for i, (f, t) in enumerate(a[1]))
            return "(%s matches %s::Simple(%s::Match(%s)) && %s.0@ == %s && %s.1@.len() == %d%s)" % (v, X, A, x, x, self.lit(a[0]), x, len(a[1]), rs_)
        if k in ("and", "or"):
            c = {"and": "And", "or": "Or"}[k]
            return "(%s matches %s::%s(%s) && %s.0@.len() == %d%s)" % (v, X, c, x, x, len(a), "".join(" && " + self.pred(s, "%s.0@[%d]" % (x, i)) for i, s in enumerate(a)))
        if k == "not":
            return "(%s matches %s::Not(%s) && %s)" % (v, X, x, self.pred(a, "(*%s)" % x))
        if k == "rep":
            m = "%s.max is None" % x if a[2] is None else "(%s.max matches Some(%sm) && %sm.0 == %d)" % (x, x, x, a[2])
            return "(%s matches %s::Repeat(%s) && %s.min.0 == %d && %s && %s)" % (v, X, x, x, a[1], m, self.pred(a[0], "(*%s.expression)" % x))
        raise Exception(k)


def depth(e):
    if isinstance(e, str):
        return 1
    (k, a), = e.items()
    if k in ("and", "or"):
        return 1 + max([0] + [depth(x) for x in a])
    if k == "not":
        return 1 + depth(a)
    if k == "rep":
        return 1 + depth(a[0])
    return 1


def nulls(d):
    """the rules that may match without consuming, and a rank that falls along leading references"""
    def nul(e, nn):
        if isinstance(e, str):
            return e == "eof"
        (k, a), = e.items()
        return {"lit": lambda: a == "", "error": lambda: False, "class": lambda: False, "ref": lambda: a in nn, "not": lambda: True,
                "and": lambda: all(nul(x, nn) for x in a), "or": lambda: any(nul(x, nn) for x in a),
                "rep": lambda: a[1] == 0 or a[2] == 0 or nul(a[0], nn)}[k]()

    def lead(e, nn):
        if isinstance(e, str):
            return set()
        (k, a), = e.items()
        if k == "ref":
            return {a}
        if k == "not":
            return lead(a, nn)
        if k == "rep":
            return lead(a[0], nn)
        r = set()
        if k in ("and", "or"):
            for x in a:
                r |= lead(x, nn)
                if k == "and" and not nul(x, nn):
                    break
        return r
    nn = set()
    while True:
        m = {n for n in d if nul(d[n], nn)}
        if m == nn:
            break
        nn = m
    g = {n: lead(d[n], nn) for n in d}
    rank = {}
    for _ in range(len(d) + 1):
        for n in d:
            if n not in rank and all(x in rank or x not in d for x in g[n]):
                rank[n] = 1 + max([0] + [rank.get(x, 0) for x in g[n]])
    return nn, rank


def main():
    rules = json.load(open(sys.argv[1]))
    w = W()
    o = ["//@ spec", "// generated from the published grammar"]
    # a later definition of a name replaces an earlier one
    d = {}
    for n, e in rules:
        d[n] = e
    names = list(d)
    for i, n in enumerate(names):
        o.append("/// %s" % n)
        o.append("pub open spec fn pg_%d(e: %s) -> bool { %s }" % (i, X, w.pred(d[n], "e")))
    o.append("pub open spec fn pg_names() -> Set<Seq<char>> { set![%s] }" % ", ".join(rs(n) + "@" for n in names))
    o.append("/// no two names are equal")
    o.append("pub proof fn lemma_names()")
    ps = [(a, b) for i, a in enumerate(names) for b in names[i + 1:]]
    o.append("    ensures")
    o += ["        %s@ != %s@," % (rs(a), rs(b)) for a, b in ps]
    o.append("{")
    for n in names:
        o.append("    reveal_strlit(%s);" % rs(n))
    for a, b in ps:
        if len(a) == len(b):
            k = next(i for i in range(len(a)) if a[i] != b[i])
            o.append("    assert(%s@[%d] != %s@[%d]);" % (rs(a), k, rs(b), k))
        else:
            o.append("    assert(%s@.len() != %s@.len());" % (rs(a), rs(b)))
    o.append("}")
    o.append("/// the rules are the published ones, all of them and no other")
    o.append("pub open spec fn published(m: Map<Seq<char>, %s>) -> bool {" % X)
    o.append("    m.dom() == pg_names()")
    for i, n in enumerate(names):
        o.append("    && m.dom().contains(%s@) && pg_%d(m[%s@])" % (rs(n), i, rs(n)))
    o.append("}")
    for f, what, lemma in ([("expr_ok", "asks for more than a machine word holds", "ok")] if "sem" in sys.argv[3:] else []) + ([("noeof", "looks for the end of the file", "noeof")] if "shape" in sys.argv[3:] else []):
        o.append("/// no expression of the published grammar %s" % what)
        for i, n in enumerate(names):
            o.append("pub proof fn lemma_%s_%d(e: %s) requires pg_%d(e) ensures %s(e) { reveal_with_fuel(%s, %d); }" % (lemma, i, X, i, f, f, depth(d[n]) + 1))
        o.append("pub proof fn lemma_%s(m: Map<Seq<char>, %s>) requires published(m) ensures %s(m) {" % ("rules_ok" if f == "expr_ok" else "noeof_rules", X, "rules_ok" if f == "expr_ok" else "noeof_rules"))
        o.append("    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) implies %s(m[k]) by {" % f)
        o.append("        assert(pg_names().contains(k));")
        for i, n in enumerate(names):
            o.append("        if k == %s@ { lemma_%s_%d(m[k]); }" % (rs(n), lemma, i))
        o.append("    }")
        o.append("}")
    if "term" in sys.argv[3:]:
        nn, rank = nulls(d)
        o.append("pub open spec fn g_nn(s: Seq<char>) -> bool { %s }" % (" || ".join("s == " + rs(n) + "@" for n in names if n in nn) or "false"))
        o.append("pub open spec fn g_rank(s: Seq<char>) -> nat { %s { 0 } }" % "".join("if s == %s@ { %d } else " % (rs(n), rank.get(n, 0)) for n in names))
        o.append("pub open spec fn g_nnf() -> spec_fn(Seq<char>) -> bool { |s: Seq<char>| g_nn(s) }")
        o.append("pub open spec fn g_rankf() -> spec_fn(Seq<char>) -> nat { |s: Seq<char>| g_rank(s) }")
        o.append("pub proof fn lemma_g_rank()")
        o.append("    ensures")
        for n in names:
            o.append("        g_rank(%s@) == %d," % (rs(n), rank.get(n, 0)))
            o.append("        %sg_nn(%s@)," % ("" if n in nn else "!", rs(n)))
        o.append("{ lemma_names(); }")
        o.append("/// no literal of the published grammar is empty, except where it is")
        ls = sorted(w.lits)
        o.append("pub proof fn lemma_lens()")
        o.append("    ensures")
        o += ["        %s@.len() == %d," % (rs(x), len(x)) for x in ls]
        o.append("{ %s }" % " ".join("reveal_strlit(%s);" % rs(x) for x in ls))
        for i, n in enumerate(names):
            k = depth(d[n]) + 1
            o.append("pub proof fn lemma_null_%d(e: %s) requires pg_%d(e) ensures nule(g_nnf(), e) ==> g_nn(%s@) { lemma_lens(); lemma_g_rank(); reveal_with_fuel(nule, %d); }" % (i, X, i, rs(n), k))
            o.append("pub proof fn lemma_lead_%d(e: %s, x: Seq<char>) requires pg_%d(e), lead(g_nnf(), e, x) ensures g_rank(x) < g_rank(%s@) { lemma_lens(); lemma_g_rank(); reveal_with_fuel(nule, %d); reveal_with_fuel(lead, %d); }" % (i, X, i, rs(n), k, k))
        o.append("/// the published grammar has no left recursion")
        o.append("pub proof fn lemma_g_nolr(m: Map<Seq<char>, %s>) requires published(m) ensures no_left_recursion(m, g_nnf(), g_rankf()) {" % X)
        o.append("    assert forall|k: Seq<char>| #[trigger] m.dom().contains(k) && nule(g_nnf(), m[k]) implies g_nnf()(k) by {")
        o.append("        assert(pg_names().contains(k));")
        o += ["        if k == %s@ { lemma_null_%d(m[k]); }" % (rs(n), i) for i, n in enumerate(names)]
        o.append("    }")
        o.append("    assert forall|k: Seq<char>, x: Seq<char>| #![trigger m.dom().contains(k), lead(g_nnf(), m[k], x)] m.dom().contains(k) && lead(g_nnf(), m[k], x) implies g_rankf()(x) < g_rankf()(k) by {")
        o.append("        assert(pg_names().contains(k));")
        o += ["        if k == %s@ { lemma_lead_%d(m[k], x); }" % (rs(n), i) for i, n in enumerate(names)]
        o.append("    }")
        o.append("}")
    if sys.argv[3:] != ["term"]:
        o.append("//@ fn peg_rules_parse_peg C23")
        o.append("//@ contract")
        o.append("    ensures")
        for i, n in enumerate(names):
            o.append("        hm(vx_r.0).dom().contains(%s@) && pg_%d(hm(vx_r.0)[%s@]), //#C23" % (rs(n), i, rs(n)))
        o.append("        hm(vx_r.0).dom() =~= pg_names(), //#C23")
        o.append("        published(hm(vx_r.0)), //#C23")
        o.append("//@ entry")
        o.append("    proof { lemma_names(); }")
    open(sys.argv[2], "w").write("\n".join(o) + "\n")


main()
