//@ spec
// ---------------------------------------------------------------- the leaf text of a tree
pub open spec fn y1(n: GNode) -> Seq<char> decreases n {
    match n { GNode::Val(v) => v, GNode::Rule(_, ch) => ys(ch), GNode::EOF => Seq::empty() }
}
pub open spec fn ys(v: Seq<GNode>) -> Seq<char> decreases v {
    if v.len() == 0 { Seq::empty() } else { ys(v.drop_last()) + y1(v.last()) }
}
pub proof fn lemma_ys_add(a: Seq<GNode>, b: Seq<GNode>)
    ensures ys(a + b) == ys(a) + ys(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(ys(a) + ys(b) =~= ys(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_ys_add(a, b.drop_last());
        assert((ys(a) + ys(b.drop_last())) + y1(b.last()) =~= ys(a) + (ys(b.drop_last()) + y1(b.last())));
    }
}
pub proof fn lemma_ys1(x: GNode)
    ensures ys(seq![x]) == y1(x),
{
    assert(seq![x].drop_last() =~= Seq::<GNode>::empty());
    assert(ys(Seq::<GNode>::empty()) =~= Seq::<char>::empty());
    assert(Seq::<char>::empty() + y1(x) =~= y1(x));
}
pub proof fn lemma_lit(text: Seq<char>, s: Seq<char>, i: int, n: int)
    requires 0 <= i <= s.len(), 0 <= n <= text.len(),
    ensures
        match lit_at(text, s, i, n) { Ok(m) => m == n + s.len() - i && m <= text.len() && text.subrange(n, m) == s.skip(i), Err(m) => n <= m <= text.len() },
    decreases s.len() - i,
{
    if i < s.len() && n < text.len() && text[n] == s[i] {
        lemma_lit(text, s, i + 1, n + 1);
        match lit_at(text, s, i, n) { Ok(m) => { assert(s.skip(i) =~= seq![s[i]] + s.skip(i + 1)); assert(text.subrange(n, m) =~= seq![text[n]] + text.subrange(n + 1, m)); } _ => {} }
    }
    if i >= s.len() { assert(text.subrange(n, n) =~= s.skip(i)); }
}
pub open spec fn tpos(t: Task) -> int { match t { Task::Expr(_, n, _) => n, Task::Rule(_, n, _) => n, Task::Seq(_, n, _) => n, Task::Alt(_, n, _, _) => n, Task::Rep(_, _, _, _, n, _) => n } }
/// C06 for one task: it moves forward inside the text, and its nodes spell what it consumed
pub open spec fn spells(c: Ctx, n: int, o: Out) -> bool {
    match o { Out::Ok(n1, _, ns) => n <= n1 <= c.text.len() && ys(ns) == c.text.subrange(n, n1), Out::Err(_) => true, Out::Div => true }
}
pub proof fn lemma_spell_atom(c: Ctx, a: parser_atom_Atom, n: int, pe: Option<EV>)
    requires 0 <= n <= c.text.len(),
    ensures spells(c, n, atom_out(c.text, a, n, pe)),
{
    match a {
        parser_atom_Atom::Literal(s) => { lemma_lit(c.text, s@, 0, n); lemma_ys1(GNode::Val(s@)); assert(s@.skip(0) =~= s@); }
        parser_atom_Atom::EOF => { lemma_ys1(GNode::EOF); assert(c.text.subrange(n, n) =~= Seq::<char>::empty()); }
        _ => { if n < c.text.len() { lemma_ys1(GNode::Val(seq![c.text[n]])); assert(c.text.subrange(n, n + 1) =~= seq![c.text[n]]); } }
    }
}
pub proof fn lemma_spell(c: Ctx, f: nat, t: Task) //#C06
    requires 0 <= tpos(t) <= c.text.len(),
    ensures spells(c, tpos(t), ev(c, f, t)),
    decreases f,
{
    if f > 0 {
        let g = (f - 1) as nat;
        let n = tpos(t);
        assert(c.text.subrange(n, n) =~= Seq::<char>::empty());
        assert(ys(Seq::<GNode>::empty()) =~= Seq::<char>::empty());
        match t {
            Task::Expr(e, _, pe) => match e {
                parser_expression_Expression::Simple(a) => { lemma_spell_atom(c, a, n, pe); }
                parser_expression_Expression::And(m) => { lemma_spell(c, g, Task::Seq(m.0@, n, pe)); }
                parser_expression_Expression::Or(m) => { lemma_spell(c, g, Task::Alt(m.0@, n, pe, None)); }
                parser_expression_Expression::Not(x) => {}
                parser_expression_Expression::Repeat(r) => { lemma_spell(c, g, Task::Rep(*r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe)); }
                parser_expression_Expression::RuleName(s) => { lemma_spell(c, g, Task::Rule(s@, n, pe)); }
            },
            Task::Rule(s, _, pe) => {
                if c.rules.dom().contains(s) {
                    let q = Task::Expr(c.rules[s], n, pe);
                    lemma_spell(c, g, q);
                    match ev(c, g, q) { Out::Ok(_, _, ns) => { lemma_ys1(GNode::Rule(s, ns)); } _ => {} }
                }
            }
            Task::Seq(es, _, pe) => {
                if es.len() > 0 {
                    let q = Task::Expr(es[0], n, pe);
                    lemma_spell(c, g, q);
                    match ev(c, g, q) { Out::Ok(n1, p1, ns) => {
                        let r = Task::Seq(es.skip(1), n1, p1);
                        lemma_spell(c, g, r);
                        lemma_join(c, n, n1, ns, ev(c, g, r));
                    } _ => {} }
                }
            }
            Task::Alt(es, _, pe, best) => {
                if es.len() > 0 {
                    let q = Task::Expr(es[0], n, pe);
                    lemma_spell(c, g, q);
                    match ev(c, g, q) { Out::Err(e) => { lemma_spell(c, g, Task::Alt(es.skip(1), n, pe, Some(deeper(best, e)))); } _ => {} }
                }
            }
            Task::Rep(e, min, max, k, _, pe) => {
                let q = Task::Expr(e, n, pe);
                lemma_spell(c, g, q);
                match ev(c, g, q) { Out::Ok(n1, p1, ns) => {
                    let r = Task::Rep(e, min, max, k + 1, n1, p1);
                    lemma_spell(c, g, r);
                    lemma_join(c, n, n1, ns, ev(c, g, r));
                } _ => {} }
            }
        }
    }
}
pub proof fn lemma_join(c: Ctx, n: int, n1: int, ns: Seq<GNode>, o: Out)
    requires 0 <= n <= n1 <= c.text.len(), ys(ns) == c.text.subrange(n, n1), spells(c, n1, o),
    ensures spells(c, n, prepend(ns, o)),
{
    match o { Out::Ok(n2, _, m) => { lemma_ys_add(ns, m); assert(c.text.subrange(n, n2) =~= c.text.subrange(n, n1) + c.text.subrange(n1, n2)); } _ => {} }
}
pub proof fn lemma_spell_sem(c: Ctx, t: Task) //#C06
    requires 0 <= tpos(t) <= c.text.len(),
    ensures spells(c, tpos(t), sem(c, t)),
{
    if exists|f: nat| conv(c, f, t) { lemma_spell(c, choose|f: nat| conv(c, f, t), t); }
}
/// C06: what a successful parse of the whole text yields
pub proof fn lemma_whole(c: Ctx) //#C06
    ensures match sem(c, Task::Rule("main"@, 0, None)) {
        Out::Ok(n, pe, ns) => n <= c.text.len() && ns.len() == 1 && (ns[0] matches GNode::Rule(m, _) && m == "main"@) && y1(ns[0]) == c.text.take(n),
        _ => true },
{
    let t = Task::Rule("main"@, 0, None);
    lemma_spell_sem(c, t);
    lemma_rule(c, "main"@, 0, None);
    match sem(c, t) { Out::Ok(n, pe, ns) => { assert(c.rules.dom().contains("main"@)); assert(ns.len() == 1); assert(ns =~= seq![ns[0]]); lemma_ys1(ns[0]); assert(c.text.subrange(0, n) =~= c.text.take(n)); } _ => {} }
}
