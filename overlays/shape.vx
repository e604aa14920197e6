//@ include gnode.vx
//@ include pos.vx
//@ include sem.vx
//@ include fnode.vx
//@ type parser_Status
//@ type parser_Error
//@ type ast_flat_Node
//@ import ast.vx
//@ include pegmean.vx
//@ import $gram2.vx
//@ include core.vx
//@ spec
// ------------------------------------------------------------------ what an expression makes
/// an outcome of a task is that of one step over outcomes
pub proof fn lemma_inv(c: Ctx, t: Task)
    requires sem(c, t) != Out::Div,
    ensures step(c, semf(c), t) == sem(c, t),
{
    let f = choose|f: nat| conv(c, f, t);
    assert(exists|f: nat| conv(c, f, t));
    assert(conv(c, f, t));
    let g = (f - 1) as nat;
    let a = |x: Task| ev(c, g, x);
    assert(ev(c, f, t) == step(c, a, t));
    assert forall|x: Task| #[trigger] a(x) != Out::Div implies semf(c)(x) == a(x) by { lemma_sem(c, g, x); }
    lemma_step_mono(c, a, semf(c), t);
}
pub open spec fn mkt(c: Ctx, t: Task, v: Seq<GNode>) -> bool { sem(c, t) matches Out::Ok(n, pe, w) && w == v }
pub open spec fn mke(c: Ctx, e: Ex, n: int, pe: Option<EV>, v: Seq<GNode>) -> bool { mkt(c, Task::Expr(e, n, pe), v) }
pub open spec fn mk(c: Ctx, e: Ex, v: Seq<GNode>) -> bool { exists|n: int, pe: Option<EV>| #[trigger] mke(c, e, n, pe, v) }
/// the elements of a sequence from the i-th on make the nodes from the j-th on
pub open spec fn mks(c: Ctx, es: Seq<Ex>, i: int, v: Seq<GNode>, j: int) -> bool decreases es.len() - i {
    if i >= es.len() { j == v.len() } else { exists|k: int| j <= k <= v.len() && #[trigger] mk(c, es[i], v.subrange(j, k)) && mks(c, es, i + 1, v, k) }
}
/// k iterations
pub open spec fn mkr(c: Ctx, e: Ex, k: nat, v: Seq<GNode>, j: int) -> bool decreases k {
    if k == 0 { j == v.len() } else { exists|m: int| j <= m <= v.len() && #[trigger] mk(c, e, v.subrange(j, m)) && mkr(c, e, (k - 1) as nat, v, m) }
}
pub proof fn lemma_mks_shift(c: Ctx, es: Seq<Ex>, i: int, d: int, v: Seq<GNode>, w: Seq<GNode>, a: int, j: int)
    requires 0 <= i, 0 <= d <= es.len(), 0 <= a, 0 <= j <= v.len(), w.len() == v.len() + a, w.skip(a) == v, mks(c, es.skip(d), i, v, j),
    ensures mks(c, es, i + d, w, j + a),
    decreases es.len() - i,
{
    let fs = es.skip(d);
    if i < fs.len() {
        let k = choose|k: int| j <= k <= v.len() && #[trigger] mk(c, fs[i], v.subrange(j, k)) && mks(c, fs, i + 1, v, k);
        assert(v.subrange(j, k) =~= w.subrange(j + a, k + a));
        lemma_mks_shift(c, es, i + 1, d, v, w, a, k);
        assert(mks(c, es, i + d + 1, w, k + a));
    }
}
pub proof fn lemma_mkr_shift(c: Ctx, e: Ex, k: nat, v: Seq<GNode>, w: Seq<GNode>, a: int, j: int)
    requires 0 <= a, 0 <= j <= v.len(), w.len() == v.len() + a, w.skip(a) == v, mkr(c, e, k, v, j),
    ensures mkr(c, e, k, w, j + a),
    decreases k,
{
    if k > 0 {
        let m = choose|m: int| j <= m <= v.len() && #[trigger] mk(c, e, v.subrange(j, m)) && mkr(c, e, (k - 1) as nat, v, m);
        assert(v.subrange(j, m) =~= w.subrange(j + a, m + a));
        lemma_mkr_shift(c, e, (k - 1) as nat, v, w, a, m);
    }
}
pub proof fn lemma_mks(c: Ctx, es: Seq<Ex>, n: int, pe: Option<EV>, v: Seq<GNode>)
    requires mkt(c, Task::Seq(es, n, pe), v),
    ensures mks(c, es, 0, v, 0),
    decreases es.len(),
{
    lemma_inv(c, Task::Seq(es, n, pe));
    if es.len() > 0 {
        match sem(c, Task::Expr(es[0], n, pe)) {
            Out::Ok(n1, pe1, ns) => {
                match sem(c, Task::Seq(es.skip(1), n1, pe1)) {
                    Out::Ok(n2, pe2, w) => {
                        assert(v == ns + w);
                        lemma_mks(c, es.skip(1), n1, pe1, w);
                        let k = ns.len() as int;
                        assert(v.subrange(0, k) =~= ns);
                        assert(v.skip(k) =~= w);
                        lemma_mks_shift(c, es, 0, 1, w, v, k, 0);
                        assert(mke(c, es[0], n, pe, ns));
                        assert(mk(c, es[0], v.subrange(0, k)));
                        assert(mks(c, es, 1, v, k));
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
pub open spec fn enough(k: nat, min: nat, max: Option<nat>) -> bool { k >= min || (max matches Some(x) && k >= x) }
pub open spec fn not_more(k: nat, j: nat, max: Option<nat>) -> bool { match max { Some(x) => k == 0 || k + j <= x, None => true } }
pub proof fn lemma_mkr(c: Ctx, f: nat, e: Ex, min: nat, max: Option<nat>, j: nat, n: int, pe: Option<EV>, v: Seq<GNode>) -> (k: nat)
    requires ev(c, f, Task::Rep(e, min, max, j, n, pe)) matches Out::Ok(n2, pe2, w) && w == v,
    ensures mkr(c, e, k, v, 0), enough(j + k, min, max), not_more(k, j, max),
    decreases f,
{
    let g = (f - 1) as nat;
    if max.is_some() && j >= max.unwrap() { 0 }
    else {
        let q = Task::Expr(e, n, pe);
        match ev(c, g, q) {
            Out::Err(x) => 0,
            Out::Ok(n1, pe1, ns) => {
                lemma_sem(c, g, q);
                assert(mke(c, e, n, pe, ns));
                let a = ns.len() as int;
                if max.is_none() && n1 == n && j + 1 >= min {
                    assert(v.subrange(0, a) =~= v);
                    assert(mk(c, e, v.subrange(0, a)));
                    assert(mkr(c, e, 0, v, a));
                    1
                } else {
                    match ev(c, g, Task::Rep(e, min, max, j + 1, n1, pe1)) {
                        Out::Ok(n2, pe2, w) => {
                            assert(v == ns + w);
                            let k = lemma_mkr(c, g, e, min, max, j + 1, n1, pe1, w);
                            assert(v.subrange(0, a) =~= ns);
                            assert(v.skip(a) =~= w);
                            lemma_mkr_shift(c, e, k, w, v, a, 0);
                            assert(mk(c, e, v.subrange(0, a)));
                            assert(mkr(c, e, k, v, a));
                            k + 1
                        }
                        _ => 0,
                    }
                }
            }
            Out::Div => 0,
        }
    }
}
pub open spec fn rep_of(e: Ex) -> (Ex, nat, Option<nat>) { match e { parser_expression_Expression::Repeat(r) => (*r.expression, r.min.0 as nat, maxof(r.max)), _ => arbitrary() } }
pub open spec fn items(e: Ex) -> Seq<Ex> { match e { parser_expression_Expression::And(m) => m.0@, parser_expression_Expression::Or(m) => m.0@, _ => arbitrary() } }
/// what is made, by the kind of the expression
pub proof fn lemma_mk(c: Ctx, e: Ex, v: Seq<GNode>)
    requires mk(c, e, v),
    ensures match e {
        parser_expression_Expression::Simple(a) => match a {
            parser_atom_Atom::Literal(s) => v == seq![GNode::Val(s@)],
            parser_atom_Atom::Match(m) => v.len() == 1 && (v[0] matches GNode::Val(s) && s.len() == 1 && in_class(m.0@, m.1@, s[0])),
            parser_atom_Atom::Error(_) => false,
            parser_atom_Atom::Dot => v.len() == 1 && (v[0] matches GNode::Val(s) && s.len() == 1),
            parser_atom_Atom::EOF => v == seq![GNode::EOF],
        },
        parser_expression_Expression::And(m) => mks(c, m.0@, 0, v, 0),
        parser_expression_Expression::Or(m) => exists|i: int| 0 <= i < m.0@.len() && #[trigger] mk(c, m.0@[i], v),
        parser_expression_Expression::Not(_) => v.len() == 0,
        parser_expression_Expression::Repeat(r) => exists|k: nat| #[trigger] mkr(c, *r.expression, k, v, 0) && enough(k, r.min.0 as nat, maxof(r.max)) && not_more(k, 0, maxof(r.max)),
        parser_expression_Expression::RuleName(s) => v.len() == 1 && (v[0] matches GNode::Rule(n, ch) && n == s@ && c.rules.dom().contains(n) && mk(c, c.rules[n], ch)),
    },
{
    let (n, pe) = choose|n: int, pe: Option<EV>| #[trigger] mke(c, e, n, pe, v);
    let t = Task::Expr(e, n, pe);
    lemma_inv(c, t);
    match e {
        parser_expression_Expression::Simple(a) => {}
        parser_expression_Expression::And(m) => { lemma_mks(c, m.0@, n, pe, v); }
        parser_expression_Expression::Or(m) => { let i = lemma_mka(c, m.0@, n, pe, None, v); assert(mk(c, m.0@[i], v)); }
        parser_expression_Expression::Not(_) => {}
        parser_expression_Expression::Repeat(r) => {
            let q = Task::Rep(*r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe);
            lemma_fuel(c, q, fuel(c, q));
            let k = lemma_mkr(c, fuel(c, q), *r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe, v);
        }
        parser_expression_Expression::RuleName(s) => {
            lemma_inv(c, Task::Rule(s@, n, pe));
            match sem(c, Task::Expr(c.rules[s@], n, pe)) { Out::Ok(n1, pe1, ch) => { assert(mke(c, c.rules[s@], n, pe, ch)); } _ => {} }
        }
    }
}
pub proof fn lemma_mka(c: Ctx, es: Seq<Ex>, n: int, pe: Option<EV>, best: Option<EV>, v: Seq<GNode>) -> (i: int)
    requires mkt(c, Task::Alt(es, n, pe, best), v),
    ensures 0 <= i < es.len(), mk(c, es[i], v),
    decreases es.len(),
{
    lemma_inv(c, Task::Alt(es, n, pe, best));
    if es.len() == 0 { 0 } else {
        let q = Task::Expr(es[0], n, pe);
        match sem(c, q) {
            Out::Ok(_, _, w) => { assert(mke(c, es[0], n, pe, v)); 0 }
            Out::Err(x) => { if x.crit { 0 } else { lemma_mka(c, es.skip(1), n, pe, Some(deeper(best, x)), v) + 1 } }
            _ => 0,
        }
    }
}

// ------------------------------------------------------------------ every node is made by the rule of its name
pub open spec fn from_rule(c: Ctx, g: GNode) -> bool { match g { GNode::Rule(n, ch) => c.rules.dom().contains(n) && mk(c, c.rules[n], ch), GNode::Val(_) => true, GNode::EOF => false } }
pub open spec fn from_rules(c: Ctx, v: Seq<GNode>) -> bool { forall|i: int| 0 <= i < v.len() ==> from_rule(c, #[trigger] v[i]) }
pub open spec fn noeof(e: Ex) -> bool decreases e {
    match e {
        parser_expression_Expression::Simple(a) => !(a is EOF),
        parser_expression_Expression::And(m) => forall|i: int| 0 <= i < m.0@.len() ==> noeof(#[trigger] m.0@[i]),
        parser_expression_Expression::Or(m) => forall|i: int| 0 <= i < m.0@.len() ==> noeof(#[trigger] m.0@[i]),
        parser_expression_Expression::Not(x) => noeof(*x),
        parser_expression_Expression::Repeat(r) => noeof(*r.expression),
        parser_expression_Expression::RuleName(_) => true,
    }
}
pub open spec fn noeof_rules(m: Map<Seq<char>, Ex>) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> noeof(m[k]) }
pub proof fn lemma_from(c: Ctx, e: Ex, v: Seq<GNode>)
    requires mk(c, e, v), noeof(e),
    ensures from_rules(c, v),
    decreases e, 0int,
{
    lemma_mk(c, e, v);
    match e {
        parser_expression_Expression::And(m) => { lemma_froms(c, m, 0, v, 0); }
        parser_expression_Expression::Or(m) => { let i = choose|i: int| 0 <= i < m.0@.len() && #[trigger] mk(c, m.0@[i], v); lemma_from(c, m.0@[i], v); }
        parser_expression_Expression::Repeat(r) => {
            let k = choose|k: nat| #[trigger] mkr(c, *r.expression, k, v, 0) && enough(k, r.min.0 as nat, maxof(r.max)) && not_more(k, 0, maxof(r.max));
            lemma_fromr(c, *r.expression, k, v, 0);
        }
        _ => {}
    }
}
pub proof fn lemma_froms(c: Ctx, m: parser_expression_MultiExpr, i: int, v: Seq<GNode>, j: int)
    requires forall|l: int| 0 <= l < m.0@.len() ==> noeof(#[trigger] m.0@[l]), 0 <= i, 0 <= j <= v.len(), mks(c, m.0@, i, v, j),
    ensures forall|k: int| j <= k < v.len() ==> from_rule(c, #[trigger] v[k]),
    decreases m, m.0@.len() - i,
{
    let es = m.0@;
    if i < es.len() {
        let k = choose|k: int| j <= k <= v.len() && #[trigger] mk(c, es[i], v.subrange(j, k)) && mks(c, es, i + 1, v, k);
        let w = v.subrange(j, k);
        assert(noeof(m.0@[i]));
        lemma_from(c, m.0@[i], w);
        lemma_froms(c, m, i + 1, v, k);
        assert forall|l: int| j <= l < v.len() implies from_rule(c, #[trigger] v[l]) by { if l < k { assert(v[l] == w[l - j]); } }
    }
}
pub proof fn lemma_fromr(c: Ctx, e: Ex, k: nat, v: Seq<GNode>, j: int)
    requires noeof(e), 0 <= j <= v.len(), mkr(c, e, k, v, j),
    ensures forall|l: int| j <= l < v.len() ==> from_rule(c, #[trigger] v[l]),
    decreases e, 1int, k,
{
    if k > 0 {
        let m = choose|m: int| j <= m <= v.len() && #[trigger] mk(c, e, v.subrange(j, m)) && mkr(c, e, (k - 1) as nat, v, m);
        let w = v.subrange(j, m);
        lemma_from(c, e, w);
        lemma_fromr(c, e, (k - 1) as nat, v, m);
        assert forall|l: int| j <= l < v.len() implies from_rule(c, #[trigger] v[l]) by { if l < m { assert(v[l] == w[l - j]); } }
    }
}

// ------------------------------------------------------------------ the syntax tree of a node's children
pub open spec fn cc(v: Seq<GNode>) -> Seq<GNode> { gs_prune(gs_compact(v), skipped()) }
/// of the children from the j-th on
pub open spec fn cs(v: Seq<GNode>, j: int) -> Seq<GNode> { cc(v.skip(j)) }
pub open spec fn cut_ok(a: Seq<GNode>, b: Seq<GNode>) -> bool { a.len() == 0 || b.len() == 0 || !(a.last() is Val && b[0] is Val) }
pub proof fn lemma_compact_last(v: Seq<GNode>)
    ensures v.len() == 0 <==> gs_compact(v).len() == 0, v.len() > 0 ==> (gs_compact(v).last() is Val <==> v.last() is Val),
    decreases v.len(),
{ if v.len() > 0 { lemma_compact_last(v.drop_last()); assert(g_compact(v.last()) is Val <==> v.last() is Val); } }
pub proof fn lemma_compact_add(a: Seq<GNode>, b: Seq<GNode>)
    requires cut_ok(a, b),
    ensures gs_compact(a + b) == gs_compact(a) + gs_compact(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(gs_compact(a) + gs_compact(b) =~= gs_compact(a)); }
    else {
        let d = b.drop_last();
        assert((a + b).drop_last() =~= a + d);
        assert(cut_ok(a, d)) by { if d.len() > 0 { assert(d[0] == b[0]); } }
        lemma_compact_add(a, d);
        lemma_compact_last(a); lemma_compact_last(d); lemma_compact_last(a + d);
        let n = g_compact(b.last());
        let (x, y) = (gs_compact(a), gs_compact(d));
        if d.len() == 0 { assert(a + d =~= a); assert(b[0] == b.last()); assert(x + y =~= x); assert(gs_compact(b) =~= seq![n]); assert(join1(x, n) =~= x + seq![n]); }
        else { assert((x + y).drop_last() =~= x + y.drop_last()); assert(join1(x + y, n) =~= x + join1(y, n)); }
    }
}
pub proof fn lemma_prune_add(a: Seq<GNode>, b: Seq<GNode>)
    ensures gs_prune(a + b, skipped()) == gs_prune(a, skipped()) + gs_prune(b, skipped()),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(gs_prune(a, skipped()) + gs_prune(b, skipped()) =~= gs_prune(a, skipped())); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_prune_add(a, b.drop_last());
        let (x, y) = (gs_prune(a, skipped()), gs_prune(b.drop_last(), skipped()));
        assert((x + y).push(g_prune(b.last(), skipped())) =~= x + y.push(g_prune(b.last(), skipped())));
    }
}
pub proof fn lemma_cc_add(a: Seq<GNode>, b: Seq<GNode>)
    requires cut_ok(a, b),
    ensures cc(a + b) == cc(a) + cc(b),
{ lemma_compact_add(a, b); lemma_prune_add(gs_compact(a), gs_compact(b)); }
pub open spec fn skips(g: GNode) -> bool { g matches GNode::Rule(n, _) && skipped().contains(n) }
pub proof fn lemma_cc1(g: GNode)
    ensures cc(seq![g]) == if skips(g) { Seq::<GNode>::empty() } else { seq![core(g)] },
{
    let v = seq![g];
    assert(v.drop_last() =~= Seq::<GNode>::empty());
    let w = gs_compact(v);
    let n = g_compact(g);
    assert(v.last() == g);
    assert(gs_compact(v.drop_last()) =~= Seq::<GNode>::empty());
    assert(join1(Seq::<GNode>::empty(), n) =~= seq![n]);
    assert(w =~= seq![n]);
    assert(skips(g) == g_listed(n, skipped()));
    assert(w.drop_last() =~= Seq::<GNode>::empty());
    assert(w.last() == n);
    assert(gs_prune(w.drop_last(), skipped()) =~= Seq::<GNode>::empty());
    assert(core(g) == g_prune(n, skipped()));
    assert(Seq::<GNode>::empty().push(core(g)) =~= seq![core(g)]);
}
/// the j-th child
pub proof fn lemma_cs1(v: Seq<GNode>, j: int)
    requires 0 <= j < v.len(), v[j] is Rule || j + 1 == v.len() || !(v[j + 1] is Val),
    ensures cs(v, j) == if skips(v[j]) { cs(v, j + 1) } else { seq![core(v[j])] + cs(v, j + 1) },
{
    let (a, b) = (seq![v[j]], v.skip(j + 1));
    assert(v.skip(j) =~= a + b);
    lemma_cc_add(a, b);
    lemma_cc1(v[j]);
    assert(Seq::<GNode>::empty() + cc(b) =~= cc(b));
}
pub proof fn lemma_cs0(v: Seq<GNode>)
    ensures cs(v, 0) == cc(v), cs(v, v.len() as int) == Seq::<GNode>::empty(),
{ assert(v.skip(0) =~= v); assert(v.skip(v.len() as int) =~= Seq::<GNode>::empty()); }
/// every node kept is text, or what a child becomes
pub open spec fn stems(v: Seq<GNode>, g: GNode) -> bool { g is Val || exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Rule && !skips(v[j]) && core(v[j]) == g }
pub open spec fn from1(v: Seq<GNode>, g: GNode) -> bool { g is Val || exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Rule && g_compact(v[j]) == g }
pub proof fn lemma_from1(v: Seq<GNode>)
    requires forall|i: int| 0 <= i < v.len() ==> !((#[trigger] v[i]) is EOF),
    ensures forall|i: int| 0 <= i < gs_compact(v).len() ==> from1(v, #[trigger] gs_compact(v)[i]),
    decreases v.len(),
{
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies !((#[trigger] d[i]) is EOF) by { assert(d[i] == v[i]); }
        lemma_from1(d);
        let (h, w) = (gs_compact(d), gs_compact(v));
        assert forall|i: int| 0 <= i < w.len() implies from1(v, #[trigger] w[i]) by {
            if i < h.len() && w[i] == h[i] { assert(from1(d, h[i])); if !(h[i] is Val) { let j = choose|j: int| 0 <= j < d.len() && (#[trigger] d[j]) is Rule && g_compact(d[j]) == h[i]; assert(v[j] == d[j]); } }
            else if !(w[i] is Val) { assert(w[i] == g_compact(v[v.len() - 1])); }
        }
    }
}
pub proof fn lemma_stems2(v: Seq<GNode>, w: Seq<GNode>)
    requires forall|i: int| 0 <= i < w.len() ==> from1(v, #[trigger] w[i]),
    ensures forall|i: int| 0 <= i < gs_prune(w, skipped()).len() ==> stems(v, #[trigger] gs_prune(w, skipped())[i]),
    decreases w.len(),
{
    if w.len() > 0 {
        let d = w.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies from1(v, #[trigger] d[i]) by { assert(d[i] == w[i]); }
        lemma_stems2(v, d);
        let (h, r) = (gs_prune(d, skipped()), gs_prune(w, skipped()));
        assert forall|i: int| 0 <= i < r.len() implies stems(v, #[trigger] r[i]) by {
            if i < h.len() { assert(stems(v, h[i])); assert(r[i] == h[i]); }
            else {
                let l = w[w.len() - 1];
                assert(from1(v, l));
                if l is Val { assert(g_prune(l, skipped()) == l); }
                else {
                    let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Rule && g_compact(v[j]) == l;
                    assert(v[j] is Rule && !skips(v[j]) && core(v[j]) == r[i]);
                }
            }
        }
    }
}
pub proof fn lemma_stems(v: Seq<GNode>)
    requires forall|i: int| 0 <= i < v.len() ==> !((#[trigger] v[i]) is EOF),
    ensures forall|i: int| 0 <= i < cc(v).len() ==> stems(v, #[trigger] cc(v)[i]),
{ lemma_from1(v); lemma_stems2(v, gs_compact(v)); }
pub open spec fn vals(v: Seq<GNode>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Val }
/// a run of characters is one text
pub proof fn lemma_run(v: Seq<GNode>)
    requires vals(v), v.len() > 0,
    ensures cc(v).len() == 1, cc(v)[0] is Val,
{
    lemma_run1(v);
    let w = gs_compact(v);
    assert(w =~= seq![w[0]]);
    lemma_prune1(w[0]);
}
pub proof fn lemma_prune1(g: GNode)
    requires g is Val,
    ensures gs_prune(seq![g], skipped()) == seq![g],
{ let v = seq![g]; assert(v.drop_last() =~= Seq::<GNode>::empty()); assert(v.last() == g); assert(g_prune(g, skipped()) == g); assert(gs_prune(v.drop_last(), skipped()) =~= Seq::<GNode>::empty()); assert(Seq::<GNode>::empty().push(g) =~= v); }
pub proof fn lemma_run1(v: Seq<GNode>)
    requires vals(v), v.len() > 0,
    ensures gs_compact(v).len() == 1, gs_compact(v)[0] is Val,
    decreases v.len(),
{
    let d = v.drop_last();
    assert(v[v.len() - 1] is Val);
    assert(g_compact(v.last()) == v.last());
    if d.len() > 0 { assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Val by { assert(d[i] == v[i]); } lemma_run1(d); }
}
/// three characters
pub proof fn lemma_run3(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures cc(seq![GNode::Val(a), GNode::Val(b), GNode::Val(c)]) == seq![GNode::Val(a + b + c)],
{
    let (x, y, z) = (GNode::Val(a), GNode::Val(b), GNode::Val(c));
    let v = seq![x, y, z];
    assert(v.drop_last() =~= seq![x, y]);
    assert(seq![x, y].drop_last() =~= seq![x]);
    assert(seq![x].drop_last() =~= Seq::<GNode>::empty());
    assert(gs_compact(seq![x]) =~= seq![x]) by { reveal_with_fuel(gs_compact, 2); }
    assert(g_compact(y) == y && g_compact(z) == z);
    assert(gs_compact(seq![x, y]) =~= seq![GNode::Val(a + b)]);
    assert(gs_compact(v) =~= seq![GNode::Val(a + b + c)]);
    lemma_prune1(GNode::Val(a + b + c));
}

// ------------------------------------------------------------------ reading a sequence off
pub open spec fn sref(e: Ex, s: Seq<char>) -> bool { e matches parser_expression_Expression::RuleName(x) && x@ == s }
pub open spec fn slit(e: Ex, s: Seq<char>) -> bool { e matches parser_expression_Expression::Simple(parser_atom_Atom::Literal(x)) && x@ == s }
pub open spec fn sany(e: Ex) -> bool { e matches parser_expression_Expression::Simple(x) && (x is Dot || x is Match) }
pub proof fn c_any(c: Ctx, es: Seq<Ex>, i: int, v: Seq<GNode>, j: int) -> (k: int)
    requires mks(c, es, i, v, j), 0 <= i < es.len(), 0 <= j <= v.len(),
    ensures j <= k <= v.len(), mk(c, es[i], v.subrange(j, k)), mks(c, es, i + 1, v, k),
{ choose|k: int| j <= k <= v.len() && #[trigger] mk(c, es[i], v.subrange(j, k)) && mks(c, es, i + 1, v, k) }
pub proof fn c_ref(c: Ctx, es: Seq<Ex>, i: int, v: Seq<GNode>, j: int, s: Seq<char>)
    requires mks(c, es, i, v, j), 0 <= i < es.len(), 0 <= j <= v.len(), sref(es[i], s),
    ensures j < v.len(), is(v[j], s), mks(c, es, i + 1, v, j + 1),
{ let k = c_any(c, es, i, v, j); let w = v.subrange(j, k); lemma_mk(c, es[i], w); assert(v[j] == w[0]); }
pub proof fn c_lit(c: Ctx, es: Seq<Ex>, i: int, v: Seq<GNode>, j: int, s: Seq<char>)
    requires mks(c, es, i, v, j), 0 <= i < es.len(), 0 <= j <= v.len(), slit(es[i], s),
    ensures j < v.len(), v[j] == GNode::Val(s), mks(c, es, i + 1, v, j + 1),
{ let k = c_any(c, es, i, v, j); let w = v.subrange(j, k); lemma_mk(c, es[i], w); let q = seq![GNode::Val(s)]; assert(q.len() == 1 && q[0] == GNode::Val(s)); assert(w == q); assert(v[j] == w[0]); }
pub proof fn c_char(c: Ctx, es: Seq<Ex>, i: int, v: Seq<GNode>, j: int)
    requires mks(c, es, i, v, j), 0 <= i < es.len(), 0 <= j <= v.len(), sany(es[i]),
    ensures j < v.len(), v[j] matches GNode::Val(s) && s.len() == 1 && (es[i] matches parser_expression_Expression::Simple(parser_atom_Atom::Match(m)) ==> in_class(m.0@, m.1@, s[0])), mks(c, es, i + 1, v, j + 1),
{ let k = c_any(c, es, i, v, j); let w = v.subrange(j, k); lemma_mk(c, es[i], w); assert(v[j] == w[0]); }
pub proof fn c_not(c: Ctx, es: Seq<Ex>, i: int, v: Seq<GNode>, j: int)
    requires mks(c, es, i, v, j), 0 <= i < es.len(), 0 <= j <= v.len(), es[i] is Not,
    ensures mks(c, es, i + 1, v, j),
{ let k = c_any(c, es, i, v, j); lemma_mk(c, es[i], v.subrange(j, k)); }
/// a repetition of something that is one node each time
pub proof fn c_rep(c: Ctx, e: Ex, k: nat, v: Seq<GNode>, j: int, p: spec_fn(GNode) -> bool)
    requires mkr(c, e, k, v, j), 0 <= j <= v.len(), forall|w: Seq<GNode>| #[trigger] mk(c, e, w) ==> w.len() == 1 && p(w[0]),
    ensures v.len() - j == k, forall|l: int| j <= l < v.len() ==> p(#[trigger] v[l]),
    decreases k,
{
    if k > 0 {
        let m = choose|m: int| j <= m <= v.len() && #[trigger] mk(c, e, v.subrange(j, m)) && mkr(c, e, (k - 1) as nat, v, m);
        let w = v.subrange(j, m);
        assert(mk(c, e, w));
        c_rep(c, e, (k - 1) as nat, v, m, p);
        assert(v[j] == w[0]);
    }
}
/// a repetition
pub proof fn c_star(c: Ctx, e: Ex, v: Seq<GNode>, p: spec_fn(GNode) -> bool) -> (k: nat)
    requires e matches parser_expression_Expression::Repeat(r) && mk(c, e, v) && forall|w: Seq<GNode>| #[trigger] mk(c, *r.expression, w) ==> w.len() == 1 && p(w[0]),
    ensures v.len() == k, forall|l: int| 0 <= l < v.len() ==> p(#[trigger] v[l]), e matches parser_expression_Expression::Repeat(r) && enough(k, r.min.0 as nat, maxof(r.max)) && not_more(k, 0, maxof(r.max)),
{
    lemma_mk(c, e, v);
    match e {
        parser_expression_Expression::Repeat(r) => {
            let k = choose|k: nat| #[trigger] mkr(c, *r.expression, k, v, 0) && enough(k, r.min.0 as nat, maxof(r.max)) && not_more(k, 0, maxof(r.max));
            c_rep(c, *r.expression, k, v, 0, p);
            k
        }
        _ => 0,
    }
}

// ------------------------------------------------------------------ rule by rule: the children of a node
#[verifier::opaque]
pub open spec fn doc(c: Ctx) -> bool { published(c.rules) }
pub open spec fn kept(v: Seq<GNode>, j: int, s: Seq<char>) -> bool { 0 <= j < v.len() && is(v[j], s) }
pub proof fn lemma_skips(g: GNode)
    ensures
        is(g, "_"@) || is(g, "_1"@) || is(g, "_eol"@) ==> skips(g),
        is(g, "rule_name"@) || is(g, "expr"@) || is(g, "grammar"@) || is(g, "mod_name"@) || is(g, "symbol"@) || is(g, "rule"@) || is(g, "module"@)
            || is(g, "or"@) || is(g, "error"@) || is(g, "and"@) || is(g, "rep_or_neg"@) || is(g, "atom_or_par"@) || is(g, "parenth"@) || is(g, "atom"@)
            || is(g, "literal"@) || is(g, "lit_noesc"@) || is(g, "_'"@) || is(g, "lit_esc"@) || is(g, "_\""@) || is(g, "esc_char"@) || is(g, "hex_char"@)
            || is(g, "match"@) || is(g, "mchars"@) || is(g, "mbetween"@) || is(g, "dot"@) || g is Val ==> !skips(g),
        g is Val ==> core(g) == g,
        forall|s: Seq<char>| #[trigger] is(g, s) ==> is(core(g), s),
{
    lemma_names();
    let k = skipped();
    assert(k.len() == 3 && k[0] == "_"@ && k[1] == "_1"@ && k[2] == "_eol"@);
    if g is Val { assert(g_compact(g) == g); }
    match g { GNode::Rule(n, ch) => { assert(g_compact(g) == GNode::Rule(n, gs_compact(ch))); assert(core(g) == GNode::Rule(n, cc(ch))); } _ => {} }
}
/// the next child is a token or a node that stays
pub proof fn k1(v: Seq<GNode>, j: int)
    requires 0 <= j < v.len(), v[j] is Rule || j + 1 == v.len() || v[j + 1] is Rule,
    ensures
        is(v[j], "_"@) || is(v[j], "_1"@) || is(v[j], "_eol"@) ==> cs(v, j) == cs(v, j + 1),
        !skips(v[j]) ==> cs(v, j) == seq![core(v[j])] + cs(v, j + 1),
{ lemma_cs1(v, j); lemma_skips(v[j]); }
pub proof fn r_one(c: Ctx, e: Ex, v: Seq<GNode>, s: Seq<char>)
    requires mk(c, e, v), sref(e, s),
    ensures v.len() == 1, is(v[0], s), !skips(v[0]) ==> cc(v) == seq![core(v[0])] && is(core(v[0]), s),
{ lemma_mk(c, e, v); lemma_cs1(v, 0); lemma_cs0(v); lemma_skips(v[0]); assert(seq![core(v[0])] + Seq::<GNode>::empty() =~= seq![core(v[0])]); }
pub proof fn p_main(c: Ctx) requires doc(c) ensures pg_0(c.rules["main"@]) { reveal(doc); }
pub proof fn p_grammar(c: Ctx) requires doc(c) ensures pg_1(c.rules["grammar"@]) { reveal(doc); }
pub proof fn p_module(c: Ctx) requires doc(c) ensures pg_2(c.rules["module"@]) { reveal(doc); }
pub proof fn p_mod_name(c: Ctx) requires doc(c) ensures pg_3(c.rules["mod_name"@]) { reveal(doc); }
pub proof fn p_symbol(c: Ctx) requires doc(c) ensures pg_4(c.rules["symbol"@]) { reveal(doc); }
pub proof fn p_rule(c: Ctx) requires doc(c) ensures pg_5(c.rules["rule"@]) { reveal(doc); }
pub proof fn p_rule_name(c: Ctx) requires doc(c) ensures pg_6(c.rules["rule_name"@]) { reveal(doc); }
pub proof fn p_expr(c: Ctx) requires doc(c) ensures pg_7(c.rules["expr"@]) { reveal(doc); }
pub proof fn p_or(c: Ctx) requires doc(c) ensures pg_8(c.rules["or"@]) { reveal(doc); }
pub proof fn p_error(c: Ctx) requires doc(c) ensures pg_9(c.rules["error"@]) { reveal(doc); }
pub proof fn p_and(c: Ctx) requires doc(c) ensures pg_10(c.rules["and"@]) { reveal(doc); }
pub proof fn p_rep_or_neg(c: Ctx) requires doc(c) ensures pg_12(c.rules["rep_or_neg"@]) { reveal(doc); }
pub proof fn p_atom_or_par(c: Ctx) requires doc(c) ensures pg_13(c.rules["atom_or_par"@]) { reveal(doc); }
pub proof fn p_parenth(c: Ctx) requires doc(c) ensures pg_14(c.rules["parenth"@]) { reveal(doc); }
pub proof fn p_atom(c: Ctx) requires doc(c) ensures pg_15(c.rules["atom"@]) { reveal(doc); }
pub proof fn p_literal(c: Ctx) requires doc(c) ensures pg_16(c.rules["literal"@]) { reveal(doc); }
pub proof fn p_lit_noesc(c: Ctx) requires doc(c) ensures pg_17(c.rules["lit_noesc"@]) { reveal(doc); }
pub proof fn p_q1(c: Ctx) requires doc(c) ensures pg_18(c.rules["_'"@]) { reveal(doc); }
pub proof fn p_lit_esc(c: Ctx) requires doc(c) ensures pg_19(c.rules["lit_esc"@]) { reveal(doc); }
pub proof fn p_q2(c: Ctx) requires doc(c) ensures pg_20(c.rules["_\""@]) { reveal(doc); }
pub proof fn p_esc_char(c: Ctx) requires doc(c) ensures pg_21(c.rules["esc_char"@]) { reveal(doc); }
pub proof fn p_hex_char(c: Ctx) requires doc(c) ensures pg_22(c.rules["hex_char"@]) { reveal(doc); }
pub proof fn p_match(c: Ctx) requires doc(c) ensures pg_25(c.rules["match"@]) { reveal(doc); }
pub proof fn p_mchars(c: Ctx) requires doc(c) ensures pg_26(c.rules["mchars"@]) { reveal(doc); }
pub proof fn p_mbetween(c: Ctx) requires doc(c) ensures pg_27(c.rules["mbetween"@]) { reveal(doc); }
pub proof fn p_dot(c: Ctx) requires doc(c) ensures pg_28(c.rules["dot"@]) { reveal(doc); }
pub proof fn lemma_doc(c: Ctx)
    requires doc(c),
    ensures noeof_rules(c.rules),
{ reveal(doc); lemma_noeof_rules(c.rules); }

pub proof fn s_main(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["main"@], v),
    ensures cc(v).len() == 1, is(cc(v)[0], "grammar"@),
{ p_main(c); r_one(c, c.rules["main"@], v, "grammar"@); lemma_skips(v[0]); }
pub proof fn s_mod_name(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["mod_name"@], v),
    ensures cc(v).len() == 1, is(cc(v)[0], "symbol"@),
{ p_mod_name(c); r_one(c, c.rules["mod_name"@], v, "symbol"@); lemma_skips(v[0]); }
pub proof fn s_expr(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["expr"@], v),
    ensures cc(v).len() == 1, is(cc(v)[0], "or"@),
{ p_expr(c); r_one(c, c.rules["expr"@], v, "or"@); lemma_skips(v[0]); }
pub proof fn s_rule(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["rule"@], v),
    ensures cc(v).len() == 3, is(cc(v)[0], "rule_name"@), cc(v)[1] == GNode::Val("="@), is(cc(v)[2], "expr"@),
{
    p_rule(c);
    let e = c.rules["rule"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_ref(c, es, 0, v, 0, "_"@); c_ref(c, es, 1, v, 1, "rule_name"@); c_ref(c, es, 2, v, 2, "_"@); c_lit(c, es, 3, v, 3, "="@);
    c_ref(c, es, 4, v, 4, "_"@); c_ref(c, es, 5, v, 5, "expr"@); c_ref(c, es, 6, v, 6, "_eol"@); c_ref(c, es, 7, v, 7, "_"@);
    assert(v.len() == 8);
    lemma_cs0(v);
    lemma_skips(v[1]); lemma_skips(v[3]); lemma_skips(v[5]);
    k1(v, 0); k1(v, 1); k1(v, 2); k1(v, 3); k1(v, 4); k1(v, 5); k1(v, 6); k1(v, 7);
}
pub proof fn s_module(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["module"@], v),
    ensures cc(v).len() == 4, is(cc(v)[0], "mod_name"@), cc(v)[1] == GNode::Val("{"@), is(cc(v)[2], "grammar"@), cc(v)[3] == GNode::Val("}"@),
{
    p_module(c);
    let e = c.rules["module"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_ref(c, es, 0, v, 0, "_"@); c_ref(c, es, 1, v, 1, "mod_name"@); c_ref(c, es, 2, v, 2, "_"@); c_lit(c, es, 3, v, 3, "{"@);
    c_ref(c, es, 4, v, 4, "_"@); c_ref(c, es, 5, v, 5, "grammar"@); c_ref(c, es, 6, v, 6, "_"@); c_lit(c, es, 7, v, 7, "}"@); c_ref(c, es, 8, v, 8, "_eol"@); c_ref(c, es, 9, v, 9, "_"@);
    assert(v.len() == 10);
    lemma_cs0(v);
    lemma_skips(v[1]); lemma_skips(v[3]); lemma_skips(v[5]); lemma_skips(v[7]);
    k1(v, 0); k1(v, 1); k1(v, 2); k1(v, 3); k1(v, 4); k1(v, 5); k1(v, 6); k1(v, 7); k1(v, 8); k1(v, 9);
}
pub proof fn s_error(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["error"@], v),
    ensures cc(v).len() == 4, cc(v)[0] == GNode::Val("error"@), cc(v)[1] == GNode::Val("("@), is(cc(v)[2], "literal"@), cc(v)[3] == GNode::Val(")"@),
{
    p_error(c);
    let e = c.rules["error"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_lit(c, es, 0, v, 0, "error"@); c_ref(c, es, 1, v, 1, "_"@); c_lit(c, es, 2, v, 2, "("@); c_ref(c, es, 3, v, 3, "_"@);
    c_ref(c, es, 4, v, 4, "literal"@); c_ref(c, es, 5, v, 5, "_"@); c_lit(c, es, 6, v, 6, ")"@);
    assert(v.len() == 7);
    lemma_cs0(v);
    lemma_skips(v[0]); lemma_skips(v[2]); lemma_skips(v[4]); lemma_skips(v[6]);
    k1(v, 0); k1(v, 1); k1(v, 2); k1(v, 3); k1(v, 4); k1(v, 5); k1(v, 6);
}
/// something optional
pub proof fn c_opt(c: Ctx, e: Ex, v: Seq<GNode>)
    requires mk(c, e, v), e matches parser_expression_Expression::Repeat(r) && maxof(r.max) == Some(1nat),
    ensures v.len() == 0 || (e matches parser_expression_Expression::Repeat(r) && mk(c, *r.expression, v)),
{
    lemma_mk(c, e, v);
    match e {
        parser_expression_Expression::Repeat(r) => {
            let k = choose|k: nat| #[trigger] mkr(c, *r.expression, k, v, 0) && enough(k, r.min.0 as nat, maxof(r.max)) && not_more(k, 0, maxof(r.max));
            if k == 1 {
                let m = choose|m: int| 0 <= m <= v.len() && #[trigger] mk(c, *r.expression, v.subrange(0, m)) && mkr(c, *r.expression, (k - 1) as nat, v, m);
                assert(v.subrange(0, m) =~= v);
            }
        }
        _ => {}
    }
}
/// which alternative it was
pub proof fn c_alt(c: Ctx, e: Ex, v: Seq<GNode>) -> (i: int)
    requires mk(c, e, v), e is Or,
    ensures 0 <= i < items(e).len(), mk(c, items(e)[i], v),
{ lemma_mk(c, e, v); choose|i: int| 0 <= i < items(e).len() && #[trigger] mk(c, items(e)[i], v) }
pub proof fn r_lit(c: Ctx, e: Ex, v: Seq<GNode>, s: Seq<char>)
    requires mk(c, e, v), slit(e, s),
    ensures v.len() == 1, v[0] == GNode::Val(s), cc(v) == seq![GNode::Val(s)],
{
    lemma_mk(c, e, v);
    let q = seq![GNode::Val(s)];
    assert(q.len() == 1 && q[0] == GNode::Val(s));
    assert(v == q);
    lemma_cc1(GNode::Val(s)); lemma_skips(GNode::Val(s));
}
pub open spec fn plain(v: Seq<GNode>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Rule && !skips(v[i]) }
pub proof fn lemma_plain(v: Seq<GNode>)
    requires plain(v),
    ensures cc(v).len() == v.len(), forall|i: int| 0 <= i < v.len() ==> cc(v)[i] == core(#[trigger] v[i]),
    decreases v.len(),
{
    lemma_cs0(v);
    if v.len() > 0 {
        let d = v.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Rule && !skips(d[i]) by { assert(d[i] == v[i]); }
        lemma_plain(d);
        assert(v[v.len() - 1] is Rule);
        let l = seq![v[v.len() - 1]];
        assert(v =~= d + l);
        lemma_cc_add(d, l);
        lemma_cc1(v[v.len() - 1]);
        assert forall|i: int| 0 <= i < v.len() implies cc(v)[i] == core(#[trigger] v[i]) by { if i < d.len() { assert(d[i] == v[i]); } }
    }
}
/// something between two tokens
pub proof fn lemma_wrap(v: Seq<GNode>, k: int)
    requires 1 <= k, k + 1 == v.len(), !skips(v[0]), !skips(v[k]), v[0] is Rule || !(v[1] is Val), v[k] is Rule || !(v[k - 1] is Val),
    ensures cc(v) == seq![core(v[0])] + cc(v.subrange(1, k)) + seq![core(v[k])],
{
    let (m, z) = (v.subrange(1, k), seq![v[k]]);
    lemma_cs0(v);
    lemma_cs1(v, 0);
    assert(v.skip(1) =~= m + z);
    lemma_cc_add(m, z);
    lemma_cc1(v[k]);
    assert(seq![core(v[0])] + (cc(m) + seq![core(v[k])]) =~= seq![core(v[0])] + cc(m) + seq![core(v[k])]);
}
pub proof fn s_or(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["or"@], v),
    ensures cc(v).len() == 1 && is(cc(v)[0], "and"@) || cc(v).len() == 3 && is(cc(v)[0], "and"@) && cc(v)[1] == GNode::Val("/"@) && is(cc(v)[2], "or"@),
{
    p_or(c);
    let e = c.rules["or"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_ref(c, es, 0, v, 0, "and"@);
    let k = c_any(c, es, 1, v, 1);
    let w = v.subrange(1, k);
    c_opt(c, es[1], w);
    lemma_cs0(v);
    lemma_skips(v[0]);
    if w.len() == 0 { k1(v, 0); }
    else {
        let x = rep_of(es[1]).0;
        let xs = items(x);
        lemma_mk(c, x, w);
        c_ref(c, xs, 0, w, 0, "_"@); c_lit(c, xs, 1, w, 1, "/"@); c_ref(c, xs, 2, w, 2, "_"@); c_ref(c, xs, 3, w, 3, "or"@);
        assert(w.len() == 4);
        assert(v[1] == w[0] && v[2] == w[1] && v[3] == w[2] && v[4] == w[3]);
        lemma_skips(v[2]); lemma_skips(v[4]);
        k1(v, 0); k1(v, 1); k1(v, 2); k1(v, 3); k1(v, 4);
    }
}
/// what follows the first element of a sequence
pub proof fn s_ands(c: Ctx, e: Ex, k: nat, v: Seq<GNode>, j: int)
    requires mkr(c, e, k, v, j), 0 <= j <= v.len(),
        e is And, items(e).len() == 4, sref(items(e)[0], "_1"@), sref(items(e)[1], "_"@), items(e)[2] is Not, sref(items(e)[3], "and"@),
    ensures forall|i: int| 0 <= i < cs(v, j).len() ==> is(#[trigger] cs(v, j)[i], "and"@), j < v.len() ==> v[j] is Rule,
    decreases k,
{
    lemma_cs0(v);
    if k > 0 {
        let m = choose|m: int| j <= m <= v.len() && #[trigger] mk(c, e, v.subrange(j, m)) && mkr(c, e, (k - 1) as nat, v, m);
        let w = v.subrange(j, m);
        let es = items(e);
        lemma_mk(c, e, w);
        c_ref(c, es, 0, w, 0, "_1"@); c_ref(c, es, 1, w, 1, "_"@); c_not(c, es, 2, w, 2); c_ref(c, es, 3, w, 2, "and"@);
        assert(w.len() == 3);
        assert(v[j] == w[0] && v[j + 1] == w[1] && v[j + 2] == w[2]);
        s_ands(c, e, (k - 1) as nat, v, m);
        lemma_skips(v[j + 2]);
        k1(v, j); k1(v, j + 1); k1(v, j + 2);
        let (a, b) = (cs(v, j), cs(v, j + 3));
        assert forall|i: int| 0 <= i < a.len() implies is(#[trigger] a[i], "and"@) by { if i > 0 { assert(a[i] == b[i - 1]); } }
    }
}
pub open spec fn all_is(v: Seq<GNode>, i: int, s: Seq<char>) -> bool { forall|k: int| i <= k < v.len() ==> is(#[trigger] v[k], s) }
pub proof fn s_and(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["and"@], v),
    ensures cc(v).len() == 1 && is(cc(v)[0], "error"@) || cc(v).len() > 0 && is(cc(v)[0], "rep_or_neg"@) && all_is(cc(v), 1, "and"@),
{
    p_and(c);
    let e = c.rules["and"@];
    let i = c_alt(c, e, v);
    let x = items(e)[i];
    if i == 0 { r_one(c, x, v, "error"@); lemma_skips(v[0]); }
    else {
        let es = items(x);
        lemma_mk(c, x, v);
        c_ref(c, es, 0, v, 0, "rep_or_neg"@);
        let k = c_any(c, es, 1, v, 1);
        let w = v.subrange(1, k);
        lemma_mk(c, es[1], w);
        let y = rep_of(es[1]).0;
        let n = choose|n: nat| #[trigger] mkr(c, y, n, w, 0) && enough(n, rep_of(es[1]).1, rep_of(es[1]).2) && not_more(n, 0, rep_of(es[1]).2);
        s_ands(c, y, n, w, 0);
        assert(v.skip(1) =~= w);
        lemma_cs0(v); lemma_cs0(w);
        lemma_skips(v[0]);
        k1(v, 0);
        assert forall|l: int| 1 <= l < cc(v).len() implies is(#[trigger] cc(v)[l], "and"@) by { assert(cc(v)[l] == cs(w, 0)[l - 1]); }
    }
}
pub proof fn s_rep_or_neg(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["rep_or_neg"@], v),
    ensures
        cc(v).len() == 1 && is(cc(v)[0], "atom_or_par"@)
        || cc(v).len() == 2 && cc(v)[0] == GNode::Val("!"@) && is(cc(v)[1], "atom_or_par"@)
        || cc(v).len() == 2 && is(cc(v)[0], "atom_or_par"@) && (cc(v)[1] == GNode::Val("*"@) || cc(v)[1] == GNode::Val("+"@) || cc(v)[1] == GNode::Val("?"@)),
{
    p_rep_or_neg(c);
    let e = c.rules["rep_or_neg"@];
    let i = c_alt(c, e, v);
    let x = items(e)[i];
    let es = items(x);
    lemma_mk(c, x, v);
    lemma_cs0(v);
    if i == 0 {
        c_ref(c, es, 0, v, 0, "atom_or_par"@);
        let k = c_any(c, es, 1, v, 1);
        let w = v.subrange(1, k);
        c_opt(c, es[1], w);
        lemma_skips(v[0]);
        if w.len() == 0 { k1(v, 0); }
        else {
            let y = rep_of(es[1]).0;
            let n = c_alt(c, y, w);
            if n == 0 { r_lit(c, items(y)[n], w, "*"@); } else if n == 1 { r_lit(c, items(y)[n], w, "+"@); } else { r_lit(c, items(y)[n], w, "?"@); }
            assert(v[1] == w[0]);
            lemma_skips(v[1]);
            k1(v, 0); k1(v, 1);
        }
    } else {
        c_lit(c, es, 0, v, 0, "!"@); c_ref(c, es, 1, v, 1, "atom_or_par"@);
        assert(v.len() == 2);
        lemma_skips(v[0]); lemma_skips(v[1]);
        k1(v, 0); k1(v, 1);
    }
}
pub proof fn s_atom_or_par(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["atom_or_par"@], v),
    ensures cc(v).len() == 1, is(cc(v)[0], "atom"@) || is(cc(v)[0], "parenth"@),
{
    p_atom_or_par(c);
    let e = c.rules["atom_or_par"@];
    let i = c_alt(c, e, v);
    if i == 0 { r_one(c, items(e)[i], v, "atom"@); } else { r_one(c, items(e)[i], v, "parenth"@); }
    lemma_skips(v[0]);
}
pub proof fn s_parenth(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["parenth"@], v),
    ensures cc(v).len() == 3, cc(v)[0] == GNode::Val("("@), is(cc(v)[1], "expr"@), cc(v)[2] == GNode::Val(")"@),
{
    p_parenth(c);
    let e = c.rules["parenth"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_lit(c, es, 0, v, 0, "("@); c_ref(c, es, 1, v, 1, "_"@); c_ref(c, es, 2, v, 2, "expr"@); c_ref(c, es, 3, v, 3, "_"@);
    let k = c_any(c, es, 4, v, 4);
    let w = v.subrange(4, k);
    let i = c_alt(c, es[4], w);
    if i == 0 { r_lit(c, items(es[4])[i], w, ")"@); } else { lemma_mk(c, items(es[4])[i], w); }
    assert(v[4] == w[0]);
    assert(v.len() == 5);
    lemma_cs0(v);
    lemma_skips(v[0]); lemma_skips(v[2]); lemma_skips(v[4]);
    k1(v, 0); k1(v, 1); k1(v, 2); k1(v, 3); k1(v, 4);
}
pub proof fn s_atom(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["atom"@], v),
    ensures cc(v).len() == 1, is(cc(v)[0], "literal"@) || is(cc(v)[0], "match"@) || is(cc(v)[0], "rule_name"@) || is(cc(v)[0], "dot"@),
{
    p_atom(c);
    let e = c.rules["atom"@];
    let i = c_alt(c, e, v);
    let x = items(e)[i];
    if i == 0 { r_one(c, x, v, "literal"@); } else if i == 1 { r_one(c, x, v, "match"@); } else if i == 2 { r_one(c, x, v, "rule_name"@); } else { r_one(c, x, v, "dot"@); }
    lemma_skips(v[0]);
}
pub proof fn s_literal(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["literal"@], v),
    ensures cc(v).len() == 1, is(cc(v)[0], "lit_noesc"@) || is(cc(v)[0], "lit_esc"@),
{
    p_literal(c);
    let e = c.rules["literal"@];
    let i = c_alt(c, e, v);
    if i == 0 { r_one(c, items(e)[i], v, "lit_noesc"@); } else { r_one(c, items(e)[i], v, "lit_esc"@); }
    lemma_skips(v[0]);
}
pub proof fn s_dot(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["dot"@], v),
    ensures cc(v) == seq![GNode::Val("."@)],
{ p_dot(c); r_lit(c, c.rules["dot"@], v, "."@); }
pub proof fn s_q1(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["_'"@], v),
    ensures cc(v) == seq![GNode::Val("'"@)],
{ p_q1(c); r_lit(c, c.rules["_'"@], v, "'"@); }
pub proof fn s_q2(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["_\""@], v),
    ensures cc(v) == seq![GNode::Val("\""@)],
{ p_q2(c); r_lit(c, c.rules["_\""@], v, "\""@); }
/// any character that something else does not forbid
pub proof fn c_unless(c: Ctx, e: Ex, w: Seq<GNode>)
    requires mk(c, e, w), e is And, items(e).len() > 0, forall|i: int| 0 <= i < items(e).len() - 1 ==> (#[trigger] items(e)[i]) is Not, sany(items(e).last()),
    ensures w.len() == 1, w[0] is Val,
{
    lemma_mk(c, e, w);
    c_nots(c, items(e), 0, w);
}
pub proof fn c_nots(c: Ctx, es: Seq<Ex>, i: int, w: Seq<GNode>)
    requires 0 <= i < es.len(), mks(c, es, i, w, 0), forall|i: int| 0 <= i < es.len() - 1 ==> (#[trigger] es[i]) is Not, sany(es.last()),
    ensures w.len() == 1, w[0] is Val,
    decreases es.len() - i,
{ if i == es.len() - 1 { c_char(c, es, i, w, 0); } else { assert(es[i] is Not); c_not(c, es, i, w, 0); c_nots(c, es, i + 1, w); } }
pub proof fn s_symbol(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["symbol"@], v),
    ensures cc(v).len() == 1, cc(v)[0] is Val,
{
    p_symbol(c);
    let e = c.rules["symbol"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_char(c, es, 0, v, 0);
    let k = c_any(c, es, 1, v, 1);
    let w = v.subrange(1, k);
    let y = rep_of(es[1]).0;
    assert forall|u: Seq<GNode>| #[trigger] mk(c, y, u) implies u.len() == 1 && u[0] is Val by { lemma_mk(c, y, u); }
    let n = c_star(c, es[1], w, |g: GNode| g is Val);
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]) is Val by { if i > 0 { assert(v[i] == w[i - 1]); } }
    lemma_run(v);
}
pub proof fn s_mchars(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["mchars"@], v),
    ensures cc(v).len() == 1, cc(v)[0] is Val,
{
    p_mchars(c);
    let e = c.rules["mchars"@];
    let y = rep_of(e).0;
    assert forall|u: Seq<GNode>| #[trigger] mk(c, y, u) implies u.len() == 1 && u[0] is Val by { c_unless(c, y, u); }
    let n = c_star(c, e, v, |g: GNode| g is Val);
    lemma_run(v);
}
pub proof fn s_mbetween(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["mbetween"@], v),
    ensures cc(v).len() == 1, cc(v)[0] matches GNode::Val(s) && s.len() == 3,
{
    p_mbetween(c);
    let e = c.rules["mbetween"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_char(c, es, 0, v, 0); c_lit(c, es, 1, v, 1, "-"@); c_char(c, es, 2, v, 2);
    assert("-"@.len() == 1) by { reveal_strlit("-"); }
    match (v[0], v[1], v[2]) { (GNode::Val(a), GNode::Val(b), GNode::Val(d)) => { assert(v =~= seq![GNode::Val(a), GNode::Val(b), GNode::Val(d)]); lemma_run3(a, b, d); } _ => {} }
}
pub proof fn s_hex_char(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["hex_char"@], v),
    ensures cc(v).len() == 1, cc(v)[0] matches GNode::Val(s) && hex_of(s) is Some,
{
    p_hex_char(c);
    let e = c.rules["hex_char"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_lit(c, es, 0, v, 0, "\\0x"@); c_char(c, es, 1, v, 1); c_char(c, es, 2, v, 2);
    reveal_strlit("\\0x"); reveal_strlit("");
    match (v[0], v[1], v[2]) { (GNode::Val(a), GNode::Val(b), GNode::Val(d)) => {
        assert(v =~= seq![GNode::Val(a), GNode::Val(b), GNode::Val(d)]); lemma_run3(a, b, d);
        let s = a + b + d;
        assert(s.len() == 5 && s[0] == '\\' && s[1] == '0' && s[2] == 'x' && s[3] == b[0] && s[4] == d[0]);
        assert(hexd(b[0]) is Some && hexd(d[0]) is Some);
    } _ => {} }
}
pub proof fn s_esc_char(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["esc_char"@], v),
    ensures cc(v).len() == 1, cc(v)[0] matches GNode::Val(s) && esc_of(s) is Some,
{
    p_esc_char(c);
    let e = c.rules["esc_char"@];
    let i = c_alt(c, e, v);
    let x = items(e)[i];
    reveal_strlit("\\r"); reveal_strlit("\\n"); reveal_strlit("\\t"); reveal_strlit("\\\\"); reveal_strlit("\\\"");
    if i == 0 { r_lit(c, x, v, "\\r"@); assert("\\r"@ =~= seq!['\\', 'r']); }
    else if i == 1 { r_lit(c, x, v, "\\n"@); assert("\\n"@ =~= seq!['\\', 'n']); }
    else if i == 2 { r_lit(c, x, v, "\\t"@); assert("\\t"@ =~= seq!['\\', 't']); }
    else if i == 3 { r_lit(c, x, v, "\\\\"@); assert("\\\\"@ =~= seq!['\\', '\\']); }
    else { r_lit(c, x, v, "\\\""@); assert("\\\""@ =~= seq!['\\', '"']); }
}
pub proof fn s_lit_noesc(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["lit_noesc"@], v),
    ensures
        cc(v).len() == 2 && is(cc(v)[0], "_'"@) && is(cc(v)[1], "_'"@)
        || cc(v).len() == 3 && is(cc(v)[0], "_'"@) && cc(v)[1] is Val && is(cc(v)[2], "_'"@),
{
    p_lit_noesc(c);
    let e = c.rules["lit_noesc"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_ref(c, es, 0, v, 0, "_'"@);
    let k = c_any(c, es, 1, v, 1);
    c_ref(c, es, 2, v, k, "_'"@);
    assert(v.len() == k + 1);
    let w = v.subrange(1, k);
    let y = rep_of(es[1]).0;
    assert forall|u: Seq<GNode>| #[trigger] mk(c, y, u) implies u.len() == 1 && u[0] is Val by { c_unless(c, y, u); }
    let n = c_star(c, es[1], w, |g: GNode| g is Val);
    lemma_skips(v[0]); lemma_skips(v[k]);
    lemma_wrap(v, k);
    if w.len() > 0 { lemma_run(w); } else { lemma_cs0(w); }
}
pub open spec fn elem(g: GNode) -> bool { g is Val || is(g, "esc_char"@) || is(g, "hex_char"@) }
pub proof fn s_lit_esc(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["lit_esc"@], v),
    ensures
        cc(v).len() >= 2, is(cc(v)[0], "_\""@), is(cc(v).last(), "_\""@),
        forall|i: int| 1 <= i < cc(v).len() - 1 ==> elem(#[trigger] cc(v)[i]),
{
    p_lit_esc(c);
    let e = c.rules["lit_esc"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_ref(c, es, 0, v, 0, "_\""@);
    let k = c_any(c, es, 1, v, 1);
    c_ref(c, es, 2, v, k, "_\""@);
    assert(v.len() == k + 1);
    let w = v.subrange(1, k);
    let y = rep_of(es[1]).0;
    assert forall|u: Seq<GNode>| #[trigger] mk(c, y, u) implies u.len() == 1 && elem(u[0]) by {
        let i = c_alt(c, y, u);
        let x = items(y)[i];
        if i == 0 { r_one(c, x, u, "esc_char"@); } else if i == 1 { r_one(c, x, u, "hex_char"@); } else { c_unless(c, x, u); }
    }
    let n = c_star(c, es[1], w, |g: GNode| elem(g));
    lemma_skips(v[0]); lemma_skips(v[k]);
    lemma_wrap(v, k);
    assert forall|i: int| 0 <= i < w.len() implies !((#[trigger] w[i]) is EOF) by { assert(elem(w[i])); }
    lemma_stems(w);
    assert forall|i: int| 1 <= i < cc(v).len() - 1 implies elem(#[trigger] cc(v)[i]) by {
        assert(cc(v)[i] == cc(w)[i - 1]);
        assert(stems(w, cc(w)[i - 1]));
        if !(cc(v)[i] is Val) {
            let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]) is Rule && !skips(w[j]) && core(w[j]) == cc(v)[i];
            assert(elem(w[j]));
            lemma_skips(w[j]);
        }
    }
}
pub proof fn s_match(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["match"@], v),
    ensures
        cc(v).len() >= 3, cc(v)[0] == GNode::Val("["@), cc(v).last() == GNode::Val("]"@), is(cc(v)[1], "mchars"@) || is(cc(v)[1], "mbetween"@),
        forall|i: int| 2 <= i < cc(v).len() - 1 ==> is(#[trigger] cc(v)[i], "mbetween"@),
{
    p_match(c);
    let e = c.rules["match"@];
    let es = items(e);
    lemma_mk(c, e, v);
    c_lit(c, es, 0, v, 0, "["@);
    let k = c_any(c, es, 1, v, 1);
    c_lit(c, es, 2, v, k, "]"@);
    assert(v.len() == k + 1);
    let w = v.subrange(1, k);
    let i = c_alt(c, es[1], w);
    let x = items(es[1])[i];
    let p = |g: GNode| is(g, "mbetween"@);
    if i == 0 {
        let xs = items(x);
        lemma_mk(c, x, w);
        c_ref(c, xs, 0, w, 0, "mchars"@);
        let m = c_any(c, xs, 1, w, 1);
        let u = w.subrange(1, m);
        let y = rep_of(xs[1]).0;
        assert forall|q: Seq<GNode>| #[trigger] mk(c, y, q) implies q.len() == 1 && p(q[0]) by { r_one(c, y, q, "mbetween"@); }
        let n = c_star(c, xs[1], u, p);
        assert forall|l: int| 1 <= l < w.len() implies is(#[trigger] w[l], "mbetween"@) by { assert(w[l] == u[l - 1]); assert(p(u[l - 1])); }
    } else {
        let y = rep_of(x).0;
        assert forall|q: Seq<GNode>| #[trigger] mk(c, y, q) implies q.len() == 1 && p(q[0]) by { r_one(c, y, q, "mbetween"@); }
        let n = c_star(c, x, w, p);
        assert forall|l: int| 0 <= l < w.len() implies is(#[trigger] w[l], "mbetween"@) by { assert(p(w[l])); }
    }
    assert(w.len() > 0);
    assert forall|l: int| 0 <= l < w.len() implies (#[trigger] w[l]) is Rule && !skips(w[l]) by { lemma_skips(w[l]); if l > 0 { assert(is(w[l], "mbetween"@)); } else { assert(is(w[0], "mbetween"@) || is(w[0], "mchars"@)); } }
    lemma_plain(w);
    lemma_skips(v[0]); lemma_skips(v[k]);
    assert(v[1] == w[0] && v[k - 1] == w[w.len() - 1]);
    assert(w[w.len() - 1] is Rule);
    lemma_wrap(v, k);
    lemma_skips(w[0]);
    assert(cc(v)[1] == cc(w)[0]);
    assert(cc(w)[0] == core(w[0]));
    assert forall|l: int| 2 <= l < cc(v).len() - 1 implies is(#[trigger] cc(v)[l], "mbetween"@) by { assert(cc(v)[l] == cc(w)[l - 1]); assert(cc(w)[l - 1] == core(w[l - 1])); lemma_skips(w[l - 1]); }
}
pub proof fn s_grammar(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["grammar"@], v),
    ensures forall|i: int| 0 <= i < cc(v).len() ==> is(#[trigger] cc(v)[i], "rule"@) || is(cc(v)[i], "module"@),
{
    p_grammar(c);
    let e = c.rules["grammar"@];
    let y = rep_of(e).0;
    let p = |g: GNode| is(g, "rule"@) || is(g, "module"@);
    assert forall|q: Seq<GNode>| #[trigger] mk(c, y, q) implies q.len() == 1 && p(q[0]) by {
        let i = c_alt(c, y, q);
        if i == 0 { r_one(c, items(y)[i], q, "rule"@); } else { r_one(c, items(y)[i], q, "module"@); }
    }
    let n = c_star(c, e, v, p);
    assert forall|l: int| 0 <= l < v.len() implies (#[trigger] v[l]) is Rule && !skips(v[l]) by { assert(p(v[l])); lemma_skips(v[l]); }
    lemma_plain(v);
    assert forall|i: int| 0 <= i < cc(v).len() implies is(#[trigger] cc(v)[i], "rule"@) || is(cc(v)[i], "module"@) by { assert(cc(v)[i] == core(v[i])); assert(p(v[i])); lemma_skips(v[i]); }
}
pub open spec fn dots(v: Seq<GNode>) -> bool decreases v.len() { v.len() == 0 || v.len() >= 2 && v[0] == GNode::Val("."@) && is(v[1], "symbol"@) && dots(v.skip(2)) }
pub proof fn s_dots(c: Ctx, e: Ex, k: nat, v: Seq<GNode>, j: int)
    requires mkr(c, e, k, v, j), 0 <= j <= v.len(), e is And, items(e).len() == 2, slit(items(e)[0], "."@), sref(items(e)[1], "symbol"@),
    ensures dots(cs(v, j)),
    decreases k,
{
    lemma_cs0(v);
    if k > 0 {
        let m = choose|m: int| j <= m <= v.len() && #[trigger] mk(c, e, v.subrange(j, m)) && mkr(c, e, (k - 1) as nat, v, m);
        let w = v.subrange(j, m);
        let es = items(e);
        lemma_mk(c, e, w);
        c_lit(c, es, 0, w, 0, "."@); c_ref(c, es, 1, w, 1, "symbol"@);
        assert(w.len() == 2);
        assert(v[j] == w[0] && v[j + 1] == w[1]);
        s_dots(c, e, (k - 1) as nat, v, m);
        lemma_skips(v[j]); lemma_skips(v[j + 1]);
        k1(v, j); k1(v, j + 1);
        assert(cs(v, j).skip(2) =~= cs(v, j + 2));
    }
}
pub proof fn s_rule_name(c: Ctx, v: Seq<GNode>)
    requires doc(c), mk(c, c.rules["rule_name"@], v),
    ensures
        cc(v).len() >= 2 && cc(v)[0] == GNode::Val("."@) && is(cc(v)[1], "symbol"@) && dots(cc(v).skip(2))
        || cc(v).len() >= 1 && is(cc(v)[0], "symbol"@) && dots(cc(v).skip(1)),
{
    p_rule_name(c);
    let e = c.rules["rule_name"@];
    let es = items(e);
    lemma_mk(c, e, v);
    let a = c_any(c, es, 0, v, 0);
    let u = v.subrange(0, a);
    c_opt(c, es[0], u);
    if u.len() > 0 { r_lit(c, rep_of(es[0]).0, u, "."@); assert(v[0] == u[0]); }
    c_ref(c, es, 1, v, a, "symbol"@);
    let b = c_any(c, es, 2, v, a + 1);
    let w = v.subrange(a + 1, b);
    assert(w =~= v.skip(a + 1));
    lemma_mk(c, es[2], w);
    let y = rep_of(es[2]).0;
    let n = choose|n: nat| #[trigger] mkr(c, y, n, w, 0) && enough(n, rep_of(es[2]).1, rep_of(es[2]).2) && not_more(n, 0, rep_of(es[2]).2);
    s_dots(c, y, n, w, 0);
    lemma_cs0(v); lemma_cs0(w);
    lemma_skips(v[a]);
    lemma_cs1(v, a);
    if a == 1 { lemma_skips(v[0]); k1(v, 0); assert(cc(v).skip(2) =~= cc(w)); } else { assert(cc(v).skip(1) =~= cc(w)); }
}

// ------------------------------------------------------------------ every node of a syntax tree has a meaning
/// v is what the rule of this node's name made, before the spaces were taken out
pub open spec fn made(c: Ctx, g: GNode, v: Seq<GNode>) -> bool { g matches GNode::Rule(n, w) && c.rules.dom().contains(n) && mk(c, c.rules[n], v) && cc(v) == w }
pub open spec fn wc(c: Ctx, g: GNode) -> bool { exists|v: Seq<GNode>| #[trigger] made(c, g, v) }
pub open spec fn wcs(c: Ctx, w: Seq<GNode>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) is Val || wc(c, w[i]) }
pub open spec fn ch(g: GNode) -> Seq<GNode> { match g { GNode::Rule(_, w) => w, _ => Seq::empty() } }
pub proof fn lemma_wc(c: Ctx, g: GNode) -> (v: Seq<GNode>)
    requires doc(c), wc(c, g),
    ensures made(c, g, v), wcs(c, ch(g)),
{
    let v = choose|v: Seq<GNode>| #[trigger] made(c, g, v);
    match g {
        GNode::Rule(n, w) => {
            lemma_doc(c);
            lemma_from(c, c.rules[n], v);
            assert forall|i: int| 0 <= i < v.len() implies !((#[trigger] v[i]) is EOF) by { assert(from_rule(c, v[i])); }
            lemma_stems(v);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) is Val || wc(c, w[i]) by {
                assert(stems(v, cc(v)[i]));
                if !(w[i] is Val) {
                    let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Rule && !skips(v[j]) && core(v[j]) == w[i];
                    assert(from_rule(c, v[j]));
                    match v[j] { GNode::Rule(m, u) => { assert(g_compact(v[j]) == GNode::Rule(m, gs_compact(u))); assert(made(c, w[i], u)); } _ => {} }
                }
            }
        }
        _ => {}
    }
    v
}
pub proof fn t_noeof(c: Ctx, g: GNode)
    requires doc(c), wc(c, g),
    ensures no_eof(g),
    decreases g, 0int,
{ let v = lemma_wc(c, g); t_noeofs(c, ch(g)); }
pub proof fn t_noeofs(c: Ctx, w: Seq<GNode>)
    requires doc(c), wcs(c, w),
    ensures nos_eof(w),
    decreases w, 1int,
{
    if w.len() > 0 {
        let l = w[w.len() - 1];
        assert(decreases_to!(w => w[w.len() - 1]));
        let d = w.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Val || wc(c, d[i]) by { assert(d[i] == w[i]); }
        t_noeofs(c, d);
        assert(l is Val || wc(c, l));
        if l is Rule { t_noeof(c, l); } else { assert(no_eof(l)); }
        assert(w.last() == l);
    }
}
/// a node that holds nothing but text
pub proof fn t_leaf(c: Ctx, g: GNode)
    requires doc(c), wc(c, g),
    ensures
        is(g, "symbol"@) ==> leaf(g, "symbol"@) is Some, is(g, "mchars"@) ==> leaf(g, "mchars"@) is Some,
        is(g, "mbetween"@) ==> (leaf(g, "mbetween"@) matches Some(s) && s.len() == 3),
        is(g, "dot"@) ==> leaf(g, "dot"@) == Some("."@), is(g, "_'"@) ==> leaf(g, "_'"@) == Some("'"@), is(g, "_\""@) ==> leaf(g, "_\""@) == Some("\""@),
        is(g, "esc_char"@) ==> (leaf(g, "esc_char"@) matches Some(s) && esc_of(s) is Some),
        is(g, "hex_char"@) ==> (leaf(g, "hex_char"@) matches Some(s) && hex_of(s) is Some),
{
    let v = lemma_wc(c, g);
    if is(g, "symbol"@) { s_symbol(c, v); }
    if is(g, "mchars"@) { s_mchars(c, v); }
    if is(g, "mbetween"@) { s_mbetween(c, v); }
    if is(g, "dot"@) { s_dot(c, v); assert(ch(g).len() == 1 && ch(g)[0] == GNode::Val("."@)); }
    if is(g, "_'"@) { s_q1(c, v); assert(ch(g).len() == 1 && ch(g)[0] == GNode::Val("'"@)); }
    if is(g, "_\""@) { s_q2(c, v); assert(ch(g).len() == 1 && ch(g)[0] == GNode::Val("\""@)); }
    if is(g, "esc_char"@) { s_esc_char(c, v); }
    if is(g, "hex_char"@) { s_hex_char(c, v); }
}
pub proof fn t_dots(c: Ctx, w: Seq<GNode>)
    requires doc(c), wcs(c, w), dots(w),
    ensures l_dots(w) is Some,
    decreases w.len(),
{
    if w.len() > 0 {
        assert(wc(c, w[1]));
        t_leaf(c, w[1]);
        let u = w.skip(2);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) is Val || wc(c, u[i]) by { assert(u[i] == w[i + 2]); }
        t_dots(c, u);
    }
}
pub proof fn lemma_wskip(c: Ctx, w: Seq<GNode>, k: int)
    requires wcs(c, w), 0 <= k <= w.len(),
    ensures wcs(c, w.skip(k)),
{ let u = w.skip(k); assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) is Val || wc(c, u[i]) by { assert(u[i] == w[i + k]); } }
pub proof fn t_name(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "rule_name"@),
    ensures m_name(g) is Some,
{
    let v = lemma_wc(c, g);
    s_rule_name(c, v);
    let w = ch(g);
    lemma_wskip(c, w, 1);
    let u = w.skip(1);
    if w[0] is Val {
        assert(wc(c, w[1]));
        t_leaf(c, w[1]);
        assert(u[0] == w[1]);
        lemma_wskip(c, w, 2);
        assert(u.skip(1) =~= w.skip(2));
        t_dots(c, w.skip(2));
        assert(l_name(u) is Some);
    } else { assert(wc(c, w[0])); t_leaf(c, w[0]); t_dots(c, u); assert(l_name(w) is Some); }
}
pub proof fn t_noesc(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "lit_noesc"@),
    ensures m_noesc(g) is Some,
{
    let v = lemma_wc(c, g);
    s_lit_noesc(c, v);
    let w = ch(g);
    assert(wc(c, w[0])); t_leaf(c, w[0]);
    let l = w.len() - 1;
    assert(is(w[l], "_'"@));
    assert(wc(c, w[l])); t_leaf(c, w[l]);
}
pub proof fn t_els(c: Ctx, w: Seq<GNode>)
    requires doc(c), wcs(c, w), w.len() > 0, is(w.last(), "_\""@), forall|i: int| 0 <= i < w.len() - 1 ==> elem(#[trigger] w[i]),
    ensures l_esc(w) is Some,
    decreases w.len(),
{
    lemma_names();
    if w.len() == 1 { assert(wc(c, w[0])); t_leaf(c, w[0]); assert(l_esc(w) == Some(Seq::<char>::empty())); }
    else {
        assert(elem(w[0]));
        assert(!(is(w[0], "_\""@)));
        let u = w.skip(1);
        lemma_wskip(c, w, 1);
        assert(u.last() == w.last());
        assert forall|i: int| 0 <= i < u.len() - 1 implies elem(#[trigger] u[i]) by { assert(u[i] == w[i + 1]); }
        t_els(c, u);
        if !(w[0] is Val) { assert(wc(c, w[0])); t_leaf(c, w[0]); }
        assert(m_el(w[0]) is Some);
    }
}
pub proof fn t_esc(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "lit_esc"@),
    ensures m_esc(g) is Some,
{
    let v = lemma_wc(c, g);
    s_lit_esc(c, v);
    let w = ch(g);
    assert(wc(c, w[0])); t_leaf(c, w[0]);
    let u = w.skip(1);
    lemma_wskip(c, w, 1);
    assert(u.last() == w.last());
    assert forall|i: int| 0 <= i < u.len() - 1 implies elem(#[trigger] u[i]) by { assert(u[i] == w[i + 1]); assert(elem(cc(v)[i + 1])); }
    t_els(c, u);
}
/// every literal of a grammar that parses has a value
pub proof fn t_lit(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "literal"@),
    ensures m_lit(g) is Some, //#C20
{
    lemma_names();
    let v = lemma_wc(c, g);
    s_literal(c, v);
    let w = ch(g);
    assert(wc(c, w[0]));
    if is(w[0], "lit_noesc"@) { t_noesc(c, w[0]); } else { t_esc(c, w[0]); }
}
pub proof fn t_btws(c: Ctx, w: Seq<GNode>)
    requires doc(c), wcs(c, w), w.len() > 0, w.last() == GNode::Val("]"@), forall|i: int| 0 <= i < w.len() - 1 ==> is(#[trigger] w[i], "mbetween"@),
    ensures l_btw(w) is Some,
    decreases w.len(),
{
    if w.len() == 1 { assert(w[0] == w.last()); assert(l_btw(w) == Some(Seq::<(char, char)>::empty())); }
    else {
        assert(is(w[0], "mbetween"@));
        assert(wc(c, w[0])); t_leaf(c, w[0]);
        let u = w.skip(1);
        lemma_wskip(c, w, 1);
        assert(u.last() == w.last());
        assert forall|i: int| 0 <= i < u.len() - 1 implies is(#[trigger] u[i], "mbetween"@) by { assert(u[i] == w[i + 1]); }
        t_btws(c, u);
        assert(w[0] != GNode::Val("]"@));
    }
}
/// every class of a grammar that parses has a meaning
pub proof fn t_match(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "match"@),
    ensures m_match(g) is Some, //#C21
{
    lemma_names();
    let v = lemma_wc(c, g);
    s_match(c, v);
    let w = ch(g);
    if is(w[1], "mchars"@) {
        assert(wc(c, w[1])); t_leaf(c, w[1]);
        let u = w.skip(2);
        lemma_wskip(c, w, 2);
        assert(u.len() > 0) by { if w.len() == 3 { assert(w[2] == w.last()); } }
        assert(u.last() == w.last());
        assert forall|i: int| 0 <= i < u.len() - 1 implies is(#[trigger] u[i], "mbetween"@) by { assert(u[i] == w[i + 2]); }
        t_btws(c, u);
    } else {
        let u = w.skip(1);
        lemma_wskip(c, w, 1);
        assert(u.last() == w.last());
        assert forall|i: int| 0 <= i < u.len() - 1 implies is(#[trigger] u[i], "mbetween"@) by { assert(u[i] == w[i + 1]); }
        t_btws(c, u);
    }
}
pub proof fn t_error(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "error"@),
    ensures m_error(g) is Some,
{ let v = lemma_wc(c, g); s_error(c, v); let w = ch(g); assert(wc(c, w[2])); t_lit(c, w[2]); }
pub proof fn t_atom(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "atom"@),
    ensures m_atom(g) is Some,
{
    lemma_names();
    let v = lemma_wc(c, g);
    s_atom(c, v);
    let w = ch(g);
    assert(wc(c, w[0]));
    if is(w[0], "literal"@) { t_lit(c, w[0]); } else if is(w[0], "match"@) { t_match(c, w[0]); } else if is(w[0], "rule_name"@) { t_name(c, w[0]); } else { t_leaf(c, w[0]); }
}
pub proof fn t_expr(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "expr"@),
    ensures m_expr(g) is Some,
    decreases g, 1int,
{ let v = lemma_wc(c, g); s_expr(c, v); let w = ch(g); assert(wc(c, w[0])); t_or(c, w[0]); }
pub proof fn t_or(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "or"@),
    ensures l_or(g) is Some, m_or(g) is Some,
    decreases g, 1int,
{
    let v = lemma_wc(c, g);
    s_or(c, v);
    let w = ch(g);
    assert(wc(c, w[0]));
    t_and(c, w[0]);
    if w.len() == 3 { assert(wc(c, w[2])); t_or(c, w[2]); }
}
pub proof fn t_and(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "and"@),
    ensures l_and(g) is Some, m_and(g) is Some,
    decreases g, 1int,
{
    lemma_names();
    let v = lemma_wc(c, g);
    s_and(c, v);
    let w = ch(g);
    assert(wc(c, w[0]));
    if is(w[0], "error"@) { t_error(c, w[0]); assert(w.len() == 1); }
    else {
        t_rep(c, w[0]);
        let u = w.skip(1);
        lemma_wskip(c, w, 1);
        assert forall|i: int| 0 <= i < u.len() implies is(#[trigger] u[i], "and"@) by { assert(u[i] == w[i + 1]); }
        t_ands(c, u);
    }
}
pub proof fn t_ands(c: Ctx, w: Seq<GNode>)
    requires doc(c), wcs(c, w), all_is(w, 0, "and"@),
    ensures l_ands(w) is Some,
    decreases w, 0int,
{
    if w.len() > 0 {
        assert(wc(c, w[0]));
        t_and(c, w[0]);
        let u = w.skip(1);
        lemma_wskip(c, w, 1);
        assert forall|i: int| 0 <= i < u.len() implies is(#[trigger] u[i], "and"@) by { assert(u[i] == w[i + 1]); }
        t_ands(c, u);
    }
}
pub proof fn t_rep(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "rep_or_neg"@),
    ensures m_rep(g) is Some,
    decreases g, 1int,
{
    let v = lemma_wc(c, g);
    s_rep_or_neg(c, v);
    let w = ch(g);
    if w[0] is Val { assert(wc(c, w[1])); t_par(c, w[1]); } else { assert(wc(c, w[0])); t_par(c, w[0]); }
}
pub proof fn t_par(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "atom_or_par"@),
    ensures m_par(g) is Some,
    decreases g, 1int,
{
    lemma_names();
    let v = lemma_wc(c, g);
    s_atom_or_par(c, v);
    let w = ch(g);
    assert(wc(c, w[0]));
    if is(w[0], "atom"@) { t_atom(c, w[0]); } else { t_parenth(c, w[0]); }
}
pub proof fn t_parenth(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "parenth"@),
    ensures m_parenth(g) is Some,
    decreases g, 1int,
{ let v = lemma_wc(c, g); s_parenth(c, v); let w = ch(g); assert(wc(c, w[1])); t_expr(c, w[1]); }
pub proof fn t_rule(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "rule"@),
    ensures m_rule(g) is Some,
{ let v = lemma_wc(c, g); s_rule(c, v); let w = ch(g); assert(wc(c, w[0])); assert(wc(c, w[2])); t_name(c, w[0]); t_expr(c, w[2]); }

// ------------------------------------------------------------------ the names a grammar defines, in order
pub open spec fn n_gram(g: GNode) -> Seq<Seq<char>> decreases g, 0int { match g { GNode::Rule(_, w) => n_defs(w), _ => Seq::empty() } }
pub open spec fn n_defs(v: Seq<GNode>) -> Seq<Seq<char>> decreases v, 0int { if v.len() == 0 { Seq::empty() } else { n_def(v[0]) + n_defs(v.skip(1)) } }
pub open spec fn n_def(g: GNode) -> Seq<Seq<char>> decreases g, 0int {
    if is(g, "rule"@) { match m_rule(g) { Some((n, _)) => seq![n], None => Seq::empty() } }
    else { match g { GNode::Rule(_, w) => if w.len() == 4 { n_gram(w[2]) } else { Seq::empty() }, _ => Seq::empty() } }
}
pub open spec fn n_main(g: GNode) -> Seq<Seq<char>> { match g { GNode::Rule(_, w) => if w.len() == 1 { n_gram(w[0]) } else { Seq::empty() }, _ => Seq::empty() } }
pub proof fn lemma_apart<A>(a: Seq<A>, b: Seq<A>)
    ensures
        (a + b).no_duplicates() ==> a.no_duplicates() && b.no_duplicates() && (forall|k: A| a.contains(k) ==> !(#[trigger] b.contains(k))),
        forall|k: A| (#[trigger] (a + b).contains(k)) <==> a.contains(k) || b.contains(k),
{
    let s = a + b;
    assert forall|k: A| (#[trigger] s.contains(k)) <==> a.contains(k) || b.contains(k) by {
        if s.contains(k) { let i = choose|i: int| 0 <= i < s.len() && s[i] == k; if i < a.len() { assert(a[i] == k); } else { assert(b[i - a.len()] == k); } }
        if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(s[i] == k); }
        if b.contains(k) { let i = choose|i: int| 0 <= i < b.len() && b[i] == k; assert(s[i + a.len()] == k); }
    }
    if s.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(s[i] != s[j]); }
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(s[i + a.len()] != s[j + a.len()]); }
        assert forall|k: A| a.contains(k) implies !(#[trigger] b.contains(k)) by {
            if b.contains(k) {
                let i = choose|i: int| 0 <= i < a.len() && a[i] == k;
                let j = choose|j: int| 0 <= j < b.len() && b[j] == k;
                assert(s[i] != s[j + a.len()]);
            }
        }
    }
}
pub open spec fn defines(o: Option<Map<Seq<char>, GE>>, m: Map<Seq<char>, GE>, l: Seq<Seq<char>>) -> bool {
    o matches Some(x) && (forall|k: Seq<char>| (#[trigger] x.dom().contains(k)) <==> m.dom().contains(k) || l.contains(k))
}
pub proof fn t_gram(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "grammar"@), n_gram(g).no_duplicates(),
    ensures defines(m_gram(g), Map::empty(), n_gram(g)),
    decreases g, 1int,
{
    let v = lemma_wc(c, g);
    s_grammar(c, v);
    let w = ch(g);
    t_defs(c, Map::empty(), w);
}
pub open spec fn def(g: GNode) -> bool { is(g, "rule"@) || is(g, "module"@) }
pub proof fn t_defs(c: Ctx, m: Map<Seq<char>, GE>, w: Seq<GNode>)
    requires doc(c), wcs(c, w), forall|i: int| 0 <= i < w.len() ==> def(#[trigger] w[i]), n_defs(w).no_duplicates(),
        forall|k: Seq<char>| n_defs(w).contains(k) ==> !(#[trigger] m.dom().contains(k)),
    ensures defines(l_defs(m, w), m, n_defs(w)),
    decreases w, 0int,
{
    lemma_names();
    if w.len() > 0 {
        let g = w[0];
        let u = w.skip(1);
        assert(def(g));
        assert(wc(c, g));
        lemma_wskip(c, w, 1);
        assert forall|i: int| 0 <= i < u.len() implies def(#[trigger] u[i]) by { assert(u[i] == w[i + 1]); }
        let (a, b) = (n_def(g), n_defs(u));
        lemma_apart(a, b);
        if is(g, "rule"@) {
            t_rule(c, g);
            match m_rule(g) { Some((n, e)) => {
                assert(a == seq![n] && a[0] == n);
                assert(a.contains(n));
                let x = m.insert(n, e);
                assert forall|k: Seq<char>| b.contains(k) implies !(#[trigger] x.dom().contains(k)) by { if k == n { assert(a.contains(k)); } }
                t_defs(c, x, u);
                assert forall|k: Seq<char>| x.dom().contains(k) <==> m.dom().contains(k) || #[trigger] a.contains(k) by { if a.contains(k) { let i = choose|i: int| 0 <= i < a.len() && a[i] == k; assert(k == n); } }
            } _ => {} }
        } else {
            t_module(c, g);
            match m_module(g) { Some(y) => {
                assert(m.dom().disjoint(y.dom()));
                let x = m.union_prefer_right(y);
                assert forall|k: Seq<char>| b.contains(k) implies !(#[trigger] x.dom().contains(k)) by { assert(y.dom().contains(k) <==> a.contains(k)); }
                t_defs(c, x, u);
            } _ => {} }
        }
    }
}
pub proof fn t_module(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "module"@), n_def(g).no_duplicates(),
    ensures defines(m_module(g), Map::empty(), n_def(g)),
    decreases g, 1int,
{
    lemma_names();
    let v = lemma_wc(c, g);
    s_module(c, v);
    let w = ch(g);
    assert(wc(c, w[0])); assert(wc(c, w[2]));
    let u = lemma_wc(c, w[0]);
    s_mod_name(c, u);
    assert(wc(c, ch(w[0])[0]));
    t_leaf(c, ch(w[0])[0]);
    assert(n_def(g) == n_gram(w[2]));
    t_gram(c, w[2]);
}

// ------------------------------------------------------------------ every list of rules and modules is read, and every escape in it is one
pub proof fn t_wgram(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "grammar"@),
    ensures w_gram(g),
    decreases g, 1int,
{ let v = lemma_wc(c, g); s_grammar(c, v); t_wdefs(c, ch(g)); }
pub proof fn t_wdefs(c: Ctx, w: Seq<GNode>)
    requires doc(c), wcs(c, w), forall|i: int| 0 <= i < w.len() ==> def(#[trigger] w[i]),
    ensures w_defs(w),
    decreases w, 0int,
{
    lemma_names();
    if w.len() > 0 {
        let g = w[0];
        let u = w.skip(1);
        assert(def(g));
        assert(wc(c, g));
        lemma_wskip(c, w, 1);
        assert forall|i: int| 0 <= i < u.len() implies def(#[trigger] u[i]) by { assert(u[i] == w[i + 1]); }
        t_wdefs(c, u);
        if is(g, "rule"@) { t_rule(c, g); } else { t_wmodule(c, g); }
    }
}
pub proof fn t_wmodule(c: Ctx, g: GNode)
    requires doc(c), wc(c, g), is(g, "module"@),
    ensures w_module(g),
    decreases g, 1int,
{
    lemma_names();
    let v = lemma_wc(c, g);
    s_module(c, v);
    let w = ch(g);
    assert(wc(c, w[0])); assert(wc(c, w[2]));
    let u = lemma_wc(c, w[0]);
    s_mod_name(c, u);
    assert(wc(c, ch(w[0])[0]));
    t_leaf(c, ch(w[0])[0]);
    t_wgram(c, w[2]);
}
pub open spec fn hx(g: GNode) -> bool decreases g {
    match g { GNode::Rule(n, ch) => (n == "hex_char"@ ==> (leaf(g, "hex_char"@) matches Some(s) && hex_of(s) is Some)) && hxs(ch), _ => true }
}
pub open spec fn hxs(v: Seq<GNode>) -> bool decreases v { v.len() == 0 || hxs(v.drop_last()) && hx(v.last()) }
pub proof fn t_hx(c: Ctx, g: GNode)
    requires doc(c), wc(c, g),
    ensures hx(g),
    decreases g, 0int,
{ let v = lemma_wc(c, g); t_leaf(c, g); t_hxs(c, ch(g)); }
pub proof fn t_hxs(c: Ctx, w: Seq<GNode>)
    requires doc(c), wcs(c, w),
    ensures hxs(w),
    decreases w, 1int,
{
    if w.len() > 0 {
        let l = w[w.len() - 1];
        assert(decreases_to!(w => w[w.len() - 1]));
        let d = w.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) is Val || wc(c, d[i]) by { assert(d[i] == w[i]); }
        t_hxs(c, d);
        assert(l is Val || wc(c, l));
        if l is Rule { t_hx(c, l); } else { assert(hx(l)); }
        assert(w.last() == l);
    }
}
pub proof fn lemma_hexadd(a: Seq<FNode>, b: Seq<FNode>)
    requires hexf(a), hexf(b), a.len() > 0 ==> a.last() != FNode::Begin("hex_char"@),
    ensures hexf(a + b),
{
    reveal(hexf);
    let s = a + b;
    assert forall|i: int| 0 <= i && i + 1 < s.len() && #[trigger] s[i] == FNode::Begin("hex_char"@) implies match s[i + 1] { FNode::Val(t) => hex_of(t) is Some, _ => true } by {
        if i + 1 < a.len() { assert(a[i] == s[i] && a[i + 1] == s[i + 1]); }
        else if i + 1 == a.len() { assert(a.last() == s[i]); }
        else { assert(b[i - a.len()] == s[i] && b[i - a.len() + 1] == s[i + 1]); }
    }
}
pub proof fn lemma_gfhex(g: GNode)
    requires hx(g),
    ensures hexf(gf(g)), gf(g).len() > 0 ==> !(gf(g).last() is Begin),
    decreases g, 0int,
{
    match g {
        GNode::Rule(n, ch) => {
            let (b, m, e) = (seq![FNode::Begin(n)], gfs(ch), seq![FNode::End(n)]);
            lemma_gfhexs(ch);
            assert(hexf(e) && hexf(b)) by { reveal(hexf); }
            lemma_hexadd(m, e);
            if n == "hex_char"@ {
                assert(ch.last() == ch[0] && ch.drop_last() =~= Seq::<GNode>::empty());
                reveal_with_fuel(gfs, 2);
                match ch[0] { GNode::Val(s) => {
                    assert(m =~= seq![FNode::Val(s)]);
                    assert(hexf(gf(g))) by { reveal(hexf); let f = gf(g); assert(f.len() == 3 && f[0] == FNode::Begin(n) && f[1] == FNode::Val(s) && f[2] == FNode::End(n)); }
                } _ => {} }
            } else {
                lemma_hexadd(b, m + e);
                assert(b + (m + e) =~= gf(g));
            }
        }
        _ => { assert(hexf(gf(g))) by { reveal(hexf); } }
    }
}
pub proof fn lemma_gfhexs(v: Seq<GNode>)
    requires hxs(v),
    ensures hexf(gfs(v)), gfs(v).len() > 0 ==> !(gfs(v).last() is Begin),
    decreases v, 1int,
{
    if v.len() == 0 { assert(hexf(gfs(v))) by { reveal(hexf); } }
    else {
        assert(decreases_to!(v => v[v.len() - 1]));
        lemma_gfhexs(v.drop_last());
        lemma_gfhex(v.last());
        lemma_hexadd(gfs(v.drop_last()), gf(v.last()));
    }
}

/// what the parser built, from the rule main
pub proof fn t_start(c: Ctx, t: GNode) -> (v: Seq<GNode>)
    requires doc(c), sem(c, Task::Rule("main"@, 0, None)) is Ok, answer(c.text.len() as int, sem(c, Task::Rule("main"@, 0, None))) == Ok::<GNode, EV>(t),
    ensures core(t) == GNode::Rule("main"@, cc(v)), made(c, core(t), v),
{
    let q = Task::Rule("main"@, 0, None);
    lemma_inv(c, q);
    let e = c.rules["main"@];
    match sem(c, Task::Expr(e, 0, None)) {
        Out::Ok(n, pe, v) => {
            assert(mke(c, e, 0, None, v));
            let u = seq![GNode::Rule("main"@, v)];
            assert(u[0] == GNode::Rule("main"@, v));
            assert(t == GNode::Rule("main"@, v));
            assert(g_compact(t) == GNode::Rule("main"@, gs_compact(v)));
            v
        }
        _ => { Seq::empty() }
    }
}
pub proof fn t_main(c: Ctx, t: GNode)
    requires doc(c), sem(c, Task::Rule("main"@, 0, None)) is Ok, answer(c.text.len() as int, sem(c, Task::Rule("main"@, 0, None))) == Ok::<GNode, EV>(t),
    ensures no_eof(core(t)), n_main(core(t)).no_duplicates() ==> defines(m_main(core(t)), Map::empty(), n_main(core(t))), w_main(core(t)), hexf(gf(core(t))),
{
    let v = t_start(c, t);
    let g = core(t);
    t_noeof(c, g);
    let x = lemma_wc(c, g);
    s_main(c, v);
    let w = ch(g);
    assert(wc(c, w[0]));
    if n_main(g).no_duplicates() { t_gram(c, w[0]); }
    t_wgram(c, w[0]);
    t_hx(c, g);
    lemma_gfhex(g);
}
/// every text that parses by the published grammar is read, and has a meaning if it does not define a name twice
pub proof fn lemma_shape(s: Seq<char>, r: Map<Seq<char>, Ex>, t: GNode)
    requires published(r), pdone(s, r), pout(s, r) == Ok::<GNode, EV>(t),
    ensures
        no_eof(core(t)), w_main(core(t)), hexf(gf(core(t))),
        n_main(core(t)).no_duplicates() ==> defines(m_main(core(t)), Map::empty(), n_main(core(t))),
{
    hide(published);
    let c = Ctx { text: s, rules: r };
    assert(doc(c)) by { reveal(doc); }
    t_main(c, t);
}
