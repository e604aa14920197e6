//@ include gnode.vx
//@ include pos.vx
//@ import state.vx
//@ include sem.vx
//@ include pre.vx
//@ include reach.vx
//@ spec
// ---------------------------------------------------------------- C11: the usual criterion, read off the rules alone
/// e may match without consuming, where the rules of which the same holds are among nn
pub open spec fn nule(nn: spec_fn(Seq<char>) -> bool, e: Ex) -> bool decreases e {
    match e {
        parser_expression_Expression::Simple(a) => match a { parser_atom_Atom::Literal(s) => s@.len() == 0, parser_atom_Atom::EOF => true, _ => false },
        parser_expression_Expression::And(m) => forall|i: int| 0 <= i < m.0@.len() ==> nule(nn, #[trigger] m.0@[i]),
        parser_expression_Expression::Or(m) => exists|i: int| 0 <= i < m.0@.len() && nule(nn, #[trigger] m.0@[i]),
        parser_expression_Expression::Not(x) => true,
        parser_expression_Expression::Repeat(r) => r.min.0 == 0 || r.max.is_some() && r.max.unwrap().0 == 0 || nule(nn, *r.expression),
        parser_expression_Expression::RuleName(s) => nn(s@),
    }
}
/// the rule x may be entered from e before anything is consumed
pub open spec fn lead(nn: spec_fn(Seq<char>) -> bool, e: Ex, x: Seq<char>) -> bool decreases e {
    match e {
        parser_expression_Expression::Simple(a) => false,
        parser_expression_Expression::And(m) => exists|i: int| 0 <= i < m.0@.len() && lead(nn, #[trigger] m.0@[i], x) && forall|j: int| 0 <= j < i ==> nule(nn, #[trigger] m.0@[j]),
        parser_expression_Expression::Or(m) => exists|i: int| 0 <= i < m.0@.len() && lead(nn, #[trigger] m.0@[i], x),
        parser_expression_Expression::Not(y) => lead(nn, *y, x),
        parser_expression_Expression::Repeat(r) => lead(nn, *r.expression, x),
        parser_expression_Expression::RuleName(s) => s@ == x,
    }
}
/// no left recursion: nn has all the rules that may match without consuming, and the relation `lead` has no cycle
pub open spec fn no_left_recursion(rules: Map<Seq<char>, Ex>, nn: spec_fn(Seq<char>) -> bool, rank: spec_fn(Seq<char>) -> nat) -> bool {
    &&& forall|s: Seq<char>| #[trigger] rules.dom().contains(s) && nule(nn, rules[s]) ==> nn(s)
    &&& forall|s: Seq<char>, x: Seq<char>| #![trigger rules.dom().contains(s), lead(nn, rules[s], x)] rules.dom().contains(s) && lead(nn, rules[s], x) ==> rank(x) < rank(s)
}
pub open spec fn closed(c: Ctx, nn: spec_fn(Seq<char>) -> bool) -> bool { forall|s: Seq<char>| #[trigger] c.rules.dom().contains(s) && nule(nn, c.rules[s]) ==> nn(s) }
pub open spec fn nules(nn: spec_fn(Seq<char>) -> bool, es: Seq<Ex>) -> bool { forall|i: int| 0 <= i < es.len() ==> nule(nn, #[trigger] es[i]) }
pub open spec fn nulo(nn: spec_fn(Seq<char>) -> bool, es: Seq<Ex>) -> bool { exists|i: int| 0 <= i < es.len() && nule(nn, #[trigger] es[i]) }
pub open spec fn nult(nn: spec_fn(Seq<char>) -> bool, t: Task) -> bool {
    match t { Task::Expr(e, _, _) => nule(nn, e), Task::Rule(s, _, _) => nn(s), Task::Seq(es, _, _) => nules(nn, es), Task::Alt(es, _, _, _) => nulo(nn, es),
        Task::Rep(e, min, max, k, _, _) => k >= min || max.is_some() && k >= max.unwrap() || nule(nn, e) }
}
/// what matches without consuming is what the criterion says
pub proof fn lemma_nul(c: Ctx, nn: spec_fn(Seq<char>) -> bool, f: nat, t: Task) //#C11
    requires closed(c, nn), 0 <= tpos(t) <= c.text.len(),
    ensures match ev(c, f, t) { Out::Ok(n1, _, _) => n1 == tpos(t) ==> nult(nn, t), _ => true },
    decreases f,
{
    if f > 0 {
        let g = (f - 1) as nat; let n = tpos(t);
        match t {
            Task::Expr(e, _, pe) => match e {
                parser_expression_Expression::Simple(a) => { match a { parser_atom_Atom::Literal(s) => { lemma_lit(c.text, s@, 0, n); } _ => {} } }
                parser_expression_Expression::And(m) => { lemma_nul(c, nn, g, Task::Seq(m.0@, n, pe)); }
                parser_expression_Expression::Or(m) => { lemma_nul(c, nn, g, Task::Alt(m.0@, n, pe, None)); }
                parser_expression_Expression::Not(x) => {}
                parser_expression_Expression::Repeat(r) => { lemma_nul(c, nn, g, Task::Rep(*r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe)); }
                parser_expression_Expression::RuleName(s) => { lemma_nul(c, nn, g, Task::Rule(s@, n, pe)); }
            },
            Task::Rule(s, _, pe) => { if c.rules.dom().contains(s) { lemma_nul(c, nn, g, Task::Expr(c.rules[s], n, pe)); } }
            Task::Seq(es, _, pe) => { if es.len() > 0 {
                let q = Task::Expr(es[0], n, pe); lemma_nul(c, nn, g, q); lemma_spell(c, g, q);
                match ev(c, g, q) { Out::Ok(n1, p1, ns) => {
                    let r = Task::Seq(es.skip(1), n1, p1); lemma_nul(c, nn, g, r); lemma_spell(c, g, r);
                    if nule(nn, es[0]) && nules(nn, es.skip(1)) { assert forall|i: int| 0 <= i < es.len() implies nule(nn, #[trigger] es[i]) by { if i > 0 { assert(es.skip(1)[i - 1] == es[i]); } } }
                } _ => {} } } }
            Task::Alt(es, _, pe, best) => { if es.len() > 0 {
                let q = Task::Expr(es[0], n, pe); lemma_nul(c, nn, g, q);
                match ev(c, g, q) { Out::Err(e) => {
                    let r = Task::Alt(es.skip(1), n, pe, Some(deeper(best, e))); lemma_nul(c, nn, g, r);
                    if nulo(nn, es.skip(1)) { let i = choose|i: int| 0 <= i < es.skip(1).len() && nule(nn, #[trigger] es.skip(1)[i]); assert(nule(nn, es[i + 1])); }
                } _ => {} } } }
            Task::Rep(e, min, max, k, _, pe) => {
                let q = Task::Expr(e, n, pe); lemma_nul(c, nn, g, q); lemma_spell(c, g, q);
                match ev(c, g, q) { Out::Ok(n1, p1, ns) => { let r = Task::Rep(e, min, max, k + 1, n1, p1); lemma_spell(c, g, r); } _ => {} }
            }
        }
    }
}
pub open spec fn leads(nn: spec_fn(Seq<char>) -> bool, es: Seq<Ex>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < es.len() && lead(nn, #[trigger] es[i], x) && forall|j: int| 0 <= j < i ==> nule(nn, #[trigger] es[j]) }
pub open spec fn leado(nn: spec_fn(Seq<char>) -> bool, es: Seq<Ex>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < es.len() && lead(nn, #[trigger] es[i], x) }
pub open spec fn leadt(nn: spec_fn(Seq<char>) -> bool, t: Task, x: Seq<char>) -> bool {
    match t { Task::Expr(e, _, _) => lead(nn, e, x), Task::Rule(s, _, _) => s == x, Task::Seq(es, _, _) => leads(nn, es, x), Task::Alt(es, _, _, _) => leado(nn, es, x), Task::Rep(e, _, _, _, _, _) => lead(nn, e, x) }
}
pub open spec fn within(c: Ctx, t: Task) -> bool { 0 <= tpos(t) <= c.text.len() }
pub proof fn lemma_child(c: Ctx, t: Task, u: Task)
    requires within(c, t), child(c, t, u),
    ensures within(c, u), tpos(t) <= tpos(u),
{ match subs1(c, t) { Some(m) => { lemma_spell_sem(c, m); } None => {} } }
pub proof fn lemma_path(c: Ctx, k: nat, t: Task, u: Task)
    requires within(c, t), reachk(c, k, t, u),
    ensures within(c, u), tpos(t) <= tpos(u),
    decreases k,
{ if k > 0 { let m = choose|m: Task| #[trigger] child(c, t, m) && reachk(c, (k - 1) as nat, m, u); lemma_child(c, t, m); lemma_path(c, (k - 1) as nat, m, u); } }
/// a step that consumes nothing, of a task that is not a rule
pub proof fn lemma_still(c: Ctx, nn: spec_fn(Seq<char>) -> bool, t: Task, u: Task, x: Seq<char>)
    requires closed(c, nn), within(c, t), child(c, t, u), tpos(u) == tpos(t), leadt(nn, u, x), !(t is Rule),
    ensures leadt(nn, t, x),
{
    match t {
        Task::Seq(es, n, pe) => {
            if subs1(c, t) == Some(u) { assert(lead(nn, es[0], x)); }
            else {
                let q = Task::Expr(es[0], n, pe);
                if exists|f: nat| conv(c, f, q) { lemma_nul(c, nn, choose|f: nat| conv(c, f, q), q); }
                assert(nule(nn, es[0]));
                let r = es.skip(1);
                let i = choose|i: int| 0 <= i < r.len() && lead(nn, #[trigger] r[i], x) && forall|j: int| 0 <= j < i ==> nule(nn, #[trigger] r[j]);
                assert(lead(nn, es[i + 1], x));
                assert forall|j: int| 0 <= j < i + 1 implies nule(nn, #[trigger] es[j]) by { if j > 0 { assert(r[j - 1] == es[j]); } }
            }
        }
        Task::Alt(es, n, pe, best) => {
            if subs1(c, t) == Some(u) { assert(lead(nn, es[0], x)); }
            else { let r = es.skip(1); let i = choose|i: int| 0 <= i < r.len() && lead(nn, #[trigger] r[i], x); assert(lead(nn, es[i + 1], x)); }
        }
        _ => {}
    }
}
pub proof fn lemma_chain(c: Ctx, nn: spec_fn(Seq<char>) -> bool, rank: spec_fn(Seq<char>) -> nat, k: nat, t: Task, x: Seq<char>, q: Option<EV>) -> (y: Seq<char>)
    requires no_left_recursion(c.rules, nn, rank), within(c, t), reachk(c, k, t, Task::Rule(x, tpos(t), q)),
    ensures leadt(nn, t, y), y == x || rank(x) < rank(y),
    decreases k,
{
    if k == 0 { x } else {
        let z = Task::Rule(x, tpos(t), q);
        let m = choose|m: Task| #[trigger] child(c, t, m) && reachk(c, (k - 1) as nat, m, z);
        lemma_child(c, t, m); lemma_path(c, (k - 1) as nat, m, z);
        let y = lemma_chain(c, nn, rank, (k - 1) as nat, m, x, q);
        match t {
            Task::Rule(s, _, _) => { assert(c.rules.dom().contains(s) && lead(nn, c.rules[s], y)); s }
            _ => { lemma_still(c, nn, t, m, y); y }
        }
    }
}
/// rules without left recursion do not enter a rule again at the same place of any text
pub proof fn lemma_no_left_recursion(c: Ctx, nn: spec_fn(Seq<char>) -> bool, rank: spec_fn(Seq<char>) -> nat, t: Task) //#C11
    requires no_left_recursion(c.rules, nn, rank), within(c, t),
    ensures nolr(c, t),
{
    assert forall|s: Seq<char>, n: int, p: Option<EV>, q: Option<EV>| c.rules.dom().contains(s) && #[trigger] reach(c, t, Task::Rule(s, n, p)) implies !(#[trigger] reach(c, Task::Expr(c.rules[s], n, p), Task::Rule(s, n, q))) by {
        let u = Task::Expr(c.rules[s], n, p); let z = Task::Rule(s, n, q);
        let k0 = choose|k: nat| reachk(c, k, t, Task::Rule(s, n, p));
        lemma_path(c, k0, t, Task::Rule(s, n, p));
        if reach(c, u, z) {
            let k = choose|k: nat| reachk(c, k, u, z);
            let y = lemma_chain(c, nn, rank, k, u, s, q);
            assert(c.rules.dom().contains(s) && lead(nn, c.rules[s], y));
        }
    }
}
