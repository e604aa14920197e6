//@ include gnode.vx
//@ include pos.vx
//@ include sem.vx
//@ type parser_Status
//@ type parser_Error
//@ spec
/// an outcome of a task is that of one step over outcomes
pub proof fn lemma_inv(c: Ctx, t: Task)
    requires sem(c, t) != Out::Div,
    ensures step(c, semf(c), t) == sem(c, t),
{
    let f = choose|f: nat| conv(c, f, t);
    assert(exists|f: nat| conv(c, f, t));
    assert(conv(c, f, t));
    let g = (f - 1) as nat;
    let a = |x: Task| ev(c, g, x);
    assert(ev(c, f, t) == step(c, a, t));
    assert forall|x: Task| #[trigger] a(x) != Out::Div implies semf(c)(x) == a(x) by { lemma_sem(c, g, x); }
    lemma_step_mono(c, a, semf(c), t);
}
pub open spec fn fails(c: Ctx, e: Ex, n: int, pe: Option<EV>) -> bool { sem(c, Task::Expr(e, n, pe)) is Err }
pub open spec fn err_of(c: Ctx, e: Ex, n: int, pe: Option<EV>) -> EV { sem(c, Task::Expr(e, n, pe))->Err_0 }

// ---- C01: ordered choice
pub proof fn lemma_choice(c: Ctx, es: Seq<Ex>, n: int, pe: Option<EV>, best: Option<EV>, i: int) //#C01
    requires 0 <= i < es.len(), sem(c, Task::Expr(es[i], n, pe)) is Ok,
        forall|j: int| 0 <= j < i ==> fails(c, #[trigger] es[j], n, pe) && !err_of(c, es[j], n, pe).crit,
    ensures sem(c, Task::Alt(es, n, pe, best)) == sem(c, Task::Expr(es[i], n, pe)),
    decreases i,
{
    lemma_alt(c, es, n, pe, best);
    if i > 0 {
        assert(fails(c, es[0], n, pe));
        let r = es.skip(1);
        assert forall|j: int| 0 <= j < i - 1 implies fails(c, #[trigger] r[j], n, pe) && !err_of(c, r[j], n, pe).crit by { assert(r[j] == es[j + 1]); }
        lemma_choice(c, r, n, pe, Some(deeper(best, err_of(c, es[0], n, pe))), i - 1);
    }
}
/// C01, C09: when all the alternatives fail, the choice fails with the furthest failure, the latest of those
pub open spec fn furthest(c: Ctx, es: Seq<Ex>, n: int, pe: Option<EV>, best: Option<EV>, e: EV) -> bool {
    ||| best == Some(e) && forall|j: int| 0 <= j < es.len() ==> err_of(c, #[trigger] es[j], n, pe).n < e.n
    ||| exists|i: int| #![trigger es[i]] 0 <= i < es.len() && err_of(c, es[i], n, pe) == e && (forall|j: int| 0 <= j < es.len() ==> err_of(c, #[trigger] es[j], n, pe).n <= e.n)
        && (forall|j: int| i < j < es.len() ==> err_of(c, #[trigger] es[j], n, pe).n < e.n) && (best.is_some() ==> best.unwrap().n <= e.n)
}
pub proof fn lemma_all_fail(c: Ctx, es: Seq<Ex>, n: int, pe: Option<EV>, best: Option<EV>) //#C01,C09
    requires forall|j: int| 0 <= j < es.len() ==> fails(c, #[trigger] es[j], n, pe) && !err_of(c, es[j], n, pe).crit,
        es.len() > 0 || best.is_some(),
    ensures sem(c, Task::Alt(es, n, pe, best)) is Err, furthest(c, es, n, pe, best, sem(c, Task::Alt(es, n, pe, best))->Err_0),
    decreases es.len(),
{
    lemma_alt(c, es, n, pe, best);
    if es.len() > 0 {
        assert(fails(c, es[0], n, pe));
        let r = es.skip(1);
        let e0 = err_of(c, es[0], n, pe);
        let b = Some(deeper(best, e0));
        assert forall|j: int| 0 <= j < r.len() implies fails(c, #[trigger] r[j], n, pe) && !err_of(c, r[j], n, pe).crit by { assert(r[j] == es[j + 1]); }
        lemma_all_fail(c, r, n, pe, b);
        let e = sem(c, Task::Alt(r, n, pe, b))->Err_0;
        assert(sem(c, Task::Alt(es, n, pe, best)) == Out::Err(e));
        if b == Some(e) && forall|j: int| 0 <= j < r.len() ==> err_of(c, #[trigger] r[j], n, pe).n < e.n {
            assert forall|j: int| 0 < j < es.len() implies err_of(c, #[trigger] es[j], n, pe).n < e.n by { assert(r[j - 1] == es[j]); }
            if best.is_some() && best.unwrap().n > e0.n { assert(best == Some(e)); } else { assert(e == e0); assert(err_of(c, es[0], n, pe) == e); }
            assert(furthest(c, es, n, pe, best, e));
        } else {
            let i = choose|i: int| #![trigger r[i]] 0 <= i < r.len() && err_of(c, r[i], n, pe) == e && (forall|j: int| 0 <= j < r.len() ==> err_of(c, #[trigger] r[j], n, pe).n <= e.n)
                && (forall|j: int| i < j < r.len() ==> err_of(c, #[trigger] r[j], n, pe).n < e.n) && (b.is_some() ==> b.unwrap().n <= e.n);
            assert(r[i] == es[i + 1]);
            assert forall|j: int| 0 <= j < es.len() implies err_of(c, #[trigger] es[j], n, pe).n <= e.n by { if j > 0 { assert(r[j - 1] == es[j]); } }
            assert forall|j: int| i + 1 < j < es.len() implies err_of(c, #[trigger] es[j], n, pe).n < e.n by { assert(r[j - 1] == es[j]); }
            assert(furthest(c, es, n, pe, best, e));
        }
    }
}
// ---- C08: a critical failure of the part is the failure of the whole, whatever encloses it but a negation
pub proof fn lemma_critical_up(c: Ctx, e: Ex, es: Seq<Ex>, s: Seq<char>, n: int, pe: Option<EV>, best: Option<EV>, min: nat, max: Option<nat>, k: nat, x: EV) //#C08
    requires sem(c, Task::Expr(e, n, pe)) == Out::Err(x), x.crit,
    ensures
        es.len() > 0 && es[0] == e ==> sem(c, Task::Seq(es, n, pe)) == Out::Err(x) && sem(c, Task::Alt(es, n, pe, best)) == Out::Err(x),
        !(max.is_some() && k >= max.unwrap()) ==> sem(c, Task::Rep(e, min, max, k, n, pe)) == Out::Err(x),
        c.rules.dom().contains(s) && c.rules[s] == e ==> sem(c, Task::Rule(s, n, pe)) == Out::Err(x),
{ lemma_seq(c, es, n, pe); lemma_alt(c, es, n, pe, best); lemma_rep(c, e, min, max, k, n, pe); lemma_rule(c, s, n, pe); }
/// where a critical failure comes from
pub open spec fn raised(c: Ctx, s: String, x: EV) -> bool { x == EV { n: x.n, crit: true, descr: s@ } && atom_out(c.text, parser_atom_Atom::Error(s), x.n, None) == Out::Err(x) }
pub open spec fn origin(c: Ctx, x: EV) -> bool {
    ||| exists|s: String| raised(c, s, x)
    ||| exists|s: Seq<char>| #![trigger c.rules.dom().contains(s)] !c.rules.dom().contains(s) && x == (EV { n: x.n, crit: true, descr: "Missing rule: "@ + s })
}
pub proof fn lemma_critical_origin(c: Ctx, f: nat, t: Task) //#C08
    ensures match ev(c, f, t) { Out::Err(x) => x.crit ==> (match t { Task::Alt(_, _, _, Some(b)) => b == x, _ => false }) || origin(c, x), _ => true },
    decreases f,
{
    if f > 0 {
        let g = (f - 1) as nat;
        match t {
            Task::Expr(e, n, pe) => match e {
                parser_expression_Expression::Simple(a) => { match a { parser_atom_Atom::Error(s) => { let x = EV { n, crit: true, descr: s@ }; assert(raised(c, s, x)); assert(origin(c, x)); } _ => {} } }
                parser_expression_Expression::And(m) => { lemma_critical_origin(c, g, Task::Seq(m.0@, n, pe)); }
                parser_expression_Expression::Or(m) => { lemma_critical_origin(c, g, Task::Alt(m.0@, n, pe, None)); }
                parser_expression_Expression::Not(x) => {}
                parser_expression_Expression::Repeat(r) => { lemma_critical_origin(c, g, Task::Rep(*r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe)); }
                parser_expression_Expression::RuleName(s) => { lemma_critical_origin(c, g, Task::Rule(s@, n, pe)); }
            },
            Task::Rule(s, n, pe) => { if c.rules.dom().contains(s) { lemma_critical_origin(c, g, Task::Expr(c.rules[s], n, pe)); } }
            Task::Seq(es, n, pe) => { if es.len() > 0 { let q = Task::Expr(es[0], n, pe); lemma_critical_origin(c, g, q);
                match ev(c, g, q) { Out::Ok(n1, p1, ns) => { lemma_critical_origin(c, g, Task::Seq(es.skip(1), n1, p1)); } _ => {} } } }
            Task::Alt(es, n, pe, best) => { if es.len() > 0 { let q = Task::Expr(es[0], n, pe); lemma_critical_origin(c, g, q);
                match ev(c, g, q) { Out::Err(e) => { lemma_critical_origin(c, g, Task::Alt(es.skip(1), n, pe, Some(deeper(best, e)))); } _ => {} } } }
            Task::Rep(e, min, max, k, n, pe) => { let q = Task::Expr(e, n, pe); lemma_critical_origin(c, g, q);
                match ev(c, g, q) { Out::Ok(n1, p1, ns) => { lemma_critical_origin(c, g, Task::Rep(e, min, max, k + 1, n1, p1)); } _ => {} } }
        }
    }
}
// ---- C02: what a repetition that succeeds has done
/// the outcome of k iterations
pub open spec fn iter_k(c: Ctx, e: Ex, k: nat, n: int, pe: Option<EV>) -> Out decreases k {
    if k == 0 { Out::Ok(n, pe, Seq::empty()) } else { match sem(c, Task::Expr(e, n, pe)) { Out::Ok(n1, p1, ns) => prepend(ns, iter_k(c, e, (k - 1) as nat, n1, p1)), x => x } }
}
pub open spec fn rep_done(c: Ctx, e: Ex, min: nat, max: Option<nat>, k0: nat, n: int, pe: Option<EV>, j: nat, o: Out) -> bool {
    match (iter_k(c, e, j, n, pe), o) {
        (Out::Ok(n1, p1, ns), Out::Ok(n2, p2, ms)) =>
            n1 == n2 && ns == ms && (max.is_none() || k0 + j <= max.unwrap() || j == 0) && (max.is_some() && k0 + j >= max.unwrap() || k0 + j >= min && (max.is_none() && j > 0 || sem(c, Task::Expr(e, n1, p1)) is Err)),
        _ => false }
}
pub proof fn lemma_rep_done(c: Ctx, e: Ex, min: nat, max: Option<nat>, k: nat, n: int, pe: Option<EV>, f: nat) -> (j: nat) //#C02
    requires ev(c, f, Task::Rep(e, min, max, k, n, pe)) is Ok,
    ensures rep_done(c, e, min, max, k, n, pe, j, ev(c, f, Task::Rep(e, min, max, k, n, pe))),
    decreases f,
{
    let t = Task::Rep(e, min, max, k, n, pe);
    let g = (f - 1) as nat;
    let q = Task::Expr(e, n, pe);
    let o = ev(c, f, t);
    if max.is_some() && k >= max.unwrap() { 0 }
    else {
        if ev(c, g, q) != Out::Div { lemma_sem(c, g, q); }
        match ev(c, g, q) {
            Out::Err(x) => { 0 }
            Out::Ok(n1, p1, ns) => {
                assert(iter_k(c, e, 0, n1, p1) == Out::Ok(n1, p1, Seq::<GNode>::empty()));
                assert(ns + Seq::<GNode>::empty() =~= ns);
                if max.is_none() && n1 == n && k + 1 >= min { assert(iter_k(c, e, 1, n, pe) == prepend(ns, iter_k(c, e, 0, n1, p1))); 1 }
                else {
                    let r = Task::Rep(e, min, max, k + 1, n1, p1);
                    let j = lemma_rep_done(c, e, min, max, k + 1, n1, p1, g);
                    assert(iter_k(c, e, j + 1, n, pe) == prepend(ns, iter_k(c, e, j, n1, p1)));
                    j + 1
                }
            }
            Out::Div => { 0 }
        }
    }
}
