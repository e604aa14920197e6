//@ include text.vx
//@ spec
// ---------------------------------------------------------------- C11: which tasks a task leads to
pub open spec fn child(c: Ctx, t: Task, u: Task) -> bool { subs1(c, t) == Some(u) || subs1(c, t).is_some() && subs2(c, t, sem(c, subs1(c, t).unwrap())) == Some(u) }
pub open spec fn reachk(c: Ctx, k: nat, t: Task, u: Task) -> bool decreases k { if k == 0 { t == u } else { exists|m: Task| #[trigger] child(c, t, m) && reachk(c, (k - 1) as nat, m, u) } }
pub open spec fn reach(c: Ctx, t: Task, u: Task) -> bool { exists|k: nat| reachk(c, k, t, u) }
pub proof fn lemma_reach_refl(c: Ctx, t: Task)
    ensures reach(c, t, t),
{ assert(reachk(c, 0, t, t)); }
pub proof fn lemma_reachk_trans(c: Ctx, k: nat, j: nat, t: Task, u: Task, v: Task)
    requires reachk(c, k, t, u), reachk(c, j, u, v),
    ensures reachk(c, k + j, t, v),
    decreases k,
{ if k > 0 { let m = choose|m: Task| #[trigger] child(c, t, m) && reachk(c, (k - 1) as nat, m, u); lemma_reachk_trans(c, (k - 1) as nat, j, m, u, v); assert(child(c, t, m) && reachk(c, (k + j - 1) as nat, m, v)); } }
pub proof fn lemma_reach_trans(c: Ctx, t: Task, u: Task, v: Task)
    requires reach(c, t, u), reach(c, u, v),
    ensures reach(c, t, v),
{
    let k = choose|k: nat| reachk(c, k, t, u); let j = choose|j: nat| reachk(c, j, u, v);
    lemma_reachk_trans(c, k, j, t, u, v);
}
pub proof fn lemma_reach_child(c: Ctx, t: Task, u: Task, v: Task)
    requires reach(c, t, u), child(c, u, v),
    ensures reach(c, t, v), reach(c, u, v),
{ assert(reachk(c, 0, v, v)); assert(reachk(c, 1, u, v)); lemma_reach_trans(c, t, u, v); }
/// no rule reaches itself again at the same place of the text, from here on
pub open spec fn nolr(c: Ctx, t: Task) -> bool {
    forall|s: Seq<char>, n: int, p: Option<EV>, q: Option<EV>| c.rules.dom().contains(s) && #[trigger] reach(c, t, Task::Rule(s, n, p)) ==> !(#[trigger] reach(c, Task::Expr(c.rules[s], n, p), Task::Rule(s, n, q)))
}
/// the rules entered from here on at this place of the text
pub open spec fn enters(c: Ctx, t: Task) -> Set<Seq<char>> { c.rules.dom().filter(|s: Seq<char>| exists|p: Option<EV>| reach(c, t, Task::Rule(s, tpos(t), p))) }
/// the measure of a task: what is left of the text, then the rules that can still be entered without consuming
pub open spec fn chars_left(c: Ctx, t: Task) -> nat { if tpos(t) <= c.text.len() { (c.text.len() - tpos(t)) as nat } else { 0 } }
pub open spec fn rk(c: Ctx, t: Task) -> nat { enters(c, t).len() }
pub proof fn lemma_go(c: Ctx, t: Task, u: Task)
    requires nolr(c, t), reach(c, t, u),
    ensures nolr(c, u), tpos(u) == tpos(t) ==> rk(c, u) <= rk(c, t),
{
    assert forall|s: Seq<char>, n: int, p: Option<EV>, q: Option<EV>| c.rules.dom().contains(s) && #[trigger] reach(c, u, Task::Rule(s, n, p)) implies !(#[trigger] reach(c, Task::Expr(c.rules[s], n, p), Task::Rule(s, n, q))) by {
        lemma_reach_trans(c, t, u, Task::Rule(s, n, p));
    }
    if tpos(u) == tpos(t) {
        assert forall|s: Seq<char>| enters(c, u).contains(s) implies #[trigger] enters(c, t).contains(s) by {
            let p = choose|p: Option<EV>| reach(c, u, Task::Rule(s, tpos(u), p));
            lemma_reach_trans(c, t, u, Task::Rule(s, tpos(u), p));
        }
        assert(enters(c, u).subset_of(enters(c, t)));
        vstd::set_lib::lemma_len_subset(enters(c, u), enters(c, t));
    }
}
pub proof fn lemma_enter(c: Ctx, s: Seq<char>, n: int, p: Option<EV>)
    requires nolr(c, Task::Rule(s, n, p)), c.rules.dom().contains(s),
    ensures nolr(c, Task::Expr(c.rules[s], n, p)), rk(c, Task::Expr(c.rules[s], n, p)) < rk(c, Task::Rule(s, n, p)),
{
    let t = Task::Rule(s, n, p); let u = Task::Expr(c.rules[s], n, p);
    lemma_reach_refl(c, t);
    lemma_reach_child(c, t, t, u);
    lemma_go(c, t, u);
    assert(enters(c, t).contains(s));
    assert(!enters(c, u).contains(s));
    assert forall|x: Seq<char>| enters(c, u).contains(x) implies #[trigger] enters(c, t).contains(x) by {
        let q = choose|q: Option<EV>| reach(c, u, Task::Rule(x, n, q));
        lemma_reach_trans(c, t, u, Task::Rule(x, n, q));
    }
    assert(enters(c, u).insert(s).subset_of(enters(c, t)));
    vstd::set_lib::lemma_len_subset(enters(c, u).insert(s), enters(c, t));
}
/// the tasks that a task starts first, and that it goes on with
pub open spec fn first_of(c: Ctx, t: Task, u: Task, m: Task) -> bool { subs1(c, u) == Some(m) && reach(c, t, m) && (nolr(c, t) ==> nolr(c, m)) && (nolr(c, t) && tpos(m) == tpos(t) ==> rk(c, m) <= rk(c, t)) }
pub proof fn lemma_next(c: Ctx, t: Task, u: Task)
    requires reach(c, t, u) || t == u,
    ensures
        match subs1(c, u) { Some(m) => first_of(c, t, u, m) && match subs2(c, u, sem(c, m)) { Some(v) => reach(c, t, v), None => true }, None => true },
{
    lemma_reach_refl(c, t);
    match subs1(c, u) { Some(m) => {
        lemma_reach_child(c, t, u, m);
        if nolr(c, t) { lemma_go(c, t, m); }
        match subs2(c, u, sem(c, m)) { Some(v) => { assert(child(c, u, v)); lemma_reach_child(c, t, u, v); } None => {} }
    } None => {} }
}
