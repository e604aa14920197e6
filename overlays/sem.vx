//@ spec
// ---------------------------------------------------------------- outcomes
pub struct EV { pub n: int, pub crit: bool, pub descr: Seq<char> }
pub enum Out { Ok(int, Option<EV>, Seq<GNode>), Err(EV), Div }
pub type Ex = parser_expression_Expression;
pub struct Ctx { pub text: Seq<char>, pub rules: Map<Seq<char>, Ex> }
pub enum Task {
    Expr(Ex, int, Option<EV>),
    Rule(Seq<char>, int, Option<EV>),
    Seq(Seq<Ex>, int, Option<EV>),
    Alt(Seq<Ex>, int, Option<EV>, Option<EV>),
    Rep(Ex, nat, Option<nat>, nat, int, Option<EV>),
}
pub open spec fn prepend(ns: Seq<GNode>, o: Out) -> Out { match o { Out::Ok(n, pe, m) => Out::Ok(n, pe, ns + m), x => x } }

// ---------------------------------------------------------------- terminals (C04)
pub open spec fn err_n(n: int, descr: Seq<char>) -> EV { EV { n, crit: false, descr } }
/// the literal s, from its character i, at position n: where it ends
pub open spec fn lit_at(text: Seq<char>, s: Seq<char>, i: int, n: int) -> Result<int, int> decreases s.len() - i {
    if i >= s.len() { Ok(n) } else if n >= text.len() { Err(n) } else if text[n] == s[i] { lit_at(text, s, i + 1, n + 1) } else { Err(n + 1) }
}
pub open spec fn in_class(chars: Seq<char>, ranges: Seq<(char, char)>, c: char) -> bool {
    chars.contains(c) || exists|i: int| 0 <= i < ranges.len() && (#[trigger] ranges[i]).0 as int <= c as int && c as int <= ranges[i].1 as int
}
pub open spec fn lit_descr(s: Seq<char>) -> Seq<char> { "expected literal: <"@ + s + ">"@ }
pub open spec fn match_descr(m: parser_atom_MatchRules) -> Seq<char> { "match. expected "@ + m.0@ + " "@ + vx_dbg(&m.1) }
pub open spec fn lit_out(text: Seq<char>, s: Seq<char>, n: int, pe: Option<EV>) -> Out {
    match lit_at(text, s, 0, n) {
        Ok(m) => Out::Ok(m, pe, seq![GNode::Val(s)]),
        Err(m) => Out::Err(err_n(m, lit_descr(s))),
    }
}
pub open spec fn match_out(text: Seq<char>, m: parser_atom_MatchRules, n: int, pe: Option<EV>) -> Out {
    if n >= text.len() { Out::Err(err_n(n, match_descr(m))) }
    else if in_class(m.0@, m.1@, text[n]) { Out::Ok(n + 1, pe, seq![GNode::Val(seq![text[n]])]) }
    else { Out::Err(err_n(n + 1, match_descr(m))) }
}
pub open spec fn atom_out(text: Seq<char>, a: parser_atom_Atom, n: int, pe: Option<EV>) -> Out {
    match a {
        parser_atom_Atom::Literal(s) => lit_out(text, s@, n, pe),
        parser_atom_Atom::Match(m) => match_out(text, m, n, pe),
        parser_atom_Atom::Error(s) => Out::Err(EV { n, crit: true, descr: s@ }),
        parser_atom_Atom::Dot =>
            if n >= text.len() { Out::Err(err_n(n, "dot"@)) } else { Out::Ok(n + 1, pe, seq![GNode::Val(seq![text[n]])]) },
        parser_atom_Atom::EOF =>
            if n >= text.len() { Out::Ok(n, pe, seq![GNode::EOF]) } else { Out::Err(err_n(n + 1, "expected EOF"@)) },
    }
}

// ---------------------------------------------------------------- one step of the semantics
pub open spec fn empty_or() -> Seq<char> { "LOGIC ERROR!!! checked all options in or with ¿NO? errors"@ }
/// C09: the furthest failure, the latest of those at the same position
pub open spec fn deeper(best: Option<EV>, e: EV) -> EV { match best { Some(b) => if b.n > e.n { b } else { e }, None => e } }
pub open spec fn maxof(m: Option<parser_expression_NRep>) -> Option<nat> { match m { Some(x) => Some(x.0 as nat), None => None } }

pub open spec fn step(c: Ctx, rec: spec_fn(Task) -> Out, t: Task) -> Out {
    match t {
        Task::Expr(e, n, pe) => match e {
            parser_expression_Expression::Simple(a) => atom_out(c.text, a, n, pe),
            parser_expression_Expression::And(m) => rec(Task::Seq(m.0@, n, pe)),
            parser_expression_Expression::Or(m) => rec(Task::Alt(m.0@, n, pe, None)),
            parser_expression_Expression::Not(x) => match rec(Task::Expr(*x, n, pe)) {
                Out::Ok(_, _, _) => Out::Err(err_n(n, "not"@)),
                Out::Err(_) => Out::Ok(n, pe, Seq::empty()),
                Out::Div => Out::Div,
            },
            parser_expression_Expression::Repeat(r) => rec(Task::Rep(*r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe)),
            parser_expression_Expression::RuleName(s) => rec(Task::Rule(s@, n, pe)),
        },
        Task::Rule(s, n, pe) =>
            if !c.rules.dom().contains(s) { Out::Err(EV { n, crit: true, descr: "Missing rule: "@ + s }) }
            else { match rec(Task::Expr(c.rules[s], n, pe)) { Out::Ok(n1, pe1, ns) => Out::Ok(n1, pe1, seq![GNode::Rule(s, ns)]), x => x } },
        Task::Seq(es, n, pe) =>
            if es.len() == 0 { Out::Ok(n, pe, Seq::empty()) }
            else { match rec(Task::Expr(es[0], n, pe)) { Out::Ok(n1, pe1, ns) => prepend(ns, rec(Task::Seq(es.skip(1), n1, pe1))), x => x } },
        Task::Alt(es, n, pe, best) =>
            if es.len() == 0 { match best { Some(b) => Out::Err(b), None => Out::Err(err_n(n, empty_or())) } }
            else { match rec(Task::Expr(es[0], n, pe)) {
                Out::Err(e) => if e.crit { Out::Err(e) } else { rec(Task::Alt(es.skip(1), n, pe, Some(deeper(best, e)))) },
                x => x } },
        Task::Rep(e, min, max, k, n, pe) =>
            if max.is_some() && k >= max.unwrap() { Out::Ok(n, pe, Seq::empty()) }
            else { match rec(Task::Expr(e, n, pe)) {
                Out::Err(x) => if x.crit || k < min { Out::Err(x) } else { Out::Ok(n, Some(x), Seq::empty()) },
                Out::Ok(n1, pe1, ns) => if max.is_none() && n1 == n && k + 1 >= min { Out::Ok(n1, pe1, ns) } else { prepend(ns, rec(Task::Rep(e, min, max, k + 1, n1, pe1))) },
                Out::Div => Out::Div } },
    }
}
pub open spec fn ev(c: Ctx, f: nat, t: Task) -> Out decreases f {
    if f == 0 { Out::Div } else { step(c, |x: Task| ev(c, (f - 1) as nat, x), t) }
}
pub open spec fn conv(c: Ctx, f: nat, t: Task) -> bool { ev(c, f, t) != Out::Div }
/// the outcome of a task: that of any number of steps that suffices
pub open spec fn sem(c: Ctx, t: Task) -> Out { if exists|f: nat| conv(c, f, t) { ev(c, choose|f: nat| conv(c, f, t), t) } else { Out::Div } }
pub open spec fn semf(c: Ctx) -> spec_fn(Task) -> Out { |x: Task| sem(c, x) }

/// f1 agrees with f2 wherever f1 has an answer
pub open spec fn below(f1: spec_fn(Task) -> Out, f2: spec_fn(Task) -> Out) -> bool { forall|x: Task| #[trigger] f1(x) != Out::Div ==> f2(x) == f1(x) }
pub proof fn lemma_step_mono(c: Ctx, f1: spec_fn(Task) -> Out, f2: spec_fn(Task) -> Out, t: Task)
    requires below(f1, f2), step(c, f1, t) != Out::Div,
    ensures step(c, f2, t) == step(c, f1, t),
{}
pub proof fn lemma_mono1(c: Ctx, f: nat)
    ensures below(|x: Task| ev(c, f, x), |x: Task| ev(c, f + 1, x)),
    decreases f,
{
    let (a, b) = (|x: Task| ev(c, f, x), |x: Task| ev(c, f + 1, x));
    if f > 0 {
        lemma_mono1(c, (f - 1) as nat);
        let (a0, b0) = (|x: Task| ev(c, (f - 1) as nat, x), |x: Task| ev(c, (f - 1 + 1) as nat, x));
        assert forall|x: Task| #[trigger] a(x) != Out::Div implies b(x) == a(x) by {
            lemma_step_mono(c, a0, b0, x);
            assert(b0 =~= a);
            assert(ev(c, f, x) == step(c, a0, x));
            assert(ev(c, f + 1, x) == step(c, |y: Task| ev(c, (f + 1 - 1) as nat, y), x));
            assert((|y: Task| ev(c, (f + 1 - 1) as nat, y)) =~= b0);
        }
    }
}
pub proof fn lemma_mono(c: Ctx, f: nat, g: nat, t: Task)
    requires f <= g, ev(c, f, t) != Out::Div,
    ensures ev(c, g, t) == ev(c, f, t),
    decreases g - f,
{
    if f < g {
        lemma_mono1(c, f);
        let (a, b) = (|x: Task| ev(c, f, x), |x: Task| ev(c, f + 1, x));
        assert(a(t) != Out::Div); assert(b(t) == a(t));
        lemma_mono(c, f + 1, g, t);
    }
}
pub proof fn lemma_sem(c: Ctx, f: nat, t: Task)
    requires ev(c, f, t) != Out::Div,
    ensures sem(c, t) == ev(c, f, t),
{
    assert(conv(c, f, t));
    let g = choose|g: nat| conv(c, g, t);
    assert(conv(c, g, t));
    if f <= g { lemma_mono(c, f, g, t); } else { lemma_mono(c, g, f, t); }
}
/// enough steps for one task
pub open spec fn fuel(c: Ctx, t: Task) -> nat { choose|f: nat| conv(c, f, t) }
pub proof fn lemma_fuel(c: Ctx, t: Task, g: nat)
    requires sem(c, t) != Out::Div, g >= fuel(c, t),
    ensures ev(c, g, t) == sem(c, t),
{
    assert(exists|f: nat| conv(c, f, t));
    assert(conv(c, fuel(c, t), t));
    lemma_mono(c, fuel(c, t), g, t);
}
pub open spec fn subs1(c: Ctx, t: Task) -> Option<Task> {
    match t {
        Task::Expr(e, n, pe) => match e {
            parser_expression_Expression::Simple(a) => None,
            parser_expression_Expression::And(m) => Some(Task::Seq(m.0@, n, pe)),
            parser_expression_Expression::Or(m) => Some(Task::Alt(m.0@, n, pe, None)),
            parser_expression_Expression::Not(x) => Some(Task::Expr(*x, n, pe)),
            parser_expression_Expression::Repeat(r) => Some(Task::Rep(*r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe)),
            parser_expression_Expression::RuleName(s) => Some(Task::Rule(s@, n, pe)),
        },
        Task::Rule(s, n, pe) => if c.rules.dom().contains(s) { Some(Task::Expr(c.rules[s], n, pe)) } else { None },
        Task::Seq(es, n, pe) => if es.len() == 0 { None } else { Some(Task::Expr(es[0], n, pe)) },
        Task::Alt(es, n, pe, best) => if es.len() == 0 { None } else { Some(Task::Expr(es[0], n, pe)) },
        Task::Rep(e, min, max, k, n, pe) => if max.is_some() && k >= max.unwrap() { None } else { Some(Task::Expr(e, n, pe)) },
    }
}
pub open spec fn subs2(c: Ctx, t: Task, o: Out) -> Option<Task> {
    match (t, o) {
        (Task::Seq(es, n, pe), Out::Ok(n1, pe1, ns)) => Some(Task::Seq(es.skip(1), n1, pe1)),
        (Task::Alt(es, n, pe, best), Out::Err(e)) => if e.crit { None } else { Some(Task::Alt(es.skip(1), n, pe, Some(deeper(best, e)))) },
        (Task::Rep(e, min, max, k, n, pe), Out::Ok(n1, pe1, ns)) => if max.is_none() && n1 == n && k + 1 >= min { None } else { Some(Task::Rep(e, min, max, k + 1, n1, pe1)) },
        _ => None,
    }
}
/// the semantics satisfies its equation
pub proof fn lemma_unfold(c: Ctx, t: Task)
    ensures step(c, semf(c), t) != Out::Div ==> sem(c, t) == step(c, semf(c), t),
{
    let s = semf(c);
    if step(c, s, t) != Out::Div {
        let f1: nat = match subs1(c, t) { Some(x) => fuel(c, x), None => 0 };
        let o1 = match subs1(c, t) { Some(x) => sem(c, x), None => Out::Div };
        let f2: nat = match (subs1(c, t), subs2(c, t, o1)) { (Some(_), Some(x)) => fuel(c, x), _ => 0 };
        let g = f1 + f2;
        let r = |x: Task| ev(c, g, x);
        match subs1(c, t) { Some(x) => {
            lemma_fuel(c, x, g);
            assert(r(x) == s(x));
            match subs2(c, t, o1) { Some(y) => { lemma_fuel(c, y, g); assert(r(y) == s(y)); } None => {} }
        } None => {} }
        assert(step(c, r, t) == step(c, s, t));
        assert(ev(c, g + 1, t) == step(c, |x: Task| ev(c, (g + 1 - 1) as nat, x), t));
        assert((|x: Task| ev(c, (g + 1 - 1) as nat, x)) =~= r);
        lemma_sem(c, g + 1, t);
    }
}

// ---------------------------------------------------------------- the equations of the semantics
pub proof fn lemma_expr(c: Ctx, e: Ex, n: int, pe: Option<EV>)
    ensures ({ let o = sem(c, Task::Expr(e, n, pe)); match e {
        parser_expression_Expression::Simple(a) => o == atom_out(c.text, a, n, pe),
        parser_expression_Expression::And(m) => sem(c, Task::Seq(m.0@, n, pe)) != Out::Div ==> o == sem(c, Task::Seq(m.0@, n, pe)),
        parser_expression_Expression::Or(m) => sem(c, Task::Alt(m.0@, n, pe, None)) != Out::Div ==> o == sem(c, Task::Alt(m.0@, n, pe, None)),
        parser_expression_Expression::Not(x) => match sem(c, Task::Expr(*x, n, pe)) {
            Out::Ok(_, _, _) => o == Out::Err(err_n(n, "not"@)),
            Out::Err(_) => o == Out::Ok(n, pe, Seq::empty()),
            Out::Div => true,
        },
        parser_expression_Expression::Repeat(r) => ({ let q = sem(c, Task::Rep(*r.expression, r.min.0 as nat, maxof(r.max), 0, n, pe)); q != Out::Div ==> o == q }),
        parser_expression_Expression::RuleName(s) => sem(c, Task::Rule(s@, n, pe)) != Out::Div ==> o == sem(c, Task::Rule(s@, n, pe)),
    } }),
{ lemma_unfold(c, Task::Expr(e, n, pe)); }
pub proof fn lemma_rule(c: Ctx, s: Seq<char>, n: int, pe: Option<EV>)
    ensures ({ let o = sem(c, Task::Rule(s, n, pe));
        if !c.rules.dom().contains(s) { o == Out::Err(EV { n, crit: true, descr: "Missing rule: "@ + s }) }
        else { match sem(c, Task::Expr(c.rules[s], n, pe)) { Out::Ok(n1, pe1, ns) => o == Out::Ok(n1, pe1, seq![GNode::Rule(s, ns)]), Out::Err(e) => o == Out::Err(e), Out::Div => true } } }),
{ lemma_unfold(c, Task::Rule(s, n, pe)); }
pub proof fn lemma_seq(c: Ctx, es: Seq<Ex>, n: int, pe: Option<EV>)
    ensures ({ let o = sem(c, Task::Seq(es, n, pe));
        if es.len() == 0 { o == Out::Ok(n, pe, Seq::empty()) }
        else { match sem(c, Task::Expr(es[0], n, pe)) {
            Out::Ok(n1, pe1, ns) => ({ let q = sem(c, Task::Seq(es.skip(1), n1, pe1)); q != Out::Div ==> o == prepend(ns, q) }),
            Out::Err(e) => o == Out::Err(e), Out::Div => true } } }),
{ lemma_unfold(c, Task::Seq(es, n, pe)); }
pub proof fn lemma_alt(c: Ctx, es: Seq<Ex>, n: int, pe: Option<EV>, best: Option<EV>)
    ensures ({ let o = sem(c, Task::Alt(es, n, pe, best));
        if es.len() == 0 { o == Out::Err(match best { Some(b) => b, None => err_n(n, empty_or()) }) }
        else { match sem(c, Task::Expr(es[0], n, pe)) {
            Out::Ok(n1, pe1, ns) => o == Out::Ok(n1, pe1, ns),
            Out::Err(e) => if e.crit { o == Out::Err(e) } else { ({ let q = sem(c, Task::Alt(es.skip(1), n, pe, Some(deeper(best, e)))); q != Out::Div ==> o == q }) },
            Out::Div => true } } }),
{ lemma_unfold(c, Task::Alt(es, n, pe, best)); }
pub proof fn lemma_rep(c: Ctx, e: Ex, min: nat, max: Option<nat>, k: nat, n: int, pe: Option<EV>)
    ensures ({ let o = sem(c, Task::Rep(e, min, max, k, n, pe));
        if max.is_some() && k >= max.unwrap() { o == Out::Ok(n, pe, Seq::empty()) }
        else { match sem(c, Task::Expr(e, n, pe)) {
            Out::Err(x) => if x.crit || k < min { o == Out::Err(x) } else { o == Out::Ok(n, Some(x), Seq::empty()) },
            Out::Ok(n1, pe1, ns) => if max.is_none() && n1 == n && k + 1 >= min { o == Out::Ok(n1, pe1, ns) }
                else { ({ let q = sem(c, Task::Rep(e, min, max, k + 1, n1, pe1)); q != Out::Div ==> o == prepend(ns, q) }) },
            Out::Div => true } } }),
{ lemma_unfold(c, Task::Rep(e, min, max, k, n, pe)); }
pub proof fn lemma_prepend(a: Seq<GNode>, b: Seq<GNode>, o: Out)
    ensures prepend(a, prepend(b, o)) == prepend(a + b, o), prepend(Seq::empty(), o) == o,
{
    match o { Out::Ok(n, pe, m) => { assert(a + (b + m) =~= a + b + m); assert(Seq::<GNode>::empty() + m =~= m); } _ => {} }
}
/// knowing that a task has this outcome as soon as the rest has one
pub open spec fn cont(c: Ctx, t0: Task, acc: Seq<GNode>, t: Task) -> bool { sem(c, t) != Out::Div ==> sem(c, t0) == prepend(acc, sem(c, t)) }

/// C05: what a parse answers, given what the rule main does at the start of the text
pub open spec fn answer(len: int, o: Out) -> Result<GNode, EV> {
    match o {
        Out::Ok(n, pe, ns) => if n >= len { Ok(ns[0]) } else { match pe { Some(e) => Err(e), None => Err(err_n(n, "not consumed full input"@)) } },
        Out::Err(e) => Err(e),
        Out::Div => arbitrary(),
    }
}

// ---------------------------------------------------------------- the code's values
pub open spec fn ctx(s: parser_Status) -> Ctx { Ctx { text: s.text2parse@, rules: hm(s.rules.0) } }
pub open spec fn evw(e: parser_Error) -> EV { EV { n: e.pos.n as int, crit: e.priority is Critical, descr: e.descr@ } }
pub open spec fn pev(s: parser_Status) -> Option<EV> { match s.potential_error { Some(e) => Some(evw(e)), None => None } }
/// all repetition minima fit a signed machine word
pub open spec fn expr_ok(e: Ex) -> bool decreases e {
    match e {
        parser_expression_Expression::Simple(_) => true,
        parser_expression_Expression::And(m) => forall|i: int| 0 <= i < m.0@.len() ==> expr_ok(#[trigger] m.0@[i]),
        parser_expression_Expression::Or(m) => forall|i: int| 0 <= i < m.0@.len() ==> expr_ok(#[trigger] m.0@[i]),
        parser_expression_Expression::Not(x) => expr_ok(*x),
        parser_expression_Expression::Repeat(r) => r.min.0 <= isize::MAX && expr_ok(*r.expression),
        parser_expression_Expression::RuleName(_) => true,
    }
}
pub open spec fn exprs_ok(v: Seq<Ex>) -> bool { forall|i: int| 0 <= i < v.len() ==> expr_ok(#[trigger] v[i]) }
pub open spec fn rules_ok(m: Map<Seq<char>, Ex>) -> bool { forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> expr_ok(m[k]) }
