//@ spec
// ---------------------------------------------------------------- the parser's state and errors
pub open spec fn txt(s: parser_Status) -> Seq<char> { s.text2parse@ }
/// the state is at a position of its text, and says so accurately
pub open spec fn st_ok(s: parser_Status) -> bool {
    pos_at(txt(s), s.pos) && crem(s.it_parsing) == txt(s).skip(s.pos.n as int)
}
/// C07: an error is about a position of the text, and says so accurately
pub open spec fn err_ok(text: Seq<char>, e: parser_Error) -> bool {
    pos_at(text, e.pos)
    && e.line_before@ == text.subrange(lstart(text, e.pos.n as int), e.pos.n as int)
    && e.line_after@ == text.subrange(e.pos.n as int, lend(text, e.pos.n as int))
}
pub open spec fn pe_ok(s: parser_Status) -> bool { s.potential_error.is_some() ==> err_ok(txt(s), s.potential_error.unwrap()) }
/// the same parse: only the position, the potential error and the trace may differ
pub open spec fn same(a: parser_Status, b: parser_Status) -> bool {
    a.text2parse == b.text2parse && a.rules == b.rules && a.trace_rules == b.trace_rules
}
/// C10: an empty trace, or one that starts with main
pub open spec fn tr(debug: bool, w: Seq<String>) -> bool { if debug { w.len() > 0 && w[0]@ == "r:main"@ } else { w.len() == 0 } }
pub open spec fn tr_ok(s: parser_Status) -> bool {
    tr(s.trace_rules, s.walking_rules@) && (s.potential_error.is_some() ==> tr(s.trace_rules, s.potential_error.unwrap().parsing_rules@))
}
pub open spec fn tr_start(s: parser_Status) -> bool { s.walking_rules@.len() == 0 && s.potential_error.is_none() }
/// C10: what the trace is when the named rule is entered
pub open spec fn entered(s: parser_Status, name: Seq<char>, w: Seq<String>) -> bool {
    if s.trace_rules { grows(s.walking_rules@, w) && w.len() > s.walking_rules@.len() && w[s.walking_rules@.len() as int]@ == "r:"@ + name } else { w.len() == 0 }
}
pub open spec fn grows(a: Seq<String>, b: Seq<String>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub proof fn lemma_grows(a: Seq<String>)
    ensures grows(a, a),
        a.len() == 0 ==> forall|b: Seq<String>| #[trigger] grows(a, b),
        forall|b: Seq<String>, c: Seq<String>| #![trigger grows(a, b), grows(b, c)] grows(a, b) && grows(b, c) ==> grows(a, c),
        forall|x: String| grows(a, #[trigger] a.push(x)),
        forall|b: Seq<String>, d: bool| #![trigger grows(a, b), tr(d, a)] grows(a, b) && tr(true, a) ==> tr(true, b),
        forall|b: Seq<String>, i: int| #![trigger grows(a, b), a[i]] 0 <= i < a.len() && grows(a, b) ==> b[i] == a[i],
{
    assert(a.take(a.len() as int) =~= a);
    if a.len() == 0 { assert forall|b: Seq<String>| #[trigger] grows(a, b) by { assert(b.take(0) =~= a); } }
    assert forall|b: Seq<String>, c: Seq<String>| #![trigger grows(a, b), grows(b, c)] grows(a, b) && grows(b, c) implies grows(a, c) by {
        assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    }
    assert forall|x: String| grows(a, #[trigger] a.push(x)) by { assert(a.push(x).take(a.len() as int) =~= a); }
    assert forall|b: Seq<String>, i: int| #![trigger grows(a, b), a[i]] 0 <= i < a.len() && grows(a, b) implies b[i] == a[i] by { assert(b.take(a.len() as int)[i] == b[i]); }
    assert forall|b: Seq<String>, d: bool| #![trigger grows(a, b), tr(d, a)] grows(a, b) && tr(true, a) implies tr(true, b) by { assert(b.take(a.len() as int)[0] == b[0]); }
}

/// what rfind of the line feed and the slices of from_status give
pub proof fn lemma_context(text: Seq<char>, n: int)
    requires 0 <= n <= text.len(),
    ensures
        blen(text) - blen(text.skip(n)) == blen(text.take(n)), blen(text.take(n)) <= blen(text),
        bok(text, blen(text.take(n))), bidx(text, blen(text.take(n))) == n,
        bok(text.take(n), 0), bidx(text.take(n), 0) == 0, text.take(n).skip(0) == text.take(n),
        !text.take(n).contains('\n') ==> lstart(text, n) == 0 && text.take(n) == text.subrange(0, n),
        forall|k: int| 0 <= k < n && text.take(n)[k] == '\n' && !(#[trigger] text.take(n).skip(k + 1)).contains('\n') ==> {
            &&& lstart(text, n) == k + 1
            &&& blen(text.take(n).take(k)) + 1 <= blen(text)
            &&& bok(text.take(n), (blen(text.take(n).take(k)) + 1) as nat)
            &&& bidx(text.take(n), (blen(text.take(n).take(k)) + 1) as nat) == k + 1
            &&& text.take(n).skip(k + 1) == text.subrange(k + 1, n) },
        forall|k: int| #![trigger text.take(n).take(k)] 0 <= k < n ==> text.take(n).skip(k + 1).len() == n - k - 1,
{
    let p = text.take(n);
    lemma_blen_add(p, text.skip(n));
    assert(p + text.skip(n) =~= text);
    lemma_bidx(text, n);
    lemma_bidx(p, 0);
    assert(p.take(0) =~= Seq::<char>::empty());
    assert(p.skip(0) =~= p);
    lemma_lstart(text, n);
    if !p.contains('\n') {
        let l = lstart(text, n);
        if l > 0 { assert(p[l - 1] == '\n'); }
        assert(p =~= text.subrange(0, n));
    }
    assert forall|k: int| 0 <= k < n && p[k] == '\n' && !(#[trigger] p.skip(k + 1)).contains('\n') implies {
            &&& lstart(text, n) == k + 1
            &&& blen(p.take(k)) + 1 <= blen(text)
            &&& bok(p, (blen(p.take(k)) + 1) as nat)
            &&& bidx(p, (blen(p.take(k)) + 1) as nat) == k + 1
            &&& p.skip(k + 1) == text.subrange(k + 1, n) } by {
        let l = lstart(text, n);
        if l > k + 1 { assert(p.skip(k + 1)[l - 1 - (k + 1)] == '\n'); }
        if l < k + 1 { assert(text[k] == '\n'); }
        assert(p.take(k + 1).drop_last() =~= p.take(k));
        assert(clen('\n') == 1);
        lemma_bidx(p, k + 1);
        lemma_blen_mono(p, k + 1, n);
        assert(p.take(n) =~= p);
        assert(p.skip(k + 1) =~= text.subrange(k + 1, n));
    }
}
//@ fn parser_Error::from_status C07
//@ contract
    requires st_ok(*$0),
    ensures
        vx_r.pos == (*$0).pos, //#C07,C09
        err_ok(txt(*$0), vx_r), //#C07
        vx_r.descr@ == $1@, //#C08,C09
        vx_r.priority == $2, //#C08
        vx_r.parsing_rules@ == (*$0).walking_rules@, //#C10
//@ entry
    proof {
        let t = txt(*$0); let n = $0.pos.n as int;
        lemma_context(t, n); lemma_lend(t, n); lemma_lstart(t, n); axiom_str_len($0.text2parse);
    }
//@ loop 0 iter
    invariant
        vx_v0@ == txt(*$0).skip($0.pos.n as int),
        vx_i0 <= vx_v0.len(),
        !vx_stop0 ==> vx_acc0@ == txt(*$0).subrange($0.pos.n as int, $0.pos.n + vx_i0) && lend(txt(*$0), $0.pos.n as int) == lend(txt(*$0), $0.pos.n + vx_i0),
        vx_stop0 ==> vx_acc0@ == txt(*$0).subrange($0.pos.n as int, lend(txt(*$0), $0.pos.n as int)),
    decreases vx_v0.len() - vx_i0,
//@ loop-end 0
    proof { assert(!vx_stop0 ==> vx_acc0@ =~= txt(*$0).subrange($0.pos.n as int, $0.pos.n + vx_i0)); assert(vx_stop0 ==> lend(txt(*$0), $0.pos.n as int) == $0.pos.n + vx_i0 - 1); assert(vx_stop0 ==> vx_acc0@ =~= txt(*$0).subrange($0.pos.n as int, $0.pos.n + vx_i0 - 1)); }

//@ fn parser_Status::get_char C04
//@ contract
    requires st_ok($0), pe_ok($0),
    ensures
        match vx_r { Ok((s, c)) => $0.pos.n < txt($0).len() && c == txt($0)[$0.pos.n as int] && s.pos.n == $0.pos.n + 1, Err(s) => true }, //#C04
        match vx_r { Ok((s, c)) => st_ok(s), Err(s) => true }, //#C07
        match vx_r { Ok((s, c)) => same($0, s) && s.potential_error == $0.potential_error && s.walking_rules == $0.walking_rules, Err(s) => true }, //#C05,C10
        match vx_r { Ok((s, c)) => true, Err(s) => s == $0 && $0.pos.n >= txt($0).len() }, //#C04
//@ entry
    proof {
        let t = txt($0); let n = $0.pos.n as int;
        axiom_str_len($0.text2parse); lemma_blen_mono(t, 0, t.len() as int); assert(t.take(t.len() as int) =~= t); lemma_pos(t, n);
        if n < t.len() { lemma_pos(t, n + 1); assert(t.skip(n).skip(1) =~= t.skip(n + 1)); assert(t.skip(n)[0] == t[n]); }
        if n >= t.len() { assert(t.skip(n).len() == 0); } else { assert(t.skip(n).len() > 0); }
    }
