//@ include built.vx
//@ spec
pub proof fn lemma_ges_take(v: Seq<parser_expression_Expression>, i: int)
    requires 0 <= i < v.len(),
    ensures ges(v.take(i + 1)) == ges(v.take(i)).push(ge(v[i])),
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
// ------------------------------------------------------------------ reading Rust code back (C22)
pub open spec fn wsp(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn sk(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && wsp(s[0]) { sk(s.skip(1)) } else { s } }
/// the token t, after white space
pub open spec fn eat(t: Seq<char>, s: Seq<char>) -> Option<Seq<char>> { let u = sk(s); if u.len() >= t.len() && u.take(t.len() as int) == t { Some(u.skip(t.len() as int)) } else { None } }
/// Rust's escapes, after the backslash (those with \u are not read)
pub open spec fn esc1(s: Seq<char>) -> Option<(char, Seq<char>)> {
    if s.len() == 0 { None }
    else if s[0] == 'n' { Some(('\n', s.skip(1))) } else if s[0] == 'r' { Some(('\r', s.skip(1))) } else if s[0] == 't' { Some(('\t', s.skip(1))) }
    else if s[0] == '\\' { Some(('\\', s.skip(1))) } else if s[0] == '0' { Some(('\0', s.skip(1))) }
    else if s[0] == '"' { Some(('"', s.skip(1))) } else if s[0] == '\'' { Some(('\'', s.skip(1))) }
    else if s[0] == 'x' && s.len() >= 3 { match (hexany(s[1]), hexany(s[2])) { (Some(a), Some(b)) => if a < 8 { Some((((16 * a + b) as u8) as char, s.skip(3))) } else { None }, _ => None } }
    else { None }
}
/// the body of a string literal, up to its end
pub open spec fn rd_body(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases s.len() {
    if s.len() == 0 || s[0] == '\r' { None }
    else if s[0] == '"' { Some((Seq::empty(), s.skip(1))) }
    else if s[0] == '\\' { match esc1(s.skip(1)) { Some((c, r)) => if r.len() < s.len() { match rd_body(r) { Some((v, q)) => Some((seq![c] + v, q)), None => None } } else { None }, None => None } }
    else { match rd_body(s.skip(1)) { Some((v, q)) => Some((seq![s[0]] + v, q)), None => None } }
}
pub open spec fn rd_str(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { match eat("\""@, s) { Some(r) => rd_body(r), None => None } }
/// the body of a character literal, up to its end
pub open spec fn rd_cbody(s: Seq<char>) -> Option<(char, Seq<char>)> {
    if s.len() == 0 || s[0] == '\r' || s[0] == '\n' || s[0] == '\t' || s[0] == '\'' { None }
    else if s[0] == '\\' { match esc1(s.skip(1)) { Some((c, r)) => if r.len() > 0 && r[0] == '\'' { Some((c, r.skip(1))) } else { None }, None => None } }
    else if s.len() > 1 && s[1] == '\'' { Some((s[0], s.skip(2))) } else { None }
}
pub open spec fn rd_chr(s: Seq<char>) -> Option<(char, Seq<char>)> { match eat("'"@, s) { Some(r) => rd_cbody(r), None => None } }
pub open spec fn isdig(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn rd_digs(v: nat, s: Seq<char>) -> (nat, Seq<char>) decreases s.len() { if s.len() > 0 && isdig(s[0]) { rd_digs((10 * v + (s[0] as int - 48)) as nat, s.skip(1)) } else { (v, s) } }
pub open spec fn rd_num(s: Seq<char>) -> Option<(nat, Seq<char>)> { let u = sk(s); if u.len() > 0 && isdig(u[0]) { Some(rd_digs(0, u)) } else { None } }
/// the ranges of a class, up to the closing parenthesis
pub open spec fn rd_rng(s: Seq<char>) -> Option<(Seq<(char, char)>, Seq<char>)> decreases s.len() {
    if eat(")"@, s) is Some { Some((Seq::empty(), eat(")"@, s)->0)) }
    else if eat(", from"@, s) is Some { match rd_chr(eat(", from"@, s)->0) { Some((a, r)) => if eat(", to"@, r) is Some { match rd_chr(eat(", to"@, r)->0) { Some((b, q)) =>
        if q.len() < s.len() { match rd_rng(q) { Some((l, z)) => Some((seq![(a, b)] + l, z)), None => None } } else { None }, None => None } } else { None }, None => None } }
    else { None }
}
pub open spec fn rd_cls(s: Seq<char>) -> Option<(Seq<(char, char)>, Seq<char>)> {
    match eat(", from2 vec![]"@, s) { Some(r) => match eat(")"@, r) { Some(q) => Some((Seq::empty(), q)), None => None }, None => if eat(", from"@, s) is Some { rd_rng(s) } else { None } }
}
pub open spec fn close<A>(x: Option<(A, Seq<char>)>) -> Option<(A, Seq<char>)> { match x { Some((a, r)) => match eat(")"@, r) { Some(q) => Some((a, q)), None => None }, None => None } }
/// an expression, as the macros of the library write it
pub open spec fn rd(s: Seq<char>) -> Option<(GE, Seq<char>)> decreases s.len(), 0int {
    if eat("lit!("@, s) is Some { match close(rd_str(eat("lit!("@, s)->0)) { Some((v, r)) => Some((GE::Lit(v), r)), None => None } }
    else if eat("error!("@, s) is Some { match close(rd_str(eat("error!("@, s)->0)) { Some((v, r)) => Some((GE::Error(v), r)), None => None } }
    else if eat("ref_rule!("@, s) is Some { match close(rd_str(eat("ref_rule!("@, s)->0)) { Some((v, r)) => Some((GE::Ref(v), r)), None => None } }
    else if eat("dot!()"@, s) is Some { Some((GE::Dot, eat("dot!()"@, s)->0)) }
    else if eat("eof!()"@, s) is Some { Some((GE::EOF, eat("eof!()"@, s)->0)) }
    else if eat("ematch!(chlist"@, s) is Some { match rd_str(eat("ematch!(chlist"@, s)->0) { Some((v, r)) => match rd_cls(r) { Some((l, q)) => Some((GE::Class(v, l), q)), None => None }, None => None } }
    else if eat("not!("@, s) is Some { let r = eat("not!("@, s)->0; if r.len() < s.len() { match close(rd(r)) { Some((e, q)) => Some((GE::Not(Box::new(e)), q)), None => None } } else { None } }
    else if eat("rep!("@, s) is Some { let r = eat("rep!("@, s)->0; if r.len() < s.len() { match rd(r) { Some((e, q)) => rd_bounds(e, q), None => None } } else { None } }
    else if eat("and!("@, s) is Some { let r = eat("and!("@, s)->0; if r.len() < s.len() { match rd_list(r) { Some((l, q)) => Some((GE::And(l), q)), None => None } } else { None } }
    else if eat("or!("@, s) is Some { let r = eat("or!("@, s)->0; if r.len() < s.len() { match rd_list(r) { Some((l, q)) => Some((GE::Or(l), q)), None => None } } else { None } }
    else { None }
}
pub open spec fn rd_bounds(e: GE, s: Seq<char>) -> Option<(GE, Seq<char>)> {
    match eat(","@, s) {
        Some(r) => match rd_num(r) {
            Some((a, q)) => match eat(","@, q) {
                Some(z) => match close(rd_num(z)) { Some((b, y)) => Some((GE::Rep(Box::new(e), a, Some(b)), y)), None => None },
                None => match eat(")"@, q) { Some(y) => Some((GE::Rep(Box::new(e), a, None), y)), None => None },
            },
            None => None,
        },
        None => None,
    }
}
pub open spec fn rd_list(s: Seq<char>) -> Option<(Seq<GE>, Seq<char>)> decreases s.len(), 2int { if eat(")"@, s) is Some { Some((Seq::empty(), eat(")"@, s)->0)) } else { rd_items(s) } }
pub open spec fn rd_items(s: Seq<char>) -> Option<(Seq<GE>, Seq<char>)> decreases s.len(), 1int {
    match rd(s) {
        Some((e, r)) =>
            if eat(")"@, r) is Some { Some((seq![e], eat(")"@, r)->0)) }
            else if eat(","@, r) is Some && (eat(","@, r)->0).len() < s.len() { match rd_items(eat(","@, r)->0) { Some((l, q)) => Some((seq![e] + l, q)), None => None } }
            else { None },
        None => None,
    }
}
/// the entries of rules!(...)
pub open spec fn rd_ent(s: Seq<char>) -> Option<((Seq<char>, GE), Seq<char>)> {
    match rd_str(s) { Some((n, r)) => match eat("=>"@, r) { Some(q) => match rd(q) { Some((e, z)) => Some(((n, e), z)), None => None }, None => None }, None => None }
}
pub open spec fn rd_ents(s: Seq<char>) -> Option<Seq<(Seq<char>, GE)>> decreases s.len() {
    match rd_ent(s) {
        Some((x, r)) =>
            if sk(r).len() == 0 { Some(seq![x]) }
            else if eat(","@, r) is Some && (eat(","@, r)->0).len() < s.len() { match rd_ents(eat(","@, r)->0) { Some(l) => Some(seq![x] + l), None => None } }
            else { None },
        None => None,
    }
}
pub open spec fn rd_rules(s: Seq<char>) -> Option<Seq<(Seq<char>, GE)>> { if sk(s).len() == 0 { Some(Seq::empty()) } else { rd_ents(s) } }
/// exactly the entries of m
pub open spec fn same_rules(l: Seq<(Seq<char>, GE)>, m: Map<Seq<char>, parser_expression_Expression>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.dom().contains((#[trigger] l[i]).0) && l[i].1 == ge(m[l[i].0])
    &&& forall|i: int, j: int| 0 <= i < j < l.len() ==> (#[trigger] l[i]).0 != (#[trigger] l[j]).0
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k
}

// ------------------------------------------------------------------ tokens
pub proof fn lemma_sk_len(s: Seq<char>) ensures sk(s).len() <= s.len() decreases s.len() { if s.len() > 0 && wsp(s[0]) { lemma_sk_len(s.skip(1)); } }
pub open spec fn allws(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> wsp(#[trigger] w[i]) }
pub proof fn lemma_ws(w: Seq<char>, s: Seq<char>) requires allws(w) ensures sk(w + s) == sk(s) decreases w.len()
{ if w.len() == 0 { assert(w + s =~= s); } else { assert(wsp(w[0])); assert((w + s).skip(1) =~= w.skip(1) + s); assert(allws(w.skip(1))); lemma_ws(w.skip(1), s); } }
pub proof fn lemma_eat(t: Seq<char>, s: Seq<char>) requires t.len() > 0, !wsp(t[0]) ensures eat(t, t + s) == Some(s)
{ assert((t + s)[0] == t[0]); assert(sk(t + s) == t + s); assert((t + s).take(t.len() as int) =~= t); assert((t + s).skip(t.len() as int) =~= s); }
/// where the texts differ at k, another token is not found
pub proof fn lemma_not(t: Seq<char>, u: Seq<char>, s: Seq<char>, k: int)
    requires u.len() > 0, !wsp(u[0]), 0 <= k < t.len(), k < u.len(), t[k] != u[k],
    ensures eat(t, u + s) is None,
{ assert((u + s)[0] == u[0]); assert(sk(u + s) == u + s); if (u + s).len() >= t.len() { assert((u + s).take(t.len() as int)[k] == u[k]); } }

pub proof fn as2(a: Seq<char>, b: Seq<char>, r: Seq<char>) ensures (a + b) + r == a + (b + r) { assert((a + b) + r =~= a + (b + r)); }
/// the literals of the code, as tokens and white space
pub proof fn lemma_lits()
    ensures
        "lit!(\""@ == "lit!("@ + "\""@, "error!(\""@ == "error!("@ + "\""@, "ref_rule!(\""@ == "ref_rule!("@ + "\""@, "\")"@ == "\""@ + ")"@,
        ", from '"@ == ", from"@ + (" "@ + "'"@), "', to '"@ == "'"@ + (", to"@ + (" "@ + "'"@)), "' "@ == "'"@ + " "@,
        "ematch!(chlist \""@ == "ematch!(chlist"@ + (" "@ + "\""@), "\"  "@ == "\""@ + "  "@, ", from2 vec![]"@ == ", from"@ + "2 vec![]"@,
        ", "@ == ","@ + " "@, "\" => "@ == "\""@ + (" "@ + ("=>"@ + " "@)),
        allws(" "@), allws("  "@), allws("\n       "@),
{
    reveal_strlit("\""); reveal_strlit("'"); reveal_strlit(")"); reveal_strlit(" "); reveal_strlit("  "); reveal_strlit(","); reveal_strlit(", from"); reveal_strlit(", to"); reveal_strlit("=>"); reveal_strlit("\n       ");
    assert("lit!(\""@ == "lit!("@ + "\""@) by { reveal_strlit("lit!(\""); reveal_strlit("lit!("); assert("lit!(\""@ =~= "lit!("@ + "\""@); }
    assert("error!(\""@ == "error!("@ + "\""@) by { reveal_strlit("error!(\""); reveal_strlit("error!("); assert("error!(\""@ =~= "error!("@ + "\""@); }
    assert("ref_rule!(\""@ == "ref_rule!("@ + "\""@) by { reveal_strlit("ref_rule!(\""); reveal_strlit("ref_rule!("); assert("ref_rule!(\""@ =~= "ref_rule!("@ + "\""@); }
    assert("\")"@ == "\""@ + ")"@) by { reveal_strlit("\")"); assert("\")"@ =~= "\""@ + ")"@); }
    assert(", from '"@ == ", from"@ + (" "@ + "'"@)) by { reveal_strlit(", from '"); assert(", from '"@ =~= ", from"@ + (" "@ + "'"@)); }
    assert("', to '"@ == "'"@ + (", to"@ + (" "@ + "'"@))) by { reveal_strlit("', to '"); assert("', to '"@ =~= "'"@ + (", to"@ + (" "@ + "'"@))); }
    assert("' "@ == "'"@ + " "@) by { reveal_strlit("' "); assert("' "@ =~= "'"@ + " "@); }
    assert("ematch!(chlist \""@ == "ematch!(chlist"@ + (" "@ + "\""@)) by { reveal_strlit("ematch!(chlist \""); reveal_strlit("ematch!(chlist"); assert("ematch!(chlist \""@ =~= "ematch!(chlist"@ + (" "@ + "\""@)); }
    assert("\"  "@ == "\""@ + "  "@) by { reveal_strlit("\"  "); assert("\"  "@ =~= "\""@ + "  "@); }
    assert(", from2 vec![]"@ == ", from"@ + "2 vec![]"@) by { reveal_strlit(", from2 vec![]"); reveal_strlit("2 vec![]"); assert(", from2 vec![]"@ =~= ", from"@ + "2 vec![]"@); }
    assert(", "@ == ","@ + " "@) by { reveal_strlit(", "); assert(", "@ =~= ","@ + " "@); }
    assert("\" => "@ == "\""@ + (" "@ + ("=>"@ + " "@))) by { reveal_strlit("\" => "); assert("\" => "@ =~= "\""@ + (" "@ + ("=>"@ + " "@))); }
}
/// which token a text begins with
pub proof fn lemma_toks(s: Seq<char>)
    ensures
        eat("lit!("@, "lit!("@ + s) == Some(s),
        eat(")"@, "lit!("@ + s) is None,
        eat("error!("@, "error!("@ + s) == Some(s),
        eat("lit!("@, "error!("@ + s) is None,
        eat(")"@, "error!("@ + s) is None,
        eat("ref_rule!("@, "ref_rule!("@ + s) == Some(s),
        eat("lit!("@, "ref_rule!("@ + s) is None,
        eat("error!("@, "ref_rule!("@ + s) is None,
        eat(")"@, "ref_rule!("@ + s) is None,
        eat("dot!()"@, "dot!()"@ + s) == Some(s),
        eat("lit!("@, "dot!()"@ + s) is None,
        eat("error!("@, "dot!()"@ + s) is None,
        eat("ref_rule!("@, "dot!()"@ + s) is None,
        eat(")"@, "dot!()"@ + s) is None,
        eat("eof!()"@, "eof!()"@ + s) == Some(s),
        eat("lit!("@, "eof!()"@ + s) is None,
        eat("error!("@, "eof!()"@ + s) is None,
        eat("ref_rule!("@, "eof!()"@ + s) is None,
        eat("dot!()"@, "eof!()"@ + s) is None,
        eat(")"@, "eof!()"@ + s) is None,
        eat("ematch!(chlist"@, "ematch!(chlist"@ + s) == Some(s),
        eat("lit!("@, "ematch!(chlist"@ + s) is None,
        eat("error!("@, "ematch!(chlist"@ + s) is None,
        eat("ref_rule!("@, "ematch!(chlist"@ + s) is None,
        eat("dot!()"@, "ematch!(chlist"@ + s) is None,
        eat("eof!()"@, "ematch!(chlist"@ + s) is None,
        eat(")"@, "ematch!(chlist"@ + s) is None,
        eat("not!("@, "not!("@ + s) == Some(s),
        eat("lit!("@, "not!("@ + s) is None,
        eat("error!("@, "not!("@ + s) is None,
        eat("ref_rule!("@, "not!("@ + s) is None,
        eat("dot!()"@, "not!("@ + s) is None,
        eat("eof!()"@, "not!("@ + s) is None,
        eat("ematch!(chlist"@, "not!("@ + s) is None,
        eat(")"@, "not!("@ + s) is None,
        eat("rep!("@, "rep!("@ + s) == Some(s),
        eat("lit!("@, "rep!("@ + s) is None,
        eat("error!("@, "rep!("@ + s) is None,
        eat("ref_rule!("@, "rep!("@ + s) is None,
        eat("dot!()"@, "rep!("@ + s) is None,
        eat("eof!()"@, "rep!("@ + s) is None,
        eat("ematch!(chlist"@, "rep!("@ + s) is None,
        eat("not!("@, "rep!("@ + s) is None,
        eat(")"@, "rep!("@ + s) is None,
        eat("and!("@, "and!("@ + s) == Some(s),
        eat("lit!("@, "and!("@ + s) is None,
        eat("error!("@, "and!("@ + s) is None,
        eat("ref_rule!("@, "and!("@ + s) is None,
        eat("dot!()"@, "and!("@ + s) is None,
        eat("eof!()"@, "and!("@ + s) is None,
        eat("ematch!(chlist"@, "and!("@ + s) is None,
        eat("not!("@, "and!("@ + s) is None,
        eat("rep!("@, "and!("@ + s) is None,
        eat(")"@, "and!("@ + s) is None,
        eat("or!("@, "or!("@ + s) == Some(s),
        eat("lit!("@, "or!("@ + s) is None,
        eat("error!("@, "or!("@ + s) is None,
        eat("ref_rule!("@, "or!("@ + s) is None,
        eat("dot!()"@, "or!("@ + s) is None,
        eat("eof!()"@, "or!("@ + s) is None,
        eat("ematch!(chlist"@, "or!("@ + s) is None,
        eat("not!("@, "or!("@ + s) is None,
        eat("rep!("@, "or!("@ + s) is None,
        eat("and!("@, "or!("@ + s) is None,
        eat(")"@, "or!("@ + s) is None,
        eat(")"@, ")"@ + s) == Some(s),
        eat(","@, ","@ + s) == Some(s),
        eat("\""@, "\""@ + s) == Some(s),
        eat("'"@, "'"@ + s) == Some(s),
        eat("=>"@, "=>"@ + s) == Some(s),
        eat(", from"@, ", from"@ + s) == Some(s),
        eat(", to"@, ", to"@ + s) == Some(s),
        eat(", from2 vec![]"@, ", from2 vec![]"@ + s) == Some(s),
        eat(")"@, ","@ + s) is None,
        eat(","@, ")"@ + s) is None,
        eat(")"@, ", from"@ + s) is None,
        eat(")"@, ", to"@ + s) is None,
        eat(")"@, ", from2 vec![]"@ + s) is None,
        eat(", from2 vec![]"@, ", from '"@ + s) is None,
{
    reveal_strlit("\"");
    reveal_strlit("'");
    reveal_strlit(")");
    reveal_strlit(",");
    reveal_strlit(", from");
    reveal_strlit(", from '");
    reveal_strlit(", from2 vec![]");
    reveal_strlit(", to");
    reveal_strlit("=>");
    reveal_strlit("and!(");
    reveal_strlit("dot!()");
    reveal_strlit("ematch!(chlist");
    reveal_strlit("eof!()");
    reveal_strlit("error!(");
    reveal_strlit("lit!(");
    reveal_strlit("not!(");
    reveal_strlit("or!(");
    reveal_strlit("ref_rule!(");
    reveal_strlit("rep!(");
    lemma_eat("lit!("@, s);
    lemma_not(")"@, "lit!("@, s, 0);
    lemma_eat("error!("@, s);
    lemma_not("lit!("@, "error!("@, s, 0);
    lemma_not(")"@, "error!("@, s, 0);
    lemma_eat("ref_rule!("@, s);
    lemma_not("lit!("@, "ref_rule!("@, s, 0);
    lemma_not("error!("@, "ref_rule!("@, s, 0);
    lemma_not(")"@, "ref_rule!("@, s, 0);
    lemma_eat("dot!()"@, s);
    lemma_not("lit!("@, "dot!()"@, s, 0);
    lemma_not("error!("@, "dot!()"@, s, 0);
    lemma_not("ref_rule!("@, "dot!()"@, s, 0);
    lemma_not(")"@, "dot!()"@, s, 0);
    lemma_eat("eof!()"@, s);
    lemma_not("lit!("@, "eof!()"@, s, 0);
    lemma_not("error!("@, "eof!()"@, s, 1);
    lemma_not("ref_rule!("@, "eof!()"@, s, 0);
    lemma_not("dot!()"@, "eof!()"@, s, 0);
    lemma_not(")"@, "eof!()"@, s, 0);
    lemma_eat("ematch!(chlist"@, s);
    lemma_not("lit!("@, "ematch!(chlist"@, s, 0);
    lemma_not("error!("@, "ematch!(chlist"@, s, 1);
    lemma_not("ref_rule!("@, "ematch!(chlist"@, s, 0);
    lemma_not("dot!()"@, "ematch!(chlist"@, s, 0);
    lemma_not("eof!()"@, "ematch!(chlist"@, s, 1);
    lemma_not(")"@, "ematch!(chlist"@, s, 0);
    lemma_eat("not!("@, s);
    lemma_not("lit!("@, "not!("@, s, 0);
    lemma_not("error!("@, "not!("@, s, 0);
    lemma_not("ref_rule!("@, "not!("@, s, 0);
    lemma_not("dot!()"@, "not!("@, s, 0);
    lemma_not("eof!()"@, "not!("@, s, 0);
    lemma_not("ematch!(chlist"@, "not!("@, s, 0);
    lemma_not(")"@, "not!("@, s, 0);
    lemma_eat("rep!("@, s);
    lemma_not("lit!("@, "rep!("@, s, 0);
    lemma_not("error!("@, "rep!("@, s, 0);
    lemma_not("ref_rule!("@, "rep!("@, s, 2);
    lemma_not("dot!()"@, "rep!("@, s, 0);
    lemma_not("eof!()"@, "rep!("@, s, 0);
    lemma_not("ematch!(chlist"@, "rep!("@, s, 0);
    lemma_not("not!("@, "rep!("@, s, 0);
    lemma_not(")"@, "rep!("@, s, 0);
    lemma_eat("and!("@, s);
    lemma_not("lit!("@, "and!("@, s, 0);
    lemma_not("error!("@, "and!("@, s, 0);
    lemma_not("ref_rule!("@, "and!("@, s, 0);
    lemma_not("dot!()"@, "and!("@, s, 0);
    lemma_not("eof!()"@, "and!("@, s, 0);
    lemma_not("ematch!(chlist"@, "and!("@, s, 0);
    lemma_not("not!("@, "and!("@, s, 0);
    lemma_not("rep!("@, "and!("@, s, 0);
    lemma_not(")"@, "and!("@, s, 0);
    lemma_eat("or!("@, s);
    lemma_not("lit!("@, "or!("@, s, 0);
    lemma_not("error!("@, "or!("@, s, 0);
    lemma_not("ref_rule!("@, "or!("@, s, 0);
    lemma_not("dot!()"@, "or!("@, s, 0);
    lemma_not("eof!()"@, "or!("@, s, 0);
    lemma_not("ematch!(chlist"@, "or!("@, s, 0);
    lemma_not("not!("@, "or!("@, s, 0);
    lemma_not("rep!("@, "or!("@, s, 0);
    lemma_not("and!("@, "or!("@, s, 0);
    lemma_not(")"@, "or!("@, s, 0);
    lemma_eat(")"@, s);
    lemma_eat(","@, s);
    lemma_eat("\""@, s);
    lemma_eat("'"@, s);
    lemma_eat("=>"@, s);
    lemma_eat(", from"@, s);
    lemma_eat(", to"@, s);
    lemma_eat(", from2 vec![]"@, s);
    lemma_not(")"@, ","@, s, 0);
    lemma_not(","@, ")"@, s, 0);
    lemma_not(")"@, ", from"@, s, 0);
    lemma_not(")"@, ", to"@, s, 0);
    lemma_not(")"@, ", from2 vec![]"@, s, 0);
    lemma_not(", from2 vec![]"@, ", from '"@, s, 6);
}
pub proof fn lemma_eat_ws(t: Seq<char>, w: Seq<char>, s: Seq<char>) requires allws(w) ensures eat(t, w + s) == eat(t, s) { lemma_ws(w, s); }
pub proof fn lemma_eat_len(t: Seq<char>, s: Seq<char>) requires t.len() > 0 ensures match eat(t, s) { Some(r) => r.len() < s.len(), None => true } { lemma_sk_len(s); }

// ------------------------------------------------------------------ string and character literals
pub open spec fn esc_c(c: char) -> Seq<char> {
    if c == '\\' { seq!['\\', '\\'] } else if c == '\n' { seq!['\\', 'n'] } else if c == '\r' { seq!['\\', 'r'] } else if c == '\t' { seq!['\\', 't'] } else if c == '"' { seq!['\\', '"'] } else { seq![c] }
}
pub open spec fn escd(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc_c(s[0]) + escd(s.skip(1)) } }
pub proof fn lemma_repl_add(a: Seq<char>, b: Seq<char>, p: Seq<char>, t: Seq<char>)
    requires p.len() == 1,
    ensures repl(a + b, p, t) == repl(a, p, t) + repl(b, p, t),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(repl(a, p, t) + repl(b, p, t) =~= repl(b, p, t)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        assert((a + b).take(1) =~= a.take(1));
        lemma_repl_add(a.skip(1), b, p, t);
        assert(repl(a + b, p, t) =~= repl(a, p, t) + repl(b, p, t));
    }
}
pub proof fn lemma_repl1(c: char, p: char, t: Seq<char>)
    ensures repl(seq![c], seq![p], t) == if c == p { t } else { seq![c] },
{
    let s = seq![c];
    assert(s.take(1) =~= seq![c]);
    assert(s.skip(1) =~= Seq::<char>::empty());
    assert(repl(s.skip(1), seq![p], t) =~= Seq::<char>::empty());
    assert(seq![c][0] == c && seq![p][0] == p);
    assert(t + Seq::<char>::empty() =~= t); assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
}
pub proof fn lemma_repl2(a: char, b: char, p: char, t: Seq<char>)
    requires a != p, b != p,
    ensures repl(seq![a, b], seq![p], t) == seq![a, b],
{ assert(seq![a, b] =~= seq![a] + seq![b]); lemma_repl_add(seq![a], seq![b], seq![p], t); lemma_repl1(a, p, t); lemma_repl1(b, p, t); }
pub open spec fn chain(s: Seq<char>) -> Seq<char> {
    repl(repl(repl(repl(repl(s, "\\"@, "\\\\"@), "\n"@, "\\n"@), "\r"@, "\\r"@), "\t"@, "\\t"@), "\""@, "\\\""@)
}
pub proof fn lemma_escs()
    ensures
        "\\n"@ == seq!['\\', 'n'], "\n"@ == seq!['\n'],
        "\\r"@ == seq!['\\', 'r'], "\r"@ == seq!['\r'],
        "\\t"@ == seq!['\\', 't'], "\t"@ == seq!['\t'],
        "\\\\"@ == seq!['\\', '\\'], "\\"@ == seq!['\\'],
        "\\\""@ == seq!['\\', '"'], "\""@ == seq!['"'],
        "'"@ == seq!['\''], "\\'"@ == seq!['\\', '\''],
{
    reveal_strlit("\\n"); assert("\\n"@ =~= seq!['\\', 'n']); reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']);
    reveal_strlit("\\r"); assert("\\r"@ =~= seq!['\\', 'r']); reveal_strlit("\r"); assert("\r"@ =~= seq!['\r']);
    reveal_strlit("\\t"); assert("\\t"@ =~= seq!['\\', 't']); reveal_strlit("\t"); assert("\t"@ =~= seq!['\t']);
    reveal_strlit("\\\\"); assert("\\\\"@ =~= seq!['\\', '\\']); reveal_strlit("\\"); assert("\\"@ =~= seq!['\\']);
    reveal_strlit("\\\""); assert("\\\""@ =~= seq!['\\', '"']); reveal_strlit("\""); assert("\""@ =~= seq!['"']);
    reveal_strlit("'"); assert("'"@ =~= seq!['\'']); reveal_strlit("\\'"); assert("\\'"@ =~= seq!['\\', '\'']);
}
pub proof fn lemma_chain1(c: char) ensures chain(seq![c]) == esc_c(c)
{
    lemma_escs();
    let (b, n, r, t, q) = ("\\\\"@, "\\n"@, "\\r"@, "\\t"@, "\\\""@);
    lemma_repl1(c, '\\', b); lemma_repl1(c, '\n', n); lemma_repl1(c, '\r', r); lemma_repl1(c, '\t', t); lemma_repl1(c, '"', q);
    lemma_repl2('\\', '\\', '\n', n); lemma_repl2('\\', '\\', '\r', r); lemma_repl2('\\', '\\', '\t', t); lemma_repl2('\\', '\\', '"', q);
    lemma_repl2('\\', 'n', '\r', r); lemma_repl2('\\', 'n', '\t', t); lemma_repl2('\\', 'n', '"', q);
    lemma_repl2('\\', 'r', '\t', t); lemma_repl2('\\', 'r', '"', q);
    lemma_repl2('\\', 't', '"', q);
}
pub proof fn lemma_chain(s: Seq<char>) ensures chain(s) == escd(s) decreases s.len()
{
    lemma_escs();
    if s.len() == 0 { reveal_with_fuel(repl, 2); assert(chain(s) =~= escd(s)); }
    else {
        let (a, z) = (seq![s[0]], s.skip(1));
        assert(s =~= a + z);
        lemma_chain(z); lemma_chain1(s[0]);
        let (p1, t1) = ("\\"@, "\\\\"@); lemma_repl_add(a, z, p1, t1);
        let (a2, z2) = (repl(a, p1, t1), repl(z, p1, t1)); lemma_repl_add(a2, z2, "\n"@, "\\n"@);
        let (a3, z3) = (repl(a2, "\n"@, "\\n"@), repl(z2, "\n"@, "\\n"@)); lemma_repl_add(a3, z3, "\r"@, "\\r"@);
        let (a4, z4) = (repl(a3, "\r"@, "\\r"@), repl(z3, "\r"@, "\\r"@)); lemma_repl_add(a4, z4, "\t"@, "\\t"@);
        let (a5, z5) = (repl(a4, "\t"@, "\\t"@), repl(z4, "\t"@, "\\t"@)); lemma_repl_add(a5, z5, "\""@, "\\\""@);
        assert(chain(s) == chain(a) + chain(z));
    }
}
/// t, between double quotes, denotes s
#[verifier::opaque]
pub open spec fn sden(t: Seq<char>, s: Seq<char>) -> bool { forall|r: Seq<char>| rd_body(t + (#[trigger] ("\""@ + r))) == Some((s, r)) }
pub proof fn lemma_body(s: Seq<char>, r: Seq<char>)
    ensures rd_body(escd(s) + ("\""@ + r)) == Some((s, r)),
    decreases s.len(),
{
    lemma_escs();
    let q = "\""@ + r;
    if s.len() == 0 { assert(escd(s) + q =~= q); assert(q.skip(1) =~= r); assert(s =~= Seq::empty()); }
    else {
        let z = s.skip(1);
        lemma_body(z, r);
        let e = esc_c(s[0]);
        let tail = escd(z) + q;
        let x = escd(s) + q;
        assert(x =~= e + tail);
        if e.len() == 2 {
            assert(x[0] == '\\');
            assert(x.skip(1) =~= seq![e[1]] + tail);
            assert(x.skip(1).skip(1) =~= tail);
            assert(x.skip(1)[0] == e[1]);
            assert(esc1(x.skip(1)) == Some((s[0], tail)));
        } else { assert(x.skip(1) =~= tail); assert(x[0] == s[0]); }
        assert(seq![s[0]] + z =~= s);
    }
}
pub proof fn lemma_sden(s: Seq<char>) ensures sden(chain(s), s)
{ reveal(sden); lemma_chain(s); assert forall|r: Seq<char>| rd_body(chain(s) + (#[trigger] ("\""@ + r))) == Some((s, r)) by { lemma_body(s, r); } }
/// t, between single quotes, denotes c
#[verifier::opaque]
pub open spec fn cden(t: Seq<char>, c: char) -> bool { forall|r: Seq<char>| rd_cbody(t + (#[trigger] ("'"@ + r))) == Some((c, r)) }
pub proof fn lemma_cden(c: char) ensures cden(repl(chain(seq![c]), "'"@, "\\'"@), c)
{
    reveal(cden);
    lemma_escs(); lemma_chain1(c);
    let t = "\\'"@;
    lemma_repl1(c, '\'', t);
    lemma_repl2('\\', '\\', '\'', t); lemma_repl2('\\', 'n', '\'', t); lemma_repl2('\\', 'r', '\'', t); lemma_repl2('\\', 't', '\'', t); lemma_repl2('\\', '"', '\'', t);
    let e = repl(chain(seq![c]), "'"@, t);
    assert forall|r: Seq<char>| rd_cbody(e + (#[trigger] ("'"@ + r))) == Some((c, r)) by {
        let q = "'"@ + r;
        let x = e + q;
        if e.len() == 2 { assert(x.skip(1) =~= seq![e[1]] + q); assert(x.skip(1)[0] == e[1]); assert(x.skip(1).skip(1) =~= q); assert(q.skip(1) =~= r); }
        else { assert(x[0] == c); assert(x[1] == '\''); assert(x.skip(2) =~= r); }
    }
}

// ------------------------------------------------------------------ numbers
pub proof fn lemma_dec(n: nat, r: Seq<char>)
    ensures rd_digs(0, dec(n) + r) == rd_digs(n, r), dec(n).len() > 0, isdig(dec(n)[0]),
    decreases n,
{
    let d = ((48 + n % 10) as u8) as char;
    assert(d as int == 48 + n % 10);
    if n < 10 { assert((seq![d] + r).skip(1) =~= r); }
    else {
        lemma_dec(n / 10, seq![d] + r);
        assert(dec(n) + r =~= dec(n / 10) + (seq![d] + r));
        assert((seq![d] + r).skip(1) =~= r);
        assert(10 * (n / 10) + n % 10 == n);
    }
}
pub proof fn lemma_num(w: Seq<char>, n: usize, r: Seq<char>)
    requires allws(w), r.len() > 0, !isdig(r[0]),
    ensures rd_num(w + (usize_str(n) + r)) == Some((n as nat, r)),
{
    reveal(usize_str);
    lemma_dec(n as nat, r);
    let x = usize_str(n) + r;
    lemma_ws(w, x);
    assert(x[0] == dec(n as nat)[0]);
    assert(sk(x) == x);
}

// ------------------------------------------------------------------ what a text denotes
/// t is code for e, whatever follows
#[verifier::opaque]
pub open spec fn den(t: Seq<char>, e: GE) -> bool { t.len() > 0 && (forall|r: Seq<char>| #[trigger] rd(t + r) == Some((e, r))) }
pub proof fn lemma_den(t: Seq<char>, e: GE, r: Seq<char>) requires den(t, e) ensures rd(t + r) == Some((e, r)), t.len() > 0 { reveal(den); }
pub proof fn lemma_1(s: Seq<char>)
    ensures
        eat(")"@, ")"@ + s) == Some(s), eat(","@, ","@ + s) == Some(s), eat(")"@, ","@ + s) is None, eat(","@, ")"@ + s) is None,
{ lemma_toks(s); }
pub proof fn lemma_rd_ws(w: Seq<char>, s: Seq<char>)
    requires allws(w),
    ensures rd(w + s) == rd(s),
{
    let x = w + s;

    reveal_strlit("lit!("); lemma_eat_ws("lit!("@, w, s); lemma_eat_len("lit!("@, s); lemma_eat_len("lit!("@, x);
    reveal_strlit("error!("); lemma_eat_ws("error!("@, w, s); lemma_eat_len("error!("@, s); lemma_eat_len("error!("@, x);
    reveal_strlit("ref_rule!("); lemma_eat_ws("ref_rule!("@, w, s); lemma_eat_len("ref_rule!("@, s); lemma_eat_len("ref_rule!("@, x);
    reveal_strlit("dot!()"); lemma_eat_ws("dot!()"@, w, s); lemma_eat_len("dot!()"@, s); lemma_eat_len("dot!()"@, x);
    reveal_strlit("eof!()"); lemma_eat_ws("eof!()"@, w, s); lemma_eat_len("eof!()"@, s); lemma_eat_len("eof!()"@, x);
    reveal_strlit("ematch!(chlist"); lemma_eat_ws("ematch!(chlist"@, w, s); lemma_eat_len("ematch!(chlist"@, s); lemma_eat_len("ematch!(chlist"@, x);
    reveal_strlit("not!("); lemma_eat_ws("not!("@, w, s); lemma_eat_len("not!("@, s); lemma_eat_len("not!("@, x);
    reveal_strlit("rep!("); lemma_eat_ws("rep!("@, w, s); lemma_eat_len("rep!("@, s); lemma_eat_len("rep!("@, x);
    reveal_strlit("and!("); lemma_eat_ws("and!("@, w, s); lemma_eat_len("and!("@, s); lemma_eat_len("and!("@, x);
    reveal_strlit("or!("); lemma_eat_ws("or!("@, w, s); lemma_eat_len("or!("@, s); lemma_eat_len("or!("@, x);
}
/// nothing that begins with a closing parenthesis is an expression
pub proof fn lemma_rd_paren(s: Seq<char>) ensures eat(")"@, s) is Some ==> rd(s) is None {
    reveal_strlit(")"); let u = sk(s);
    if eat(")"@, s) is Some { assert(u.take(1)[0] == u[0]);
        reveal_strlit("lit!("); if u.len() >= "lit!("@.len() { assert(u.take("lit!("@.len() as int)[0] == u[0]); }
        reveal_strlit("error!("); if u.len() >= "error!("@.len() { assert(u.take("error!("@.len() as int)[0] == u[0]); }
        reveal_strlit("ref_rule!("); if u.len() >= "ref_rule!("@.len() { assert(u.take("ref_rule!("@.len() as int)[0] == u[0]); }
        reveal_strlit("dot!()"); if u.len() >= "dot!()"@.len() { assert(u.take("dot!()"@.len() as int)[0] == u[0]); }
        reveal_strlit("eof!()"); if u.len() >= "eof!()"@.len() { assert(u.take("eof!()"@.len() as int)[0] == u[0]); }
        reveal_strlit("ematch!(chlist"); if u.len() >= "ematch!(chlist"@.len() { assert(u.take("ematch!(chlist"@.len() as int)[0] == u[0]); }
        reveal_strlit("not!("); if u.len() >= "not!("@.len() { assert(u.take("not!("@.len() as int)[0] == u[0]); }
        reveal_strlit("rep!("); if u.len() >= "rep!("@.len() { assert(u.take("rep!("@.len() as int)[0] == u[0]); }
        reveal_strlit("and!("); if u.len() >= "and!("@.len() { assert(u.take("and!("@.len() as int)[0] == u[0]); }
        reveal_strlit("or!("); if u.len() >= "or!("@.len() { assert(u.take("or!("@.len() as int)[0] == u[0]); }
    }
}
pub proof fn lemma_d_lit(t: Seq<char>, s: Seq<char>)
    requires sden(t, s),
    ensures den(("lit!(\""@ + t) + "\")"@, GE::Lit(s)),
{
    hide(eat); hide(rd_body);
    reveal(sden); reveal(den); lemma_lits();
    let (k, q, p) = ("lit!("@, "\""@, ")"@);
    let a = ("lit!(\""@ + t) + "\")"@;
    assert(a.len() > 0) by { reveal_strlit("lit!(\""); }
    assert forall|r: Seq<char>| #[trigger] rd(a + r) == Some((GE::Lit(s), r)) by {
        let x = q + (t + (q + (p + r)));
        assert(a + r == k + x) by { as2(k + q, t, q + p); as2(k + q, t + (q + p), r); as2(t, q + p, r); as2(q, p, r); as2(k, q, t + ((q + p) + r)); as2((k + q) + t, q + p, r); as2(k + q, t, (q + p) + r); }
        lemma_toks(x); lemma_toks(t + (q + (p + r))); lemma_toks(r);
    }
}
pub proof fn lemma_d_error(t: Seq<char>, s: Seq<char>)
    requires sden(t, s),
    ensures den(("error!(\""@ + t) + "\")"@, GE::Error(s)),
{
    hide(eat); hide(rd_body);
    reveal(sden); reveal(den); lemma_lits();
    let (k, q, p) = ("error!("@, "\""@, ")"@);
    let a = ("error!(\""@ + t) + "\")"@;
    assert(a.len() > 0) by { reveal_strlit("error!(\""); }
    assert forall|r: Seq<char>| #[trigger] rd(a + r) == Some((GE::Error(s), r)) by {
        let x = q + (t + (q + (p + r)));
        assert(a + r == k + x) by { as2(k + q, t, q + p); as2(k + q, t + (q + p), r); as2(t, q + p, r); as2(q, p, r); as2(k, q, t + ((q + p) + r)); as2((k + q) + t, q + p, r); as2(k + q, t, (q + p) + r); }
        lemma_toks(x); lemma_toks(t + (q + (p + r))); lemma_toks(r);
    }
}
pub proof fn lemma_d_ref(t: Seq<char>, s: Seq<char>)
    requires sden(t, s),
    ensures den(("ref_rule!(\""@ + t) + "\")"@, GE::Ref(s)),
{
    hide(eat); hide(rd_body);
    reveal(sden); reveal(den); lemma_lits();
    let (k, q, p) = ("ref_rule!("@, "\""@, ")"@);
    let a = ("ref_rule!(\""@ + t) + "\")"@;
    assert(a.len() > 0) by { reveal_strlit("ref_rule!(\""); }
    assert forall|r: Seq<char>| #[trigger] rd(a + r) == Some((GE::Ref(s), r)) by {
        let x = q + (t + (q + (p + r)));
        assert(a + r == k + x) by { as2(k + q, t, q + p); as2(k + q, t + (q + p), r); as2(t, q + p, r); as2(q, p, r); as2(k, q, t + ((q + p) + r)); as2((k + q) + t, q + p, r); as2(k + q, t, (q + p) + r); }
        lemma_toks(x); lemma_toks(t + (q + (p + r))); lemma_toks(r);
    }
}
pub proof fn lemma_d_dot() ensures den("dot!()"@, GE::Dot) { reveal(den); reveal_strlit("dot!()"); assert forall|r: Seq<char>| #[trigger] rd("dot!()"@ + r) == Some((GE::Dot, r)) by { lemma_toks(r); } }
pub proof fn lemma_d_eof() ensures den("eof!()"@, GE::EOF) { reveal(den); reveal_strlit("eof!()"); assert forall|r: Seq<char>| #[trigger] rd("eof!()"@ + r) == Some((GE::EOF, r)) by { lemma_toks(r); } }

/// t is code for the ranges l, up to the parenthesis
#[verifier::opaque]
pub open spec fn bden(t: Seq<char>, l: Seq<(char, char)>) -> bool { forall|r: Seq<char>| rd_rng(t + (#[trigger] (")"@ + r))) == Some((l, r)) }
pub proof fn lemma_chr_len(s: Seq<char>) ensures match rd_chr(s) { Some((c, r)) => r.len() < s.len(), None => true } { lemma_sk_len(s); reveal_strlit("'"); }
pub proof fn lemma_rng_ws(w: Seq<char>, s: Seq<char>)
    requires allws(w),
    ensures rd_rng(w + s) == rd_rng(s),
{
    let x = w + s;
    reveal_strlit(")"); reveal_strlit(", from"); reveal_strlit(", to");
    lemma_eat_ws(")"@, w, s); lemma_eat_ws(", from"@, w, s);
    lemma_eat_len(", from"@, s); lemma_eat_len(", from"@, x);
    if eat(", from"@, s) is Some {
        let y = eat(", from"@, s)->0;
        lemma_chr_len(y);
        match rd_chr(y) { Some((a, z)) => { lemma_eat_len(", to"@, z); match eat(", to"@, z) { Some(v) => { lemma_chr_len(v); } None => {} } } None => {} }
    }
}
pub proof fn lemma_chr(w: Seq<char>, t: Seq<char>, c: char, r: Seq<char>)
    requires allws(w), cden(t, c),
    ensures rd_chr(w + ("'"@ + (t + ("'"@ + r)))) == Some((c, r)),
{
    reveal(cden);
    let x = t + ("'"@ + r);
    lemma_toks(x); lemma_eat_ws("'"@, w, "'"@ + x);
}
pub proof fn lemma_b0(t: Seq<char>) requires t.len() == 0 ensures bden(t, Seq::empty())
{ reveal(bden); assert forall|r: Seq<char>| rd_rng(t + (#[trigger] (")"@ + r))) == Some((Seq::<(char, char)>::empty(), r)) by { assert(t + (")"@ + r) =~= ")"@ + r); lemma_toks(r); } }
pub proof fn lemma_b1(f: Seq<char>, a: char, t: Seq<char>, b: char, z: Seq<char>, l: Seq<(char, char)>)
    requires cden(f, a), cden(t, b), bden(z, l),
    ensures bden(((((", from '"@ + f) + "', to '"@) + t) + "' "@) + z, seq![(a, b)] + l),
{
    hide(eat); hide(rd_chr);
    let (kf, kt, ap, sp) = (", from"@, ", to"@, "'"@, " "@);
    let (l1, l2, l3) = (", from '"@, "', to '"@, "' "@);
    let all = ((((l1 + f) + l2) + t) + l3) + z;
    reveal(bden);
    lemma_lits();
    assert forall|r: Seq<char>| rd_rng(all + (#[trigger] (")"@ + r))) == Some((seq![(a, b)] + l, r)) by {
        let w = ")"@ + r;
        let e = z + w;
        let x4 = sp + e;
        let x3 = sp + (ap + (t + (ap + x4)));
        let x2 = kt + x3;
        let x1 = sp + (ap + (f + (ap + x2)));
        let x0 = kf + x1;
        assert(all + w == x0) by {
            as2((((l1 + f) + l2) + t) + l3, z, w); as2(((l1 + f) + l2) + t, l3, e); as2((l1 + f) + l2, t, l3 + e); as2(l1 + f, l2, t + (l3 + e)); as2(l1, f, l2 + (t + (l3 + e)));
            as2(ap, sp, e);
            let y = t + (l3 + e);
            as2(ap, kt + (sp + ap), y); as2(kt, sp + ap, y); as2(sp, ap, y);
            let v = f + (l2 + y);
            as2(kf, sp + ap, v); as2(sp, ap, v);
        }
        lemma_toks(x1); lemma_toks(x3);
        lemma_chr(sp, f, a, x2); lemma_chr(sp, t, b, x4);
        lemma_rng_ws(sp, e);
        reveal_strlit(", from"); reveal_strlit(", to"); lemma_eat_len(kf, x0); lemma_chr_len(x1); lemma_eat_len(kt, x2); lemma_chr_len(x3);
    }
}
pub proof fn lemma_cls(b: Seq<char>, l: Seq<(char, char)>, r: Seq<char>)
    requires l.len() == 0 && b == ", from2 vec![]"@ || l.len() > 0 && bden(b, l),
    ensures rd_cls("  "@ + (b + (")"@ + r))) == Some((l, r)),
{
    lemma_lits();
    let p = ")"@ + r;
    let e = b + p;
    let x = "  "@ + e;
    lemma_toks(p); lemma_toks(r);
    lemma_eat_ws(", from2 vec![]"@, "  "@, e);
    if l.len() == 0 { assert(l =~= Seq::empty()); }
    else {
        reveal(bden);
        lemma_rng_ws("  "@, e);
        lemma_eat_ws(", from"@, "  "@, e); lemma_eat_ws(")"@, "  "@, e);
        lemma_cls2(e, l, r);
    }
}
/// a list of ranges does not begin with the token for none
pub proof fn lemma_cls2(e: Seq<char>, l: Seq<(char, char)>, r: Seq<char>)
    requires rd_rng(e) == Some((l, r)), l.len() > 0,
    ensures eat(", from2 vec![]"@, e) is None, eat(", from"@, e) is Some,
{
    if eat(", from2 vec![]"@, e) is Some {
        let u = sk(e);
        let y = eat(", from"@, e)->0;
        reveal_strlit(", from2 vec![]"); reveal_strlit(", from"); reveal_strlit("'");
        assert(u.take(14)[6] == '2'); 
        assert(eat(", from"@, e) == Some(u.skip(6)));
        assert(y[0] == '2');
        assert(sk(y) == y);
        assert(y.take(1)[0] == '2');
        assert(rd_chr(y) is None);
        assert(rd_rng(e) == Some((l, r)));
    }
}
pub proof fn lemma_d_class(t: Seq<char>, s: Seq<char>, b: Seq<char>, l: Seq<(char, char)>)
    requires sden(t, s), l.len() == 0 && b == ", from2 vec![]"@ || l.len() > 0 && bden(b, l),
    ensures den(((("ematch!(chlist \""@ + t) + "\"  "@) + b) + ")"@, GE::Class(s, l)),
{
    hide(eat); hide(rd_cls);
    reveal(sden); reveal(den); lemma_lits();
    let (k, sp, q, w, p) = ("ematch!(chlist"@, " "@, "\""@, "  "@, ")"@);
    let (l1, l2) = ("ematch!(chlist \""@, "\"  "@);
    let all = (((l1 + t) + l2) + b) + p;
    assert(all.len() > 0) by { reveal_strlit(")"); }
    assert forall|r: Seq<char>| #[trigger] rd(all + r) == Some((GE::Class(s, l), r)) by {
        let e = b + (p + r);
        let x3 = w + e;
        let x2 = t + (q + x3);
        let x1 = sp + (q + x2);
        assert(all + r == k + x1) by {
            as2(((l1 + t) + l2) + b, p, r); as2((l1 + t) + l2, b, p + r); as2(l1 + t, l2, e); as2(l1, t, l2 + e);
            as2(q, w, e); as2(k, sp + q, t + (l2 + e)); as2(sp, q, t + (l2 + e));
        }
        lemma_toks(x1); lemma_toks(x2);
        lemma_eat_ws(q, sp, q + x2);
        lemma_cls(b, l, r);
    }
}
pub proof fn lemma_d_not(t: Seq<char>, e: GE)
    requires den(t, e),
    ensures den(("not!("@ + t) + ")"@, GE::Not(Box::new(e))),
{
    hide(eat);
    let (k, p) = ("not!("@, ")"@);
    let all = (k + t) + p;
    assert forall|r: Seq<char>| #[trigger] rd(all + r) == Some((GE::Not(Box::new(e)), r)) by {
        let x = t + (p + r);
        assert(all + r == k + x) by { as2(k + t, p, r); as2(k, t, p + r); }
        lemma_toks(x); lemma_toks(r); lemma_den(t, e, p + r);
        reveal_strlit("not!("); lemma_eat_len(k, k + x); assert(x.len() < (k + x).len());
    }
    assert(all.len() > 0) by { reveal_strlit("not!("); }
    reveal(den);
}
pub proof fn lemma_bounds(e: GE, a: usize, b: Option<usize>, r: Seq<char>)
    ensures rd_bounds(e, ","@ + (" "@ + (usize_str(a) + match b { Some(x) => ","@ + (" "@ + (usize_str(x) + (")"@ + r))), None => ")"@ + r }))) == Some((GE::Rep(Box::new(e), a as nat, match b { Some(x) => Some(x as nat), None => None }), r)),
{
    hide(eat); hide(rd_num);
    lemma_lits();
    let z = ")"@ + r;
    let y = match b { Some(x) => ","@ + (" "@ + (usize_str(x) + z)), None => z };
    lemma_toks(" "@ + (usize_str(a) + y)); lemma_toks(r);
    assert(y.len() > 0 && !isdig(y[0]) && z.len() > 0 && !isdig(z[0])) by { reveal_strlit(")"); reveal_strlit(","); }
    lemma_num(" "@, a, y);
    match b { Some(x) => { lemma_toks(" "@ + (usize_str(x) + z)); lemma_num(" "@, x, z); } None => {} }
}
pub proof fn lemma_d_rep(t: Seq<char>, e: GE, a: usize, m: Seq<char>, b: Option<usize>)
    requires den(t, e), match b { Some(x) => m == ", "@ + usize_str(x), None => m == ""@ },
    ensures den((((("rep!("@ + t) + ", "@) + usize_str(a)) + m) + ")"@, GE::Rep(Box::new(e), a as nat, match b { Some(x) => Some(x as nat), None => None })),
{
    hide(eat); hide(rd_bounds);
    let (k, c, sp, p, u) = ("rep!("@, ","@, " "@, ")"@, usize_str(a));
    let cs = ", "@;
    let all = ((((k + t) + cs) + u) + m) + p;
    let g = GE::Rep(Box::new(e), a as nat, match b { Some(x) => Some(x as nat), None => None });
    assert forall|r: Seq<char>| #[trigger] rd(all + r) == Some((g, r)) by {
        let z = p + r;
        let y = match b { Some(x) => c + (sp + (usize_str(x) + z)), None => z };
        let x1 = sp + (u + y);
        let x0 = t + (c + x1);
        lemma_lits();
        assert(m + z == y) by { match b { Some(x) => { as2(cs, usize_str(x), z); as2(c, sp, usize_str(x) + z); } None => { reveal_strlit(""); assert(m + z =~= z); } } }
        assert(all + r == k + x0) by {
            as2((((k + t) + cs) + u) + m, p, r); as2(((k + t) + cs) + u, m, z); as2((k + t) + cs, u, y); as2(k + t, cs, u + y); as2(k, t, cs + (u + y)); as2(c, sp, u + y);
        }
        lemma_toks(x0); lemma_den(t, e, c + x1);
        lemma_bounds(e, a, b, r);
        reveal_strlit("rep!("); lemma_eat_len(k, k + x0); assert(x0.len() < (k + x0).len());
    }
    assert(all.len() > 0) by { reveal_strlit(")"); }
    reveal(den);
}
// ------------------------------------------------------------------ lists
pub open spec fn pre<A>(l: Seq<A>, x: Option<(Seq<A>, Seq<char>)>) -> Option<(Seq<A>, Seq<char>)> { match x { Some((m, r)) => Some((l + m, r)), None => None } }
/// t is code for the list l
#[verifier::opaque]
pub open spec fn lden(t: Seq<char>, l: Seq<GE>) -> bool {
    if l.len() == 0 { t.len() == 0 } else {
        &&& t.len() > 0
        &&& forall|r: Seq<char>| rd_items(t + (#[trigger] (")"@ + r))) == Some((l, r))
        &&& forall|r: Seq<char>| rd_items(t + (#[trigger] (","@ + r))) == pre(l, rd_items(r))
    }
}
pub proof fn lemma_l0(t: Seq<char>, l: Seq<GE>) requires l.len() == 0, t.len() == 0 ensures lden(t, l) { reveal(lden); }
pub proof fn lemma_len(t: Seq<char>, l: Seq<GE>) requires lden(t, l) ensures t.len() == 0 <==> l.len() == 0 { reveal(lden); }
/// one element, after white space
pub proof fn lemma_item(w: Seq<char>, t: Seq<char>, e: GE, r: Seq<char>)
    requires allws(w), den(t, e),
    ensures rd_items(w + (t + (")"@ + r))) == Some((seq![e], r)), rd_items(w + (t + (","@ + r))) == pre(seq![e], rd_items(r)),
{
    let (a, b) = (t + (")"@ + r), t + (","@ + r));
    lemma_rd_ws(w, a); lemma_rd_ws(w, b); lemma_den(t, e, ")"@ + r); lemma_den(t, e, ","@ + r); lemma_toks(r);
}
pub proof fn lemma_l1(t: Seq<char>, e: GE)
    requires den(t, e),
    ensures lden(t, seq![e]),
{
    reveal(lden); lemma_den(t, e, Seq::empty());
    let w = Seq::<char>::empty();
    assert forall|r: Seq<char>| rd_items(t + (#[trigger] (")"@ + r))) == Some((seq![e], r)) by { lemma_item(w, t, e, r); assert(w + (t + (")"@ + r)) =~= t + (")"@ + r)); }
    assert forall|r: Seq<char>| rd_items(t + (#[trigger] (","@ + r))) == pre(seq![e], rd_items(r)) by { lemma_item(w, t, e, r); assert(w + (t + (","@ + r)) =~= t + (","@ + r)); }
}
pub proof fn lemma_l2(a: Seq<char>, l: Seq<GE>, t: Seq<char>, e: GE)
    requires lden(a, l), l.len() > 0, den(t, e),
    ensures lden((a + ", "@) + t, l.push(e)),
{
    reveal(lden); reveal_strlit(", "); reveal_strlit(","); reveal_strlit(" ");
    assert(allws(" "@));
    let all = (a + ", "@) + t;
    assert(l + seq![e] =~= l.push(e));
    assert forall|r: Seq<char>| rd_items(all + (#[trigger] (")"@ + r))) == Some((l.push(e), r)) by {
        let x = " "@ + (t + (")"@ + r));
        assert(all + (")"@ + r) =~= a + (","@ + x));
        lemma_item(" "@, t, e, r);
    }
    assert forall|r: Seq<char>| rd_items(all + (#[trigger] (","@ + r))) == pre(l.push(e), rd_items(r)) by {
        let x = " "@ + (t + (","@ + r));
        assert(all + (","@ + r) =~= a + (","@ + x));
        lemma_item(" "@, t, e, r);
        match rd_items(r) { Some((m, q)) => { assert(l + (seq![e] + m) =~= l.push(e) + m); } None => {} }
    }
}
pub proof fn lemma_list(t: Seq<char>, l: Seq<GE>, r: Seq<char>)
    requires lden(t, l),
    ensures rd_list(t + (")"@ + r)) == Some((l, r)),
{
    reveal(lden);
    lemma_toks(r);
    let x = t + (")"@ + r);
    if l.len() == 0 { assert(x =~= ")"@ + r); assert(l =~= Seq::empty()); } else { lemma_rd_paren(x); }
}

pub proof fn lemma_d_and(t: Seq<char>, l: Seq<GE>)
    requires lden(t, l),
    ensures den(("and!("@ + t) + ")"@, GE::And(l)),
{
    hide(eat); hide(rd_items);
    let (k, p) = ("and!("@, ")"@);
    let all = (k + t) + p;
    assert forall|r: Seq<char>| #[trigger] rd(all + r) == Some((GE::And(l), r)) by {
        let x = t + (p + r);
        assert(all + r == k + x) by { as2(k + t, p, r); as2(k, t, p + r); }
        lemma_toks(x); lemma_list(t, l, r);
        reveal_strlit("and!("); lemma_eat_len(k, k + x); assert(x.len() < (k + x).len());
    }
    assert(all.len() > 0) by { reveal_strlit("and!("); }
    reveal(den);
}
pub proof fn lemma_d_or(t: Seq<char>, l: Seq<GE>)
    requires lden(t, l),
    ensures den(("or!("@ + t) + ")"@, GE::Or(l)),
{
    hide(eat); hide(rd_items);
    let (k, p) = ("or!("@, ")"@);
    let all = (k + t) + p;
    assert forall|r: Seq<char>| #[trigger] rd(all + r) == Some((GE::Or(l), r)) by {
        let x = t + (p + r);
        assert(all + r == k + x) by { as2(k + t, p, r); as2(k, t, p + r); }
        lemma_toks(x); lemma_list(t, l, r);
        reveal_strlit("or!("); lemma_eat_len(k, k + x); assert(x.len() < (k + x).len());
    }
    assert(all.len() > 0) by { reveal_strlit("or!("); }
    reveal(den);
}

// ------------------------------------------------------------------ entries
#[verifier::opaque]
pub open spec fn eden(t: Seq<char>, x: Ent) -> bool { t.len() > 0 && (forall|r: Seq<char>| #[trigger] rd_ent(t + r) == Some((x, r))) }
pub proof fn lemma_e1(t: Seq<char>, n: Seq<char>, c: Seq<char>, e: GE)
    requires sden(t, n), den(c, e),
    ensures eden((("\""@ + t) + "\" => "@) + c, (n, e)),
{
    hide(eat);
    reveal(sden); reveal(eden);
    reveal_strlit("\""); reveal_strlit("\" => "); reveal_strlit("=>"); reveal_strlit(" ");
    assert(allws(" "@));
    let all = (("\""@ + t) + "\" => "@) + c;
    assert forall|r: Seq<char>| #[trigger] rd_ent(all + r) == Some(((n, e), r)) by {
        let x2 = " "@ + (c + r);
        let x1 = " "@ + ("=>"@ + x2);
        let x0 = t + ("\""@ + x1);
        assert(all + r =~= "\""@ + x0);
        lemma_toks(x0); lemma_toks(x2); lemma_eat_ws("=>"@, " "@, "=>"@ + x2);
        lemma_rd_ws(" "@, c + r); lemma_den(c, e, r);
    }
}
pub open spec fn pre1<A>(l: Seq<A>, x: Option<Seq<A>>) -> Option<Seq<A>> { match x { Some(m) => Some(l + m), None => None } }
#[verifier::opaque]
pub open spec fn esden(t: Seq<char>, l: Seq<Ent>) -> bool {
    if l.len() == 0 { t.len() == 0 } else {
        &&& t.len() > 0
        &&& rd_rules(t) == Some(l)
        &&& forall|w: Seq<char>, r: Seq<char>| allws(w) ==> rd_ents(t + (#[trigger] (w + (","@ + r)))) == pre1(l, rd_ents(r))
    }
}
pub proof fn lemma_es_len(t: Seq<char>, l: Seq<Ent>) requires esden(t, l) ensures t.len() == 0 <==> l.len() == 0 { reveal(esden); }
pub proof fn lemma_es0(t: Seq<char>, l: Seq<Ent>) requires l.len() == 0, t.len() == 0 ensures esden(t, l), rd_rules(t) == Some(Seq::<Ent>::empty()) { reveal(esden); assert(sk(t) == t); }
pub proof fn lemma_es(t: Seq<char>, l: Seq<Ent>) requires esden(t, l) ensures rd_rules(t) == Some(l) { reveal(esden); if l.len() == 0 { lemma_es0(t, l); assert(l =~= Seq::empty()); } }
pub proof fn lemma_ent_ws(w: Seq<char>, s: Seq<char>) requires allws(w) ensures rd_ent(w + s) == rd_ent(s) { lemma_eat_ws("\""@, w, s); }
pub proof fn lemma_str_head(s: Seq<char>) ensures rd_ent(s) is Some ==> sk(s).len() > 0 { reveal_strlit("\""); }
/// one entry, after white space
pub proof fn lemma_entry(w: Seq<char>, t: Seq<char>, x: Ent, v: Seq<char>, r: Seq<char>)
    requires allws(w), allws(v), eden(t, x),
    ensures rd_ents(w + t) == Some(seq![x]), sk(w + t).len() > 0, rd_ents(w + (t + (v + (","@ + r)))) == pre1(seq![x], rd_ents(r)),
{
    hide(rd_ent);
    reveal(eden);
    let e = Seq::<char>::empty();
    assert(t + e =~= t);
    assert(rd_ent(t + e) == Some((x, e)));
    lemma_ent_ws(w, t); lemma_ent_ws(w, t + (v + (","@ + r)));
    lemma_str_head(w + t);
    assert(sk(e).len() == 0);
    let y = v + (","@ + r);
    lemma_toks(r); lemma_eat_ws(","@, v, ","@ + r); lemma_ws(v, ","@ + r); reveal_strlit(",");
    assert((","@ + r)[0] == ',');
    assert(sk(","@ + r) == ","@ + r);
    assert(rd_ent(w + (t + y)) == Some((x, y)));
}
pub proof fn lemma_es1(a: Seq<char>, w: Seq<char>, t: Seq<char>, x: Ent)
    requires a.len() == 0, w == "\n       "@ + "  "@, eden(t, x),
    ensures esden((a + w) + t, seq![x]),
{
    reveal(esden); reveal_strlit("\n       "); reveal_strlit("  ");
    assert(allws(w));
    let all = (a + w) + t;
    let e = Seq::<char>::empty();
    assert(all =~= w + t);
    lemma_entry(w, t, x, e, e);
    assert forall|v: Seq<char>, r: Seq<char>| allws(v) implies rd_ents(all + (#[trigger] (v + (","@ + r)))) == pre1(seq![x], rd_ents(r)) by {
        lemma_entry(w, t, x, v, r);
        assert(all + (v + (","@ + r)) =~= w + (t + (v + (","@ + r))));
    }
}
pub proof fn lemma_es2(a: Seq<char>, l: Seq<Ent>, t: Seq<char>, x: Ent)
    requires l.len() > 0, esden(a, l), eden(t, x),
    ensures esden(((a + "\n       "@) + ", "@) + t, l.push(x)),
{
    hide(eat); hide(rd_ent); hide(rd_ents); hide(sk);
    reveal(esden); lemma_lits();
    let (w, c, sp, cs) = ("\n       "@, ","@, " "@, ", "@);
    let all = ((a + w) + cs) + t;
    let e = Seq::<char>::empty();
    assert(l + seq![x] =~= l.push(x));
    lemma_entry(sp, t, x, e, e);
    assert(all == a + (w + (c + (sp + t)))) by { as2(a + w, cs, t); as2(a, w, cs + t); as2(c, sp, t); }
    assert(rd_ents(all) == Some(l.push(x)));
    lemma_nonempty(all);
    assert forall|v: Seq<char>, r: Seq<char>| allws(v) implies rd_ents(all + (#[trigger] (v + (c + r)))) == pre1(l.push(x), rd_ents(r)) by {
        lemma_entry(sp, t, x, v, r);
        let y = v + (c + r);
        assert(all + y == a + (w + (c + (sp + (t + y))))) by { as2(a, w + (c + (sp + t)), y); as2(w, c + (sp + t), y); as2(c, sp + t, y); as2(sp, t, y); }
        match rd_ents(r) { Some(m) => { assert(l + (seq![x] + m) =~= l.push(x) + m); } None => {} }
    }
}
pub proof fn lemma_nonempty(s: Seq<char>) ensures rd_ents(s) is Some ==> sk(s).len() > 0 { lemma_str_head(s); }
