//@ spec
// ---------------------------------------------------------------- positions (C07)
/// the line feeds among the first n characters
pub open spec fn rows(text: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else { rows(text, n - 1) + (if text[n - 1] == '\n' { 1int } else { 0 }) } }
/// the position just after the last line feed before n
pub open spec fn lstart(text: Seq<char>, n: int) -> int decreases n { if n <= 0 { 0 } else if text[n - 1] == '\n' { n } else { lstart(text, n - 1) } }
/// the characters since the last line feed or carriage return before n
pub open spec fn cols(text: Seq<char>, n: int) -> int decreases n { if n <= 0 || text[n - 1] == '\n' || text[n - 1] == '\r' { 0 } else { cols(text, n - 1) + 1 } }
/// the next line feed, carriage return or end of text from n on
pub open spec fn lend(text: Seq<char>, n: int) -> int decreases text.len() - n { if n >= text.len() || text[n] == '\n' || text[n] == '\r' { n } else { lend(text, n + 1) } }
pub open spec fn pos_at(text: Seq<char>, p: parser_Possition) -> bool {
    p.n <= text.len() && p.row == rows(text, p.n as int) && p.col == cols(text, p.n as int) && p.start_line == lstart(text, p.n as int)
}
pub proof fn lemma_pos(text: Seq<char>, n: int)
    requires 0 <= n <= text.len(),
    ensures 0 <= rows(text, n) <= n, 0 <= cols(text, n) <= n, 0 <= lstart(text, n) <= n,
    decreases n,
{ if n > 0 { lemma_pos(text, n - 1); } }
pub proof fn lemma_lend(text: Seq<char>, n: int)
    requires 0 <= n <= text.len(),
    ensures n <= lend(text, n) <= text.len(), forall|i: int| n <= i < lend(text, n) ==> text[i] != '\n' && text[i] != '\r',
        lend(text, n) < text.len() ==> text[lend(text, n)] == '\n' || text[lend(text, n)] == '\r',
    decreases text.len() - n,
{ if n < text.len() && text[n] != '\n' && text[n] != '\r' { lemma_lend(text, n + 1); } }
/// no line feed between the start of the line and n; a line feed just before the start
pub proof fn lemma_lstart(text: Seq<char>, n: int)
    requires 0 <= n <= text.len(),
    ensures 0 <= lstart(text, n) <= n, forall|i: int| lstart(text, n) <= i < n ==> text[i] != '\n', lstart(text, n) > 0 ==> text[lstart(text, n) - 1] == '\n',
    decreases n,
{ if n > 0 && text[n - 1] != '\n' { lemma_lstart(text, n - 1); } }
#[verifier::external_body]
pub proof fn axiom_str_len(s: &str) ensures blen(s@) <= isize::MAX {}
