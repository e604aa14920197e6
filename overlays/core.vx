//@ spec
pub open spec fn skipped() -> Seq<Seq<char>> { seq!["_"@, "_1"@, "_eol"@] }
/// the syntax tree without what stands between the tokens
pub open spec fn core(g: GNode) -> GNode { g_prune(g_compact(g), skipped()) }
/// what the grammar parser does with a text
pub open spec fn pout(s: Seq<char>, r: Map<Seq<char>, Ex>) -> Result<GNode, EV> { answer(s.len() as int, sem(Ctx { text: s, rules: r }, Task::Rule("main"@, 0, None))) }
/// and it ends
pub open spec fn pdone(s: Seq<char>, r: Map<Seq<char>, Ex>) -> bool { !(sem(Ctx { text: s, rules: r }, Task::Rule("main"@, 0, None)) is Div) }
