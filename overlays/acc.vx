//@ include gnode.vx

//@ fn ast_get_nodename_and_nodes C17
//@ contract
    ensures match vx_r {
        Ok((n, c)) => g1(*$0) == GNode::Rule(n@, gs(c@)) && ($0 matches ast_Node::Rule((_, v)) && v@ == c@),
        Err(_) => !(*$0 is Rule) },

//@ fn ast_get_node_val C17
//@ contract
    ensures match vx_r { Ok(s) => g1(*$0) == GNode::Val(s@), Err(_) => !(*$0 is Val) },

//@ fn ast_get_nodes_unique_val C17
//@ contract
    ensures match vx_r { Ok(s) => $0@.len() == 1 && g1($0@[0]) == GNode::Val(s@), Err(_) => !($0@.len() == 1 && $0@[0] is Val) },

//@ fn ast_consume_val C17
//@ contract
    ensures match vx_r { Ok((s, rest)) => $0@.len() > 0 && g1($0@[0]) == GNode::Val(s@) && rest@ == $0@.skip(1), Err(_) => !($0@.len() > 0 && $0@[0] is Val) },

//@ fn ast_split_first_nodes C17
//@ contract
    ensures match vx_r { Ok((n, rest)) => $0@.len() > 0 && *n == $0@[0] && rest@ == $0@.skip(1), Err(_) => $0@.len() == 0 },

//@ fn ast_consume_this_value C17
//@ contract
    ensures match vx_r { Ok(rest) => $1@.len() > 0 && g1($1@[0]) == GNode::Val($0@) && rest@ == $1@.skip(1), Err(_) => !($1@.len() > 0 && g1($1@[0]) == GNode::Val($0@)) },

//@ fn ast_consume_node_get_subnodes_for_rule_name_is C17
//@ contract
    ensures match vx_r {
        Ok((rest, sub)) => $1@.len() > 0 && g1($1@[0]) == GNode::Rule($0@, gs(sub@)) && rest@ == $1@.skip(1) && ($1@[0] matches ast_Node::Rule((_, v)) && v@ == sub@),
        Err(_) => !($1@.len() > 0 && (g1($1@[0]) matches GNode::Rule(n, _) && n == $0@)) },

//@ fn ast_check_empty_nodes C17
//@ contract
    ensures vx_r.is_ok() == ($0@.len() == 0),

//@ fn ast_peek_first_node C17
//@ contract
    ensures match vx_r { Ok(n) => $0@.len() > 0 && *n == $0@[0], Err(_) => $0@.len() == 0 },

//@ fn ast_flat_consume_node_start_rule_name C17
//@ contract
    ensures match vx_r {
        Ok(rest) => $1@.len() > 0 && ($1@[0] matches ast_flat_Node::BeginRule(n) && n@ == $0@) && rest@ == $1@.skip(1),
        Err(_) => !($1@.len() > 0 && ($1@[0] matches ast_flat_Node::BeginRule(n) && n@ == $0@)) },

//@ fn ast_flat_consume_node_end_rule_name C17
//@ contract
    ensures match vx_r {
        Ok(rest) => $1@.len() > 0 && ($1@[0] matches ast_flat_Node::EndRule(n) && n@ == $0@) && rest@ == $1@.skip(1),
        Err(_) => !($1@.len() > 0 && ($1@[0] matches ast_flat_Node::EndRule(n) && n@ == $0@)) },

//@ fn ast_flat_split_first_nodes C17
//@ contract
    ensures match vx_r { Ok((n, rest)) => $0@.len() > 0 && *n == $0@[0] && rest@ == $0@.skip(1), Err(_) => $0@.len() == 0 },

//@ fn ast_flat_peek_first_node C17
//@ contract
    ensures match vx_r { Ok(n) => $0@.len() > 0 && *n == $0@[0], Err(_) => $0@.len() == 0 },

//@ fn ast_flat_get_node_val C17
//@ contract
    ensures match vx_r { Ok(s) => *$0 matches ast_flat_Node::Val(v) && v@ == s@, Err(_) => !(*$0 is Val) },

//@ fn ast_flat_consume_this_value C17
//@ contract
    ensures match vx_r {
        Ok(rest) => $1@.len() > 0 && ($1@[0] matches ast_flat_Node::Val(n) && n@ == $0@) && rest@ == $1@.skip(1),
        Err(_) => !($1@.len() > 0 && ($1@[0] matches ast_flat_Node::Val(n) && n@ == $0@)) },

//@ fn ast_flat_get_nodename C17
//@ contract
    ensures match vx_r {
        Ok(s) => (*$0 matches ast_flat_Node::BeginRule(v) && v@ == s@) || (*$0 matches ast_flat_Node::EndRule(v) && v@ == s@),
        Err(_) => !(*$0 is BeginRule) && !(*$0 is EndRule) },

//@ fn ast_flat_consume_val C17
//@ contract
    ensures match vx_r { Ok((s, rest)) => $0@.len() > 0 && ($0@[0] matches ast_flat_Node::Val(v) && v@ == s@) && rest@ == $0@.skip(1), Err(_) => !($0@.len() > 0 && $0@[0] is Val) },
