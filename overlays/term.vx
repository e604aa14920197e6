//@ define TERM
//@ include lrec.vx
//@ include expr.vx
//@ include main.vx
