//@ import lrec.vx
//@ include $gram4.vx
//@ include ends.vx
