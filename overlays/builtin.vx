//@ include $gram.vx
//@ include ctors.vx
