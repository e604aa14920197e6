//@ include pos.vx
//@ include state.vx
