---------------------------- MODULE PubSubImplMC ----------------------------
EXTENDS PubSubImpl
TwoSubs == {<< 1, 1, 1 >>, << 2, 2, 2 >>}
SameDb == {<< 1, 1, 1 >>, << 2, 1, 2 >>}
Three == {<< 1, 1, 1 >>, << 2, 1, 2 >>, << 3, 2, 2 >>}
=============================================================================
