---------------------------- MODULE MCConcurrent ----------------------------
EXTENDS Concurrent, TLC
Two == {"a", "b"}
Three == {"a", "b", "c"}
=============================================================================
