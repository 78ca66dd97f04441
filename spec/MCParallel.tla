----------------------------- MODULE MCParallel -----------------------------
EXTENDS Parallel
MCPairs == {<<"NV12", "RGB">>, <<"I210", "I420">>, <<"BGRA", "I444">>, <<"YUYV", "I012">>}
MCInit == PInit /\ smem = <<>> /\ dmem = <<>> /\ result = "" /\ views = <<>>
MCSpec == MCInit /\ [][PNext /\ UNCHANGED <<smem, dmem, result, views>>]_<<vars, smem, dmem, result, views>>
            /\ WF_vars(PNext /\ UNCHANGED <<smem, dmem, result, views>>)
=============================================================================
