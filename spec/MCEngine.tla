------------------------------ MODULE MCEngine ------------------------------
EXTENDS Engine
MCInit == EInit /\ smem = <<>> /\ dmem = <<>> /\ result = "" /\ views = <<>>
MCSpec == MCInit /\ [][ENext /\ UNCHANGED <<smem, dmem, result, views>>]_<<vars, smem, dmem, result, views>>
            /\ WF_vars(ENext /\ UNCHANGED <<smem, dmem, result, views>>)
=============================================================================
