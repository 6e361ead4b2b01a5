---------------------------- MODULE ForwardCases ----------------------------
EXTENDS Forward, Json, IOUtils
AllCases == AllTypeOps
VARIABLES case
INSTANCE Cases
(* forwarding never removes const, and never makes an lvalue of an rvalue    *)
Sane == case[1] = "forward" =>
          LET r == Category(case[2][1], case[2][3]) IN
          (Const(case[3]) => Const(r)) /\ (Ref(case[3]) = "&&" => Ref(r) = "&&")
=============================================================================
