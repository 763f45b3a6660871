------------------------------ MODULE MC_MPMC -------------------------------
EXTENDS MPMC
S1 == 1 :> <<"e", "e", "d">> @@ 2 :> <<"e", "d", "d">>
S2 == 1 :> <<"e", "e">> @@ 2 :> <<"d", "d">> @@ 3 :> <<"d">>
S3 == 1 :> <<"e", "d">> @@ 2 :> <<"e", "d">> @@ 3 :> <<"e">>
S4 == 1 :> <<"e", "e", "e">> @@ 2 :> <<"e", "d", "d">>
=============================================================================
