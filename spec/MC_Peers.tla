------------------------------ MODULE MC_Peers ------------------------------
EXTENDS Peers
Q == <<"quiet", 0>>
Reg(n) == <<<<"addpeer", n>>, <<"setaddr", n>>>>
Go(n) == <<"connpeer", n, -1>>
Cut(n) == <<"cut", n>>
Snd == <<"send", 1>>
Known == Reg(1) \o Reg(2) \o <<<<"settle", 0>>>>
Both == Known \o <<Go(1), Go(2)>>
(* 1: both dial at once; messages from before there is a connection *)
S1 == {Both \o <<Q>>, Reg(1) \o <<Snd>> \o Reg(2) \o <<Go(1), Go(2), Snd, Q>>}
(* 2: only one dials; the other knows it with or without its address *)
S2 == {Known \o <<Go(2), Snd, Q>>, Reg(1) \o <<<<"addpeer", 2>>, Go(1), Snd, Q>>,
       Reg(1) \o <<Go(1)>> \o Reg(2) \o <<Q>>}
(* 3: the connection is lost, on either side, before or after all is quiet *)
S3 == {Both \o <<Cut(1), Snd, Q>>, Both \o <<Q, Snd, Cut(2), Snd, Q>>, Known \o <<Go(1), Cut(2), Snd, Q>>,
       Known \o <<Go(2), Q, Cut(2), Q>>}
(* 4: dialling again, and in turn *)
S6 == {Both \o <<Go(1), Q>>}
S4 == {Known \o <<Go(1), Q, Go(2), Snd, Q>>, Known \o <<Go(1), Q, Go(1), Q>>,
       Known \o <<Go(1), <<"connpeer", 1, 0>>, Go(2), Q>>}
(* 5: a peer is removed and comes back *)
S5 == {Known \o <<Go(1), Q, <<"delpeer", 1>>, Q>> \o Reg(1) \o <<Go(1), Q>>,
       Known \o <<Go(1), <<"delpeer", 2>>>> \o Reg(2) \o <<Q>>,
       Known \o <<Go(1), <<"delpeer", 1>>, <<"delpeer", 1>>>> \o Reg(1) \o <<<<"addpeer", 1>>, Go(1), Q>>}
=============================================================================
