------------------------------- MODULE Server -------------------------------
(* The program: a server started with a configuration. Which doors it opens, and *)
(* what is still there after it died at any moment and was started again.        *)
(*   conf   [rest, grpc, plain]: the transports that are configured, and whether  *)
(*          the operator asked for connections without encryption                 *)
(*   sent   writes that were sent and not answered (at most one per object: each  *)
(*          caller waits for the answer)                                          *)
(*   disk   writes of each object that are stored for good                        *)
(*   acked  writes of each object that callers were told of (as far as anyone     *)
(*          knows: what is seen after a restart has happened)                     *)
EXTENDS Naturals, FiniteSets, Frame

Transports == {"rest", "grpc"}
\* plain: no encryption; tls: a caller that trusts the certificate of the configuration; other: one that trusts another one
Ways == {"plain", "tls", "other"}
Doors == Transports \X Ways
Opens(conf, d) == conf[d[1]] /\ d[2] = IF conf.plain THEN "plain" ELSE "tls"

\* What may be found of an object when acked writes were answered and sent ones were not
Found(acked, sent) == acked..(acked + sent)
=============================================================================
