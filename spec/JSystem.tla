------------------------------ MODULE JSystem -------------------------------
(* The library as a state machine: a client creates codecs for schemas,      *)
(* switches their modes and calls encode and decode.  The state is what a    *)
(* codec may remember: its schema and its mode - nothing else.               *)
EXTENDS JCodec

VARIABLES codecs,   \* codec id -> [env, m]
          last      \* the last call and its answer
sysvars == <<codecs, last>>

Modes == [rec : BOOLEAN, str : BOOLEAN]
Idle == <<"idle">>
SysInit == codecs = [c \in {} |-> Idle] /\ last = Idle

New(c, env, m) == codecs' = (c :> [env |-> env, m |-> m]) @@ codecs /\ last' = Idle
SetMode(c, m) == c \in DOMAIN codecs /\ codecs' = [codecs EXCEPT ![c].m = m] /\ last' = Idle
Encode(c, n, v) == /\ c \in DOMAIN codecs
                   /\ last' = <<"enc", c, n, v, EncodeRes(codecs[c].env, codecs[c].m, n, v)>>
                   /\ UNCHANGED codecs
Decode(c, n, v) == /\ c \in DOMAIN codecs
                   /\ last' = <<"dec", c, n, v, DecodeRes(codecs[c].env, codecs[c].m, n, v)>>
                   /\ UNCHANGED codecs
=============================================================================
