------------------------------ MODULE FtpLine ------------------------------
(***************************************************************************)
(* How the byte stream of a control connection becomes commands: the server *)
(* sees it in arbitrary segments, buffers it, and takes a command whenever  *)
(* the buffer holds a CR LF.  The replies may depend only on the bytes.     *)
(*                                                                          *)
(* Symbols: "N" = the text NOOP, "P" = PWD, "p" = pwd, "Y" = SyST,           *)
(* "x" = XYZ (no such command), "s" = blank, "r" = CR, "n" = LF.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSetsExt, TLC, Json
CONSTANTS Symbols, MaxLen
VARIABLES stream, pos, buf, out
vars == <<stream, pos, buf, out>>

Closing == <<"r", "n", "Y", "r", "n">>      \* appended so that every stream ends a line

CrLf(b) == {i \in 1..(Len(b) - 1) : b[i] = "r" /\ b[i + 1] = "n"}

Word(line) ==
  LET sp == {i \in DOMAIN line : line[i] = "s"}
  IN  IF sp = {} THEN line ELSE SubSeq(line, 1, Min(sp) - 1)

Code(line) ==
  LET w == Word(line)
  IN  CASE w = <<"N">> -> 200
        [] w \in {<<"P">>, <<"p">>} -> 257
        [] w = <<"Y">> -> 215
        [] OTHER -> 500

(* Declarative: the replies to a byte string. *)
RECURSIVE Replies(_)
Replies(b) ==
  LET c == CrLf(b)
  IN  IF c = {} THEN <<>>
      ELSE LET i == Min(c) IN <<Code(SubSeq(b, 1, i - 1))>> \o Replies(SubSeq(b, i + 2, Len(b)))

(* Operational: the incremental decoder. *)
RECURSIVE Drain(_, _)
Drain(b, o) ==
  LET c == CrLf(b)
  IN  IF c = {} THEN <<b, o>>
      ELSE LET i == Min(c) IN Drain(SubSeq(b, i + 2, Len(b)), Append(o, Code(SubSeq(b, 1, i - 1))))

Streams == UNION {[1..n -> Symbols] : n \in 0..MaxLen}

Init == /\ \E s \in Streams : stream = s \o Closing
        /\ pos = 0 /\ buf = <<>> /\ out = <<>>

Deliver(k) ==
  /\ pos + k <= Len(stream)
  /\ LET d == Drain(buf \o SubSeq(stream, pos + 1, pos + k), out)
     IN  buf' = d[1] /\ out' = d[2]
  /\ pos' = pos + k
  /\ UNCHANGED stream

Next == \E k \in 1..Len(stream) : Deliver(k)
Spec == Init /\ [][Next]_vars

SegmentationIndependent == out = Replies(SubSeq(stream, 1, pos))
NothingLost == Replies(buf) = <<>>

EmitStream == pos = 0 => PrintT(ToJson([stream |-> stream, replies |-> Replies(stream)]))
=============================================================================
