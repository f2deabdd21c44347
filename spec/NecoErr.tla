------------------------------- MODULE NecoErr -------------------------------
(***************************************************************************)
(* Error codes: how a failed system call or lookup is reported, and the     *)
(* texts of the codes.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

OK == 0      ERROR == -1     INVAL == -2    PERM == -3   NOMEM == -4
TIMEDOUT == -10   CANCELED == -11   GAIERROR == -14
Codes == -18 .. 0                                     \* all codes of neco.h
EPERM == 1  ENOMEM == 12  EINVAL == 22  ETIMEDOUT == 110  ECANCELED == 125
FromSys(e) == CASE e = EPERM -> PERM [] e = ENOMEM -> NOMEM [] e = EINVAL -> INVAL
                [] e = ETIMEDOUT -> TIMEDOUT [] e = ECANCELED -> CANCELED [] OTHER -> ERROR
ToSys(c, before) == CASE c = OK -> 0 [] c = PERM -> EPERM [] c = NOMEM -> ENOMEM [] c = INVAL -> EINVAL
                      [] c = TIMEDOUT -> ETIMEDOUT [] c = CANCELED -> ECANCELED [] OTHER -> before
\* there and back again
ASSUME \A c \in {PERM, NOMEM, INVAL, TIMEDOUT, CANCELED} : FromSys(ToSys(c, 0)) = c
ASSUME \A e \in 1 .. 160 : FromSys(e) # ERROR => ToSys(FromSys(e), 0) = e

\* a system call failed with errno e: the operation returns -1, errno is still
\* e, and the last error is its code, whose text is that of e
SysOk(e, r, after, le, text, want) == r = -1 /\ after = e /\ le = FromSys(e) /\ text = want

\* T: code -> text. Every code has a text of its own; others have the general one
TextSet(T, code, text, undef, sys) ==
  IF code \notin Codes THEN IF text = undef THEN { T } ELSE {}
  ELSE IF code = ERROR THEN IF text = sys THEN { T } ELSE {}
  ELSE IF text = undef \/ text = "" \/ \E c \in DOMAIN T : T[c] = text THEN {}
  ELSE { [c \in DOMAIN T \cup {code} |-> IF c = code THEN text ELSE T[c]] }

\* a lookup gives what the system's own lookup gives; a failure is kept
GaiOk(r, w, le, g, text, want, same) ==
  /\ r = w /\ same = 1
  /\ IF r = 0 THEN le = OK ELSE le = GAIERROR /\ g = r /\ text = want
=============================================================================
