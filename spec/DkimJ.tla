------------------------------- MODULE DkimJ -------------------------------
(* Given operators: octet/hex conversion, concatenation of many sequences,  *)
(* emission of JSON lines, and the cryptographic primitives, which DKIM      *)
(* itself treats as given.  TLC replaces each by the Java method of the same *)
(* name (java/DkimJ.java); apart from Flat the bodies here only fix arities. *)
EXTENDS Sequences, SequencesExt
Flat(ss)                     == FlattenSeq(ss)   \* concatenation
Hex(s)                       == <<>>   \* hex string -> octet sequence
ToHex(q)                     == ""     \* octet sequence -> hex string
Sha(alg, q)                  == q      \* "sha1"/"sha256" digest
RsaKeyOk(spki)               == TRUE   \* is this an RSA public key of ordinary size, in DER
RsaKeyNever(spki)            == TRUE   \* is this surely none, however leniently read
RsaVerify(spki, alg, q, sig) == TRUE   \* PKCS#1 v1.5 over alg(q)
EdVerify(pub, q, sig)        == TRUE   \* pure Ed25519 over q
RsaSign(pkcs8, alg, q)       == <<>>
EdSign(seed, q)              == <<>>
Emit(v)                      == TRUE   \* append v as a JSON line to $DKIM_EMIT
=============================================================================
