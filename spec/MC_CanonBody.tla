---------------------------- MODULE MC_CanonBody ----------------------------
(* Every body over Alphabet up to MaxLen, fed octet by octet to the two      *)
(* streaming canonicalizers.  A state is the body read so far together with  *)
(* both automata; EndOfBody is the observation made in every state.          *)
EXTENDS CanonBody
CONSTANTS Alphabet, MaxLen, EmitOn
VARIABLES body, s, r
vars == <<body, s, r>>
Init == body = <<>> /\ s = BodyInit /\ r = BodyInit
ReadOctet(c) == /\ Len(body) < MaxLen
                /\ body' = Append(body, c)
                /\ s' = BodyStep("simple", s, c)
                /\ r' = BodyStep("relaxed", r, c)
Next == \E c \in Alphabet : ReadOctet(c)
Spec == Init /\ [][Next]_vars

Simple  == BodyEnd("simple", s)
Relaxed == BodyEnd("relaxed", r)

AgreeSimple  == Simple = BodyCanonDecl("simple", body) /\ Simple = BodyLocal("simple", body)
AgreeRelaxed == Relaxed = BodyCanonDecl("relaxed", body) /\ Relaxed = BodyLocal("relaxed", body)
\* canonicalizing twice changes nothing
Idempotent == BodyCanon("simple", Simple) = Simple /\ BodyCanon("relaxed", Relaxed) = Relaxed
\* relaxed equivalence is coarser than simple equivalence
Coarser == BodyCanon("relaxed", Simple) = Relaxed
\* trailing empty lines never matter
TrailingLines == /\ BodyCanon("simple", body \o <<LF, CR, LF>>) = Simple
                 /\ BodyCanon("relaxed", body \o <<LF, SP, LF>>) = Relaxed
\* every octet already emitted stays emitted whatever follows (streaming is sound)
EmittedIsFinal == [][/\ IsPrefix(s.out, s'.out) /\ IsPrefix(r.out, r'.out)]_vars
\* LF and CRLF line ends are the same
CrInert == BodyCanon("relaxed", body \o <<CR>>) = Relaxed /\ BodyCanon("simple", body \o <<CR>>) = Simple
Generate == EmitOn => Emit([b |-> ToHex(body), s |-> ToHex(Simple), r |-> ToHex(Relaxed)])
=============================================================================
