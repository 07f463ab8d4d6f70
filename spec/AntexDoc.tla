------------------------------ MODULE AntexDoc ------------------------------
\* An antenna file as a sequence of lines: the phase centre offset of each frequency of each
\* antenna.  Offsets of a root-mean-square block are none of the antenna's; an antenna that is
\* not closed does not count.
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLines, Antennas, Freqs, Offsets
VARIABLES doc, in, ant, freq, cur, cat
vars == <<doc, in, ant, freq, cur, cat>>
NoFreq == [f \in Freqs |-> 0]
Init == doc = <<>> /\ in = "file" /\ ant = 0 /\ freq = 0 /\ cur = NoFreq /\ cat = [a \in Antennas |-> <<>>]
Add(l, k) == doc' = Append(doc, <<l, k>>)
Start == in \in {"file", "antenna"} /\ Add("start", 0) /\ in' = "antenna" /\ ant' = 0 /\ cur' = NoFreq /\ UNCHANGED <<freq, cat>>
Type(a) == in = "antenna" /\ ant = 0 /\ Add("type", a) /\ ant' = a /\ UNCHANGED <<in, freq, cur, cat>>
Freq(f) == in = "antenna" /\ ant # 0 /\ Add("freq", f) /\ in' = "freq" /\ freq' = f /\ UNCHANGED <<ant, cur, cat>>
Neu(o) == in = "freq" /\ Add("neu", o) /\ cur' = [cur EXCEPT ![freq] = o] /\ UNCHANGED <<in, ant, freq, cat>>
Rms(f) == in = "antenna" /\ ant # 0 /\ Add("rms", f) /\ UNCHANGED <<in, ant, freq, cur, cat>>     \* a whole block
Grid == in = "freq" /\ Add("grid", 0) /\ UNCHANGED <<in, ant, freq, cur, cat>>
EndFreq == in = "freq" /\ Add("endfreq", freq) /\ in' = "antenna" /\ UNCHANGED <<ant, freq, cur, cat>>
End == in = "antenna" /\ ant # 0 /\ Add("end", 0) /\ in' = "file" /\ cat' = [cat EXCEPT ![ant] = <<cur>>] /\ ant' = 0 /\ UNCHANGED <<freq, cur>>
Next == /\ Len(doc) < MaxLines
        /\ \/ Start \/ Grid \/ EndFreq \/ End
           \/ \E a \in Antennas : Type(a)
           \/ \E f \in Freqs : Freq(f)
           \/ Rms(1)
           \/ \E o \in Offsets : Neu(o)
Spec == Init /\ [][Next]_vars
Kept == [][\A a \in Antennas : cat[a] # <<>> => cat'[a] # <<>>]_vars
Emit == PrintT("SCN " \o ToJson([doc |-> doc, cat |-> cat]))
=============================================================================
