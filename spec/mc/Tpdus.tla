-------------------------------- MODULE Tpdus --------------------------------
(* TPDUs of all types, with each field at some values.                          *)
EXTENDS Small

A1 == [toa |-> 145, a |-> <<49, 50, 51>>]
A2 == [toa |-> 208, a |-> <<65, 98, 8364>>]
A3 == [toa |-> 129, a |-> <<>>]
T1 == <<2019, 5, 6, 7, 48, 59, 3600>>
T2 == <<1999, 12, 31, 23, 0, 1, -2700>>
IE(n) == <<[id |-> 37, d |-> [i \in 1..n |-> 16 * i + 3]]>>
Hs == {<<>>} \cup {IE(n) : n \in Q({0, 3, 4}, 0..7)} \cup {<<[id |-> 0, d |-> <<1, 2, 1>>], [id |-> 24, d |-> <<3>>]>>}
Us == {Rep(<<1, 64, 127, 13>>, n) : n \in Q({0, 1, 2, 7, 8}, 0..9)}
Body(ud, udh, fo, dcs) == [ZeroTPDU EXCEPT !.ud = ud, !.udh = udh, !.fo = fo + (IF udh = <<>> THEN 0 ELSE 64), !.dcs = dcs]
Dcss == {0, 4, 8, 245, 128}
Bodies(fos) == {Body(u, h, f, d) : u \in Us, h \in Hs, f \in fos, d \in Dcss}
Plain(fos) == {Body(u, h, f, d) : u \in {<<>>, <<1, 2>>}, h \in {<<>>, IE(2)}, f \in fos, d \in {0, 4}}
VPs == {NoVP, [NoVP EXCEPT !.f = RELATIVE, !.s = 301], [NoVP EXCEPT !.f = ABSOLUTE, !.t = T1],
        [NoVP EXCEPT !.f = ENHANCED, !.efi = 2, !.s = 7], [NoVP EXCEPT !.f = ENHANCED, !.efi = 67, !.s = 3723]}
Delivers == {[b EXCEPT !.oa = A1, !.pid = 65, !.scts = T1] : b \in Bodies({0, 132})}
            \cup {[b EXCEPT !.oa = x, !.scts = t] : b \in Plain({40}), x \in {A1, A2, A3}, t \in {T1, T2}}
Submits == {[b EXCEPT !.da = A1, !.mr = 200, !.dir = 1] : b \in Bodies({1, 161})}
           \cup {[b EXCEPT !.da = x, !.dir = 1, !.fo = SetField(@, 3, 2, v.f), !.vp = v] : b \in Plain({1}), x \in {A1, A2, A3}, v \in VPs}
Commands == {[b EXCEPT !.da = A1, !.mr = 1, !.pid = 2, !.ct = 3, !.mn = 4, !.dir = 1, !.dcs = 4] : b \in Bodies({2, 34})}
\* a report with the fields its indicator says it has
Trim(b, pi) == [b EXCEPT !.pi = pi, !.pid = IF PiPID(pi) THEN 99 ELSE 0, !.dcs = IF PiDCS(pi) THEN @ ELSE 0,
                         !.udh = IF PiUDL(pi) THEN @ ELSE <<>>, !.ud = IF PiUDL(pi) THEN @ ELSE <<>>,
                         !.fo = IF PiUDL(pi) THEN @ ELSE SetField(@, 6, 1, 0)]
Trimmed(fos) == {Trim(b, pi) : b \in Plain(fos), pi \in 0..7} \cup {Trim(b, 7) : b \in Bodies(fos)} \cup {[Trim(b, 6) EXCEPT !.pi = 134] : b \in Plain(fos)}
Statuses == {[b EXCEPT !.ra = A1, !.mr = 5, !.scts = T1, !.dt = T2, !.st = 48] : b \in Trimmed({2, 38})}
DReports == {[b EXCEPT !.fcs = 211, !.dir = 1] : b \in Trimmed({0})}
SReports == {[b EXCEPT !.fcs = 211, !.scts = T2] : b \in Trimmed({1})}
=============================================================================
