-------------------------------- MODULE Names --------------------------------
(* The values that names of the library stand for, as assigned by 3GPP TS      *)
(* 23.038 and 23.040, and the texts that values are shown as.                  *)
EXTENDS Tools

\* of names numbered in order
From(n, names) == [i \in 1..Len(names) |-> [n |-> names[i], v |-> n + i - 1]]
NamedValues ==
  From(0, <<"TonUnknown", "TonInternational", "TonNational", "TonNetworkSpecific", "TonSubscriberNumber",
            "TonAlphanumeric", "TonAbbreviated", "TonExtension">>)                              \* 9.1.2.5
  \o From(0, <<"NpUnknown", "NpISDN">>) \o From(3, <<"NpData", "NpTelex", "NpScSpecificA", "NpScSpecificB">>)
  \o From(8, <<"NpNational", "NpPrivate", "NpErmes">>) \o From(15, <<"NpExtension">>)
  \o From(0, <<"MtDeliver", "MtSubmit", "MtCommand", "MtReserved">>)                            \* 9.2.3.1
  \* the first octet, as masks: 9.2.2
  \o <<[n |-> "FoMTIMask", v |-> 3], [n |-> "FoMTIShift", v |-> 0], [n |-> "FoMMS", v |-> 4], [n |-> "FoRD", v |-> 4],
       [n |-> "FoLP", v |-> 8], [n |-> "FoVPFMask", v |-> 24], [n |-> "FoVPFShift", v |-> 3], [n |-> "FoSRI", v |-> 32],
       [n |-> "FoSRR", v |-> 32], [n |-> "FoSRQ", v |-> 32], [n |-> "FoUDHI", v |-> 64], [n |-> "FoRP", v |-> 128],
       [n |-> "PiPID", v |-> 1], [n |-> "PiDCS", v |-> 2], [n |-> "PiUDL", v |-> 4]>>            \* 9.2.3.27
  \o From(0, <<"VpfNotPresent", "VpfEnhanced", "VpfRelative", "VpfAbsolute">>)                  \* 9.2.3.3
  \o From(0, <<"EvpfNotPresent", "EvpfRelative", "EvpfRelativeSeconds", "EvpfRelativeHHMMSS">>) \* 9.2.3.12.3
  \o From(0, <<"Alpha7Bit", "Alpha8Bit", "AlphaUCS2", "AlphaReserved">>)                        \* 23.038 4
  \o From(0, <<"MClass0", "MClass1", "MClass2", "MClass3">>)
  \o <<[n |-> "Dcs8BitData", v |-> 4], [n |-> "DcsUCS2Data", v |-> 8],
       [n |-> "MaxUDL", v |-> 140]>>                                                            \* 23.040 9.2.3.24
  \o From(0, <<"Default", "Turkish", "Spanish", "Portuguese", "Bengali", "Gujaranti", "Hindi", "Kannada",
               "Malayalam", "Oriya", "Punjabi", "Tamil", "Telugu", "Urdu">>)                    \* 23.038 6.2.1.2.4
  \* types, as twice the message type plus the direction
  \o [ty \in 1..6 |-> [n |-> NameOfType[ty], v |-> ty - 1]]
\* the constants say what the rest of the specification says
ASSUME /\ \A d \in 0..15 : (d \div 4) % 4 < 3 => Alphabet(d) = (d \div 4) % 4
       /\ Alphabet(4) = A8 /\ Alphabet(8) = AUCS2 /\ Alphabet(0) = A7
       /\ HasUDHI(64) /\ VPF(24) = 3 /\ PiPID(1) /\ PiDCS(2) /\ PiUDL(4)
       /\ TON(16 * ALPHANUMERIC) = 5 /\ TON(16 * INTERNATIONAL) = 1
NamesRec(a, r) == Len(r.l) = Len(NamedValues) /\ {r.l[i] : i \in 1..Len(r.l)} = {NamedValues[i] : i \in 1..Len(NamedValues)}

(* The elements that name tables of a national language: 9.2.3.24 has them as   *)
(* 24 and 25 in hex, which this code takes as decimal (a known finding). What   *)
(* else is said of these elements is said of those that the code uses: ShiftIEI *)
(* and LockingIEI of Header.                                                    *)
StandardShiftIEI == 36
StandardLockingIEI == 37
IeiRec(a, r) == r.ids = <<IF a.lock THEN StandardLockingIEI ELSE StandardShiftIEI>>

Text(k, n, t) ==
  CASE k = "dcs" -> DcsText(n)
    [] k = "pi" -> PIText(n)
    [] k = "vpf" -> T(IF n < 4 THEN VPFName(n) ELSE "Unknown")
    [] k = "evpf" -> T(EFIName(n))
    [] k = "mti" -> T(IF n \in 0..2 THEN MTIName(n) ELSE "Unknown")
    [] k = "type" -> T(IF n \in 0..5 THEN NameOfType[n + 1] ELSE "Unknown")
    [] k = "ts" -> TimeText(t)
\* an indicator of reserved bits only has no text of its own
StrRec(a, r) == (a.k = "pi" /\ a.n % 8 = 0 /\ a.n # 0) \/ r.s = Text(a.k, a.n, a.t)
=============================================================================
