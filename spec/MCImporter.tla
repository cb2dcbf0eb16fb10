----------------------------- MODULE MCImporter -----------------------------
(***************************************************************************)
(* All histories of mode changing calls on one instance of the import      *)
(* library, with every answer of the FMU that matters, up to a bound.      *)
(* Every state is printed with the path that leads to it; the driver       *)
(* extends it by every further call.                                       *)
(***************************************************************************)
EXTENDS Importer, Json, IOUtils, SequencesExt

Configs == JsonDeserialize(IOEnv.CONFIGS)

VARIABLES c, x, path

Start(k) == [ver |-> Configs[k].ver, kind |-> Configs[k].kind, em |-> Configs[k].em, mode |-> "Instantiated"]
Offered(k) == IF Configs[k].ver = 3
              THEN ModeCalls
              ELSE (ModeCalls \cap (IF Configs[k].kind = "ME" THEN ME2 ELSE {}))
                   \cup {"EnterInitializationMode", "ExitInitializationMode", "Terminate", "Reset"}

Init == c \in 1..Len(Configs) /\ x = Start(c) /\ path = << >>

Next == /\ Len(path) < Configs[c].depth
        /\ \E fn \in Offered(c), st \in {OK, Error} :
             /\ x' = [x EXCEPT !.mode = Tracked(x, fn, st)]
             /\ path' = Append(path, << fn, st >>)
             /\ c' = c

(* What the specification itself promises *)
Modes == {"Instantiated", "Initialization", "Terminated", "Configuration", "Reconfiguration", "Event", "Continuous",
          "Step", "Clock", "?"}
Sound ==
  /\ x.mode \in Modes
  /\ x.ver = 2 => x.mode \notin ConfigModes \cup {"Clock"}
  /\ x.mode = "Clock" => x.kind = "SE"
  \* a reset always settles the mode
  /\ Tracked(x, "Reset", OK) = "Instantiated"
  \* a configuration mode is left to where it was entered from, or to the mode after initialization
  /\ x.mode = "Configuration" => Tracked(x, "ExitConfigurationMode", OK) = "Instantiated"
  /\ x.mode \notin ConfigModes \cup {"?"} => Tracked(x, "ExitConfigurationMode", OK) = x.mode

Show == PrintT("@@" \o ToJson([c |-> c, p |-> path, mode |-> x.mode]))
Where == << c, x, IF Len(path) > Configs[c].tail THEN SubSeq(path, Len(path) - Configs[c].tail + 1, Len(path)) ELSE path >>
Inv == Sound /\ Show
Spec == Init /\ [][Next]_<<c, x, path>>
=============================================================================
