------------------------------ MODULE MCNumeric ------------------------------
(* Enumerates sizes, shapes, containers and fields; checks that the meaning  *)
(* of a shape is unambiguous; prints every case for the real code.           *)
EXTENDS Numeric, TLC, Json, IOUtils, Integers

Cfg == JsonDeserialize(IOEnv.CFG)     \* [max, full, salt]
Fields == <<"cons.quantity", "cons.cost", "prod.quantity", "prod.cost", "stor.capacity", "stor.flow_in", "stor.flow_out", "stor.cost",
            "stor.eff", "link.quantity", "link.cost", "conv.max", "conv.cost", "conv.ratio">>
Kinds(dims) == CASE Len(dims) = 0 -> <<"py", "float", "npnum", "np32", "np0">>
                 [] Len(dims) = 1 -> <<"list", "int64", "float64", "float32", "int32", "uint8", "series", "seriesx", "view">>
                 [] Len(dims) = 2 -> <<"list", "int64", "float64", "float32", "int16", "fort", "view", "df", "dfx">>
                 [] OTHER -> <<"float64">>
Dims(H, S) == {<<>>} \cup {<<n>> : n \in 0..(Cfg.max + 1)} \cup {<<m, n>> : m, n \in 1..(Cfg.max + 1)}
              \cup {<<1, 1, 1>>, <<S, H, 1>>, <<1, S, H>>}

VARIABLES H, S, dims, field, kind, out
vars == <<H, S, dims, field, kind, out>>
Init == /\ H \in 1..Cfg.max /\ S \in 1..Cfg.max
        /\ dims \in Dims(H, S)
        /\ field \in 1..Len(Fields)
        /\ kind \in 1..Len(Kinds(dims))
        /\ (Cfg.full \/ (7 * H + 11 * S + 3 * field + Cfg.salt + (IF Len(dims) > 0 THEN dims[1] ELSE 0)) % Len(Kinds(dims)) = kind - 1)
        /\ out = 0
Emit == /\ out = 0 /\ out' = 1
        /\ PrintT("@@CASE|" \o ToJson([H |-> H, S |-> S, dims |-> dims, field |-> Fields[field], kind |-> Kinds(dims)[kind]]))
        /\ UNCHANGED <<H, S, dims, field, kind>>
Spec == Init /\ [][Emit]_vars
Clear == Unambiguous(dims, H, S)
OneMeaning == Accepted(dims, H, S) => \A s \in 1..S, t \in 1..H : Meaning(dims, H, S)[s][t] \in 1..(H * S)
=============================================================================
