------------------------------ MODULE Connect -------------------------------
(* C08: connections of a parameter file.                                        *)
(* objs[n] = [isdata, type, ins, outs, conns, declared]                         *)
(*   ins:  sequence of [name, single, opt, type]                                *)
(*   outs: sequence of [name, type, count]  (count 0: one value, n: list of n)  *)
(*   conns: sequence of [name, form ("one","list","bad"), refs]                 *)
(*   refs: sequence of [o, out ("" = the object itself)]                        *)
(*   declared: names in the "outputs" entry                                     *)
EXTENDS Integers, Sequences, FiniteSets
Sub == {<<"Layer", "ElectricField">>}
Kinds == {"BaseValue", "Slopes", "Pixels", "Intensity", "ElectricField", "Layer"}
IsA(t, u) == t = u \/ (u = "BaseDataObj" /\ t \in Kinds) \/ <<t, u>> \in Sub
Has(sq, n) == \E k \in 1..Len(sq) : sq[k].name = n
Get(sq, n) == sq[CHOOSE k \in 1..Len(sq) : sq[k].name = n]
RefOk(objs, r) == r.o \in DOMAIN objs /\
   IF r.out = "" THEN objs[r.o].isdata ELSE ~objs[r.o].isdata /\ Has(objs[r.o].outs, r.out)
\* the data objects a reference stands for, flattened
ItemsOf(objs, r) == IF r.out = "" THEN <<[o |-> r.o, out |-> "", k |-> 0]>>
   ELSE LET c == Get(objs[r.o].outs, r.out).count IN
        IF c = 0 THEN <<[o |-> r.o, out |-> r.out, k |-> 0]>>
        ELSE [k \in 1..c |-> [o |-> r.o, out |-> r.out, k |-> k]]
TypeOf(objs, r) == IF r.out = "" THEN objs[r.o].type ELSE Get(objs[r.o].outs, r.out).type
RECURSIVE Flat(_, _)
Flat(objs, refs) == IF refs = <<>> THEN <<>> ELSE ItemsOf(objs, Head(refs)) \o Flat(objs, Tail(refs))
ConnOk(objs, n, c) ==
  /\ c.form # "bad"
  /\ Has(objs[n].ins, c.name)
  /\ \A k \in 1..Len(c.refs) : RefOk(objs, c.refs[k]) /\ IsA(TypeOf(objs, c.refs[k]), Get(objs[n].ins, c.name).type)
Received(objs, n, name) == IF Has(objs[n].conns, name) THEN Flat(objs, Get(objs[n].conns, name).refs) ELSE <<>>
CountOk(objs, n, x) == LET len == Len(Received(objs, n, x.name)) IN
   x.single => len <= 1 /\ (len = 0 => x.opt)
ObjOk(objs, n) ==
  /\ \A k \in 1..Len(objs[n].conns) : ConnOk(objs, n, objs[n].conns[k])
  /\ \A k \in 1..Len(objs[n].ins) : CountOk(objs, n, objs[n].ins[k])
  /\ \A k \in 1..Len(objs[n].declared) : Has(objs[n].outs, objs[n].declared[k])
Ok(objs) == \A n \in DOMAIN objs : ObjOk(objs, n)
=============================================================================
