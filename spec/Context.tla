------------------------------- MODULE Context -------------------------------
(* A context as its registrations leave it, and evaluation in it.
   vars: pairs name -> value; consts, fns, unas, bins: by the key of the name. *)
EXTENDS Grammar, Lexer

Fresh(cfg) == [cfg |-> cfg, vars |-> {}, consts |-> {}, fns |-> {}, unas |-> {}, bins |-> {}]

ValidName(n) == n # <<>> /\ \A i \in DOMAIN n : ~IsSpace(n[i]) /\ ~IsControl(n[i])

Ok(v) == [k |-> "ok", v |-> v]
Err == [k |-> "err", v |-> <<>>]
Done(res, st) == [res |-> res, st |-> st]
Refuse(st) == Done(Err, st)

SetVariable(st, name, val) ==
  IF ~ValidName(name) \/ \E c \in st.consts : c[1] = Key(name) THEN Refuse(st)
  ELSE LET old == {v \in st.vars : v[1] = name} IN
       Done(Ok(IF old = {} THEN <<>> ELSE <<The(old)[2]>>), [st EXCEPT !.vars = (@ \ old) \cup {<<name, val>>}])

AddConstant(st, name, val) ==
  IF ~ValidName(name) \/ \E v \in st.vars : Key(v[1]) = Key(name) THEN Refuse(st)
  ELSE Done(Ok(<<>>), [st EXCEPT !.consts = {c \in @ : c[1] # Key(name)} \cup {<<Key(name), val>>}])

(* a function or operator under its name and its aliases, all or none of them *)
Taken(defs, name, aliases) ==
  \E d \in defs : d.key = Key(name) \/ \E i \in DOMAIN aliases : d.key = Key(aliases[i])
Named(name, aliases) == {Key(name)} \cup {Key(aliases[i]) : i \in DOMAIN aliases}

AddFunction(st, name, aliases, id) ==
  IF ~ValidName(name) \/ Taken(st.fns, name, aliases) THEN Refuse(st)
  ELSE Done(Ok(<<>>), [st EXCEPT !.fns = @ \cup {[key |-> k, id |-> id] : k \in Named(name, aliases)}])
AddUnary(st, name, aliases, id, prefix) ==
  IF ~ValidName(name) \/ Taken(st.unas, name, aliases) THEN Refuse(st)
  ELSE Done(Ok(<<>>), [st EXCEPT !.unas = @ \cup {[key |-> k, id |-> id, prefix |-> prefix] : k \in Named(name, aliases)}])
AddBinary(st, name, aliases, id, prec, left) ==
  IF ~ValidName(name) \/ Taken(st.bins, name, aliases) THEN Refuse(st)
  ELSE Done(Ok(<<>>), [st EXCEPT !.bins = @ \cup {[key |-> k, id |-> id, prec |-> prec, left |-> left] : k \in Named(name, aliases)}])

(* Evaluation reads the context only. *)
CtxOf(st) ==
  [implicit |-> st.cfg.implicit, complex |-> FALSE, custom |-> st.cfg.custom,
   vars |-> {v[1] : v \in st.vars}, consts |-> {<<c[1], c[1]>> : c \in st.consts},
   funcs |-> {[keys |-> {f.key}, id |-> f.id, fails |-> FALSE] : f \in st.fns},
   bins |-> {[keys |-> {b.key}, id |-> b.id, prec |-> b.prec, left |-> b.left, fails |-> FALSE] : b \in st.bins},
   unas |-> {[keys |-> {u.key}, id |-> u.id, prefix |-> u.prefix, fails |-> FALSE] : u \in st.unas}]
ValOf(pairs, k) == The({p \in pairs : p[1] = k})[2]

Evaluate(st, text) ==
  LET ctx == CtxOf(st)
      tk == Tokenize(ctx, Lex("default", text))
      v == ValueOf(ctx, IF tk.ok THEN Postfix(ctx, tk.v) ELSE [ok |-> FALSE, v |-> <<>>])
      splice(x) == CASE x[1] = "v" -> ValOf(st.vars, x[2]) [] x[1] = "c" -> ValOf(st.consts, x[2]) [] OTHER -> <<x>>
  IN IF v.ok THEN Ok(FlattenSeq([i \in DOMAIN v.v |-> splice(v.v[i])])) ELSE Err

One(S) == IF S = {} THEN <<>> ELSE <<The(S)>>
Query(st, name) ==
  [var |-> One({v[2] : v \in {x \in st.vars : x[1] = name}}), const |-> One({c[2] : c \in {x \in st.consts : x[1] = Key(name)}}),
   fn |-> One({f.id : f \in {x \in st.fns : x.key = Key(name)}}), una |-> One({f.id : f \in {x \in st.unas : x.key = Key(name)}}),
   bin |-> One({f.id : f \in {x \in st.bins : x.key = Key(name)}}), flags |-> TRUE]

(* Several contexts side by side; a clone is one more. *)
Apply(world, op) ==
  LET st == world[op.i]
      a == CASE op.op = "setvar"   -> SetVariable(st, op.name, op.val)
             [] op.op = "addconst" -> AddConstant(st, op.name, op.val)
             [] op.op = "addfn"    -> AddFunction(st, op.name, op.aliases, op.id)
             [] op.op = "adduna"   -> AddUnary(st, op.name, op.aliases, op.id, op.prefix)
             [] op.op = "addbin"   -> AddBinary(st, op.name, op.aliases, op.id, op.prec, op.left)
             [] op.op = "eval"     -> Done(Evaluate(st, op.text), st)
             [] op.op = "get"      -> Done(Ok(Query(st, op.name)), st)
             [] op.op = "clone"    -> Done(Ok(<<>>), st)
  IN [res |-> a.res, world |-> IF op.op = "clone" THEN Append(world, st) ELSE [world EXCEPT ![op.i] = a.st]]

-----------------------------------------------------------------------------
(* What must hold of every reachable context. *)
NeverBoth(st) == ~\E v \in st.vars, c \in st.consts : Key(v[1]) = c[1]
OneEach(st) == /\ \A a, b \in st.vars : a[1] = b[1] => a = b
               /\ \A a, b \in st.consts : a[1] = b[1] => a = b
               /\ \A a, b \in st.fns : a.key = b.key => a = b
               /\ \A a, b \in st.unas : a.key = b.key => a = b
               /\ \A a, b \in st.bins : a.key = b.key => a = b
(* meanings once given stay, variables and constants never vanish *)
Grows(old, new) == /\ old.fns \subseteq new.fns /\ old.unas \subseteq new.unas /\ old.bins \subseteq new.bins
                   /\ {v[1] : v \in old.vars} \subseteq {v[1] : v \in new.vars}
                   /\ {c[1] : c \in old.consts} \subseteq {c[1] : c \in new.consts}
=============================================================================
