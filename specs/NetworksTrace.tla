--------------------------- MODULE NetworksTrace ---------------------------
EXTENDS Networks, TraceBase
tvars == <<nvars, tid, l>>

N == ParamsOf(Cfg.net)
TInit == StartTrace /\ net = Cfg.net /\ params = <<>> /\ state = <<>>

\* outputs of a function which is given a parameter vector, an input, and the state which an earlier call gave
RECURSIVE Steps(_, _, _)
Steps(p, steps, done) ==
    IF steps = <<>> THEN <<>>
    ELSE LET s == steps[1]
             r == Net(net, p, s.x, IF s.from = 0 THEN FreshNet(net) ELSE done[s.from])
         IN <<r.y>> \o Steps(p, Tail(steps), Append(done, r.hs))

Close(a, b) == \A i \in 1..Len(a) : a[i] - b[i] <= Ev.within /\ b[i] - a[i] <= Ev.within
Chosen == {i \in 1..Len(params) : Ev.is[i]}

TNext ==
    /\ More /\ Consume
    /\ \/ /\ Ev.op = "length" /\ UNCHANGED nvars
          /\ Chk("number of parameters", \A i \in 1..Len(Ev.lengths) : Ev.lengths[i] = N)
       \/ /\ Ev.op = "play" /\ UNCHANGED nvars
          /\ Chk("outputs, " \o Ev.way, \A k \in 1..Len(Ev.xs) : Ev.ys[k] = Play(net, Ev.p, Ev.xs[k], FreshNet(net)))
       \/ /\ Ev.op = "read" /\ UNCHANGED nvars
          /\ Chk("parameters read back", Ev.back = Ev.p)
       \/ /\ Ev.op = "function" /\ UNCHANGED nvars
          /\ Chk("outputs of the functional form", Ev.ys = Steps(Ev.p, Ev.steps, <<>>))
       \/ /\ Ev.op = "policies" /\ UNCHANGED net
          /\ params' = Ev.ps /\ state' = [i \in 1..Len(Ev.ps) |-> FreshNet(net)]
       \/ /\ Ev.op = "set" /\ SetSome(Chosen, Ev.ps, Ev.fresh)
       \/ /\ Ev.op = "reset" /\ Reset(Chosen)
       \/ /\ Ev.op = "call" /\ Call(Ev.xs)
          /\ Chk("outputs of the policies", Ev.ys = Outputs(Ev.xs))
       \/ /\ Ev.op = "parameters" /\ UNCHANGED nvars
          /\ Chk("parameters of the policies", Ev.ps = params)
       \/ /\ Ev.op = "wrong" /\ UNCHANGED nvars
          /\ Chk("wrong length refused, " \o Ev.way, Ev.length # N => Ev.refused)
          /\ Chk("nothing changed by a refused vector, " \o Ev.way, Ev.after = Ev.before)
       \/ /\ Ev.op = "strange" /\ UNCHANGED nvars
          /\ Chk("meaningless description refused, " \o Ev.what, Ev.refused)
       \/ /\ Ev.op = "kept" /\ UNCHANGED nvars
          /\ Chk("what the caller gave is unchanged", Ev.kept)
       \/ /\ Ev.op = "alike" /\ UNCHANGED nvars
          /\ Chk("alike, " \o Ev.way, Len(Ev.a) = Len(Ev.b) /\ Close(Ev.a, Ev.b))
=============================================================================
