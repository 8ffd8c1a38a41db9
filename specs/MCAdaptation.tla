---------------------------- MODULE MCAdaptation ----------------------------
(* All short histories of a search with small integer deviations, velocities  *)
(* and interaction counts.                                                     *)
EXTENDS Adaptation, TLC
VARIABLES cfg, sd, prev, v, total, made, gen
vars == <<cfg, sd, prev, v, total, made, gen>>
Cfgs == [lo : {0, 64}, hi : {128, HUGE}, ch : {0, 16, HUGE}, mom : {0, 8}, step : {512, 1024}, speed : {512, 1500}, pop : {1, 2}, budget : {2}, most : {2, 3, HUGE}]
Init == cfg \in Cfgs /\ sd \in {64, 128} /\ prev = sd /\ v = <<0, 0>> /\ total = 0 /\ made = 0 /\ gen = 0
\* a population is sampled and evaluated: each solution makes 0..1 interactions
Extend == Grow(total, made, cfg.budget, cfg.most) /\ \E k \in 0..cfg.pop : (total < 6) /\ total' = total + cfg.pop /\ made' = made + k /\ UNCHANGED <<cfg, sd, prev, v, gen>>
ClipTo(u, speed) == LET n == Norm(u) IN IF n <= speed THEN u ELSE [i \in 1..2 |-> (u[i] * speed) \div n]
Update == ~Grow(total, made, cfg.budget, cfg.most) /\ gen < 2 /\ gen' = gen + 1 /\ total' = 0 /\ made' = 0 /\ prev' = sd
  /\ \E t \in {-100, 0, 90, 150, 10000} : sd' = Limited(sd, t, cfg.lo, cfg.hi, cfg.ch)
  /\ \E g \in {<<0, 0>>, <<3, 4>>, <<-4, 3>>} : v' = ClipTo(Pushed(v, cfg.mom, cfg.step, g), cfg.speed)
  /\ UNCHANGED cfg
Next == Extend \/ Update
SdOk == (Within(prev, cfg.lo, cfg.hi) /\ gen > 0) => Within(sd, cfg.lo, cfg.hi) /\ ChangeOk(prev, sd, cfg.ch, 1)
SpeedOk == Norm(v) <= cfg.speed + 2
PopOk == (cfg.most # HUGE => total < cfg.most + cfg.pop) /\ total % cfg.pop = 0
Enough == (gen > 0 \/ total > 0) => (total = 0 \/ total >= cfg.pop)
=============================================================================
