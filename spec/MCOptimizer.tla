------------------------------- MODULE MCOptimizer -------------------------------
(* Design model of the optimizers over a finite landscape of poses: every error table, every step target and step size.
   TrialSees is what the trial error contains: the full total (contract), or only the point part (negative control: the general
   factor is left out of the comparison, so a worse pose can be accepted). *)
EXTENDS OptRule, FiniteSets, TLC
CONSTANTS Poses, Errors, Opt, MaxIts, MaxIns, Lambdas, F, TrialSees
VARIABLES par, st, point, general, accepted, trials, hist
vars == <<par, st, point, general, accepted, trials, hist>>
Total(p) == point[p] + general[p]

Init ==
  /\ par \in [opt : {Opt}, maxit : MaxIts, maxin : MaxIns, f : {F}]
  /\ point \in [Poses -> Errors] /\ general \in [Poses -> Errors]
  /\ \E l \in Lambdas : st = Start(par, 1, l)
  /\ accepted = 0 /\ trials = 0 /\ hist = <<1>>
Lin == st.ph = "lin" /\ st' = AfterLin(st, par, Total(st.cur)) /\ UNCHANGED <<par, point, general, accepted, trials, hist>>
Trial == /\ st.ph = "trial"
         /\ \E p \in Poses, small \in BOOLEAN :
              LET e == IF TrialSees = "all" THEN Total(p) ELSE point[p] + general[st.cur] IN
              /\ st' = AfterTrial(st, par, p, e, FALSE, small)
              /\ accepted' = accepted + (IF Accepts(st, e, FALSE) THEN 1 ELSE 0)
              /\ hist' = IF Accepts(st, e, FALSE) THEN Append(hist, p) ELSE hist
         /\ trials' = trials + 1
         /\ UNCHANGED <<par, point, general>>
Step == /\ st.ph = "step"
        /\ \E p \in Poses, small \in BOOLEAN : st' = Advance(st, par, p, small) /\ hist' = Append(hist, p)
        /\ accepted' = accepted + 1
        /\ UNCHANGED <<par, point, general, trials>>
Next == Lin \/ Trial \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NeverWorse == Opt = "lm" => \A i \in 1..Len(hist) - 1 : Total(hist[i + 1]) <= Total(hist[i])
CurrentIsLastAccepted == st.cur = hist[Len(hist)]
ErrorMatches == st.ph = "over" /\ par.maxit > 0 /\ Opt = "lm" => st.e = Total(st.cur)
Bounded == trials <= par.maxit * par.maxin /\ st.it <= par.maxit
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
Damping == Opt = "lm" => \E l \in Lambdas : st.lam * Pow(F, accepted) = l * Pow(F, trials - accepted)
ConvergedOnlyAtEnd == st.conv => st.ph = "over" /\ accepted > 0
Terminates == <>(st.ph = "over")
=============================================================================
