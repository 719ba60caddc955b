----------------------------- MODULE MCDevelop -----------------------------
(* Development as its steps on small sensors - separate the colours in a region (of    *)
(* the active area), crop to the default crop in the coordinates left by then - against *)
(* Picture and Site; every geometry is replayed into the real code.                     *)
EXTENDS Develop, TLC, Json, FiniteSets
CONSTANTS W, H, Least0, Kinds
VARIABLES x, mode, pc, img, at
vars == <<x, mode, pc, img, at>>
Spans(n, k) == {<<a, b>> \in (0..n) \X (0..n) : b - a >= k}
Actives == {<<>>} \cup {<<r[1], c[1], r[2], c[2]>> : r \in Spans(H, Least0), c \in Spans(W, Least0)}
Crops(a) == LET h == IF a = <<>> THEN H ELSE a[3] - a[1] w == IF a = <<>> THEN W ELSE a[4] - a[2] IN
            {<<>>} \cup {<<c[1], r[1], c[2] - c[1], r[2] - r[1]>> : r \in Spans(h, 2), c \in Spans(w, 2)}
Patterns == {<<0, 1, 1, 2>>, <<1, 2, 0, 1>>}
Init == /\ mode \in {"best", "activearea", "none"} /\ pc = "separate" /\ at = <<>>
        /\ \E a \in Actives, p \in Patterns, k \in Kinds : \E c \in Crops(a) :
             x = [w |-> W, h |-> H, kind |-> k, active |-> a, crop |-> c, cfa |-> [w |-> 2, h |-> 2, pat |-> p]]
        /\ img = [s \in (0..(H - 1)) \X (0..(W - 1)) |-> s]
Cut(f, t, l, h, w) == [s \in (0..(h - 1)) \X (0..(w - 1)) |-> f[<<s[1] + t, s[2] + l>>]]
\* the pattern is stored for the active area and shifted to the sensor's corner, then to the region's
Shifted(pat, dy, dx) == [i \in 1..4 |-> pat[(2 * ((((i - 1) \div 2) + dy) % 2)) + (((i - 1) + dx) % 2) + 1]]
Sensor == Shifted(x.cfa.pat, 2 - (Active(x).t % 2), 2 - (Active(x).l % 2))
Separate ==
  LET f == Frame(x, mode) q == Shifted(Sensor, f.t % 2, f.l % 2) IN
  /\ pc = "separate" /\ pc' = "crop" /\ img' = Cut(img, f.t, f.l, f.h, f.w)
  /\ at' = [s \in (0..(f.h - 1)) \X (0..(f.w - 1)) |-> q[(2 * (s[1] % 2)) + (s[2] % 2) + 1]]
  /\ UNCHANGED <<x, mode>>
CropStep ==
  LET c == Crop(x) a == Active(x) IN
  /\ pc = "crop" /\ pc' = "done"
  /\ IF mode = "best" THEN img' = Cut(img, c.t - a.t, c.l - a.l, c.h, c.w) /\ at' = Cut(at, c.t - a.t, c.l - a.l, c.h, c.w) ELSE UNCHANGED <<img, at>>
  /\ UNCHANGED <<x, mode>>
Next == Separate \/ CropStep
Spec == Init /\ [][Next]_vars
--------------------------------------------------------------------------
Done == pc = "done"
Shown == Done => LET q == Picture(x, mode) IN DOMAIN img = (0..(q.h - 1)) \X (0..(q.w - 1)) /\ \A s \in DOMAIN img : img[s] = Site(x, mode, s[1], s[2])
Coloured == Done => \A s \in DOMAIN img : at[s] = ColourAt(x, img[s])
Emit == Done => PrintT(ToJson([x |-> x, mode |-> mode]))
=============================================================================
